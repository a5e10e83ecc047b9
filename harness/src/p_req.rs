//! C11 (first lines), C14 (framing ambiguity), C15 (host, credentials, content type).
use crate::drive::*;
use crate::fw::*;
use crate::gen::METHODS;
use crate::p_uri::{decoder, host, port, port_no, valid_host};
use crate::refm::D;
use crate::rng::Rng;
use htp::config::HtpServerPersonality as SP;

type B = Option<Vec<u8>>;
fn is_sp(c: u8) -> bool {
    matches!(c, b' ' | 9..=13)
}
fn trim(mut b: &[u8]) -> &[u8] {
    while b.first().map_or(false, |c| is_sp(*c)) {
        b = &b[1..];
    }
    while b.last().map_or(false, |c| is_sp(*c)) {
        b = &b[..b.len() - 1];
    }
    b
}
fn ops_of(rng: &mut Rng, req: &[u8]) -> Vec<Op> {
    let m = rng.below(6);
    split(rng, req, m).into_iter().map(Op::Req).collect()
}
fn res_ops(rng: &mut Rng, res: &[u8]) -> Vec<Op> {
    let m = rng.below(6);
    split(rng, res, m).into_iter().map(Op::Res).collect()
}

/// HTTP-version as the library is documented to accept it: any case, whitespace around the slash,
/// leading zeros. The number is 9, 100, 101 or -2.
fn proto_number(p: &[u8]) -> i32 {
    let p = trim(p);
    if p.len() < 4 || !p[..4].eq_ignore_ascii_case(b"http") {
        return -2;
    }
    let p = trim(&p[4..]);
    if p.first() != Some(&b'/') {
        return -2;
    }
    let mut v = &p[1..];
    while v.first().map_or(false, |c| *c == b'0' || is_sp(*c)) {
        v = &v[1..];
    }
    match v {
        b".9" => 9,
        b"1.0" => 100,
        b"1.1" => 101,
        _ => -2,
    }
}

struct Line {
    method: B,
    uri: B,
    proto: B,
    number: i32,
    expected: i32,
}
fn ref_line(d: &D, allow_space: bool, l: &[u8]) -> Line {
    let mut l = l;
    if d.pers == Some(SP::APACHE_2) {
        if let Some(k) = l.iter().position(|c| *c == 0) {
            l = &l[..k];
        }
    }
    let lead = l.iter().take_while(|c| is_sp(**c)).count();
    let mend = l[lead..].iter().position(|c| is_sp(*c)).map_or(l.len(), |k| lead + k);
    let mut o = Line { method: Some(l[lead..mend].to_vec()), uri: None, proto: None, number: 9, expected: 0 };
    if lead > 0 && d.lead_ws_unwanted != 0 {
        o.method = Some(l[..mend].to_vec());
        o.expected = d.lead_ws_unwanted;
    }
    let rest = trim(&l[mend..]);
    if rest.is_empty() {
        return o;
    }
    // the delimiter is a space; only when there is none, any other white space
    let pos = |f: &dyn Fn(u8) -> bool| {
        if allow_space {
            rest.iter().rposition(|c| f(*c))
        } else {
            rest.iter().position(|c| f(*c))
        }
    };
    let cut = pos(&|c| c == b' ').or_else(|| pos(&is_sp));
    match cut {
        None => o.uri = Some(rest.to_vec()),
        Some(k) => {
            o.uri = Some(trim(&rest[..k]).to_vec());
            let p = trim(&rest[k + 1..]);
            o.proto = Some(p.to_vec());
            o.number = proto_number(p);
        }
    }
    o
}
fn method_name(m: &[u8]) -> String {
    let s = String::from_utf8_lossy(m).to_string();
    if METHODS.contains(&s.as_str()) {
        s.replace('-', "_")
    } else {
        "UNKNOWN".into()
    }
}
fn some_proto(rng: &mut Rng) -> Vec<u8> {
    match rng.below(10) {
        0..=4 => rng.pick(&[&b"HTTP/1.1"[..], b"HTTP/1.0"]).to_vec(),
        5 => rng.pick(&[&b"http/1.1"[..], b"HtTp/1.0", b"HTTP/01.1", b"HTTP/001.0", b"HTTP/0.9", b"HTTP/.9", b"HTTP/00.9"]).to_vec(),
        6 => rng.pick(&[&b"HTTP/1.2"[..], b"HTTP/2.0", b"HTTP/1.1x", b"HTTP/11", b"HTTP1.1", b"HTTPS/1.1", b"HTTP/", b"JUNK", b"HTTP/1.", b"HTTP/1.10"]).to_vec(),
        _ => {
            let mut v = rng.pick(&[&b"HTTP/1.1"[..], b"HTTP/1.0"]).to_vec();
            let i = rng.below(v.len());
            v[i] = rng.range(33, 126) as u8;
            v
        }
    }
}

/// Now and then out of the ordinary.
fn much(rng: &mut Rng, usual: usize) -> usize {
    if rng.chance(1, 2000) {
        *rng.pick(&[33usize, 70, 130, 260, 520, 1030, 2050, 4100])
    } else {
        usual
    }
}
fn c11(ctx: &mut Ctx, rng: &mut Rng) {
    let d = decoder(rng);
    let allow = rng.chance(1, 4);
    let mut cfg = d.config();
    cfg.set_allow_space_uri(allow);
    let ws = |rng: &mut Rng| -> Vec<u8> {
        if rng.chance(3, 4) {
            b" ".to_vec()
        } else {
            let n = much(rng, 3);
            rng.word(b" \t \t\x0b\x0c\r", 1, n)
        }
    };
    // request
    let mut l = vec![];
    if rng.chance(1, 6) {
        l.extend(rng.word(b" \t\x0b\x0c", 1, 3));
    }
    match rng.below(8) {
        0 => {
            let n = much(rng, 9);
            l.extend(rng.word(b"abcXYZ-_!09", 1, n))
        }
        1 => l.extend(rng.pick(&[&b"get"[..], b"Get", b"GETX", b"GE", b"POST1", b"HTTP/1.1", b"GET\0"]).to_vec()),
        _ => l.extend(rng.pick(&METHODS).as_bytes()),
    }
    let connect = l.ends_with(b"CONNECT");
    let shape = rng.below(12);
    if shape > 0 {
        l.extend(ws(rng));
        l.push(b'/');
        let n = much(rng, 10);
        l.extend(rng.word(b"abc/?=%&.;:@\x01\x80\xff", n.min(n / 20), n));
        if rng.chance(1, 6) {
            // white space inside the URI
            l.extend(ws(rng));
            l.extend(rng.word(b"abc/", 1, 5));
        }
        if shape > 1 {
            l.extend(ws(rng));
            if rng.chance(1, 20) {
                l.extend(rng.pick(&[&b"HTTP/\t1.1"[..], b"HTTP\t/1.1", b"HTTP/ 1.1", b"HTTP / 1.0", b"HTTP/\t 01.1", b"HTTP/0 1.1"]).to_vec());
            } else {
                l.extend(some_proto(rng));
            }
        }
    }
    if rng.chance(1, 8) {
        l.extend(rng.word(b" \t", 1, 3));
    }
    if rng.chance(1, 20) && d.pers == Some(SP::APACHE_2) {
        let i = rng.range(1, l.len());
        l.insert(i, 0);
    }
    let want = ref_line(&d, allow, &l);
    let junk_before = rng.below(18).saturating_sub(14);
    let junk_before = much(rng, junk_before).min(600);
    ctx.obs("request lines longer than 1000 bytes", (l.len() > 1000) as u64);
    let mut m = vec![];
    for _ in 0..junk_before {
        m.extend(*rng.pick(&[&b"\r\n"[..], b"\n"]));
    }
    m.extend(&l);
    m.extend(rng.pick(&[&b"\r\n"[..], b"\r\n", b"\n"]).to_vec());
    // no more bytes when the protocol is missing: what follows decides whether it is HTTP/0.9
    if want.proto.is_some() {
        m.extend(b"Host: h\r\n\r\n");
    }
    let ops = ops_of(rng, &m);
    ctx.input = format!("{:?} allow_space {}\n{}", d, allow, show_ops(&ops));
    ctx.seen(ctx.input.clone().as_bytes());
    let r = run(cfg, &ops);
    if connect && want.uri.is_none() {
        // nothing to be parsed as an authority: an error
        ctx.obs("CONNECT without URI", 1);
    } else if let Some(t) = r.txs.first() {
        // the line ends where its line ending starts
        let mut e = &l[..];
        while e.last() == Some(&b'\r') {
            e = &e[..e.len() - 1];
        }
        ctx.eq(&t.request_line, &Some(e.to_vec()), "line", "request line");
        ctx.eq(&t.method, &want.method, "method", "method");
        ctx.eq(&t.method_number, &method_name(want.method.as_ref().unwrap()), "method-number", "method number");
        ctx.eq(&t.uri, &want.uri, "uri", "request URI");
        ctx.eq(&t.protocol, &want.proto, "protocol", "protocol");
        ctx.eq(&t.protocol_number, &want.number, "protocol-number", "protocol number");
        ctx.eq(&t.is_0_9, &want.proto.is_none(), "0.9", "is HTTP/0.9");
        ctx.eq(&t.req_ignored, &(junk_before as u32), "ignored", "ignored lines");
        ctx.obs("empty lines before a request line", junk_before as u64);
        if want.expected != 0 && want.uri.is_none() {
            ctx.eq(&t.expected_status, &want.expected, "expected", "expected status");
        }
        ctx.obs("request lines", 1);
        ctx.obs("known methods", (t.method_number != "UNKNOWN") as u64);
        ctx.obs("HTTP/0.9", want.proto.is_none() as u64);
        ctx.obs("invalid protocol", (want.number == -2) as u64);
        ctx.obs("leading white space", (is_sp(l[0])) as u64);
    } else {
        ctx.fail("no-tx", "no transaction".into());
    }

    // response
    let mut s = vec![];
    if rng.chance(1, 8) {
        s.extend(rng.word(b" \t\0", 1, 3));
    }
    let mut p = some_proto(rng);
    if !(p.len() >= 4 && p[..4].eq_ignore_ascii_case(b"http")) || p.len() < 5 {
        // what does not start with HTTP is not a status line
        p = b"HTTP/1.1".to_vec();
    }
    s.extend(&p);
    let mut status: B = None;
    let mut msg = vec![];
    if rng.chance(15, 16) {
        s.extend(if rng.chance(3, 4) { b" ".to_vec() } else { rng.word(b" \t", 1, 3) });
        let st = match rng.below(8) {
            0 => rng.pick(&[&b"99"[..], b"1000", b"0200", b"65536", b"65736", b"2OO", b"-200", b"+200", b"200a", b"a200", b"0", b"000", b"099", b"999", b"100000000000"]).to_vec(),
            1 => rng.word(b"0123456789a", 1, 5),
            _ => format!("{}", rng.range(200, 999)).into_bytes(),
        };
        s.extend(&st);
        status = Some(st);
        if rng.chance(7, 8) {
            s.extend(if rng.chance(3, 4) { b" ".to_vec() } else { rng.word(b" \t", 1, 3) });
            let n = much(rng, 20);
            msg = rng.word(b"abc XYZ\t:;,!()\x80\xff", n / 20 * (n > 20) as usize, n);
            s.extend(&msg);
        }
    }
    let number = status.as_ref().map_or(-1, |st| {
        if st.iter().all(|c| c.is_ascii_digit()) {
            let v = st.iter().fold(0u64, |a, c| (a * 10 + (c - b'0') as u64).min(1 << 40));
            if (100..=999).contains(&v) {
                return v as i32;
            }
        }
        -1
    });
    let mut o = ops_of(rng, b"GET / HTTP/1.1\r\nHost: h\r\n\r\n");
    // lines in front of the status line that are not part of the response
    let before = rng.below(18).saturating_sub(14);
    let before = much(rng, before).min(600);
    let mut w = b"\r\n".repeat(before);
    let mut odd = 0;
    if s.starts_with(b"HTTP") && rng.chance(1, 8) {
        // a line that is no status line, with the status line right behind it
        odd = 1;
        {
            w.extend(rng.word(b"abc<>=/-0123", 1, 14));
            w.extend(b"\r\n");
        }
        if rng.chance(1, 3) {
            // or close behind it
            let n = rng.range(1, 5);
            w.extend(b"\r\n".repeat(n));
            odd += n;
            ctx.obs("empty lines between such a line and the status line", 1);
        }
    }
    w.extend(&s);
    let end = *rng.pick(&[&b"\r\n"[..], b"\r\n", b"\r\n", b"\n", b"\r"]);
    ctx.obs("status lines that end with CR", (end == b"\r") as u64);
    w.extend(end);
    w.extend(b"X-A: b\r\nContent-Length: 0\r\n\r\n");
    if odd > 0 {
        o.push(Op::Res(w.clone()));
    } else {
        o.extend(res_ops(rng, &w));
    }
    ctx.input = format!("{:?}\n{}", d, show_ops(&o));
    ctx.seen(ctx.input.clone().as_bytes());
    let r = {
        let mut dr = Driver::new(d.config()).snap_at(&[K::ResLine]);
        for op in &o {
            dr.feed(op);
        }
        dr.finish()
    };
    let Some(t) = r.evs.iter().find(|e| e.k == K::ResLine).and_then(|e| e.snap.as_ref()) else {
        ctx.fail("no-response-line", "the response line was not delivered".into());
        return;
    };
    let pn = proto_number(&p);
    ctx.eq(&t.res_protocol, &Some(p.clone()), "res-protocol", "response protocol");
    ctx.eq(&t.res_protocol_number, &pn, "res-protocol-number", "response protocol number");
    ctx.eq(&t.res_status, &status, "res-status", "response status");
    ctx.eq(&t.res_status_number, &number, "res-status-number", "response status number");
    // leading white space is not part of the reason phrase
    let mut e = &msg[..];
    while e.first().map_or(false, |c| matches!(c, b' ' | b'\t')) {
        e = &e[1..];
    }
    ctx.eqb(t.res_message.as_deref().unwrap_or(b""), e, "res-message", "reason phrase");
    let bad = pn == -2 || number == -1;
    ctx.eq(&(t.flags & 0x100_0000 != 0), &bad, "status-flag", "status line flagged invalid");
    ctx.eq(&t.res_ignored, &((before + odd) as u32), "res-ignored", "ignored lines");
    let body = r.evs.iter().filter(|e| e.k == K::ResBody).count();
    ctx.eq(&body, &0, "res-ignored-body", "body callbacks for what comes before a status line");
    ctx.obs("empty lines before a status line", before as u64);
    ctx.obs("lines that are no status line before one", odd as u64);
    ctx.obs("status lines", 1);
    ctx.obs("invalid status lines", bad as u64);
    ctx.sample(|| format!("{} | {}", show(&l), show(&s)));
}

const SMUGGLING: u64 = 0x100;
const INVALID_TE: u64 = 0x400;
const REQ_INVALID: u64 = 0x1_0000_0000;
const INVALID_CL: u64 = 0x2_0000_0000;

fn has_chunked(v: &[u8]) -> bool {
    let v: Vec<u8> = v.iter().filter(|c| **c != 0).map(|c| c.to_ascii_lowercase()).collect();
    v.windows(7).any(|w| w == b"chunked")
}
/// The first run of digits, if it fits.
fn first_number(v: &[u8]) -> Option<u64> {
    let s = v.iter().position(|c| c.is_ascii_digit())?;
    let mut n: u64 = 0;
    for c in v[s..].iter().take_while(|c| c.is_ascii_digit()) {
        n = n.checked_mul(10)?.checked_add((c - b'0') as u64)?;
    }
    Some(n)
}
struct Frame {
    head: Vec<u8>,
    te: Option<bool>,
    cl: Option<Option<u64>>,
    cl_repeated: bool,
    cl_folded: bool,
}
/// Transfer-Encoding and Content-Length fields in all their glory.
fn framing(rng: &mut Rng, n: usize) -> Frame {
    let mut fields: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    let mut f = Frame { head: vec![], te: None, cl: None, cl_repeated: false, cl_folded: false };
    let nm = |rng: &mut Rng, s: &str| -> Vec<u8> {
        match rng.below(6) {
            0 => s.to_ascii_lowercase().into_bytes(),
            1 => s.to_ascii_uppercase().into_bytes(),
            2 => {
                let mut v = s.as_bytes().to_vec();
                if rng.chance(1, 4) {
                    let i = rng.range(1, v.len() - 1);
                    v.insert(i, 0);
                }
                v
            }
            _ => s.as_bytes().to_vec(),
        }
    };
    if rng.chance(3, 5) {
        let v: Vec<u8> = match rng.below(6) {
            0..=2 => b"chunked".to_vec(),
            _ => rng
                .pick(&[&b"Chunked"[..], b"CHUNKED", b"gzip, chunked", b"identity", b"xchunked", b"chunk\0ed", b"gzip", b"chunke", b"", b"chunked, identity", b"\x0bchunked", b"c hunked"])
                .to_vec(),
        };
        f.te = Some(has_chunked(&v));
        let name = nm(rng, "Transfer-Encoding");
        let plain = !name.contains(&0);
        fields.push((name, v));
        if plain && rng.chance(1, 6) {
            let v2 = rng.pick(&[&b"chunked"[..], b"identity", b"gzip"]).to_vec();
            f.te = Some(f.te.unwrap() || has_chunked(&v2));
            fields.push((b"transfer-encoding".to_vec(), v2));
        }
    }
    if rng.chance(3, 5) {
        let v: Vec<u8> = match rng.below(8) {
            0..=3 => format!("{}", n).into_bytes(),
            4 => format!("{}{}", rng.pick(&["00", "+", "a", "x ", "0000000000000000000000000000000000000000000000000000"]), n).into_bytes(),
            5 => format!("{}{}", n, rng.pick(&["x", " x", ", 7", ";q"])).into_bytes(),
            6 => rng.pick(&[&b"99999999999999999999"[..], b"18446744073709551616", b"", b"abc", b"-"]).to_vec(),
            _ => format!("{}\r\n {}", rng.pick(&["", "x", ""]), n).into_bytes(),
        };
        f.cl_folded = v.contains(&b'\n');
        f.cl = Some(first_number(&v));
        let name = nm(rng, "Content-Length");
        let plain = !name.contains(&0);
        let at = rng.range(0, fields.len());
        fields.insert(at, (name, v));
        if plain && rng.chance(1, 5) {
            let v2 = format!("{}", if rng.flip() { n } else { n + 1 });
            f.cl_repeated = true;
            fields.push((b"content-length".to_vec(), v2.into_bytes()));
        }
    }
    let k = rng.below(3);
    for _ in 0..much(rng, k).min(520) {
        let at = rng.range(0, fields.len());
        fields.insert(at, (rng.word(b"abcXYZ", 3, 8), rng.word(b"abc 123", 0, 9)));
    }
    for (n, v) in fields {
        f.head.extend(n);
        f.head.extend(b": ");
        f.head.extend(v);
        f.head.extend(b"\r\n");
    }
    f
}
fn chunks(rng: &mut Rng, e: &[u8]) -> Vec<u8> {
    let mut w = vec![];
    let mut i = 0;
    while i < e.len() {
        let n = rng.range(1, e.len() - i);
        w.extend(format!("{:x}\r\n", n).bytes());
        w.extend(&e[i..i + n]);
        w.extend(b"\r\n");
        i += n;
    }
    w.extend(b"0\r\n\r\n");
    w
}

fn c14(ctx: &mut Ctx, rng: &mut Rng) {
    if rng.chance(1, 40) {
        return crate::p_conv::huge(ctx, rng);
    }
    let cfg = crate::p_conv::base_cfg(rng);
    let n = rng.range(0, 60);
    let entity = rng.word(b"abcdefghij \r\n0", n, n);
    // first byte not white space: see DESIGN.md on lenient line endings
    let mut entity = entity;
    if n > 0 {
        entity[0] = b'b';
    }
    if rng.flip() {
        let f = framing(rng, n);
        let (proto, pn) = *rng.pick(&[("HTTP/1.1", 101), ("HTTP/1.1", 101), ("HTTP/1.0", 100), ("HTTP/1.7", -2)]);
        let mut want = 0;
        let coding;
        let mut body: Option<Vec<u8>> = Some(vec![]);
        match (f.te, f.cl) {
            (Some(false), _) => {
                coding = "INVALID";
                want |= INVALID_TE | REQ_INVALID;
                body = None;
            }
            (Some(true), cl) => {
                coding = "CHUNKED";
                if pn < 101 {
                    want |= INVALID_TE | SMUGGLING;
                }
                if cl.is_some() {
                    want |= SMUGGLING;
                }
                body = Some(chunks(rng, &entity));
            }
            (None, Some(cl)) => {
                if f.cl_repeated || f.cl_folded {
                    want |= SMUGGLING;
                }
                match cl {
                    Some(k) => {
                        coding = "IDENTITY";
                        // how much of the entity belongs to the body is what the field says
                        entity.resize(k.min(2000) as usize, b'z');
                        body = Some(entity.clone());
                    }
                    None => {
                        coding = "INVALID";
                        want |= INVALID_CL | REQ_INVALID;
                        body = None;
                    }
                }
            }
            (None, None) => {
                coding = "NO_BODY";
                entity.clear();
            }
        }
        let mut m = format!("POST /first {}\r\nHost: h\r\n", proto).into_bytes();
        m.extend(&f.head);
        m.extend(b"\r\n");
        m.extend(body.clone().unwrap_or(entity.clone()));
        m.extend(b"GET /second HTTP/1.1\r\nHost: h\r\n\r\n");
        let ops = ops_of(rng, &m);
        ctx.input = show_ops(&ops);
        ctx.seen(ctx.input.clone().as_bytes());
        let r = run(cfg, &ops);
        let Some(t) = r.txs.first() else {
            ctx.fail("no-tx", "no transaction".into());
            return;
        };
        let mask = SMUGGLING | INVALID_TE | REQ_INVALID | INVALID_CL;
        ctx.eq(&t.req_coding, &coding.to_string(), "coding", "request transfer coding");
        ctx.eq(&(t.flags & mask), &want, "flags", "request framing flags");
        let errored = r.calls.iter().any(|c| c.ret == htp::connection_parser::HtpStreamState::ERROR);
        match body {
            None => {
                ctx.check(errored, "no-error", || "a request whose framing cannot be determined was accepted".into());
                ctx.check(r.count(K::ReqBody, 0) == 0, "body", || "body data delivered".into());
                ctx.check(r.txs.len() == 1, "continued", || "a second request was taken from undelimited data".into());
                ctx.obs("undeterminable requests", 1);
            }
            Some(_) => {
                ctx.check(!errored, "error", || "determinable request rejected".into());
                ctx.eqb(&r.cat(K::ReqBody, 0), &entity, "body", "request body");
                let second = r.txs.get(1).and_then(|t| t.uri.clone());
                ctx.eq(&second, &Some(b"/second".to_vec()), "second", "URI of the request after the body");
            }
        }
        ctx.obs("requests", 1);
        ctx.obs("flagged requests", (want != 0) as u64);
        ctx.obs("chunked requests with Content-Length", (f.te == Some(true) && f.cl.is_some()) as u64);
        ctx.obs("folded Content-Length", f.cl_folded as u64);
        ctx.obs("repeated Content-Length", f.cl_repeated as u64);
        ctx.sample(|| format!("{} -> {} {:x}", show(&f.head), coding, want));
    } else {
        let f = framing(rng, n);
        let proto = *rng.pick(&["HTTP/1.1", "HTTP/1.1", "HTTP/1.0"]);
        let mut want = 0;
        let mut body: Option<Vec<u8>> = Some(vec![]);
        let coding;
        let mut close = false;
        let head = rng.chance(1, 8);
        let status = if rng.chance(1, 3) { *rng.pick(&[102, 103, 150, 199, 200, 203, 204, 204, 205, 303, 304, 304, 305, 399, 400, 407, 499, 500, 599, 600, 999]) } else { 200 };
        let nobody = (102..200).contains(&status) || status == 204 || status == 304;
        match (f.te == Some(true), f.cl) {
            _ if head || (nobody && f.te.is_none() && f.cl.is_none()) => {
                // nothing follows the head
                coding = "NO_BODY";
                entity.clear();
                ctx.obs(if head { "responses to HEAD" } else { "responses without a body by status" }, 1);
            }
            (true, cl) => {
                coding = "CHUNKED";
                if cl.is_some() {
                    want |= SMUGGLING;
                }
                body = Some(chunks(rng, &entity));
            }
            (false, Some(cl)) => {
                coding = "IDENTITY";
                if f.cl_repeated {
                    want |= SMUGGLING;
                }
                match cl {
                    Some(k) => {
                        entity.resize(k.min(2000) as usize, b'z');
                        body = Some(entity.clone());
                    }
                    None => body = None,
                }
            }
            (false, None) => {
                coding = "IDENTITY";
                close = true;
                body = Some(entity.clone());
            }
        }
        let mut ops = ops_of(rng, &[if head { &b"HEAD"[..] } else { b"GET" }, b" /first HTTP/1.1\r\nHost: h\r\n\r\nGET /second HTTP/1.1\r\nHost: h\r\n\r\n"].concat());
        let mut m = format!("{} {} OK\r\nServer: s\r\n", proto, status).into_bytes();
        m.extend(&f.head);
        m.extend(b"\r\n");
        m.extend(body.clone().unwrap_or(entity.clone()));
        if !close {
            m.extend(b"HTTP/1.1 202 second\r\nContent-Length: 0\r\n\r\n");
        }
        ops.extend(res_ops(rng, &m));
        ops.push(Op::Close);
        ctx.input = show_ops(&ops);
        ctx.seen(ctx.input.clone().as_bytes());
        let r = run(cfg, &ops);
        let Some(t) = r.txs.first() else {
            ctx.fail("no-tx", "no transaction".into());
            return;
        };
        ctx.eq(&t.res_coding, &coding.to_string(), "res-coding", "response transfer coding");
        ctx.eq(&(t.flags & SMUGGLING), &want, "res-flags", "response framing flags");
        let errored = r.calls.iter().any(|c| !c.req && c.ret == htp::connection_parser::HtpStreamState::ERROR);
        match body {
            None => {
                ctx.check(errored, "res-no-error", || "a response whose framing cannot be determined was accepted".into());
                ctx.check(r.count(K::ResBody, 0) == 0, "res-body", || "body data delivered".into());
                ctx.obs("undeterminable responses", 1);
            }
            Some(_) => {
                ctx.check(!errored, "res-error", || "determinable response rejected".into());
                ctx.eqb(&r.cat(K::ResBody, 0), &entity, "res-body", "response body");
                if !close {
                    let second = r.txs.get(1).map(|t| t.res_status_number);
                    ctx.eq(&second, &Some(202), "res-second", "status of the response after the body");
                } else {
                    ctx.obs("responses ended by close", 1);
                }
            }
        }
        ctx.obs("responses", 1);
        ctx.obs("flagged responses", (want != 0) as u64);
    }
}

const HOSTH_INVALID: u64 = 0x400_0000;
const HOST_AMBIGUOUS: u64 = 0x2000;
const HOST_MISSING: u64 = 0x1000;
const AUTH_INVALID: u64 = 0x4_0000_0000;

fn base64(d: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in d.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                s.push(A[(v >> (18 - 6 * i)) as usize & 63] as char);
            } else {
                s.push('=');
            }
        }
    }
    s
}
fn nocase(rng: &mut Rng, s: &str) -> Vec<u8> {
    s.bytes().map(|c| if rng.chance(1, 4) { c.to_ascii_uppercase() } else if rng.chance(1, 4) { c.to_ascii_lowercase() } else { c }).collect()
}

/// The content type of a response.
fn response_type(ctx: &mut Ctx, rng: &mut Rng) {
    let t = rng.word(b"abcXYZ/-+.,", 1, 20);
    let tail = rng.pick(&[&b""[..], b"; charset=UTF-8", b";q", b" x", b"\tx", b" ; A", b"\t;B", b"\x0b;c", b" X; y"]).to_vec();
    let want = Some(t.to_ascii_lowercase());
    let mut f = vec![(nocase(rng, "Content-Type"), [t, tail].concat())];
    f.insert(rng.below(2), if rng.flip() { (nocase(rng, "Content-Length"), b"0".to_vec()) } else { (b"Transfer-Encoding".to_vec(), b"chunked".to_vec()) });
    let chunked = f.iter().any(|x| x.1 == b"chunked");
    let mut m = format!("HTTP/1.{} {} OK\r\n", rng.below(2), *rng.pick(&[200, 206, 404, 500])).into_bytes();
    for (n, v) in &f {
        m.extend([&n[..], b":", &b" \t"[..rng.below(3)], v, b"\r\n"].concat());
    }
    m.extend(b"\r\n");
    if chunked {
        m.extend(b"0\r\n\r\n");
    }
    let ops = res_ops(rng, &m);
    ctx.input = show_ops(&ops);
    ctx.seen(&m);
    let r = run(crate::p_conv::base_cfg(rng), &ops);
    let got = r.txs.first().and_then(|t| t.res_content_type.clone());
    ctx.eq(&got, &want, "response-type", "content type of the response");
    ctx.obs("content types of responses", 1);
}
fn c15(ctx: &mut Ctx, rng: &mut Rng) {
    if rng.chance(1, 20) {
        return response_type(ctx, rng);
    }
    let mut cfg = crate::p_conv::base_cfg(rng);
    let auth_on = rng.chance(7, 8);
    cfg.parse_request_auth = auth_on;
    let (proto, pn) = *rng.pick(&[("HTTP/1.1", 101), ("HTTP/1.1", 101), ("HTTP/1.0", 100), ("HTTP/3.1", -2)]);
    let mut want = 0;
    // host in the URI: a plain name, so that decoding leaves it alone
    let mut uhost: B = None;
    let mut uport: Option<u16> = None;
    let mut uri = vec![];
    if rng.chance(2, 5) {
        let h = if rng.chance(1, 6) { b"[2001:db8::1]".to_vec() } else { [rng.word(b"abcXYZ019-", 1, 8), b".Ex".to_vec()].concat() };
        uri.extend(b"http://");
        uri.extend(&h);
        if rng.flip() {
            let p = rng.range(1, 65535) as u16;
            uri.extend(format!(":{}", p).bytes());
            uport = Some(p);
        }
        uhost = Some(h.to_ascii_lowercase());
    }
    uri.push(b'/');
    uri.extend(rng.word(b"abc", 0, 4));
    let mut fields: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    let mut whost = uhost.clone();
    let mut wport = uport;
    let hosts = if rng.chance(5, 6) { 1 } else { rng.below(3) };
    if hosts == 0 {
        if pn >= 101 {
            want |= HOST_MISSING;
        }
    } else {
        let mut vals = vec![];
        for _ in 0..hosts {
            // often the host of the URI, in another case
            let mut v = match (&uhost, rng.below(3)) {
                (Some(h), 0 | 1) => h.iter().map(|c| if rng.flip() { c.to_ascii_uppercase() } else { *c }).collect(),
                _ => {
                    let mut h = host(rng);
                    if uhost.is_some() {
                        while h.last() == Some(&b'.') {
                            h.pop();
                        }
                    }
                    h
                }
            };
            match (uport, rng.below(5)) {
                (Some(p), 0) => v.extend(format!(":{}", p).bytes()),
                (_, 1) => {
                    if rng.chance(1, 4) {
                        v.extend(&b"   "[..rng.range(1, 3)]);
                    }
                    v.push(b':');
                    v.extend(port(rng));
                }
                _ => {}
            }
            vals.push(v);
        }
        if rng.chance(1, 16) {
            vals = vec![rng.pick(&[&b""[..], b":80", b"h:", b"[::1]x", b"h:80x", b"a b"]).to_vec()];
        }
        let v = vals.join(&b", "[..]);
        for x in &vals {
            fields.push((nocase(rng, "Host"), x.clone()));
        }
        // take it apart
        let hend = if v.first() == Some(&b'[') {
            v.iter().position(|c| *c == b']').map_or(v.len(), |k| k + 1)
        } else {
            v.iter().position(|c| *c == b':').unwrap_or(v.len())
        };
        let (h, rest) = v.split_at(hend);
        let mut h = h;
        while h.last() == Some(&b' ') {
            h = &h[..h.len() - 1];
        }
        if h.is_empty() {
            // no host in it
            if uhost.is_some() {
                want |= HOST_AMBIGUOUS;
            }
        } else {
            let mut ok = valid_host(h);
            let mut port: Option<Option<u16>> = None;
            if rest.first() == Some(&b':') && rest.len() > 1 {
                // up to the first space
                let p = rest[1..].split(|c| *c == b' ').next().unwrap();
                port = Some(port_no(p));
                ok &= port_no(p).is_some();
            } else if !rest.is_empty() {
                ok = false;
            }
            if !ok {
                want |= HOSTH_INVALID;
            }
            if let Some(u) = &uhost {
                if !u.eq_ignore_ascii_case(h) {
                    want |= HOST_AMBIGUOUS;
                }
                if let Some(p) = port {
                    if uport.is_some() && uport != p {
                        want |= HOST_AMBIGUOUS;
                    }
                }
            } else {
                whost = Some(h.to_ascii_lowercase());
                wport = port.flatten();
            }
        }
    }
    // credentials
    let (mut at, mut au, mut ap, mut tok): (&str, B, B, B) = ("NONE", None, None, None);
    if rng.chance(2, 3) {
        let sp = rng.pick(&[" ", " ", "  ", "\t"]).to_string();
        let v: Vec<u8> = match rng.below(8) {
            0..=2 => {
                at = "BASIC";
                let (n, k) = (much(rng, 10), much(rng, 10));
                let u = rng.word(b"abcXYZ \x80\xff/\"", n / 20, n);
                let p = rng.word(b"abc:XYZ: \x00\xff", k / 20, k);
                ctx.obs("long user names and passwords", (n + k > 20) as u64);
                let mut s = [nocase(rng, "Basic"), sp.into_bytes()].concat();
                match rng.below(6) {
                    0 => {
                        // no colon, or not base64
                        want |= AUTH_INVALID;
                        if rng.flip() {
                            s.extend(base64(&u.iter().copied().filter(|c| *c != b':').collect::<Vec<_>>()).bytes());
                        } else {
                            s.extend(b"!!not*base64!!");
                        }
                    }
                    _ => {
                        s.extend(base64(&[&u[..], b":", &p[..]].concat()).bytes());
                        au = Some(u);
                        ap = Some(p);
                    }
                }
                s
            }
            3..=5 => {
                at = "DIGEST";
                let n = much(rng, 10);
                let u = rng.word(b"abcXYZ \"'=,", n / 20, n);
                ctx.obs("long user names and passwords", (n > 10) as u64);
                let mut s = [nocase(rng, "Digest"), sp.into_bytes()].concat();
                if rng.flip() {
                    s.extend(b"realm=\"r\", ");
                }
                if rng.chance(1, 6) {
                    want |= AUTH_INVALID;
                    s.extend(rng.pick(&[&b"user=\"x\""[..], b"username=x\"", b"username=\"x", b""]).to_vec());
                } else {
                    s.extend(b"username=");
                    s.extend(rng.pick(&[&b""[..], b"", b" ", b"  "]).to_vec());
                    s.push(b'"');
                    for c in &u {
                        if *c == b'"' {
                            s.push(b'\\');
                        }
                        s.push(*c);
                    }
                    s.push(b'"');
                    if rng.flip() {
                        s.extend(b", nonce=\"n\"");
                    }
                    au = Some(u);
                }
                s
            }
            6 => {
                at = "BEARER";
                let n = much(rng, 20);
                let t = rng.word(b"abcXYZ019-._~+/=", 1, n);
                tok = Some(t.clone());
                [nocase(rng, "Bearer"), sp.into_bytes(), t].concat()
            }
            _ => {
                at = "UNRECOGNIZED";
                rng.pick(&[&b"NTLM abc"[..], b"Negotiate x", b"bas ic", b"xbasic abc", b""]).to_vec()
            }
        };
        fields.push((nocase(rng, "Authorization"), v));
    }
    if !auth_on {
        at = "UNKNOWN";
        au = None;
        ap = None;
        tok = None;
        want &= !AUTH_INVALID;
    }
    let mut ct: B = None;
    if rng.chance(1, 2) {
        let n = much(rng, 20);
        let t = rng.word(b"abcXYZ/-+.", 1, n);
        let tail = rng.pick(&[&b""[..], b"; charset=UTF-8", b";q", b" x", b",text/HTML", b" ; A"]).to_vec();
        ct = Some(t.to_ascii_lowercase());
        fields.push((nocase(rng, "Content-Type"), [t, tail].concat()));
    }
    let k = rng.below(3);
    for _ in 0..much(rng, k).min(520) {
        fields.push((rng.word(b"abcXYZ", 3, 8), rng.word(b"abc 123", 0, 9)));
    }
    // shuffle, keeping the order of the Host fields
    for i in (1..fields.len()).rev() {
        let j = rng.below(i + 1);
        if !(fields[i].0.eq_ignore_ascii_case(b"host") || fields[j].0.eq_ignore_ascii_case(b"host")) {
            fields.swap(i, j);
        }
    }
    let mut m = b"GET ".to_vec();
    m.extend(&uri);
    m.extend(format!(" {}\r\n", proto).bytes());
    for (n, v) in &fields {
        m.extend(n);
        m.extend(b": ");
        m.extend(v);
        m.extend(b"\r\n");
    }
    m.extend(b"\r\n");
    let ops = ops_of(rng, &m);
    ctx.input = show_ops(&ops);
    ctx.seen(&m);
    let r = run(cfg, &ops);
    let Some(t) = r.txs.first() else {
        ctx.fail("no-tx", "no transaction".into());
        return;
    };
    ctx.eq(&t.hostname, &whost, "hostname", "host of the request");
    ctx.eq(&t.port, &wport, "port", "port of the request");
    let mask = HOSTH_INVALID | HOST_AMBIGUOUS | HOST_MISSING | AUTH_INVALID;
    ctx.eq(&(t.flags & mask), &want, "flags", "host and authorization flags");
    ctx.eq(&t.auth_type, &at.to_string(), "auth-type", "authorization type");
    ctx.eq(&t.auth_user, &au, "auth-user", "user name");
    ctx.eq(&t.auth_pass, &ap, "auth-pass", "password");
    ctx.eq(&t.auth_token, &tok, "auth-token", "bearer token");
    ctx.eq(&t.req_content_type, &ct, "content-type", "content type");
    ctx.obs("requests", 1);
    for (b, n) in [(HOSTH_INVALID, "invalid Host"), (HOST_AMBIGUOUS, "ambiguous host"), (HOST_MISSING, "missing Host"), (AUTH_INVALID, "invalid credentials")] {
        ctx.obs(n, (want & b != 0) as u64);
    }
    ctx.obs("host in URI", uhost.is_some() as u64);
    ctx.obs("user names", au.is_some() as u64);
    ctx.obs("bearer tokens", tok.is_some() as u64);
    ctx.sample(|| show(&m));
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C11", case: c11, quick: 1_200_000, thorough: 6_000_000,
            rule: "first line, segmentation and configuration",
            need: &["request lines", "status lines", "HTTP/0.9", "invalid protocol", "leading white space", "invalid status lines", "empty lines before a request line", "empty lines before a status line", "lines that are no status line before one"],
            assumptions: &[], mem: 0, asan: &[],
        },
        Prop {
            id: "C14", case: c14, quick: 1_000_000, thorough: 4_000_000,
            rule: "framing fields, body and segmentation",
            need: &["bodies announced as huge", "responses to HEAD", "responses without a body by status", "flagged requests", "flagged responses", "undeterminable requests", "undeterminable responses", "chunked requests with Content-Length", "folded Content-Length", "repeated Content-Length", "responses ended by close"],
            assumptions: &[], mem: 0, asan: &[],
        },
        Prop {
            id: "C15", case: c15, quick: 1_800_000, thorough: 6_000_000,
            rule: "request head and segmentation",
            need: &["invalid Host", "ambiguous host", "missing Host", "invalid credentials", "user names", "long user names and passwords", "bearer tokens", "host in URI", "content types of responses"],
            assumptions: &[], mem: 0, asan: &[],
        },
    ]
}
