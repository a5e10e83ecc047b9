//! C12 (URI decomposition and normalisation) and C13 (urlencoded parameters).
use crate::drive::*;
use crate::fw::*;
use crate::p_conv::PERS;
use crate::refm::{self, Inv, D};
use crate::rng::Rng;
use std::cell::RefCell;

type B = Option<Vec<u8>>;
pub const HOSTU_INVALID: u64 = 0x200_0000;

pub fn decoder(rng: &mut Rng) -> D {
    let mut d = if rng.flip() {
        D::personality(*rng.pick(&PERS))
    } else {
        D {
            backslash: rng.flip(),
            lower: rng.flip(),
            compress: rng.flip(),
            sep_decode: rng.flip(),
            ctl_unwanted: *rng.pick(&[0, 0, 400, 404]),
            u_decode: rng.flip(),
            u_unwanted: *rng.pick(&[0, 0, 400, 404]),
            inv: rng.pick(&[Inv::Preserve, Inv::Remove, Inv::Process]).clone(),
            inv_unwanted: *rng.pick(&[0, 0, 400, 404]),
            bestfit: rng.flip(),
            lead_ws_unwanted: *rng.pick(&[0, 0, 400, 404]),
            ..D::default()
        }
    };
    d.before = rng.chance(1, 3);
    d.plus = rng.chance(3, 4);
    d.nul_raw_term = rng.chance(1, 3);
    d.nul_enc_term = rng.chance(1, 3);
    if rng.chance(1, 4) {
        d.repl = *rng.pick(&[b'X', b'_', b'/', b'.', 0xff]);
    }
    if rng.chance(1, 4) {
        d.nul_raw_unwanted = *rng.pick(&[0, 400, 404]);
        d.nul_enc_unwanted = *rng.pick(&[0, 400, 404]);
        d.sep_unwanted = *rng.pick(&[0, 400, 404]);
        d.utf8_unwanted = *rng.pick(&[0, 400, 404]);
    }
    d.own_map = rng.chance(1, 6);
    d.dd_path = rng.chance(1, 4);
    d.dd_query = rng.chance(1, 4);
    d
}

const PIECES: [&[u8]; 76] = [
    b"/", b"/", b"/", b"/", b".", b".", b"..", b"/../", b"/./", b"//", b"\\", b"\\\\", b"a", b"B", b"Zz", b"index.php",
    b"%2f", b"%2F", b"%5c", b"%5C", b"%2e", b"%2e%2E", b"%00", b"%25", b"%2", b"%", b"%%", b"%%32f", b"%25%32%66", b"%252f", b"%zz", b"%1g",
    b"%u002f", b"%U002F", b"%uff0f", b"%uFF0E", b"%u005c", b"%u2215", b"%u0100", b"%u0000", b"%uff3c", b"%u00zz", b"%uzzzz", b"%u12", b"%u", b"%u/abc",
    b"%c0%af", b"%c0%ae", b"%e0%80%af", b"%ef%bc%8f", b"%c3%a9", b"%e2%82%ac", b"%f0%9f%98%80", b"%ff", b"%80", b"%ed%a0%80", b"%f4%90%80%80", b"%c3",
    b"\xc3\xa9", b"\xc0\xaf", b"\xef\xbc\x8f", b"\xff", b"\xe2\x82", b"\xf0\x9f\x98\x80", b"+", b"=", b"&", b";", b"@", b":", b",",
    b"\x00", b"\x01", b"\x1f", b"\x7f", b"%0d%0A",
];
fn is_sp(c: u8) -> bool {
    matches!(c, b' ' | 9..=13)
}
/// random text from the pieces without the bytes of `not`
fn text(rng: &mut Rng, n: usize, not: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    let mut k = rng.range(0, n);
    let mut plain = false;
    if n > 0 && rng.chance(1, 2500) {
        // out of the ordinary length
        k = *rng.pick(&[70usize, 140, 270, 600, 1100, 2100]);
        plain = rng.chance(2, 3);
    }
    for _ in 0..k {
        let p: Vec<u8> = if plain {
            rng.pick(&[&b"/"[..], b"/", b"a", b"b.c", b"%41", b"D", b"ef", b"gh-i"]).to_vec()
        } else if rng.chance(1, 8) {
            vec![rng.byte()]
        } else if rng.chance(1, 8) {
            format!("%{:02x}", rng.byte()).into_bytes()
        } else if rng.chance(1, 12) {
            format!("%u{:04X}", rng.below(65536)).into_bytes()
        } else if rng.chance(1, 12) {
            let cp = if rng.chance(1, 5) { rng.pick(&refm::OWN).0 } else { rng.pick(crate::bestfit::BESTFIT).0 };
            let mut b = [0; 4];
            let u = char::from_u32(cp).unwrap().encode_utf8(&mut b);
            match rng.below(3) {
                0 if cp < 0x10000 => format!("%{}{:04x}", rng.pick(&["u", "U"]), cp).into_bytes(),
                1 => u.as_bytes().to_vec(),
                _ => u.bytes().map(|b| format!("%{:02X}", b)).collect::<String>().into_bytes(),
            }
        } else {
            rng.pick(&PIECES).to_vec()
        };
        if p.iter().any(|c| is_sp(*c) || not.contains(c)) {
            continue;
        }
        v.extend(p);
    }
    v
}

#[derive(Default, Debug, Clone)]
pub struct U {
    scheme: B,
    user: B,
    pass: B,
    host: B,
    port: B,
    path: B,
    query: B,
    frag: B,
}

pub fn valid_host(h: &[u8]) -> bool {
    if h.is_empty() || h.len() > 255 {
        return false;
    }
    if h[0] == b'[' && h.last() == Some(&b']') {
        return std::str::from_utf8(&h[1..h.len() - 1]).map_or(false, |s| s.parse::<std::net::Ipv6Addr>().is_ok());
    }
    if h[0] == b'.' || h.windows(2).any(|w| w == b"..") {
        return false;
    }
    h.split(|c| *c == b'.').all(|l| l.len() <= 63 && l.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'-' || *c == b'_'))
}
pub fn port_no(p: &[u8]) -> Option<u16> {
    if p.is_empty() || !p.iter().all(|c| c.is_ascii_digit()) {
        return None;
    }
    let mut v: u32 = 0;
    for c in p {
        v = (v * 10 + (c - b'0') as u32).min(1_000_000);
    }
    if v == 0 || v > 65535 {
        None
    } else {
        Some(v as u16)
    }
}
pub fn host(rng: &mut Rng) -> Vec<u8> {
    match rng.below(8) {
        0 => b"[::1]".to_vec(),
        1 => b"[2001:DB8::ff00:42:8329]".to_vec(),
        2 => b"10.1.2.3".to_vec(),
        3 => {
            let n = rng.range(60, 66);
            let mut v = rng.word(b"abc", n, n);
            v.extend(b".com");
            v
        }
        4 if rng.chance(1, 3) => {
            // around the longest host name there is
            let n = rng.range(250, 260);
            (0..n).map(|i| if i % 50 == 49 { b'.' } else { *rng.pick(b"abX0-") }).collect()
        }
        4 => rng.pick(&[&b"a..b"[..], b".lead", b"under_score.x", b"sp*ace", b"[::g]", b"-", b"a,b"]).to_vec(),
        _ => {
            let mut v = rng.word(b"abcXYZ019-", 1, 12);
            for _ in 0..rng.below(4) {
                v.push(b'.');
                v.extend(rng.word(b"abcXYZ019-", 1, 8));
            }
            if rng.chance(1, 6) {
                v.extend(rng.pick(&[&b"."[..], b"..", b"..."]).to_vec());
            }
            v
        }
    }
}
pub fn port(rng: &mut Rng) -> Vec<u8> {
    match rng.below(6) {
        0 => rng.pick(&[&b"0"[..], b"65535", b"65536", b"99999999999999999999", b"00080", b"1", b"80a", b"x"]).to_vec(),
        _ => format!("{}", rng.range(1, 65535)).into_bytes(),
    }
}

pub fn gen_uri(rng: &mut Rng, d: &D) -> (U, Vec<u8>) {
    let nul: &[u8] = if d.pers == Some(htp::config::HtpServerPersonality::APACHE_2) { b"\0" } else { b"" };
    let no = |x: &[u8]| [x, nul].concat();
    let mut u = U::default();
    let mut w = vec![];
    if rng.chance(2, 5) {
        let s = if rng.flip() { b"http".to_vec() } else { rng.word(b"hHtTpPsSxX", 1, 6) };
        w.extend(&s);
        w.extend(b"://");
        u.scheme = Some(s);
        if rng.chance(1, 2) {
            let user = text(rng, 4, &no(b":@/?#"));
            w.extend(&user);
            u.user = Some(user);
            if rng.chance(2, 3) {
                let p = text(rng, 4, &no(b"@/?#"));
                w.push(b':');
                w.extend(&p);
                u.pass = Some(p);
            }
            w.push(b'@');
        }
        let h = if rng.chance(1, 5) {
            let mut t = text(rng, 5, &no(b"/?#:@[ "));
            if t.is_empty() {
                t.push(b'h');
            }
            t
        } else {
            host(rng)
        };
        // a bracket that is never closed ends with the authority
        let open = rng.chance(1, 30);
        let h = if open { rng.pick(&[&b"[::1"[..], b"[a:80", b"[1"]).to_vec() } else { h };
        w.extend(&h);
        u.host = Some(h);
        match if open { 7 } else { rng.below(8) } {
            0..=3 => {
                let p = port(rng);
                w.push(b':');
                w.extend(&p);
                u.port = Some(p);
            }
            4 => w.push(b':'),
            _ => {}
        }
        if rng.chance(5, 6) {
            let mut p = b"/".to_vec();
            p.extend(text(rng, 14, &no(b"?#")));
            w.extend(&p);
            u.path = Some(p);
        }
    } else {
        let mut p = b"/".to_vec();
        p.extend(text(rng, 20, &no(b"?#")));
        w.extend(&p);
        u.path = Some(p);
    }
    if rng.chance(1, 2) {
        let q = text(rng, 10, &no(b"#"));
        w.push(b'?');
        w.extend(&q);
        u.query = Some(q);
    }
    if rng.chance(1, 3) {
        let f = text(rng, 6, &no(b""));
        w.push(b'#');
        w.extend(&f);
        u.frag = Some(f);
    }
    (u, w)
}

fn c12(ctx: &mut Ctx, rng: &mut Rng) {
    let d = decoder(rng);
    let connect = rng.chance(1, 12);
    let (u, wire) = if connect {
        let mut u = U::default();
        let h = host(rng);
        let mut w = h.clone();
        u.host = Some(h.to_ascii_lowercase());
        if rng.chance(3, 4) {
            let p = port(rng);
            w.push(b':');
            w.extend(&p);
            u.port = Some(p);
        }
        (u, w)
    } else {
        gen_uri(rng, &d)
    };
    let mut line = if connect { b"CONNECT ".to_vec() } else { b"GET ".to_vec() };
    line.extend(&wire);
    line.extend(b" HTTP/1.1\r\n");
    let mut msg = line.clone();
    msg.extend(b"Host: h\r\n\r\n");
    let mode = rng.below(6);
    let ops: Vec<Op> = split(rng, &msg, mode).into_iter().map(Op::Req).collect();
    ctx.input = format!("{:?}\n{}", d, show_ops(&ops));
    let mut cfg = d.config();
    if msg.len() > 15_000 {
        cfg.set_field_limit(1 << 24);
    }
    ctx.obs("URIs longer than 1000 bytes", (wire.len() > 1000) as u64);
    ctx.obs("paths of more than 64 segments", u.path.as_ref().map_or(false, |p| p.iter().filter(|c| **c == b'/').count() > 64) as u64);
    let r = run(cfg, &ops);
    let Some(t) = r.txs.first() else {
        ctx.fail("no-tx", "no transaction".into());
        return;
    };
    ctx.seen(&[&wire[..], format!("{:?}", d).as_bytes()].concat());
    ctx.obs("uris", 1);
    if !ctx.eq(&t.uri, &Some(wire.clone()), "uri", "request URI") {
        return;
    }
    // components as sent
    let Some(raw) = &t.parsed_raw else {
        ctx.fail("no-raw", "no raw URI".into());
        return;
    };
    ctx.eq(&raw.scheme, &u.scheme, "raw-scheme", "raw scheme");
    ctx.eq(&raw.username, &u.user, "raw-user", "raw username");
    ctx.eq(&raw.password, &u.pass, "raw-pass", "raw password");
    ctx.eq(&raw.hostname, &u.host, "raw-host", "raw hostname");
    ctx.eq(&raw.port, &u.port, "raw-port", "raw port");
    ctx.eq(&raw.path, &u.path, "raw-path", "raw path");
    ctx.eq(&raw.query, &u.query, "raw-query", "raw query");
    ctx.eq(&raw.fragment, &u.frag, "raw-fragment", "raw fragment");
    // normalised
    let mut flags = 0;
    let mut status = 0;
    let mut dec = |x: &B| -> B {
        x.as_ref().map(|x| {
            let o = refm::decode(&d, x);
            if o.flags & refm::UE_INVALID != 0 {
                flags |= refm::PATH_INVALID_ENCODING;
            }
            if o.flags & refm::UE_ENC_NUL != 0 {
                flags |= refm::PATH_ENCODED_NUL;
            }
            if o.flags & refm::UE_RAW_NUL != 0 {
                flags |= refm::PATH_RAW_NUL;
            }
            o.bytes
        })
    };
    let scheme: B = u.scheme.as_ref().map(|s| s.to_ascii_lowercase());
    let user = dec(&u.user);
    let pass = dec(&u.pass);
    let host = dec(&u.host).map(|h| {
        let mut h = h.to_ascii_lowercase();
        while h.last() == Some(&b'.') {
            h.pop();
        }
        h
    });
    let frag = dec(&u.frag);
    let port = u.port.as_ref().and_then(|p| port_no(p));
    let path: B = u.path.as_ref().map(|p| {
        let o = refm::path(&d, p);
        flags |= o.flags;
        status = o.status;
        o.bytes
    });
    let mut host_bad = u.port.is_some() && port.is_none();
    let mut host_known = true;
    if let Some(h) = &host {
        host_bad |= !valid_host(h);
        // what an 8-bit character in a host name is worth is not specified
        host_known = h.iter().all(|c| *c < 0x80);
    }
    if connect {
        host_bad |= !valid_host(u.host.as_ref().unwrap());
    }
    let Some(n) = &t.parsed else {
        ctx.fail("no-parsed", "no normalised URI".into());
        return;
    };
    ctx.eq(&n.scheme, &scheme, "scheme", "normalised scheme");
    ctx.eq(&n.username, &user, "user", "normalised username");
    ctx.eq(&n.password, &pass, "pass", "normalised password");
    ctx.eq(&n.hostname, &host, "host", "normalised hostname");
    ctx.eq(&n.port_number, &port, "port", "port number");
    ctx.eq(&n.path, &path, "path", "normalised path");
    ctx.eq(&n.query, &u.query, "query", "query");
    ctx.eq(&n.fragment, &frag, "fragment", "normalised fragment");
    ctx.eq(&(t.flags & refm::PATH_FLAGS), &flags, "flags", "path flags");
    if host_known {
        ctx.eq(&(t.flags & HOSTU_INVALID != 0), &host_bad, "hostu", "host in URI flagged invalid");
    }
    ctx.eq(&t.expected_status, &status, "status", "expected response status");
    // put together again
    let mut part = vec![];
    let mut doubled = 0;
    if let Some(p) = &path {
        let q = if d.dd_path { refm::decode(&d, p).bytes } else { p.clone() };
        doubled += (q.len() < p.len()) as usize;
        part.extend(q);
    }
    if let Some(q) = &u.query {
        let mut q = refm::decode(&d, q).bytes;
        if d.dd_query {
            let p = q;
            q = refm::decode(&d, &p).bytes;
            doubled += (q.len() < p.len()) as usize;
        }
        part.push(b'?');
        part.extend(q);
    }
    if let Some(f) = &frag {
        part.push(b'#');
        part.extend(f);
    }
    let mut full = vec![];
    if let Some(s) = &scheme {
        full.extend(s);
        full.extend(b"://");
    }
    if user.is_some() || pass.is_some() {
        full.extend(user.as_deref().unwrap_or(b""));
        full.push(b':');
        full.extend(pass.as_deref().unwrap_or(b""));
        full.push(b'@');
    }
    full.extend(host.as_deref().unwrap_or(b""));
    if let Some(p) = &u.port {
        full.push(b':');
        full.extend(p);
    }
    full.extend(&part);
    let logged = r.logs.iter().filter(|l| l.0 == htp::log::HtpLogCode::DOUBLE_ENCODED_URI).count();
    ctx.eq(&logged, &doubled, "double", "reports of double encoding");
    ctx.obs("double encoding reported", doubled as u64);
    let opt = |v: Vec<u8>| if v.is_empty() { None } else { Some(v) };
    ctx.eq(&t.partial_uri, &opt(part), "partial", "partial normalised URI");
    ctx.eq(&t.complete_uri, &opt(full), "complete", "complete normalised URI");
    ctx.obs("path decoded to something else", (path != u.path) as u64);
    ctx.obs("path flags set", (flags != 0) as u64);
    ctx.obs("expected status set", (status != 0) as u64);
    ctx.obs("with authority", u.host.is_some() as u64);
    ctx.obs("with credentials", u.user.is_some() as u64);
    ctx.obs("host or port invalid", host_bad as u64);
    ctx.obs("authority-form", connect as u64);
    for (b, n) in [
        (refm::PATH_ENCODED_NUL, "encoded NUL"), (refm::PATH_INVALID_ENCODING, "invalid encoding"), (refm::PATH_OVERLONG_U, "overlong %u"),
        (refm::PATH_ENCODED_SEPARATOR, "encoded separator"), (refm::PATH_UTF8_VALID, "valid UTF-8"), (refm::PATH_UTF8_INVALID, "invalid UTF-8"),
        (refm::PATH_UTF8_OVERLONG, "overlong UTF-8"), (refm::PATH_HALF_FULL_RANGE, "half/full width"),
    ] {
        ctx.obs(n, (flags & b != 0) as u64);
    }
    ctx.sample(|| format!("{} -> {}", show(&wire), show(t.complete_uri.as_deref().unwrap_or(b""))));
}

thread_local! {
    static PARAMS: RefCell<Vec<(Vec<u8>, Vec<u8>)>> = const { RefCell::new(vec![]) };
}
fn on_param(p: &mut htp::transaction::Param) -> Result<(), htp::HtpStatus> {
    PARAMS.with(|v| v.borrow_mut().push((p.name.as_slice().to_vec(), p.value.as_slice().to_vec())));
    Ok(())
}

fn c13(ctx: &mut Ctx, rng: &mut Rng) {
    let d = decoder(rng);
    let sep = if rng.chance(5, 6) { b'&' } else { b';' };
    let decode = rng.chance(7, 8);
    let mut s = vec![];
    let k = if rng.chance(1, 1500) { *rng.pick(&[20usize, 33, 66, 110, 260, 600]) } else { rng.range(0, 8) };
    for i in 0..k {
        if i > 0 {
            s.push(sep);
        }
        match rng.below(6) {
            0 => {}
            1 => s.extend(text(rng, 5, b"")),
            2 => {
                s.extend(rng.word(b"abAB", 0, 4));
                s.push(b'=');
            }
            _ => {
                s.extend(text(rng, 3, b"="));
                s.push(b'=');
                s.extend(text(rng, 5, b""));
            }
        }
    }
    if rng.chance(1, 4) {
        s.push(sep);
    }
    if rng.chance(1, 20) {
        let n = rng.range(1, 60);
        s = rng.bytes(n);
    }
    let (want, fl, st) = refm::params(&d, sep, decode, &s);
    let flags = {
        let m = [
            (refm::UE_ENC_NUL, 0x800_0000u64), (refm::UE_INVALID, 0x1000_0000), (refm::UE_OVERLONG_U, 0x2000_0000),
            (refm::UE_HALF_FULL, 0x4000_0000), (refm::UE_RAW_NUL, 0x8000_0000),
        ];
        m.iter().filter(|(a, _)| fl & a != 0).map(|(_, b)| b).sum::<u64>()
    };
    let cfg = d.config();
    let mk = || {
        let mut p = htp::urlencoded::Parser::new(cfg.decoder_cfg);
        p.argument_separator = sep;
        p.decode_url_encoding = decode;
        p
    };
    let get = |p: &htp::urlencoded::Parser| p.params.elements.iter().map(|(n, v)| (n.as_slice().to_vec(), v.as_slice().to_vec())).collect::<Vec<_>>();
    ctx.input = format!("{:?} sep {} decode {}\n{}", d, sep as char, decode, show(&s));
    ctx.seen(ctx.input.clone().as_bytes());
    let mut p = mk();
    p.parse_complete(&s);
    ctx.eq(&get(&p), &want, "complete", "parameters, parsed in one piece");
    ctx.eq(&p.flags, &flags, "flags", "flags");
    ctx.eq(&(p.response_status_expected_number as i32), &st, "status", "expected status");
    for mode in 0..3 {
        let mut p = mk();
        let m = [0, 3, 1][mode];
        let parts = split(rng, &s, m);
        for c in &parts {
            p.parse_partial(c);
            if rng.chance(1, 10) {
                p.parse_partial(b"");
            }
        }
        p.finalize();
        ctx.eq(&get(&p), &want, "partial", "parameters, parsed in pieces");
        ctx.eq(&p.flags, &flags, "flags-partial", "flags, parsed in pieces");
        ctx.eq(&(p.response_status_expected_number as i32), &st, "status-partial", "expected status, parsed in pieces");
        ctx.obs("streamed pieces", parts.len() as u64);
    }
    ctx.obs("strings", 1);
    ctx.obs("parameters", want.len() as u64);
    ctx.obs("strings of more than 100 parameters", (want.len() > 100) as u64);
    ctx.obs("values longer than 1000 bytes", want.iter().filter(|p| p.1.len() > 1000).count() as u64);
    ctx.obs("strings with flags", (flags != 0) as u64);
    // the query string of a request goes through the same parser
    let apache = d.pers == Some(htp::config::HtpServerPersonality::APACHE_2);
    if sep == b'&' && decode && !s.iter().any(|c| is_sp(*c) || *c == b'#' || (apache && *c == 0)) {
        let mut cfg = d.config();
        cfg.set_parse_urlencoded(true);
        cfg.parameter_processor = Some(on_param);
        PARAMS.with(|v| v.borrow_mut().clear());
        let mut m = b"GET /p?".to_vec();
        m.extend(&s);
        m.extend(b" HTTP/1.1\r\nHost: h\r\n\r\n");
        if m.len() > 15_000 {
            cfg.set_field_limit(1 << 24);
        }
        let md = rng.below(6);
        let ops: Vec<Op> = split(rng, &m, md).into_iter().map(Op::Req).collect();
        let _ = run(cfg, &ops);
        let got = PARAMS.with(|v| v.borrow().clone());
        ctx.eq(&got, &want, "query-params", "parameters of the query string");
        ctx.obs("query strings", 1);
    }
    ctx.sample(|| format!("{} -> {:?}", show(&s), want.iter().map(|(a, b)| format!("{}={}", show(a), show(b))).collect::<Vec<_>>()));
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C12", case: c12, quick: 1_600_000, thorough: 12_000_000,
            rule: "URI and decoder configuration",
            need: &["URIs longer than 1000 bytes", "paths of more than 64 segments", "path decoded to something else", "double encoding reported", "expected status set", "with credentials", "authority-form", "encoded NUL", "invalid encoding", "overlong %u", "encoded separator", "valid UTF-8", "invalid UTF-8", "overlong UTF-8", "half/full width"],
            assumptions: &[], mem: 0, asan: &[],
        },
        Prop {
            id: "C13", case: c13, quick: 1_200_000, thorough: 9_000_000,
            rule: "parameter string and decoder configuration",
            need: &["parameters", "streamed pieces", "strings with flags", "query strings", "strings of more than 100 parameters", "values longer than 1000 bytes"],
            assumptions: &[], mem: 0, asan: &[],
        },
    ]
}
