//! C26: HTTP/0.9 exchanges.
use crate::drive::*;
use crate::fw::*;
use crate::gen::*;
use crate::p_conv::{base_cfg, collect, order};
use crate::rng::Rng;
use htp::connection_parser::HtpStreamState as S;
use htp::log::HtpLogCode as L;

fn pieces(rng: &mut Rng, req: bool, b: &[u8], ops: &mut Vec<Op>) {
    let m = rng.below(5);
    for p in split(rng, b, m) {
        ops.push(if req { Op::Req(p) } else { Op::Res(p) });
    }
}
/// What a client may go on sending: looks like HTTP more often than not.
fn extra(rng: &mut Rng) -> Vec<u8> {
    match rng.below(6) {
        0 => b"GET /again HTTP/1.1\r\nHost: x\r\n\r\n".to_vec(),
        1 => b"GET /again\r\n".to_vec(),
        2 => b"\r\n".to_vec(),
        3 => b"CONNECT h:1 HTTP/1.1\r\n\r\n".to_vec(),
        4 => {
            let n = rng.range(1, 200);
            rng.bytes(n)
        }
        // far beyond the limit of a line
        _ => vec![b'A'; rng.range(1000, 40000)],
    }
}
fn answer(rng: &mut Rng) -> Vec<u8> {
    match rng.below(6) {
        0 => b"HTTP/1.1 200 OK\r\nContent-Length: 3\r\nContent-Encoding: gzip\r\n\r\nabc".to_vec(),
        1 => b"<html>\n<body>hello</body>\n</html>\n".to_vec(),
        2 => b"\r\n\r\n\r\n".to_vec(),
        3 => b"HTTP/1.1 100 Continue\r\n\r\nHTTP/1.1 204 No Content\r\n\r\n".to_vec(),
        4 => {
            let n = rng.range(1, 3000);
            rng.bytes(n)
        }
        _ => {
            let mut v = vec![0x1f, 0x8b, 8, 0];
            v.extend(rng.bytes(20));
            v
        }
    }
}

fn case(ctx: &mut Ctx, rng: &mut Rng) {
    let o = Opts { max_body: 150, close: false, interim: false, compress: false, hdrs: 2, lf_only: false, ..Opts::default() };
    let mut cfg = base_cfg(rng);
    let destroy = rng.chance(1, 3);
    cfg.set_tx_auto_destroy(destroy);
    cfg.set_request_decompression(rng.flip());
    if rng.chance(1, 3) {
        cfg.set_field_limit(600);
    }
    let pre = rng.below(3);
    let (mut qa, mut sa) = (vec![], vec![]);
    let mut msgs = vec![];
    let mut ops = vec![];
    let ahead = rng.flip();
    for i in 0..pre {
        let q = request(rng, &o, i);
        let s = response(rng, &o, &q, false);
        if q.head.len() > 500 || s.head.len() > 500 || q.wire.len() - q.body_wire > 580 || s.wire.len() - s.body_wire > 580 || q.trailer_block.len() > 300 {
            return;
        }
        if ahead {
            qa.extend_from_slice(&q.wire);
            sa.extend_from_slice(&s.wire);
        } else {
            pieces(rng, true, &q.wire, &mut ops);
            pieces(rng, false, &s.wire, &mut ops);
        }
        msgs.push((q, s));
    }
    let method = *rng.pick(&["GET", "GET", "GET", "HEAD", "POST", "PUT", "OPTIONS", "DELETE", "TRACE"]);
    let uri = match rng.below(4) {
        0 => "/".to_string(),
        1 => format!("/p{}?a={}&b", rng.below(100), rng.below(100)),
        2 => format!("http://h{}.example/x", rng.below(9)),
        _ => format!("/dir/{}.html", rng.below(1000)),
    };
    let eol = *rng.pick(&["\r\n", "\r\n", "\n"]);
    let kind = rng.below(8);
    if kind >= 6 {
        return newer(ctx, rng, cfg, ops, qa, sa, pre, method, &uri, eol, kind == 6, ahead);
    }
    let bare = rng.chance(1, 12);
    let line = if bare {
        method.to_string()
    } else {
        format!("{}{}{}{}", method, rng.pick(&[" ", " ", "  ", "\t"]), uri, rng.pick(&["", "", "", " ", "  "]))
    };
    // the request ends with its line; what is left of the segment holds nothing but white space
    let tail: &[u8] = *rng.pick(&[b"" as &[u8], b"", b"", b"\r\n", b"\n", b"   \r\n", b"\n\n\n", b"\t \r\n\r\n", b"               \n"]);
    let mut q = [line.as_bytes(), eol.as_bytes()].concat();
    let glue = ahead && rng.flip();
    let cut = if rng.chance(1, 3) { rng.range(1, q.len() - 1) } else { 0 };
    q.extend_from_slice(tail);
    if glue {
        // in one segment with the end of what went before
        let n = rng.below(qa.len() + 1);
        if n > 0 {
            let h = qa[..n].to_vec();
            pieces(rng, true, &h, &mut ops);
        }
        ops.push(Op::Req([&qa[n..], &q].concat()));
    } else {
        pieces(rng, true, &qa, &mut ops);
        if cut > 0 {
            ops.push(Op::Req(q[..cut].to_vec()));
        }
        ops.push(Op::Req(q[cut..].to_vec()));
    }
    let sent: usize = ops.iter().filter_map(|o| if let Op::Req(b) = o { Some(b.len()) } else { None }).sum();
    let _ = sent;
    let mark = ops.len();
    // earlier answers, then raw data until the server closes; meanwhile the client may go on
    let body: Vec<Vec<u8>> = (0..rng.below(5)).map(|_| answer(rng)).collect();
    let body = body.concat();
    let gap = if rng.chance(1, 8) && !body.is_empty() { rng.range(1, 5000) } else { 0 };
    let mut sops = vec![];
    let at = if gap > 0 { rng.range(1, body.len()) } else { body.len() };
    pieces(rng, false, &sa, &mut sops);
    pieces(rng, false, &body[..at], &mut sops);
    if gap > 0 {
        sops.push(Op::ResGap(gap));
        pieces(rng, false, &body[at..], &mut sops);
    }
    let mut more = 0usize;
    let mut qops = vec![];
    for _ in 0..(if rng.flip() { rng.range(1, 3) } else { 0 }) {
        let e = extra(rng);
        more += e.len();
        pieces(rng, true, &e, &mut qops);
        if rng.chance(1, 6) {
            let n = rng.range(1, 500);
            more += n;
            qops.push(Op::ReqGap(n));
        }
    }
    if rng.chance(1, 6) {
        qops.push(Op::ReqClose);
    }
    let (mut a, mut b) = (qops.into_iter().peekable(), sops.into_iter().peekable());
    while a.peek().is_some() || b.peek().is_some() {
        if b.peek().is_none() || (a.peek().is_some() && rng.flip()) {
            ops.push(a.next().unwrap());
        } else {
            ops.push(b.next().unwrap());
        }
    }
    ops.push(Op::Close);
    ctx.input = show_ops(&ops);
    ctx.seen(ctx.input.clone().as_bytes());
    ctx.sample(|| crate::p_conv::ctx_input_short(&ops));
    let mut d = Driver::new(cfg).snap_at(&[K::TxComplete, K::ReqComplete, K::ReqLine]);
    let mut reqs = (0, 0);
    for (i, op) in ops.iter().enumerate() {
        if i == mark {
            reqs = (d.calls.len(), REC.with(|r| r.borrow().evs.len()));
            ctx.check(d.p.conn.flags & 2 == 0, "extra-early", || "data after HTTP/0.9 reported before there was any".into());
        }
        d.feed(op);
    }
    let r = d.finish();
    order(ctx, &r, true);
    ctx.obs("callbacks", r.evs.len() as u64);
    // the request is complete with its line, whatever comes later
    let e = r.evs.iter().position(|e| e.k == K::ReqComplete && e.tx == pre);
    if !ctx.check(e.map_or(false, |x| x < reqs.1), "not-complete", || format!("the HTTP/0.9 request was not complete after its line: {:?}", r.logs)) {
        return;
    }
    let s = r.evs[e.unwrap()].snap.as_ref().unwrap();
    ctx.check(s.is_0_9 && s.protocol_number == 9 && s.protocol.is_none(), "version", || format!("0.9 {} protocol {:?} ({})", s.is_0_9, s.protocol, s.protocol_number));
    ctx.eq(&s.method, &Some(method.as_bytes().to_vec()), "method", "method");
    ctx.eq(&s.uri, &if bare { None } else { Some(uri.as_bytes().to_vec()) }, "uri", "URI");
    ctx.eq(&s.req_headers.len(), &0, "req-headers", "request headers");
    ctx.eq(&r.count(K::ReqHeaders, pre), &0, "req-headers", "header callbacks of the request");
    ctx.eqb(&r.cat(K::ReqBody, pre), tail, "req-body", "white space behind the line");
    // nothing else comes from the client
    let late: Vec<_> = r.evs[reqs.1..].iter().filter(|e| crate::p_conv::is_req(e.k)).collect();
    ctx.check(late.is_empty(), "parsed-extra", || format!("{:?} of tx {} after an HTTP/0.9 request", late[0].k, late[0].tx));
    for c in r.calls[reqs.0..].iter().filter(|c| c.req && c.len > 0) {
        ctx.check(c.ret == S::DATA && c.consumed == c.len, "extra-call", || format!("data after an HTTP/0.9 request: {:?}, {} of {} consumed", c.ret, c.consumed, c.len));
    }
    ctx.eq(&(r.conn_flags & 2 != 0), &(more > 0), "extra-flag", "data after HTTP/0.9 reported");
    let top = r.evs.iter().map(|e| e.tx).max().unwrap_or(0);
    ctx.eq(&top, &pre, "tx", "last transaction");
    let t = collect(&r);
    for (i, (q, s)) in msgs.iter().enumerate() {
        if ctx.check(t.len() > i, "tx-count", || "an earlier exchange is not complete".into()) {
            ctx.eq(&t[i].snap.uri, &Some(q.uri.clone()), "uri", "URI of an earlier exchange");
            ctx.eqb(&t[i].res_body, &s.entity, "res-body", "response body of an earlier exchange");
        }
    }
    if body.is_empty() {
        // no answer
        ctx.eq(&r.count(K::ResBody, pre), &0, "res-body", "body callbacks without an answer");
        ctx.obs("HTTP/0.9 requests without an answer", 1);
        return;
    }
    ctx.obs("HTTP/0.9 exchanges", 1);
    if more > 0 {
        ctx.obs("client data after an HTTP/0.9 request", 1);
    }
    if gap > 0 {
        ctx.obs("gaps in an HTTP/0.9 answer", 1);
    }
    if !tail.is_empty() {
        ctx.obs("white space behind the line", 1);
    }
    if pre > 0 {
        ctx.obs("HTTP/0.9 after other exchanges", 1);
    }
    if !ctx.check(t.len() == pre + 1, "tx-count", || format!("{} transactions completed of {}", t.len(), pre + 1)) {
        return;
    }
    let x = &t[pre];
    ctx.eqb(&x.res_body, &body, "res-body", "answer to an HTTP/0.9 request");
    let g: usize = r.evs.iter().filter(|e| e.k == K::ResBody && e.tx == pre && e.gap).map(|e| e.len).sum();
    ctx.eq(&g, &gap, "gap", "bytes of the gap");
    for k in [K::ResLine, K::ResHeaders, K::ResHeaderData, K::ResTrailer, K::ResTrailerData] {
        ctx.eq(&r.count(k, pre), &0, "res-head", &format!("{:?} callbacks of an HTTP/0.9 answer", k));
    }
    ctx.check(x.snap.response_line.is_none() && x.snap.res_protocol.is_none() && x.snap.res_headers.is_empty() && x.snap.res_status.is_none(), "res-head", || "an HTTP/0.9 answer has no head".into());
    ctx.eq(&x.snap.res_entity_len, &(body.len() as u64), "res-len", "entity length");
    ctx.eq(&x.snap.res_message_len, &((body.len() + gap) as u64), "res-len", "message length");
    // only the end of the connection completes it
    let close = r.evs.iter().position(|e| e.k == K::ResComplete && e.tx == pre).unwrap();
    let last = r.evs.iter().rposition(|e| e.k == K::ResBody && e.tx == pre).unwrap();
    ctx.check(close > last && r.evs[close].call > r.evs[last].call, "res-complete", || "the answer was complete before the close".into());
}

/// A line without a protocol with more than white space behind it, and one that names HTTP/0.9: ordinary exchanges.
#[allow(clippy::too_many_arguments)]
fn newer(ctx: &mut Ctx, rng: &mut Rng, cfg: htp::config::Config, mut ops: Vec<Op>, qa: Vec<u8>, sa: Vec<u8>, pre: usize, method: &str, uri: &str, eol: &str, named: bool, ahead: bool) {
    let _ = ahead;
    let mut q = qa;
    let h = format!("X-{}: {}", rng.below(100), rng.below(1000));
    let host = rng.flip();
    let mut m = format!("{} {}{}{}{}{}{}", method, uri, if named { " HTTP/0.9" } else { "" }, eol, h, eol, if host { format!("Host: h{}", eol) } else { String::new() });
    m.push_str(eol);
    let next = rng.flip();
    let n0 = q.len();
    q.extend_from_slice(m.as_bytes());
    let end = q.len();
    if next {
        q.extend_from_slice(b"GET /next HTTP/1.1\r\nHost: n\r\n\r\n");
    }
    if named {
        pieces(rng, true, &q, &mut ops);
    } else {
        // at least the first byte behind the line in its segment
        let k = n0 + m.find('\n').unwrap() + 1;
        let a = rng.range(0, n0);
        let b = rng.range(k + 1, end);
        if a > 0 {
            pieces(rng, true, &q[..a].to_vec(), &mut ops);
        }
        ops.push(Op::Req(q[a..b].to_vec()));
        pieces(rng, true, &q[b..].to_vec(), &mut ops);
    }
    let body = rng.below(30);
    // (the answer to HEAD has no body)
    let text = if method == "HEAD" { vec![] } else { vec![b'b'; body] };
    let mut s = sa;
    s.extend_from_slice(format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\n\r\n", body).as_bytes());
    s.extend_from_slice(&text);
    if next {
        s.extend_from_slice(b"HTTP/1.1 201 Created\r\nContent-Length: 2\r\n\r\nno");
    }
    pieces(rng, false, &s, &mut ops);
    ops.push(Op::Close);
    ctx.input = show_ops(&ops);
    ctx.seen(ctx.input.clone().as_bytes());
    let r = crate::p_conv::exec(cfg, &ops);
    order(ctx, &r, true);
    let t = collect(&r);
    let n = pre + 1 + next as usize;
    if !ctx.check(t.len() == n, "tx-count", || format!("{} transactions completed of {}: {:?}", t.len(), n, r.logs)) {
        return;
    }
    let x = &t[pre];
    ctx.check(!x.snap.is_0_9, "version", || "a request with headers is taken for HTTP/0.9".into());
    ctx.eq(&x.snap.uri, &Some(uri.as_bytes().to_vec()), "uri", "URI");
    let want: Vec<&str> = h.splitn(2, ": ").collect();
    ctx.eq(&x.snap.req_get(want[0]), &Some(want[1].as_bytes().to_vec()), "req-headers", "header of the request");
    ctx.eq(&x.snap.res_status_number, &200, "status", "status");
    ctx.eqb(&x.res_body, &text, "res-body", "response body");
    ctx.eq(&(r.conn_flags & 2), &0, "extra-flag", "data after HTTP/0.9 reported");
    if next {
        ctx.eq(&t[pre + 1].snap.uri, &Some(b"/next".to_vec()), "uri", "URI of the next request");
        ctx.eq(&t[pre + 1].snap.res_status_number, &201, "status", "status of the next exchange");
    }
    let told = r.logs.iter().any(|l| l.0 == L::REQUEST_LINE_NO_PROTOCOL);
    ctx.eq(&told, &!named, "log", "missing protocol logged");
    ctx.obs(if named { "lines naming HTTP/0.9" } else { "lines without protocol before headers" }, 1);
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C26",
        case,
        quick: 160_000,
        thorough: 800000,
        rule: "hash of the sequence of data calls",
        need: &["HTTP/0.9 exchanges", "HTTP/0.9 requests without an answer", "client data after an HTTP/0.9 request", "gaps in an HTTP/0.9 answer", "white space behind the line", "HTTP/0.9 after other exchanges", "lines naming HTTP/0.9", "lines without protocol before headers"],
        assumptions: &["the line of an HTTP/0.9 request ends a segment, or nothing but at most 16 bytes of white space follow it there", "the answer to it begins a segment"],
        mem: 0, asan: &[],
    }]
}
