//! C19: CONNECT and Upgrade.
use crate::drive::*;
use crate::fw::*;
use crate::gen::*;
use crate::p_conv::{base_cfg, collect, exec, order, Tx};
use crate::rng::Rng;
use htp::connection_parser::HtpStreamState as S;

const HOSTS: [&str; 5] = ["example.org:443", "10.0.0.1:8443", "[::1]:443", "a-b.example:80", "h:65535"];

fn head(rng: &mut Rng, line: &str, extra: &[(&str, String)]) -> Vec<u8> {
    let mut v = format!("{}\r\n", line).into_bytes();
    let mut h: Vec<String> = extra.iter().map(|(n, x)| format!("{}: {}\r\n", n, x)).collect();
    for i in 0..rng.below(3) {
        h.push(format!("X-{}: {}\r\n", i, rng.below(1000)));
    }
    for x in h {
        v.extend_from_slice(x.as_bytes());
    }
    v.extend_from_slice(b"\r\n");
    v
}

/// Bytes no HTTP request starts with.
fn opaque(rng: &mut Rng) -> Vec<u8> {
    let n = if rng.chance(1, 100) { *rng.pick(&[300usize, 1100, 4200, 9000]) } else { rng.range(1, 60) };
    let mut v: Vec<u8> = match rng.below(4) {
        0 => {
            // TLS client hello
            let mut v = vec![0x16, 3, 1, 2, 0, 1];
            v.extend(rng.bytes(n));
            v
        }
        1 => rng.bytes(n),
        2 => b"SSH-2.0-OpenSSH_9.6\r\n".to_vec(),
        _ => {
            let mut v = rng.word(b"abcdefghijklmnop", 1, 8);
            v.extend_from_slice(b" / HTTP/1.1\r\nHost: inner\r\nContent-Length: 3\r\n\r\n");
            v
        }
    };
    // the probe looks at the first line: the first byte makes sure that it names no method
    v[0] = *rng.pick(&[0x16u8, b'z', b'7', 0xff, b'S']);
    if v[0] == b'S' && v.len() > 1 {
        v[1] = b'~';
    }
    v
}
/// Anything at all, HTTP look-alikes in front.
fn junk(rng: &mut Rng) -> Vec<u8> {
    if rng.chance(1, 600) {
        let n = *rng.pick(&[5000usize, 20_000, 70_000]);
        return content(rng, n);
    }
    match rng.below(5) {
        0 => b"GET /inside HTTP/1.1\r\nHost: x\r\n\r\n".to_vec(),
        1 => b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n".to_vec(),
        2 => b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n".to_vec(),
        3 => b"\r\n\r\n\0\n".to_vec(),
        _ => {
            let n = rng.range(1, 80);
            rng.bytes(n)
        }
    }
}
fn pieces(rng: &mut Rng, req: bool, b: &[u8], ops: &mut Vec<Op>) {
    let m = if b.len() > 5000 { *rng.pick(&[0usize, 0, 2]) } else { rng.below(5) };
    for p in split(rng, b, m) {
        ops.push(if req { Op::Req(p) } else { Op::Res(p) });
    }
}

struct Want {
    method: Vec<u8>,
    uri: Vec<u8>,
    status: i32,
    req_entity: Vec<u8>,
    res_entity: Vec<u8>,
}
fn want(q: &Msg, s: &Msg) -> Want {
    Want { method: q.method.clone(), uri: q.uri.clone(), status: s.status as i32, req_entity: q.entity.clone(), res_entity: s.entity.clone() }
}
fn matches(ctx: &mut Ctx, t: &[Tx], w: &[Want]) {
    for (i, (x, w)) in t.iter().zip(w).enumerate() {
        ctx.eq(&x.snap.index, &i, "index", "order of completion");
        ctx.eq(&x.snap.method, &Some(w.method.clone()), "method", &format!("method of tx {}", i));
        ctx.eq(&x.snap.uri, &Some(w.uri.clone()), "uri", &format!("URI of tx {}", i));
        ctx.eq(&x.snap.res_status_number, &w.status, "status", &format!("status of tx {}", i));
        ctx.eqb(&x.req_body, &w.req_entity, "req-body", &format!("request body of tx {}", i));
        ctx.eqb(&x.res_body, &w.res_entity, "res-body", &format!("response body of tx {}", i));
    }
}

fn case(ctx: &mut Ctx, rng: &mut Rng) {
    let o = Opts { max_body: 150, close: false, interim: false, compress: false, hdrs: 2, lf_only: false, ..Opts::default() };
    let mut cfg = base_cfg(rng);
    let destroy = rng.chance(1, 3);
    cfg.set_tx_auto_destroy(destroy);
    let mut ops = vec![];
    let mut w: Vec<Want> = vec![];
    let pre = if rng.chance(1, 600) { *rng.pick(&[20, 70, 260]) } else { rng.below(3) };
    // the exchanges before: one after the other, or all requests pipelined in front of the one that may open the tunnel
    let ahead = pre > 0 && rng.chance(1, 3);
    let (mut qa, mut sa) = (vec![], vec![]);
    for i in 0..pre {
        let q = request(rng, &o, i);
        let s = response(rng, &o, &q, false);
        if ahead {
            qa.extend_from_slice(&q.wire);
            sa.extend_from_slice(&s.wire);
        } else {
            pieces(rng, true, &q.wire, &mut ops);
            pieces(rng, false, &s.wire, &mut ops);
        }
        w.push(want(&q, &s));
    }
    if ahead {
        ctx.obs("tunnels behind pipelined requests", 1);
    }
    let kind = rng.below(5);
    let host = *rng.pick(&HOSTS);
    let connect = kind < 3;
    // the exchange that may open a tunnel
    let (q, uri, method): (Vec<u8>, Vec<u8>, &[u8]) = if connect {
        let l = format!("CONNECT {} HTTP/1.{}", host, rng.below(2));
        (head(rng, &l, &[("Host", host.to_string())]), host.as_bytes().to_vec(), b"CONNECT")
    } else {
        let u = format!("/up{}", rng.below(100));
        let m = *rng.pick(&["GET", "OPTIONS"]);
        let up = rng.pick(&["h2c", "websocket", "H2C", "TLS/1.0, h2c"]).to_string();
        (head(rng, &format!("{} {} HTTP/1.1", m, u), &[("Host", "x".into()), ("Connection", "Upgrade".into()), ("Upgrade", up)]), u.into_bytes(), m.as_bytes())
    };
    if connect && rng.chance(1, 10) {
        // an interim answer changes nothing
        sa.extend_from_slice(b"HTTP/1.1 100 Continue\r\n\r\n");
        ctx.obs("CONNECT with an interim answer", 1);
    }
    let qlen = q.len();
    let q = [qa, q].concat();
    let sa: &[u8] = &sa;
    match kind {
        0 => {
            // a tunnel with opaque content
            let st = *rng.pick(&[200u16, 200, 201, 204, 226, 299]);
            let l = format!("HTTP/1.1 {} Connection established", st);
            let extra: Vec<(&str, String)> = match rng.below(4) {
                0 => vec![("Content-Length", "0".into())],
                // a body announced by a successful answer to CONNECT does not exist
                1 => vec![("Content-Length", rng.range(1, 50).to_string())],
                2 => vec![("Transfer-Encoding", "chunked".into())],
                _ => vec![],
            };
            let s = head(rng, &l, &extra);
            let first = opaque(rng);
            let mut line = first.clone();
            if !line.contains(&b'\n') && !line.contains(&0) {
                line.push(*rng.pick(&[b'\n', 0]));
            }
            let early = rng.chance(1, 3);
            if early {
                // client sends ahead of the answer
                let mut b = q.clone();
                b.extend_from_slice(&line);
                pieces(rng, true, &b, &mut ops);
                pieces(rng, false, &[sa, &s].concat(), &mut ops);
            } else {
                pieces(rng, true, &q, &mut ops);
                pieces(rng, false, &[sa, &s].concat(), &mut ops);
                pieces(rng, true, &line, &mut ops);
            }
            let mark = ops.len();
            let many = if rng.chance(1, 200) { 60 } else { 1 };
            for _ in 0..rng.range(1, 5) * many {
                let j = junk(rng);
                let r = rng.flip();
                if rng.chance(1, 12) {
                    // missing bytes are no different
                    ops.push(if r { Op::ReqGap(j.len()) } else { Op::ResGap(j.len()) });
                    ctx.obs("gaps in tunnels", 1);
                    continue;
                }
                pieces(rng, r, &j, &mut ops);
            }
            w.push(Want { method: method.to_vec(), uri, status: st as i32, req_entity: vec![], res_entity: vec![] });
            run(ctx, cfg, &ops, Some(mark), &w, pre, qlen, connect, Some((S::TUNNEL, rng.flip())));
            ctx.obs("CONNECT tunnels with opaque data", 1);
        }
        1 => {
            // plain HTTP inside of the tunnel
            let st = *rng.pick(&[200u16, 201, 204, 299]);
            let l = format!("HTTP/1.1 {} OK", st);
            let s = head(rng, &l, &[]);
            pieces(rng, true, &q, &mut ops);
            pieces(rng, false, &[sa, &s].concat(), &mut ops);
            w.push(Want { method: method.to_vec(), uri, status: st as i32, req_entity: vec![], res_entity: vec![] });
            for i in 0..rng.range(1, 3) {
                let q = request(rng, &o, pre + 1 + i);
                let s = response(rng, &o, &q, false);
                pieces(rng, true, &q.wire, &mut ops);
                pieces(rng, false, &s.wire, &mut ops);
                w.push(want(&q, &s));
            }
            run(ctx, cfg, &ops, None, &w, pre, qlen, connect, None);
            ctx.obs("CONNECT tunnels with HTTP inside", 1);
        }
        2 => {
            // no tunnel
            let mut s = response(rng, &o, &Msg { method: b"CONNECT".to_vec(), ..Msg::default() }, false);
            let mut n = 0;
            while s.status < 300 {
                s = response(rng, &o, &Msg { method: b"CONNECT".to_vec(), ..Msg::default() }, false);
                n += 1;
                if n > 200 {
                    return;
                }
            }
            w.push(Want { method: method.to_vec(), uri, status: s.status as i32, req_entity: vec![], res_entity: s.entity.clone() });
            let more = rng.below(4);
            let rest: Vec<(Msg, Msg)> = (0..more)
                .map(|i| {
                    let q = request(rng, &o, pre + 1 + i);
                    let s = response(rng, &o, &q, false);
                    (q, s)
                })
                .collect();
            for x in &rest {
                w.push(want(&x.0, &x.1));
            }
            // 407 makes the client repeat its request: nothing is sent ahead of it
            if s.status != 407 && rng.flip() {
                // everything is pipelined behind the CONNECT
                let mut b = q.clone();
                for x in &rest {
                    b.extend_from_slice(&x.0.wire);
                }
                pieces(rng, true, &b, &mut ops);
                let mut b = [sa, &s.wire].concat();
                for x in &rest {
                    b.extend_from_slice(&x.1.wire);
                }
                pieces(rng, false, &b, &mut ops);
                ctx.obs("refused CONNECT with pipelined requests", 1);
            } else {
                pieces(rng, true, &q, &mut ops);
                pieces(rng, false, &[sa, &s.wire].concat(), &mut ops);
                for x in &rest {
                    pieces(rng, true, &x.0.wire, &mut ops);
                    pieces(rng, false, &x.1.wire, &mut ops);
                }
            }
            // the end of a request is noticed with the next request or the end of the stream
            ops.push(Op::Close);
            run(ctx, cfg, &ops, None, &w, pre, qlen, connect, None);
            ctx.obs("refused CONNECT", 1);
        }
        3 => {
            // 101 without a body: a tunnel
            let up = *rng.pick(&["h2c", "websocket", "H2C", "TLS/1.0", "h2c, websocket", "hh22c", "x-h2c", "h2"]);
            let mut ex: Vec<(&str, String)> = vec![("Connection", "Upgrade".into())];
            let has = rng.chance(5, 6);
            if has {
                ex.push(("Upgrade", up.into()));
            }
            let h2 = has && up.to_ascii_lowercase().contains("h2c");
            let s = head(rng, "HTTP/1.1 101 Switching Protocols", &ex);
            let mut q = q;
            if rng.chance(1, 4) {
                // the server need not wait for the end of what the client sends
                let e: &[u8] = match rng.below(4) {
                    0 => b"GET /nex",
                    1 => b"GET /next HTTP/1.1\r\nHo",
                    2 => b"POST /next HTTP/1.1\r\nHost: a\r\nContent-Length: 100\r\n\r\nabcdef",
                    _ => b"POST /next HTTP/1.1\r\nHost: a\r\nTransfer-Encoding: chunked\r\n\r\n20\r\nabcdef",
                };
                q.extend_from_slice(e);
                ctx.obs("upgrades while the client sends", 1);
            } else if rng.chance(1, 8) {
                // nor for the end of the request it answers
                let at = q.len() - qlen;
                let at = at + q[at..].iter().position(|b| *b == b'\n').unwrap() + 1;
                let (h, b): (&[u8], &[u8]) = if rng.flip() { (b"Content-Length: 100\r\n", b"abcdef") } else { (b"Transfer-Encoding: chunked\r\n", b"20\r\nabc") };
                q.splice(at..at, h.iter().copied());
                q.extend_from_slice(&b[..rng.range(0, b.len())]);
                ctx.obs("upgrades before the end of the request", 1);
            }
            pieces(rng, true, &q, &mut ops);
            pieces(rng, false, &[sa, &s].concat(), &mut ops);
            let mark = ops.len();
            let many = if rng.chance(1, 200) { 60 } else { 1 };
            for _ in 0..rng.range(1, 5) * many {
                let j = junk(rng);
                let r = rng.flip();
                if rng.chance(1, 12) {
                    // missing bytes are no different
                    ops.push(if r { Op::ReqGap(j.len()) } else { Op::ResGap(j.len()) });
                    ctx.obs("gaps in tunnels", 1);
                    continue;
                }
                pieces(rng, r, &j, &mut ops);
            }
            let mut d = Driver::new(cfg).snap_at(&[K::TxComplete, K::ResHeaders]);
            ctx.input = format!("destroy={}\n{}", destroy, show_ops(&ops));
            let mut at = 0;
            for (i, op) in ops.iter().enumerate() {
                if i == mark {
                    at = REC.with(|r| r.borrow().evs.len());
                }
                d.feed(op);
            }
            let r = d.finish();
            tunnel(ctx, &r, &ops, at, mark);
            order(ctx, &r, true);
            let e = r.evs.iter().find(|e| e.k == K::ResHeaders && e.tx == pre);
            if ctx.check(e.is_some(), "no-headers", || "the 101 response was not reported".into()) {
                let sn = e.unwrap().snap.as_ref().unwrap();
                ctx.eq(&sn.uri, &Some(uri), "uri", "URI of the upgrade");
                ctx.eq(&sn.res_status_number, &101, "status", "status of the upgrade");
                ctx.eq(&sn.h2_upgrade, &h2, "h2c", &format!("HTTP/2 upgrade with Upgrade {:?}", if has { up } else { "-" }));
            }
            let t = collect(&r);
            matches(ctx, &t, &w);
            ctx.obs("upgrades", 1);
            ctx.obs("HTTP/2 upgrades", h2 as u64);
        }
        _ => {
            // 101 that announces a body is not a switch
            let n = rng.range(1, 30);
            let mut e = rng.word(b"abcxyz", n, n);
            e[0] = b'a';
            let up = *rng.pick(&["h2c", "websocket"]);
            let ch = rng.flip();
            let mut s = if ch {
                head(rng, "HTTP/1.1 101 Switching Protocols", &[("Upgrade", up.into()), ("Transfer-Encoding", "chunked".into())])
            } else {
                head(rng, "HTTP/1.1 101 Switching Protocols", &[("Upgrade", up.into()), ("Content-Length", n.to_string())])
            };
            if ch {
                s.extend_from_slice(format!("{:x}\r\n", n).as_bytes());
            }
            s.extend_from_slice(&e);
            if ch {
                s.extend_from_slice(b"\r\n0\r\n\r\n");
            }
            pieces(rng, true, &q, &mut ops);
            pieces(rng, false, &[sa, &s].concat(), &mut ops);
            w.push(Want { method: method.to_vec(), uri, status: 101, req_entity: vec![], res_entity: e });
            for i in 0..rng.below(3) {
                let q = request(rng, &o, pre + 1 + i);
                let s = response(rng, &o, &q, false);
                pieces(rng, true, &q.wire, &mut ops);
                pieces(rng, false, &s.wire, &mut ops);
                w.push(want(&q, &s));
            }
            run(ctx, cfg, &ops, None, &w, pre, qlen, connect, None);
            ctx.obs("101 responses with a body", 1);
        }
    }
}

/// After the mark nothing may be parsed, everything is counted.
fn tunnel(ctx: &mut Ctx, r: &Run, ops: &[Op], at: usize, mark: usize) {
    ctx.check(r.evs.len() == at, "callback-in-tunnel", || format!("{:?} of tx {} while tunnelling", r.evs[at].k, r.evs[at].tx));
    let n: usize = ops[mark..].iter().map(|o| match o {
        Op::Req(b) | Op::Res(b) => b.len(),
        Op::ReqGap(n) | Op::ResGap(n) => *n,
        _ => 0,
    }).sum();
    ctx.obs("tunnelled bytes", n as u64);
    let calls = r.calls.len() - (ops.len() - mark);
    for c in &r.calls[calls.min(r.calls.len())..] {
        ctx.check(c.ret == S::TUNNEL, "state", || format!("{} call in a tunnel returned {:?}", if c.req { "request" } else { "response" }, c.ret));
    }
    for q in [true, false] {
        let sum: usize = ops.iter().map(|o| match o {
            Op::Req(b) if q => b.len(),
            Op::Res(b) if !q => b.len(),
            Op::ReqGap(n) if q => *n,
            Op::ResGap(n) if !q => *n,
            _ => 0,
        }).sum();
        let got = if q { r.req_counter } else { r.res_counter };
        // what a blocked call gave back is offered, and counted, again
        let again: usize = r.calls.iter().filter(|c| c.req == q && c.ret == S::DATA_OTHER).map(|c| c.len - c.consumed.min(c.len)).sum();
        ctx.eq(&got, &((sum + again) as u64), "counter", "bytes counted");
    }
}

#[allow(clippy::too_many_arguments)]
fn run(ctx: &mut Ctx, cfg: htp::config::Config, ops: &[Op], mark: Option<usize>, w: &[Want], pre: usize, _qlen: usize, connect: bool, tun: Option<(S, bool)>) {
    ctx.input = show_ops(ops);
    ctx.seen(ctx.input.clone().as_bytes());
    ctx.sample(|| crate::p_conv::ctx_input_short(ops));
    let r = if let Some(m) = mark {
        let mut d = Driver::new(cfg).snap_at(&[K::TxComplete, K::ResHeaders]);
        let mut at = 0;
        for (i, op) in ops.iter().enumerate() {
            if i == m {
                at = REC.with(|r| r.borrow().evs.len());
            }
            d.feed(op);
        }
        let r = d.finish();
        tunnel(ctx, &r, ops, at, m);
        r
    } else {
        exec(cfg, ops)
    };
    ctx.obs("callbacks", r.evs.len() as u64);
    order(ctx, &r, true);
    crate::p_conv::no_mutual_wait(ctx, &r);
    if connect {
        // what follows a CONNECT is not looked at before the answer to it has been seen
        let head_end = r.evs.iter().position(|e| e.k == K::ReqHeaders && e.tx == pre);
        let line = r.evs.iter().position(|e| e.k == K::ResLine && e.tx == pre);
        if let (Some(a), Some(b)) = (head_end, line) {
            let n = r.evs[a + 1..b.max(a + 1)].iter().filter(|e| crate::p_conv::is_req(e.k)).count();
            ctx.eq(&n, &0, "premature", "request callbacks between the head of a CONNECT and its answer");
        } else {
            ctx.fail("incomplete", "the CONNECT exchange was not reported".into());
        }
    }
    let t = collect(&r);
    if tun.is_some() {
        // the CONNECT exchange itself: reported with the answer it got
        matches(ctx, &t, &w[..pre]);
        let e = r.evs.iter().find(|e| e.k == K::ResHeaders && e.tx == pre).and_then(|e| e.snap.as_ref());
        if ctx.check(e.is_some(), "no-headers", || "the answer to CONNECT was not reported".into()) {
            ctx.eq(&e.unwrap().res_status_number, &w[pre].status, "status", "status of the CONNECT");
            ctx.eq(&e.unwrap().uri, &Some(w[pre].uri.clone()), "uri", "URI of the CONNECT");
        }
        ctx.eq(&r.count(K::ResComplete, pre), &1, "complete", "completions of the answer to CONNECT");
        ctx.eq(&r.cat(K::ResBody, pre).len(), &0, "res-body", "body bytes of the answer to CONNECT");
        return;
    }
    if !ctx.check(!r.stuck && r.leftover == (0, 0), "stuck", || format!("input left unconsumed: {:?}", r.leftover))
        || !ctx.check(t.len() == w.len(), "tx-count", || format!("{} transactions completed, {} exchanged\n{:?}", t.len(), w.len(), r.logs))
    {
        return;
    }
    matches(ctx, &t, w);
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C19",
        case,
        quick: 240_000,
        thorough: 800000,
        rule: "hash of the sequence of data calls",
        need: &["gaps in tunnels", "CONNECT tunnels with opaque data", "CONNECT tunnels with HTTP inside", "refused CONNECT", "refused CONNECT with pipelined requests", "tunnels behind pipelined requests", "upgrades", "upgrades while the client sends", "upgrades before the end of the request", "CONNECT with an interim answer", "HTTP/2 upgrades", "101 responses with a body"],
        assumptions: &["the client is the first to speak inside of a CONNECT tunnel"],
        mem: 0, asan: &[],
    }]
}
