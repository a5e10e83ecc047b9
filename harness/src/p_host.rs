//! C01 (memory safety and totality) and C02 (contract of the data calls) over hostile workloads.
use crate::drive::*;
use crate::fw::*;
use crate::gen;
use crate::p_conv::{is_req, PERS};
use crate::rng::Rng;
use htp::config::{Config, HtpUnwanted, HtpUrlEncodingHandling};
use htp::connection_parser::HtpStreamState as S;

const WORDS: &[&[u8]] = &[
    b"\r\n", b"\n", b"\r", b"\r\n\r\n", b"\n\n", b"\r\r\n", b"\n\r", b"\0", b" ", b"\t", b":", b": ", b",", b";", b"=", b"%", b"%u", b"%00", b"/", b"..", b"?", b"#", b"@", b"[", b"]",
    b"HTTP/1.1", b"HTTP/1.0", b"HTTP", b"HTTP/1.1 200 OK\r\n", b"HTTP/1.1 100 Continue\r\n\r\n", b"HTTP/1.1 101 Switching Protocols\r\n", b"HTTP/1.1 304 x\r\n\r\n",
    b"GET / HTTP/1.1\r\n", b"POST /p HTTP/1.1\r\n", b"HEAD /h HTTP/1.0\r\n", b"CONNECT h:443 HTTP/1.1\r\n", b"PUT /f\r\n", b"GET", b"POST ", b"CONNECT ",
    b"Content-Length: ", b"Content-Length: 5\r\n", b"Content-Length: 18446744073709551615\r\n", b"Content-Length: 9223372036854775807\r\n", b"Content-Length: -1\r\n",
    b"Transfer-Encoding: chunked\r\n", b"Transfer-Encoding: gzip, chunked\r\n", b"Content-Encoding: gzip\r\n", b"Content-Encoding: deflate\r\n", b"Content-Encoding: lzma\r\n",
    b"Content-Encoding: gzip, deflate, lzma\r\n", b"Content-Encoding: br\r\n", b"Expect: 100-continue\r\n", b"Upgrade: h2c\r\n", b"Host: a.b:80\r\n", b"Host: [::1]:99999\r\n", b"Host:\r\n",
    b"Authorization: Basic ", b"Authorization: Digest username=\"", b"Authorization: Bearer ", b"Content-Type: multipart/byteranges; boundary=x\r\n", b"Content-Type: a/b;c\r\n",
    b"0\r\n\r\n", b"5\r\nhello\r\n", b"7fffffff\r\n", b"80000000\r\n", b"ffffffffffffffff\r\n", b"1;ext=1\r\nx\r\n", b"0\r\nTrailer: x\r\n\r\n", b"-1\r\n", b"g\r\n",
    b"\x1f\x8b", b"\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\x03", b"\x1f\x8b\x08\x1c\x00\x00\x00\x00\x00\x03\xff\xff", b"x\x9c", b"\x5d\x00\x00\x80\x00", b"\xff\xff\xff\xff", b"\xc0\xaf", b"\xe2\x82\xac", b"\xef\xbb\xbf",
    b"http://u:p@h:80/p?q#f", b"//", b"http://", b"http:///", b"*", b"\\", b"%c0%af", b"%u00e9", b"&a=b", b"65536", b"99999999999999999999",
];

fn unwanted(rng: &mut Rng) -> HtpUnwanted {
    match rng.below(4) {
        0 => HtpUnwanted::CODE_400,
        1 => HtpUnwanted::CODE_404,
        _ => HtpUnwanted::IGNORE,
    }
}
/// Any configuration a caller can make.
pub fn any_cfg(rng: &mut Rng) -> (Config, String) {
    let mut c = Config::default();
    let mut s = String::new();
    if rng.chance(2, 3) {
        let p = *rng.pick(&PERS);
        let _ = c.set_server_personality(p);
        s += &format!("{:?} ", p);
    }
    let mut on = |rng: &mut Rng, n: &str, f: &mut dyn FnMut(&mut Rng, bool)| {
        if rng.chance(1, 4) {
            let v = rng.flip();
            f(rng, v);
            s += &format!("{}={} ", n, v);
        }
    };
    on(rng, "dd_path", &mut |_, v| c.set_double_decode_normalized_path(v));
    on(rng, "dd_query", &mut |_, v| c.set_double_decode_normalized_query(v));
    on(rng, "urlencoded", &mut |_, v| c.set_parse_urlencoded(v));
    on(rng, "space", &mut |_, v| c.set_allow_space_uri(v));
    on(rng, "destroy", &mut |_, v| c.set_tx_auto_destroy(v));
    on(rng, "flush", &mut |_, v| c.set_flush_incomplete(v));
    on(rng, "invalid", &mut |r, v| {
        c.set_url_encoding_invalid_handling(if v { HtpUrlEncodingHandling::REMOVE_PERCENT } else { HtpUrlEncodingHandling::PROCESS_INVALID });
        c.set_url_encoding_invalid_unwanted(unwanted(r));
    });
    on(rng, "nulraw", &mut |_, v| c.set_nul_raw_terminates(v));
    on(rng, "nulenc", &mut |_, v| c.set_nul_encoded_terminates(v));
    on(rng, "uenc", &mut |r, v| {
        c.set_u_encoding_decode(v);
        c.set_u_encoding_unwanted(unwanted(r));
    });
    on(rng, "backslash", &mut |_, v| c.set_backslash_convert_slashes(v));
    on(rng, "sepdec", &mut |_, v| c.set_path_separators_decode(v));
    on(rng, "sepcomp", &mut |_, v| c.set_path_separators_compress(v));
    on(rng, "plus", &mut |_, v| c.set_plusspace_decode(v));
    on(rng, "lower", &mut |_, v| c.set_convert_lowercase(v));
    on(rng, "bestfit", &mut |r, v| {
        c.set_utf8_convert_bestfit(v);
        c.set_bestfit_replacement_byte(r.below(256) as u8);
    });
    on(rng, "ctl", &mut |r, _| c.set_control_chars_unwanted(unwanted(r)));
    on(rng, "lead", &mut |r, _| c.set_requestline_leading_whitespace_unwanted(unwanted(r)));
    on(rng, "all", &mut |_, v| c.set_normalized_uri_include_all(v));
    on(rng, "auth", &mut |_, v| c.parse_request_auth = v);
    on(rng, "resdec", &mut |_, v| c.response_decompression_enabled = v);
    let reqdec = rng.flip();
    c.set_request_decompression(reqdec);
    if rng.chance(1, 3) {
        let n = *rng.pick(&[1usize, 10, 50, 100, 1000, 20000]);
        c.set_field_limit(n);
        s += &format!("field_limit={} ", n);
    }
    if rng.chance(1, 6) {
        c.max_tx = rng.range(0, 4) as u32;
        s += &format!("max_tx={} ", c.max_tx);
    }
    if rng.chance(1, 3) {
        let l = if rng.chance(1, 4) { None } else { Some(rng.below(4) as u32) };
        c.set_decompression_layer_limit(l);
        let z = if rng.chance(1, 4) { None } else { Some(rng.below(3) as u32) };
        c.compression_options.set_lzma_layers(z);
        c.compression_options.set_bomb_limit(*rng.pick(&[0u64, 1, 1000, 1 << 20]));
        c.compression_options.set_bomb_ratio(*rng.pick(&[0u64, 1, 100, u64::MAX]));
        c.compression_options.set_lzma_memlimit(*rng.pick(&[0usize, 1, 1 << 16, 1 << 20]));
        s += &format!("layers={:?} lzma={:?} ", l, z);
    }
    c.compression_options.set_time_limit(4_000_000_000);
    (c, s)
}

pub fn mutate(rng: &mut Rng, b: &mut Vec<u8>) {
    let n = if rng.chance(1, 3) { 0 } else { rng.range(1, 6) };
    for _ in 0..n {
        let l = b.len();
        let at = rng.range(0, l);
        match rng.below(11) {
            0 if l > 0 => b[at.min(l - 1)] = rng.below(256) as u8,
            1 if l > 0 => b[at.min(l - 1)] ^= 1 << rng.below(8),
            2 | 3 | 4 => {
                let w = rng.pick(WORDS);
                b.splice(at..at, w.iter().copied());
            }
            5 if l > 0 => {
                // at a line start or end
                let ends: Vec<usize> = b.iter().enumerate().filter(|(_, c)| **c == b'\n').map(|(i, _)| i + 1).collect();
                if !ends.is_empty() {
                    let at = *rng.pick(&ends);
                    let w = rng.pick(WORDS);
                    b.splice(at..at, w.iter().copied());
                }
            }
            6 if l > 0 => {
                let e = (at + rng.range(1, 20)).min(l);
                b.drain(at..e);
            }
            7 if l > 0 => {
                let e = (at + rng.range(1, 80)).min(l);
                let c = b[at..e].to_vec();
                b.splice(at..at, c);
            }
            8 => b.truncate(at),
            9 => {
                let c = *rng.pick(&[b'A', b' ', b'\t', 0, b'%', b'/', b'9', b'\r', b'\n', 0xff]);
                let k = if rng.chance(1, 30) { 20000 } else { rng.range(1, 200) };
                b.splice(at..at, std::iter::repeat(c).take(k));
            }
            _ => {
                // numbers
                if let Some(i) = b.iter().position(|c| c.is_ascii_digit()) {
                    let e = i + b[i..].iter().take_while(|c| c.is_ascii_digit()).count();
                    let w = *rng.pick(&[&b"0"[..], b"1", b"65535", b"65536", b"2147483647", b"4294967296", b"18446744073709551615", b"99999999999999999999999", b"-1", b""]);
                    b.splice(i..e, w.iter().copied());
                }
            }
        }
    }
}
fn soup(rng: &mut Rng) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..rng.range(1, 25) {
        if rng.chance(4, 5) {
            v.extend_from_slice(*rng.pick(WORDS));
        } else {
            let n = rng.range(1, 12);
            v.extend(rng.bytes(n));
        }
    }
    v
}
fn special(rng: &mut Rng) -> (Vec<u8>, Vec<u8>) {
    let (q, s): (&[u8], &[u8]) = *rng.pick(&[
        (&b"CONNECT h:443 HTTP/1.1\r\nHost: h\r\n\r\n\x16\x03\x01tls"[..], &b"HTTP/1.1 200 OK\r\n\r\n\x16\x03tls"[..]),
        (b"CONNECT h:443 HTTP/1.1\r\nHost: h\r\n\r\nGET / HTTP/1.1\r\nHost: h\r\n\r\n", b"HTTP/1.1 200 OK\r\n\r\nHTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nab"),
        (b"CONNECT h:443 HTTP/1.1\r\nHost: h\r\n\r\nGET / HTTP/1.1\r\nHost: h\r\n\r\n", b"HTTP/1.1 407 no\r\nContent-Length: 2\r\n\r\nabHTTP/1.1 200 OK\r\n\r\n"),
        (b"GET / HTTP/1.1\r\nUpgrade: h2c\r\nHost: h\r\n\r\nPRI * HTTP/2.0\r\n\r\n", b"HTTP/1.1 101 Switching Protocols\r\nUpgrade: h2c\r\n\r\n\0\0\x12\x04"),
        (b"POST / HTTP/1.1\r\nExpect: 100-continue\r\nContent-Length: 5\r\nHost: h\r\n\r\nhelloGET /2 HTTP/1.1\r\nHost: h\r\n\r\n", b"HTTP/1.1 100 Continue\r\n\r\nHTTP/1.1 417 no\r\nContent-Length: 0\r\n\r\nHTTP/1.1 200 OK\r\n\r\n"),
        (b"GET /\r\n", b"just a body"),
        (b"GET /\r\nGET /2\r\n", b"HTTP/0.9 200 OK\r\n\r\nx"),
        (b"HEAD / HTTP/1.1\r\nHost: h\r\n\r\nGET / HTTP/1.1\r\nHost: h\r\n\r\n", b"HTTP/1.1 200 OK\r\nContent-Length: 9\r\n\r\nHTTP/1.1 204 x\r\n\r\nHTTP/1.1 200 OK\r\n\r\nunsolicited"),
        (b"GET / HTTP/1.1\r\nHost: h\r\n\r\n", b"no http at all\r\nsecond line\r\n\r\nbody"),
        (b"POST / HTTP/1.1\r\nHost: h\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nhello\r\n0\r\nA: b\r\n c\r\n\r\nGET /2 HTTP/1.1\r\n\r\n", b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\nnot chunked at all"),
        (b"", b"HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nabcHTTP/1.1 200 OK\r\n\r\n"),
        (b"\r\n\r\n\n \n\0\nGET / HTTP/1.1\n\n", b"\r\n\r\nHTTP/1.1 200\n\n"),
    ]);
    (q.to_vec(), s.to_vec())
}

pub fn streams(rng: &mut Rng) -> (Vec<u8>, Vec<u8>) {
    match rng.below(10) {
        0..=4 => {
            let o = gen::Opts { max_tx: 3, max_body: if rng.chance(1, 20) { 20000 } else { 150 }, compress: rng.flip(), req_compress: rng.flip(), hdrs: 4, ..Default::default() };
            let c = gen::conversation(rng, &o);
            let (mut q, mut s) = (vec![], vec![]);
            for m in &c.req {
                q.extend_from_slice(&m.wire);
            }
            for m in &c.res {
                s.extend_from_slice(&m.wire);
            }
            (q, s)
        }
        5 | 6 => special(rng),
        7 => (soup(rng), soup(rng)),
        8 => {
            // heads with a corrupt compressed body
            let d = gen::content(rng, 400);
            let ce = *rng.pick(&["gzip", "deflate", "lzma", "x-gzip", "gzip, deflate", "lzma,lzma", "deflate, x"]);
            let mut body = match rng.below(4) {
                0 => gen::gzip(rng, &d, 6),
                1 => gen::zlib(&d, 6),
                2 => gen::deflate_raw(&d, 6),
                _ => gen::lzma(&d),
            };
            if rng.chance(1, 2) {
                mutate(rng, &mut body);
            }
            let mut m = |a: &str| {
                let mut v = format!("{}Host: h\r\nContent-Encoding: {}\r\n", a, ce).into_bytes();
                if rng.flip() {
                    v.extend(b"Transfer-Encoding: chunked\r\n\r\n");
                    v.extend(format!("{:x}\r\n", body.len()).bytes());
                    v.extend(&body);
                    v.extend(b"\r\n0\r\n\r\n");
                } else {
                    v.extend(format!("Content-Length: {}\r\n\r\n", body.len() + rng.below(2)).bytes());
                    v.extend(&body);
                }
                v
            };
            (m("POST / HTTP/1.1\r\n"), m("HTTP/1.1 200 OK\r\n"))
        }
        _ => {
            let (a, b) = (rng.range(0, 200), rng.range(0, 200));
            (rng.bytes(a), rng.bytes(b))
        }
    }
}
/// A hostile history of calls.
pub fn hostile(rng: &mut Rng) -> Vec<Op> {
    let (mut q, mut s) = streams(rng);
    mutate(rng, &mut q);
    mutate(rng, &mut s);
    let (mq, ms) = (rng.below(6), rng.below(6));
    let big = q.len().max(s.len()) > 3000;
    let lim = |m: usize| if big && m == 1 { 2 } else { m };
    let mut a: std::collections::VecDeque<Op> = split(rng, &q, lim(mq)).into_iter().map(Op::Req).collect();
    let mut b: std::collections::VecDeque<Op> = split(rng, &s, lim(ms)).into_iter().map(Op::Res).collect();
    let mut ops = vec![];
    let lead = rng.below(4);
    while !a.is_empty() || !b.is_empty() {
        let first = match lead {
            0 => !a.is_empty(),
            1 => b.is_empty(),
            _ => rng.flip(),
        };
        let k = rng.range(1, 4);
        for _ in 0..k {
            if let Some(o) = if first { a.pop_front() } else { b.pop_front() } {
                ops.push(o);
            }
        }
    }
    // faults of the transport
    let noisy = rng.chance(1, 3);
    if noisy {
        for _ in 0..rng.range(1, 4) {
            let i = rng.range(0, ops.len());
            match rng.below(9) {
                0 | 1 if i < ops.len() => {
                    let o = match &ops[i] {
                        Op::Req(b) => Op::ReqGap(b.len()),
                        Op::Res(b) => Op::ResGap(b.len()),
                        o => o.clone(),
                    };
                    ops[i] = o;
                }
                2 => ops.insert(i, Op::ReqGap(rng.range(1, 3000))),
                3 => ops.insert(i, Op::ResGap(rng.range(1, 3000))),
                4 => ops.insert(i, Op::Req(vec![])),
                5 => ops.insert(i, Op::Res(vec![])),
                6 => ops.insert(i, Op::ReqClose),
                7 => ops.insert(i, Op::Close),
                _ if i < ops.len() => {
                    ops.remove(i);
                }
                _ => {}
            }
        }
    }
    for _ in 0..rng.below(3) {
        ops.push(if rng.chance(1, 4) { Op::ReqClose } else { Op::Close });
    }
    ops
}
pub fn some_fault(rng: &mut Rng) -> Option<Fault> {
    if rng.chance(1, 4) {
        Some(Fault { k: *rng.pick(&ALLK), nth: if rng.flip() { 0 } else { rng.below(4) }, status: *rng.pick(&[-1, 0, 4, 2, 3, 5]) })
    } else {
        None
    }
}

fn c01(ctx: &mut Ctx, rng: &mut Rng) {
    let (cfg, desc) = any_cfg(rng);
    let ops = hostile(rng);
    let fault = some_fault(rng);
    let raw = rng.flip();
    ctx.input = format!("{}{:?} {}\n{}", desc, fault, if raw { "raw" } else { "" }, show_ops(&ops));
    ctx.seen(ctx.input.clone().as_bytes());
    let fault_again = fault.as_ref().map_or(false, |f| !matches!(f.status, -1 | 0 | 4));
    let mut d = Driver::new(cfg).with_fault(fault).snap_at(&ALLK);
    for o in &ops {
        if raw {
            d.call(o);
        } else {
            d.feed(o);
        }
        if rng.chance(1, 30) {
            let n = d.p.tx_size();
            for i in 0..n {
                if d.p.tx(i).map_or(false, |t| t.is_complete()) && rng.flip() {
                    d.p.remove_tx(i);
                }
            }
        }
    }
    let r = d.finish();
    ctx.evaluations += r.calls.len() as u64;
    ctx.obs("data calls", r.calls.len() as u64);
    ctx.obs("callbacks", r.evs.len() as u64);
    ctx.obs("transactions", r.txs.len() as u64);
    ctx.obs("log messages", r.logs.len() as u64);
    ctx.obs("faults fired", r.fired as u64);
    ctx.obs("calls that failed", r.calls.iter().filter(|c| c.ret == S::ERROR).count() as u64);
    ctx.obs("tunnels", r.calls.iter().any(|c| c.ret == S::TUNNEL) as u64);
    ctx.obs("gaps", r.calls.iter().filter(|c| c.gap).count() as u64);
    let bodies = r.evs.iter().filter(|e| matches!(e.k, K::ReqBody | K::ResBody)).count();
    ctx.obs("body callbacks", bodies as u64);
    ctx.sample(|| show_ops(&ops).chars().take(400).collect());
    // nothing ever points outside what was offered
    let total: usize = ops.iter().map(|o| match o { Op::Req(b) | Op::Res(b) => b.len(), Op::ReqGap(n) | Op::ResGap(n) => *n, _ => 0 }).sum();
    // (a callback that asks for the data to be offered again gets it again)
    for t in r.txs.iter().filter(|_| !fault_again) {
        ctx.check(t.req_message_len as usize <= total && t.res_message_len as usize <= total, "message-len", || {
            format!("message lengths {} {} of {} bytes offered", t.req_message_len, t.res_message_len, total)
        });
    }
    drop(r);
}

fn c02(ctx: &mut Ctx, rng: &mut Rng) {
    let (cfg, desc) = any_cfg(rng);
    let mut ops = hostile(rng);
    // statuses a callback is documented to return
    let mut fault = some_fault(rng).filter(|f| matches!(f.status, -1 | 0 | 4));
    let raw = rng.flip();
    if rng.chance(1, 40) {
        // one direction comes to its end, then the other one enters a tunnel
        let status = *rng.pick(&[-1, 4]);
        let more = rng.bytes(20);
        let (q, s, k): (&[u8], &[u8], K) = if rng.flip() {
            (b"CONNECT a:1 HTTP/1.1\r\nHost: a:1\r\n\r\n", b"HTTP/1.1 200 OK\r\n\r\n", *rng.pick(&[K::ResComplete, K::TxComplete]))
        } else {
            (b"GET / HTTP/1.1\r\nHost: a\r\nUpgrade: x\r\n\r\n", b"HTTP/1.1 101 S\r\nUpgrade: x\r\n\r\n", *rng.pick(&[K::ReqComplete, K::ReqHeaders, K::ReqLine]))
        };
        ops = vec![Op::Req(q.to_vec()), Op::Res(s.to_vec()), Op::Req(b"\x16\x03\x01\x00\n".to_vec()), Op::Res(more.clone()), Op::Req(more), Op::Close];
        fault = Some(Fault { k, nth: 0, status });
    }
    ctx.input = format!("{}{:?} {}\n{}", desc, fault, if raw { "raw" } else { "" }, show_ops(&ops));
    ctx.seen(ctx.input.clone().as_bytes());
    let mut d = Driver::new(cfg).with_fault(fault.clone());
    for o in &ops {
        if raw {
            d.call(o);
        } else {
            d.feed(o);
        }
    }
    let blocked = d.deadlocked();
    let r = d.finish();
    ctx.check(!r.stuck, "livelock", || "no progress after 10000 calls".into());
    ctx.check(!blocked, "deadlock", || "both sides wait for the other".into());
    for (i, c) in r.calls.iter().enumerate() {
        let w = || format!("call {}: {:?}", i, c);
        let (before, after, other_before, other_after) = if c.req {
            (c.before.0, c.req_status, c.before.1, c.res_status)
        } else {
            (c.before.1, c.res_status, c.before.0, c.req_status)
        };
        let evs = &r.evs[c.evs.0..c.evs.1];
        ctx.check(c.consumed <= c.len, "consumed", w);
        let counted = c.counted.1 - c.counted.0;
        match before {
            S::STOP | S::ERROR => {
                ctx.check(c.ret == before && after == before && evs.is_empty() && c.consumed == 0 && counted == 0, "sticky", w);
                ctx.check(other_before == other_after, "sticky-other", w);
                ctx.obs("calls after STOP or ERROR", 1);
                continue;
            }
            S::TUNNEL if c.len > 0 => {
                ctx.check(c.ret == S::TUNNEL && after == S::TUNNEL && evs.is_empty() && counted == c.len as u64, "tunnel", w);
                ctx.check(other_before == other_after, "tunnel-other", w);
                ctx.obs("calls in tunnel mode", 1);
                continue;
            }
            _ => {}
        }
        if c.len == 0 {
            if before != S::CLOSED {
                ctx.check(c.ret == S::CLOSED && after == before && evs.is_empty() && counted == 0, "empty", w);
                ctx.check(other_before == other_after, "empty-other", w);
                ctx.obs("empty calls while the other side waits", (other_before == S::DATA_OTHER) as u64);
                ctx.obs("empty calls", 1);
            }
            continue;
        }
        ctx.check(counted == c.len as u64, "counted", w);
        match c.ret {
            S::DATA => {
                ctx.check(c.consumed == c.len, "data-consumed", w);
                ctx.check(after == S::DATA, "data-status", w);
            }
            S::DATA_OTHER => {
                ctx.check(c.consumed < c.len, "other-consumed", w);
                ctx.check(after == S::DATA_OTHER, "other-status", w);
                ctx.obs("DATA_OTHER", 1);
            }
            S::STOP => {
                ctx.check(after == S::STOP, "stop-status", w);
                ctx.check(r.fired, "stop-without-cause", w);
                ctx.obs("STOP", 1);
            }
            S::ERROR => {
                ctx.check(after == S::ERROR || c.gap, "error-status", w);
                ctx.obs("ERROR", 1);
            }
            S::TUNNEL => {
                ctx.check(after == S::TUNNEL, "tunnel-status", w);
            }
            S::CLOSED => {
                ctx.check(c.gap, "closed-without-gap", w);
            }
            _ => ctx.fail("return", w()),
        }
        if other_before != after && after == S::TUNNEL && matches!(other_before, S::STOP | S::ERROR) {
            ctx.obs("tunnels beside a finished direction", 1);
        }
        // the other direction
        ctx.check(
            other_before == other_after || (other_before == S::DATA_OTHER && other_after == S::DATA) || (other_after == S::TUNNEL && !matches!(other_before, S::STOP | S::ERROR)),
            "other-side", w,
        );
        for e in evs {
            if e.k != K::TxComplete {
                ctx.check(is_req(e.k) == c.req, "callback-side", || format!("{:?} in {}", e.k, w()));
            }
        }
    }
    for (i, c) in r.closes.iter().enumerate() {
        let w = || format!("close {}: {:?}", i, c);
        let evs = &r.evs[c.evs.0..c.evs.1];
        ctx.check(c.counted == (0, 0), "close-counts", w);
        ctx.obs("closes", 1);
        for (req, before, after) in [(true, c.before.0, c.after.0), (false, c.before.1, c.after.1)] {
            let mine = evs.iter().find(|e| e.k != K::TxComplete && is_req(e.k) == req);
            if matches!(before, S::STOP | S::ERROR) {
                ctx.check(after == before, "close-sticky", w);
                ctx.check(mine.is_none(), "close-callback", || format!("{:?} in {}", mine.unwrap().k, w()));
                ctx.obs("closes after STOP or ERROR", 1);
            } else if c.half && !req {
                ctx.check(mine.is_none(), "half-close-callback", || format!("{:?} in {}", mine.unwrap().k, w()));
                ctx.check(after == before || (before == S::DATA_OTHER && after == S::DATA) || after == S::TUNNEL, "half-close-other", w);
                ctx.obs("half closes", 1);
            }
        }
    }
    ctx.obs("data calls", r.calls.len() as u64);
    ctx.sample(|| show_ops(&ops).chars().take(400).collect());
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01", case: c01, quick: 150_000, thorough: 4_000_000,
            rule: "configuration, history of calls and injected fault",
            need: &["data calls", "callbacks", "body callbacks", "faults fired", "calls that failed", "tunnels", "gaps", "log messages"],
            assumptions: &[], mem: 0, asan: &[("C01", 30000), ("C23", 10000), ("C18", 10000), ("C05", 3000), ("C21", 10000), ("C20", 6000), ("C12", 20000), ("C13", 20000), ("C16", 60000), ("C22", 2000)],
        },
        Prop {
            id: "C02", case: c02, quick: 300_000, thorough: 4_000_000,
            rule: "configuration, history of calls and injected fault",
            need: &["data calls", "calls after STOP or ERROR", "closes after STOP or ERROR", "half closes", "calls in tunnel mode", "tunnels beside a finished direction", "empty calls", "empty calls while the other side waits", "DATA_OTHER", "STOP", "ERROR"],
            assumptions: &[], mem: 0, asan: &[],
        },
    ]
}
