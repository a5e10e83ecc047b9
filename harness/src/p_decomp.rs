//! Content decoding: fidelity and limits.
use crate::drive::*;
use crate::fw::{Ctx, Prop};
use crate::gen::*;
use crate::p_conv::{base_cfg, ctx_input_short};
use crate::rng::Rng;
use std::sync::OnceLock;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Enc {
    Gzip,
    Raw,
    Zlib,
    Lzma,
}
fn enc(rng: &mut Rng, e: Enc, d: &[u8]) -> Vec<u8> {
    let lvl = *rng.pick(&[0u32, 1, 6, 9]);
    match e {
        Enc::Gzip => gzip(rng, d, lvl),
        Enc::Raw => deflate_raw(d, lvl),
        Enc::Zlib => zlib(d, lvl),
        Enc::Lzma => lzma(d),
    }
}
fn case_mix(rng: &mut Rng, s: &str) -> String {
    s.chars().map(|c| if rng.chance(1, 4) { c.to_ascii_uppercase() } else { c }).collect()
}
fn blank(c: Option<&u8>) -> bool {
    matches!(c, Some(b' ' | b'\t' | b'\r' | b'\n'))
}

/// A message carrying `payload`, cut into segments, as data calls. Returns the framing wire length too.
pub fn message(rng: &mut Rng, req: bool, ce: &str, payload: &[u8], framing: usize) -> (Vec<Op>, usize) {
    let mut w = Vec::new();
    if req {
        w.extend_from_slice(b"POST /x HTTP/1.1\r\nHost: h\r\n");
    } else {
        w.extend_from_slice(b"HTTP/1.1 200 OK\r\n");
    }
    if !ce.is_empty() {
        w.extend_from_slice(format!("Content-Encoding: {}\r\n", ce).as_bytes());
    }
    let wire;
    match framing {
        0 => {
            w.extend_from_slice(format!("Content-Length: {}\r\n\r\n", payload.len()).as_bytes());
            wire = payload.len();
            w.extend_from_slice(payload);
        }
        1 => {
            w.extend_from_slice(b"Transfer-Encoding: chunked\r\n\r\n");
            let s = w.len();
            let mut i = 0;
            let max = *rng.pick(&[1usize, 7, 100, 9000, 100_000]);
            let max = max.max(payload.len() / 300);
            while i < payload.len() {
                let n = rng.range(1, max).min(payload.len() - i);
                w.extend_from_slice(format!("{:x}\r\n", n).as_bytes());
                w.extend_from_slice(&payload[i..i + n]);
                w.extend_from_slice(b"\r\n");
                i += n;
            }
            w.extend_from_slice(b"0\r\n");
            wire = w.len() - s;
            w.extend_from_slice(b"\r\n");
        }
        _ => {
            w.extend_from_slice(b"\r\n");
            wire = payload.len();
            w.extend_from_slice(payload);
        }
    }
    let mode = if w.len() > 20000 { *rng.pick(&[0usize, 2, 5]) } else { rng.below(6) };
    let parts = if mode == 5 {
        w.chunks(*rng.pick(&[1460usize, 4096, 700])).map(|c| c.to_vec()).collect()
    } else {
        split(rng, &w, mode)
    };
    (parts.into_iter().map(|p| if req { Op::Req(p) } else { Op::Res(p) }).collect(), wire)
}

/// Several coded messages on one connection: what one of them was coded with does not matter to the others.
fn sequence(ctx: &mut Ctx, rng: &mut Rng) {
    let mut cfg = base_cfg(rng);
    let (on_q, on_s) = (rng.chance(3, 4), rng.chance(3, 4));
    cfg.set_request_decompression(on_q);
    cfg.response_decompression_enabled = on_s;
    cfg.set_tx_auto_destroy(false);
    let k = rng.range(2, 4);
    struct M {
        want: Vec<u8>,
        cut: bool,
        coding: Option<&'static str>,
        wire: usize,
        desc: String,
    }
    let mut all: [Vec<M>; 2] = [vec![], vec![]];
    let mut parts: [Vec<Vec<Vec<u8>>>; 2] = [vec![], vec![]];
    for i in 0..2 * k {
        let side = i % 2;
        let on = if side == 0 { on_q } else { on_s };
        let n = if rng.chance(1, 5) { rng.range(1, 20_000) } else { rng.range(1, 400) };
        let entity = content(rng, n);
        let (mut cut, mut coding) = (false, Some("NONE"));
        let (ce, payload) = match rng.below(10) {
            0 | 1 => (String::new(), entity.clone()),
            2 => (rng.pick(&["br", "identity", "zstd"]).to_string(), entity.clone()),
            3 => {
                coding = Some("LZMA");
                ("lzma".to_string(), lzma(&entity))
            }
            4 => {
                // one field, or two that stand for one
                coding = None;
                let sep = *rng.pick(&[", ", "\r\nContent-Encoding: "]);
                let z = enc(rng, Enc::Gzip, &entity);
                (format!("gzip{}deflate", sep), enc(rng, Enc::Zlib, &z))
            }
            5 => {
                // the stream breaks off
                cut = true;
                coding = Some("GZIP");
                let z = enc(rng, Enc::Gzip, &entity);
                let at = rng.range(1, z.len() - 1);
                ("gzip".to_string(), z[..at].to_vec())
            }
            _ => {
                let (l, e) = *rng.pick(&[("gzip", Enc::Gzip), ("x-gzip", Enc::Gzip), ("deflate", Enc::Raw), ("deflate", Enc::Zlib), ("x-deflate", Enc::Raw)]);
                coding = Some(if e == Enc::Gzip { "GZIP" } else { "DEFLATE" });
                (case_mix(rng, l), enc(rng, e, &entity))
            }
        };
        let framing = if blank(payload.first()) { 1 } else { rng.below(2) };
        let (ops, wire) = message(rng, side == 0, &ce, &payload, framing);
        parts[side].push(ops.into_iter().map(|o| match o {
            Op::Req(b) | Op::Res(b) => b,
            _ => vec![],
        }).collect());
        let desc = format!("{} {} of {}, {}, {} -> {} bytes", ["request", "response"][side], i / 2 + 1, k, ce, payload.len(), entity.len());
        all[side].push(if on { M { want: entity, cut, coding, wire, desc } } else { M { want: payload, cut: false, coding, wire, desc } });
    }
    let mut ops = vec![];
    let op = |side: usize, b: Vec<u8>| if side == 0 { Op::Req(b) } else { Op::Res(b) };
    if rng.flip() {
        for i in 0..k {
            for side in 0..2 {
                ops.extend(parts[side][i].iter().map(|b| op(side, b.clone())));
            }
        }
    } else {
        // one message may begin in the segment in which the one before it ends
        for side in 0..2 {
            let mut v: Vec<Vec<u8>> = vec![];
            for m in &parts[side] {
                for (j, b) in m.iter().enumerate() {
                    match v.last_mut() {
                        Some(l) if j == 0 && rng.flip() => l.extend_from_slice(b),
                        _ => v.push(b.clone()),
                    }
                }
            }
            ops.extend(v.into_iter().map(|b| op(side, b)));
        }
    }
    ops.push(Op::Close);
    ctx.input = show_ops(&ops);
    ctx.obs("data calls", ops.len() as u64);
    ctx.obs("messages of one connection", 2 * k as u64);
    ctx.seen(ctx.input.clone().as_bytes());
    let r = run(cfg, &ops);
    if !ctx.check(r.txs.len() == k, "transactions", || format!("{} transactions, want {}", r.txs.len(), k)) {
        return;
    }
    for side in 0..2 {
        for (i, m) in all[side].iter().enumerate() {
            let t = &r.txs[i];
            let body = r.cat(if side == 0 { K::ReqBody } else { K::ResBody }, i);
            let (wire, done, coding) = if side == 0 { (t.req_message_len, t.req_progress, &t.req_ce) } else { (t.res_message_len, t.res_progress, &t.res_ce) };
            if m.cut {
                ctx.obs("streams broken off", 1);
                ctx.check(m.want.starts_with(&body), "cut", || format!("{} broken off: {} bytes that are no prefix", m.desc, body.len()));
            } else {
                ctx.eqb(&body, &m.want, "body", &m.desc);
            }
            ctx.eq(&wire, &(m.wire as u64), "message-len", &m.desc);
            ctx.check(done == 5, "incomplete", || format!("{}: progress {}", m.desc, done));
            if let Some(c) = m.coding {
                ctx.check(coding == c, "coding", || format!("{}: coding {} reported", m.desc, coding));
            }
        }
    }
}

fn fidelity(ctx: &mut Ctx, rng: &mut Rng) {
    if rng.chance(1, 4) {
        return sequence(ctx, rng);
    }
    let n = match rng.below(10) {
        0 => 1,
        1..=4 => rng.range(1, 300),
        5..=7 => rng.range(1, 9000),
        8 => rng.range(8000, 40_000),
        _ if rng.chance(1, 30) => rng.range(1_000_000, 2_500_000),
        _ => rng.range(1, if ctx.thorough { 600_000 } else { 120_000 }),
    };
    ctx.obs("bodies longer than a million bytes", (n > 1_000_000) as u64);
    let entity = content(rng, n);
    let req = rng.chance(1, 3);
    let mut cfg = base_cfg(rng);
    cfg.set_request_decompression(true);
    cfg.set_tx_auto_destroy(false);
    let mut payload = entity.clone();
    let mut labels = vec![];
    let kind = rng.below(12);
    let mut want = entity.clone();
    let mut layers = 0;
    let what;
    match kind {
        0 => {
            // decompression disabled: verbatim
            payload = enc(rng, Enc::Gzip, &payload);
            labels.push("gzip".to_string());
            want = payload.clone();
            cfg.set_request_decompression(false);
            cfg.response_decompression_enabled = false;
            what = "decompression disabled";
        }
        1 => {
            // not a coding we know: verbatim
            labels.push(rng.pick(&["br", "identity", "compress", "none", "inflate", "zstd"]).to_string());
            what = "unknown coding";
        }
        2 => {
            // mislabelled: the decoder tries the other formats
            let (l, e) = *rng.pick(&[("gzip", Enc::Raw), ("gzip", Enc::Zlib), ("deflate", Enc::Gzip)]);
            labels.push(l.to_string());
            payload = enc(rng, e, &payload);
            layers = 1;
            what = "mislabelled coding";
        }
        3 => {
            payload = enc(rng, Enc::Lzma, &payload);
            labels.push("lzma".to_string());
            layers = 1;
            what = "lzma";
        }
        4..=6 => {
            let k = 2;
            for _ in 0..k {
                if rng.chance(1, 5) && !labels.iter().any(|l| l == "lzma") {
                    labels.push("lzma".to_string());
                    payload = enc(rng, Enc::Lzma, &payload);
                    ctx.obs("lzma and another coding", 1);
                    continue;
                }
                let (l, e) = *rng.pick(&[("gzip", Enc::Gzip), ("x-gzip", Enc::Gzip), ("deflate", Enc::Raw), ("deflate", Enc::Zlib), ("x-deflate", Enc::Zlib)]);
                labels.push(case_mix(rng, l));
                payload = enc(rng, e, &payload);
            }
            layers = k;
            what = "two codings";
        }
        _ => {
            let (l, e) = *rng.pick(&[("gzip", Enc::Gzip), ("x-gzip", Enc::Gzip), ("deflate", Enc::Raw), ("deflate", Enc::Zlib), ("x-deflate", Enc::Raw), ("x-deflate", Enc::Zlib)]);
            labels.push(case_mix(rng, l));
            payload = enc(rng, e, &payload);
            layers = 1;
            what = "one coding";
        }
    }
    if n > 900_000 {
        if labels.iter().any(|l| l == "lzma") {
            return; // more than lzma may use
        }
        if entity.len() > 200 * payload.len() {
            cfg.compression_options.set_bomb_limit(1 << 30); // C06 is about those
        }
    }
    // more data after the end of the compressed stream is ignored (one gzip member)
    let framing = if req { rng.below(2) } else { rng.below(3) };
    if framing != 1 && blank(payload.first()) {
        return; // ambiguous with the end of the header block
    }
    if payload.is_empty() {
        return;
    }
    let ce = labels.join(*rng.pick(&[", ", ",", " , "]));
    let (mut ops, wire) = message(rng, req, &ce, &payload, framing);
    if req {
        ops.push(Op::Res(b"HTTP/1.1 204 No Content\r\nServer: s\r\n\r\n".to_vec()));
    } else {
        ops.insert(0, Op::Req(b"GET /x HTTP/1.1\r\nHost: h\r\n\r\n".to_vec()));
    }
    ops.push(Op::Close);
    ctx.input = show_ops(&ops);
    ctx.obs("data calls", ops.len() as u64);
    ctx.obs(what, 1);
    ctx.obs(if req { "request bodies" } else { "response bodies" }, 1);
    ctx.obs("decoded bytes", entity.len() as u64);
    ctx.seen(&payload);
    ctx.sample(|| ctx_input_short(&ops));
    let r = run(cfg, &ops);
    let body = r.cat(if req { K::ReqBody } else { K::ResBody }, 0);
    let t = &r.txs[0];
    let desc = format!("{} body, {} ({} layers), {} -> {} bytes", if req { "request" } else { "response" }, ce, layers, payload.len(), want.len());
    ctx.eqb(&body, &want, "body", &desc);
    let (e, m) = if req { (t.req_entity_len, t.req_message_len) } else { (t.res_entity_len, t.res_message_len) };
    ctx.eq(&e, &(want.len() as u64), "entity-len", &desc);
    ctx.eq(&m, &(wire as u64), "message-len", &desc);
    let done = if req { t.req_progress } else { t.res_progress };
    ctx.check(done == 5, "incomplete", || format!("{}: progress {}", desc, done));
}

struct Bombs {
    gz: Vec<Vec<u8>>,
    lz: Vec<u8>,
}
fn bombs() -> &'static Bombs {
    static B: OnceLock<Bombs> = OnceLock::new();
    B.get_or_init(|| {
        let mut rng = Rng::new(7);
        let z = vec![0u8; 12 << 20];
        let g1 = gzip_flags(&mut rng, &z, 9, 0);
        let g2 = gzip_flags(&mut rng, &g1, 9, 0);
        let g3 = gzip_flags(&mut rng, &g2, 9, 0);
        Bombs { gz: vec![g1, g2, g3], lz: lzma(&z[..3 << 20]) }
    })
}

/// The time limit: what is not decompressed in time is delivered as it is on the wire.
fn slow(ctx: &mut Ctx, rng: &mut Rng) {
    let req = rng.flip();
    let mut cfg = base_cfg(rng);
    cfg.set_request_decompression(true);
    let over = rng.chance(3, 4);
    // without a setting: 100 ms
    let default = over && rng.chance(1, 4);
    if default {
        cfg.compression_options.set_time_limit(htp::config::Config::default().compression_options.get_time_limit());
    } else {
        cfg.compression_options.set_time_limit(if over { 8000 } else { 4_000_000_000 });
    }
    // waiting for the next data does not count
    let idle = !over && rng.chance(1, 12);
    if idle {
        cfg.compression_options.set_time_limit(1_000_000);
    }
    let n = rng.range(30_000, 60_000);
    let entity: Vec<u8> = (0..n).map(|_| rng.byte()).collect();
    let payload = if rng.flip() { gzip(rng, &entity, 6) } else { zlib(&entity, 6) };
    let ce = if payload[0] == 0x1f { "gzip" } else { "deflate" };
    let mut head = if req { b"POST /x HTTP/1.1\r\nHost: h\r\n".to_vec() } else { b"HTTP/1.1 200 OK\r\n".to_vec() };
    head.extend(format!("Content-Encoding: {}\r\nContent-Length: {}\r\n\r\n", ce, payload.len()).bytes());
    let mut parts = vec![head];
    let mut at = vec![0]; // where in the payload each part ends
    let mut i = 0;
    while i < payload.len() {
        let k = rng.range(1, 9000).min(payload.len() - i);
        parts.push(payload[i..i + k].to_vec());
        i += k;
        at.push(i);
    }
    // one callback takes too long, or several of them together
    let drip = !default && rng.flip();
    let nth = if drip { 3 } else { rng.below(3) };
    let body = if req { K::ReqBody } else { K::ResBody };
    let mut d = Driver::new(cfg);
    REC.with(|r| r.borrow_mut().sleep = Some((body, if drip { 0 } else { nth }, nth, if default { 110 } else if drip { 3 } else { 10 })));
    ctx.input = format!("{} of {} bytes, over {}, default {}, callback {} is slow ({}), parts end at {:?}", ce, n, over, default, nth, drip, at);
    ctx.seen(ctx.input.clone().as_bytes());
    if !req {
        d.feed(&Op::Req(b"GET /x HTTP/1.1\r\nHost: h\r\n\r\n".to_vec()));
    }
    let base = d.calls.len();
    for (i, p) in parts.into_iter().enumerate() {
        if idle && i == 2 {
            std::thread::sleep(std::time::Duration::from_millis(1100));
            ctx.obs("waits longer than the time limit", 1);
        }
        d.feed(&if req { Op::Req(p) } else { Op::Res(p) });
    }
    let r = d.finish();
    let got = r.cat(body, 0);
    let logged = r.logs.iter().any(|l| format!("{:?}", l.0) == "COMPRESSION_BOMB");
    if !over {
        ctx.eqb(&got, &entity, "time-content", "body within the time limit");
        ctx.check(!logged, "time-log", || "reported as a bomb within the time limit".into());
        ctx.obs("within the time limit", 1);
        return;
    }
    // the part whose data the slow callback got
    let Some(call) = r.evs.iter().filter(|e| e.k == body).nth(nth).map(|e| e.call) else { return };
    let last = call.saturating_sub(base).min(at.len() - 1);
    let ok = at[..=last].iter().any(|&c| {
        let rest = &payload[c..];
        got.ends_with(rest) && entity.starts_with(&got[..got.len() - rest.len()])
    });
    ctx.check(ok, "time", || format!("{} bytes delivered of a body of {} ({} on the wire) after the time limit was exceeded in part {}", got.len(), n, payload.len(), last));
    ctx.check(logged, "time-log", || "exceeding the time limit is not reported".into());
    ctx.obs(if drip { "time limit exceeded by several callbacks" } else { "time limit exceeded" }, 1);
}

/// A body whose size, or whose size for its coded size, is exactly the limit, or is not by one byte.
fn exact(ctx: &mut Ctx, rng: &mut Rng) {
    let req = rng.flip();
    let over = rng.flip();
    let mut cfg = base_cfg(rng);
    cfg.set_request_decompression(true);
    let gz = |d: &[u8], pad: usize| {
        let mut v = vec![0x1f, 0x8b, 8, 8, 0, 0, 0, 0, 0, 3];
        v.extend(std::iter::repeat(b'n').take(pad));
        v.push(0);
        v.extend(deflate_raw(d, 9));
        v.extend(crc32(d).to_le_bytes());
        v.extend((d.len() as u32).to_le_bytes());
        v
    };
    let (n, payload, limit, ratio);
    if rng.flip() {
        n = if rng.chance(1, 4) { 8192 * rng.range(1, 3) } else { rng.range(1, 20000) };
        payload = gz(&vec![b'a'; n], 0);
        limit = if over { n - 1 } else { n } as u64;
        ratio = rng.below(2) as u64 * (n as u64 - 1) / payload.len() as u64;
    } else {
        ratio = rng.range(2, 40) as u64;
        let m = rng.range(100, 400);
        n = m * ratio as usize;
        let d = vec![b'a'; n];
        let base = gz(&d, 0).len();
        payload = gz(&d, m - base - over as usize);
        limit = *rng.pick(&[0, n as u64 / 2, n as u64 - 1]);
    }
    cfg.compression_options.set_bomb_limit(limit);
    cfg.compression_options.set_bomb_ratio(ratio);
    let head = format!("{}Content-Encoding: gzip\r\nContent-Length: {}\r\n\r\n", if req { "POST / HTTP/1.1\r\nHost: h\r\n" } else { "HTTP/1.1 200 OK\r\n" }, payload.len()).into_bytes();
    let mut ops = vec![];
    if !req {
        ops.push(Op::Req(b"GET / HTTP/1.1\r\nHost: h\r\n\r\n".to_vec()));
    }
    let parts = if rng.flip() { vec![[&head[..], &payload[..]].concat()] } else { vec![head, payload.clone()] };
    ops.extend(parts.into_iter().map(|p| if req { Op::Req(p) } else { Op::Res(p) }));
    ctx.input = format!("limit {} ratio {} content {} coded {}\n{}", limit, ratio, n, payload.len(), show_ops(&ops));
    ctx.seen(ctx.input.clone().as_bytes());
    let r = run(cfg, &ops);
    let st = r.calls.iter().rev().find(|c| c.req == req && c.len > 0).map(|c| c.ret);
    let tripped = st == Some(htp::connection_parser::HtpStreamState::ERROR);
    ctx.check(tripped == over, "exact", || format!("{} bytes out of {}, limit {} ratio {}: stopped {}", n, payload.len(), limit, ratio, tripped));
    let out = r.cat(if req { K::ReqBody } else { K::ResBody }, 0).len();
    ctx.check(if over { out as u64 > limit.max(ratio * payload.len() as u64) } else { out == n }, "exact-delivered", || format!("{} of {} bytes delivered", out, n));
    ctx.obs("exactly at a limit", 1);
}
fn limits(ctx: &mut Ctx, rng: &mut Rng) {
    if rng.chance(1, 20) {
        return slow(ctx, rng);
    }
    if rng.chance(1, 5) {
        return exact(ctx, rng);
    }
    let req = rng.chance(1, 3);
    let mut cfg = base_cfg(rng);
    cfg.set_request_decompression(true);
    match rng.below(3) {
        0 | 1 => {
            // bombs: what is delivered stays within the configured limits
            let limit = *rng.pick(&[0u64, 1, 1000, 65536, 200_000, 1 << 20, 3_000_000, u64::MAX]);
            let ratio = *rng.pick(&[0u64, 1, 1, 10, 10, 100, 100, 500, 2048, 1 << 60, u64::MAX]);
            // without a setting: 1 MB and 2048
            let (limit, ratio) = if rng.chance(1, 8) {
                ctx.obs("default limits", 1);
                (1 << 20, 2048)
            } else {
                cfg.compression_options.set_bomb_limit(limit);
                cfg.compression_options.set_bomb_ratio(ratio);
                (limit, ratio)
            };
            cfg.compression_options.set_layer_limit(if rng.flip() { None } else { Some(3) });
            cfg.compression_options.set_lzma_layers(Some(1));
            let b = bombs();
            let (payload, ce) = match rng.below(5) {
                0 => (b.gz[0].clone(), "gzip".to_string()),
                1 | 2 => (b.gz[1].clone(), "gzip, gzip".to_string()),
                3 => (b.gz[2].clone(), "gzip,gzip,gzip".to_string()),
                _ => (b.lz.clone(), "lzma".to_string()),
            };
            let fr = rng.below(2);
            let (ops, _) = message(rng, req, &ce, &payload, fr);
            let segmax = ops.iter().map(|o| if let Op::Req(b) | Op::Res(b) = o { b.len() } else { 0 }).max().unwrap() as u64;
            ctx.input = format!("bomb limit {} ratio {} {}\n{}", limit, ratio, ce, ctx_input_short(&ops));
            ctx.seen(ctx.input.clone().as_bytes());
            ctx.sample(|| format!("bomb limit {} ratio {} codings {} payload {} bytes in {} calls", limit, ratio, ce, payload.len(), ops.len()));
            let mut d = Driver::new(cfg);
            if !req {
                d.feed(&Op::Req(b"GET /x HTTP/1.1\r\nHost: h\r\n\r\n".to_vec()));
            }
            let mut fed = 0u64;
            let mut out = 0u64;
            let mut at = 0;
            let mut tripped = false;
            let mut last = 0u64;
            let body = if req { K::ReqBody } else { K::ResBody };
            for o in &ops {
                if let Op::Req(b) | Op::Res(b) = o {
                    fed += b.len() as u64;
                }
                let (st, _) = d.call(o);
                let bound = limit.max(ratio.saturating_mul(fed)).saturating_add(8192u64.max(segmax));
                let bad = REC.with(|r| {
                    let mut r = r.borrow_mut();
                    for e in &mut r.evs[at..] {
                        if e.k == body {
                            out += e.len as u64;
                            if e.len > 0 {
                                last = e.len as u64;
                            }
                            e.data = None;
                        }
                    }
                    at = r.evs.len();
                    out > bound
                });
                ctx.obs("bytes delivered", 0);
                if !ctx.check(!bad, "bomb", || format!("{} bytes delivered after {} bytes on the wire: bound {}", out, fed, bound)) {
                    return;
                }
                if st == htp::connection_parser::HtpStreamState::ERROR {
                    if !tripped {
                        tripped = true;
                        ctx.obs("bombs cut off", 1);
                    }
                }
            }
            ctx.obs("bombs", 1);
            let r = d.finish();
            let logged = r.logs.iter().any(|l| format!("{:?}", l.0) == "COMPRESSION_BOMB");
            if tripped {
                // neither before both limits were exceeded, nor later than that
                let t = r.txs.iter().find(|t| t.index == 0);
                let (msg, ent) = t.map_or((0, 0), |t| if req { (t.req_message_len, t.req_entity_len) } else { (t.res_message_len, t.res_entity_len) });
                ctx.eq(&(ent as u64), &out, "bomb-entity-len", "entity length");
                let both = limit.max(ratio.saturating_mul(msg as u64));
                ctx.check(out > both, "bomb-early", || format!("cut off at {} bytes out of {}, limit {} ratio {}", out, msg, limit, ratio));
                ctx.check(out - last <= both, "bomb-late", || format!("{} bytes delivered out of {} before the last {}, limit {} ratio {}", out, msg, last, limit, ratio));
                ctx.obs("cut off exactly at the limits", 1);
            }
            ctx.check(tripped == logged, "bomb-log", || format!("cut off {} but logged {}", tripped, logged));
            // the whole thing exceeds both limits: it has to be cut off
            if ce != "lzma" && limit.max(ratio.saturating_mul(fed)).saturating_add(8192) < (12 << 20) {
                ctx.check(tripped, "bomb-missed", || format!("{} bytes delivered out of {}: not cut off", out, fed));
            }
        }
        _ => {
            // layers beyond the limit are not removed
            let k = rng.range(1, 5);
            let lim = rng.below(5) as u32;
            if rng.chance(1, 3) {
                // codings of both kinds, within the limits
                let n = rng.range(1, 3000);
                let entity = content(rng, n);
                let mut p = entity.clone();
                let mut ce = vec![];
                for i in 0..k.max(2) {
                    let lz = i == 0 || rng.flip();
                    p = if lz { lzma(&p) } else { gzip(rng, &p, 6) };
                    ce.push(if lz { "lzma" } else { "gzip" });
                }
                let z = ce.iter().filter(|x| **x == "lzma").count() as u32;
                cfg.compression_options.set_layer_limit(if rng.flip() { None } else { Some(ce.len() as u32 + rng.below(2) as u32) });
                cfg.compression_options.set_lzma_layers(if rng.chance(1, 4) { None } else { Some(z + rng.below(2) as u32) });
                let fr = rng.below(2);
                let (mut ops, _) = message(rng, req, &ce.join(", "), &p, fr);
                if !req {
                    ops.insert(0, Op::Req(b"GET /x HTTP/1.1\r\nHost: h\r\n\r\n".to_vec()));
                }
                ctx.input = format!("{:?}\n{}", ce, show_ops(&ops));
                ctx.seen(ctx.input.clone().as_bytes());
                let r = run(cfg, &ops);
                let body = r.cat(if req { K::ReqBody } else { K::ResBody }, 0);
                ctx.eqb(&body, &entity, "layers", &format!("codings {:?} within the limits", ce));
                let warned = r.logs.iter().any(|l| format!("{:?}", l.0).contains("TOO_MANY"));
                ctx.check(!warned, "layers-log", || format!("codings {:?} within the limits, warned", ce));
                ctx.obs("mixed codings within the limits", 1);
                return;
            }
            let lz = rng.chance(1, 3);
            let n = rng.range(1, 3000);
            let entity = content(rng, n);
            let mut v = vec![entity];
            for _ in 0..k {
                let p = if lz { lzma(v.last().unwrap()) } else { gzip(rng, v.last().unwrap(), 6) };
                v.push(p);
            }
            let name = if lz { "lzma" } else { "gzip" };
            if lz {
                cfg.compression_options.set_layer_limit(None);
                cfg.compression_options.set_lzma_layers(Some(lim));
            } else {
                cfg.set_decompression_layer_limit(Some(lim));
            }
            if k == 1 {
                return; // a single coding is not subject to the layer limit
            }
            let ce = vec![name; k].join(", ");
            let removed = k.min(lim as usize);
            let want = v[k - removed].clone();
            let fr = rng.below(2);
            let (mut ops, _) = message(rng, req, &ce, &v[k], fr);
            if !req {
                ops.insert(0, Op::Req(b"GET /x HTTP/1.1\r\nHost: h\r\n\r\n".to_vec()));
            }
            ctx.input = format!("limit {}\n{}", lim, show_ops(&ops));
            ctx.seen(ctx.input.clone().as_bytes());
            ctx.sample(|| format!("{} layers of {}, limit {}", k, name, lim));
            let r = run(cfg, &ops);
            let body = r.cat(if req { K::ReqBody } else { K::ResBody }, 0);
            ctx.eqb(&body, &want, "layers", &format!("{} layers of {}, limit {}", k, name, lim));
            ctx.obs(if k as u32 > lim { "layer limit hit" } else { "layer limit not hit" }, 1);
            let warned = r.logs.iter().any(|l| format!("{:?}", l.0).contains("TOO_MANY"));
            ctx.check(warned == (k as u32 > lim), "layers-log", || format!("{} layers, limit {}, warned {}", k, lim, warned));
        }
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C05", case: fidelity, quick: 60_000, thorough: 300_000,
            rule: "hash of the encoded payload",
            need: &["one coding", "two codings", "lzma", "lzma and another coding", "mislabelled coding", "decompression disabled", "request bodies", "messages of one connection", "streams broken off"],
            assumptions: &["the decompression time limit is set high: it makes the outcome depend on the clock", "flate2 and lzma-rs encoders produce valid streams"],
            mem: 0, asan: &[],
        },
        Prop {
            id: "C06", case: limits, quick: 9_000, thorough: 40_000,
            rule: "hash of configuration and segmented input",
            need: &["bombs cut off", "exactly at a limit", "time limit exceeded", "time limit exceeded by several callbacks", "within the time limit", "layer limit hit", "layer limit not hit", "mixed codings within the limits"],
            assumptions: &["the decompression time limit is set high, except where a callback is made to exceed it"],
            mem: 4 << 30, asan: &[],
        },
    ]
}
