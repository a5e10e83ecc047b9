//! Monitors over well-formed conversations whose ground truth is known.
use crate::drive::*;
use crate::fw::{Ctx, Prop};
use crate::gen::*;
use crate::rng::Rng;
use htp::config::{Config, HtpServerPersonality as SP};

pub const PERS: [SP; 8] = [
    SP::MINIMAL, SP::GENERIC, SP::IDS, SP::APACHE_2, SP::IIS_5_1, SP::IIS_6_0, SP::IIS_7_0, SP::IIS_7_5,
];

pub fn base_cfg(rng: &mut Rng) -> Config {
    let mut c = Config::default();
    if rng.chance(2, 3) {
        let _ = c.set_server_personality(*rng.pick(&PERS));
    }
    // the time limit makes decompression depend on the wall clock
    c.compression_options.set_time_limit(4_000_000_000);
    c
}

/// Everything observed about one transaction.
pub struct Tx {
    pub snap: Snap,
    pub req_body: Vec<u8>,
    pub res_body: Vec<u8>,
    pub req_hd: Vec<u8>,
    pub res_hd: Vec<u8>,
    pub req_td: Vec<u8>,
    pub res_td: Vec<u8>,
}

/// Transactions in the order of their completion callbacks.
pub fn collect(r: &Run) -> Vec<Tx> {
    r.evs
        .iter()
        .filter(|e| e.k == K::TxComplete)
        .map(|e| Tx {
            snap: (**e.snap.as_ref().unwrap()).clone(),
            req_body: r.cat(K::ReqBody, e.tx),
            res_body: r.cat(K::ResBody, e.tx),
            req_hd: r.cat(K::ReqHeaderData, e.tx),
            res_hd: r.cat(K::ResHeaderData, e.tx),
            req_td: r.cat(K::ReqTrailerData, e.tx),
            res_td: r.cat(K::ResTrailerData, e.tx),
        })
        .collect()
}

pub fn exec(cfg: Config, ops: &[Op]) -> Run {
    let mut d = Driver::new(cfg).snap_at(&[K::TxComplete]);
    for o in ops {
        d.feed(o);
    }
    d.finish()
}

fn boundaries(ctx: &mut Ctx, ops: &[Op]) {
    ctx.obs("data calls", ops.len() as u64);
    let mut h = vec![];
    for o in ops {
        match o {
            Op::Req(b) => {
                h.push(1);
                h.extend_from_slice(b);
            }
            Op::Res(b) => {
                h.push(2);
                h.extend_from_slice(b);
            }
            _ => h.push(3),
        }
    }
    ctx.seen(&h);
}

/// Conversation run once under a random configuration and schedule.
fn go(ctx: &mut Ctx, rng: &mut Rng, o: &Opts) -> (Conv, Run, Vec<Tx>) {
    let c = conversation(rng, o);
    let mut cfg = base_cfg(rng);
    cfg.set_tx_auto_destroy(rng.chance(1, 3));
    cfg.set_request_decompression(o.req_compress);
    c.limit(&mut cfg);
    ctx.obs("conversations of unusual size", (c.size != Size::Usual) as u64);
    if !o.compress {
        cfg.response_decompression_enabled = false;
    }
    let ops = schedule(rng, &c);
    ctx.input = show_ops(&ops);
    boundaries(ctx, &ops);
    let r = exec(cfg, &ops);
    let t = collect(&r);
    ctx.obs("callbacks", r.evs.len() as u64);
    ctx.obs("transactions", t.len() as u64);
    ctx.sample(|| {
        let s = ctx_input_short(&ops);
        s
    });
    (c, r, t)
}
pub fn ctx_input_short(ops: &[Op]) -> String {
    let s = show_ops(ops);
    s.chars().take(500).collect()
}

pub fn sane(ctx: &mut Ctx, c: &Conv, r: &Run, t: &[Tx], ops_closed: bool) -> bool {
    let _ = ops_closed;
    ctx.check(!r.stuck && r.leftover == (0, 0), "stuck", || format!("input left unconsumed: {:?}", r.leftover))
        && ctx.check(t.len() == c.req.len(), "tx-count", || {
            format!("{} transactions completed, {} exchanged\n{:?}", t.len(), c.req.len(), r.logs)
        })
}

/// P03
fn seg(ctx: &mut Ctx, rng: &mut Rng) {
    let o = Opts { max_body: if rng.chance(1, 10) { 30000 } else { 1500 }, long: true, big: 100, ..Opts::default() };
    let c = conversation(rng, &o);
    let seed = rng.next();
    let mk = || {
        let mut cfg = base_cfg(&mut Rng::new(seed));
        c.limit(&mut cfg);
        cfg
    };
    ctx.obs("conversations of unusual size", (c.size != Size::Usual) as u64);
    // reference: every message in one segment, requests and responses alternating
    let mut refops = vec![];
    for i in 0..c.req.len() {
        refops.push(Op::Req(c.req[i].wire.clone()));
        refops.push(Op::Res(c.res[i].wire.clone()));
    }
    refops.push(Op::Close);
    let a = exec(mk(), &refops);
    let ta = collect(&a);
    for _ in 0..3 {
        let mut ops = schedule(rng, &c);
        if ops.last() != Some(&Op::Close) {
            ops.push(Op::Close);
        }
        ctx.input = format!("reference:\n{}\n\nsegmented:\n{}", show_ops(&refops), show_ops(&ops));
        boundaries(ctx, &ops);
        let b = exec(mk(), &ops);
        let tb = collect(&b);
        ctx.obs("callbacks", b.evs.len() as u64);
        ctx.sample(|| ctx_input_short(&ops));
        if !sane(ctx, &c, &b, &tb, true) || !ctx.check(ta.len() == tb.len(), "tx-count", || format!("{} vs {}", ta.len(), tb.len())) {
            return;
        }
        for (x, y) in ta.iter().zip(&tb) {
            same_tx(ctx, x, y);
            ctx.obs("transactions compared", 1);
        }
        // the same callbacks in the same order per transaction and direction, data callbacks merged
        for i in 0..ta.len() {
            for side in [true, false] {
                let f = |r: &Run| kinds(r, i, side);
                ctx.eq(&f(&b), &f(&a), "callback-order", &format!("callbacks of tx {} {}", i, if side { "request" } else { "response" }));
            }
        }
        let l = |r: &Run| {
            let mut v: Vec<String> = r.logs.iter().map(|x| format!("{:?}", x.0)).collect();
            v.sort();
            v
        };
        ctx.eq(&l(&b), &l(&a), "logs", "log codes");
        if !ctx.fails.is_empty() {
            return;
        }
    }
}
pub fn is_req(k: K) -> bool {
    (k as u8) <= K::ReqComplete as u8
}
fn kinds(r: &Run, tx: usize, req: bool) -> Vec<K> {
    let mut v = vec![];
    for e in r.evs.iter().filter(|e| e.tx == tx && e.k != K::TxComplete && is_req(e.k) == req) {
        if v.last() != Some(&e.k) {
            v.push(e.k);
        }
    }
    v
}
pub fn norm(s: &Snap) -> Snap {
    let mut s = s.clone();
    s.flags &= !0x800; // records the segmentation by definition
    s
}
fn same_tx(ctx: &mut Ctx, x: &Tx, y: &Tx) {
    let (a, b) = (norm(&x.snap), norm(&y.snap));
    ctx.evaluations += 1;
    if a != b {
        let (fa, fb) = (format!("{:#?}", a), format!("{:#?}", b));
        let d: Vec<String> = fa
            .lines()
            .zip(fb.lines())
            .filter(|(p, q)| p != q)
            .take(6)
            .map(|(p, q)| format!("{} | {}", p.trim(), q.trim()))
            .collect();
        ctx.fail("tx-fields", format!("tx {}: reference | segmented: {}", a.index, d.join("; ")));
    }
    ctx.eqb(&y.req_body, &x.req_body, "req-body", "request body");
    ctx.eqb(&y.res_body, &x.res_body, "res-body", "response body");
    ctx.eqb(&y.req_hd, &x.req_hd, "req-header-data", "raw request header data");
    ctx.eqb(&y.res_hd, &x.res_hd, "res-header-data", "raw response header data");
    ctx.eqb(&y.req_td, &x.req_td, "req-trailer-data", "raw request trailer data");
    ctx.eqb(&y.res_td, &x.res_td, "res-trailer-data", "raw response trailer data");
}

/// A body announced to be much longer than what is sent of it: all that is sent belongs to it.
pub fn huge(ctx: &mut Ctx, rng: &mut Rng) {
    let req = rng.flip();
    let chunked = rng.chance(1, 4);
    let n = rng.range(20, 200);
    let mut sent = rng.word(b"abcdefgh GET/HTP1.\r\n0", n, n);
    // first byte not white space: see DESIGN.md on lenient line endings
    sent[0] = b'b';
    let k = rng.below(12) as u64;
    let len = if chunked {
        *rng.pick(&[0x7fff_ffffu64, 0x7fff_0000, 1 << 30, 1 << 24]) - k
    } else {
        (*rng.pick(&[1u64 << 16, 1 << 31, 1 << 32, 1 << 32, 1 << 33, 1 << 40, 1 << 53, 1 << 62, (1 << 63) - 100, u64::MAX - 100])).saturating_add(k + 1)
    };
    let mut w = if req { b"POST / HTTP/1.1\r\nHost: h\r\n".to_vec() } else { b"HTTP/1.1 200 OK\r\n".to_vec() };
    let framing = if chunked { format!("Transfer-Encoding: chunked\r\n\r\n{:x}\r\n", len) } else { format!("Content-Length: {}\r\n\r\n", len) };
    w.extend_from_slice(framing.as_bytes());
    w.extend_from_slice(&sent);
    let mode = rng.below(5);
    let mut ops: Vec<Op> = if req { vec![] } else { vec![Op::Req(b"GET / HTTP/1.1\r\nHost: h\r\n\r\n".to_vec())] };
    ops.extend(split(rng, &w, mode).into_iter().map(|b| if req { Op::Req(b) } else { Op::Res(b) }));
    ctx.input = show_ops(&ops);
    ctx.seen(ctx.input.clone().as_bytes());
    let r = run(base_cfg(rng), &ops);
    let (body, done) = if req { (K::ReqBody, K::ReqComplete) } else { (K::ResBody, K::ResComplete) };
    ctx.eqb(&r.cat(body, 0), &sent, "huge-body", &format!("{} bytes of a body of {}", n, len));
    ctx.check(r.count(done, 0) == 0, "huge-complete", || format!("complete after {} bytes of a body of {}", n, len));
    ctx.check(r.txs.len() <= 2 && r.txs.iter().all(|t| t.index == 0 || t.req_progress == 0), "huge-tx", || format!("{} transactions", r.txs.len()));
    if let Some(t) = r.txs.iter().find(|t| t.index == 0) {
        let (m, e) = if req { (t.req_message_len, t.req_entity_len) } else { (t.res_message_len, t.res_entity_len) };
        let line = if chunked { format!("{:x}\r\n", len).len() } else { 0 };
        ctx.eq(&(m as usize, e as usize), &(n + line, n), "huge-len", "message and entity length");
        if !chunked {
            ctx.eq(&(if req { t.req_content_length } else { t.res_content_length }), &Some(len), "huge-content-length", "content length");
        }
    }
    ctx.obs("bodies announced as huge", 1);
}
/// Chunks that turn out to be none: from the broken length line on, the rest of the response is its body as it is.
fn broken_chunks(ctx: &mut Ctx, rng: &mut Rng) {
    let mut w = b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n".to_vec();
    let head = w.len();
    let mut want = vec![];
    for _ in 0..rng.below(3) {
        let n = rng.range(1, 40);
        let b = rng.word(b"abcdefgh \r\n0;z", n, n);
        w.extend_from_slice(format!("{:x}\r\n", n).as_bytes());
        w.extend_from_slice(&b);
        w.extend_from_slice(b"\r\n");
        want.extend_from_slice(&b);
    }
    let mut rest = rng.pick(&["zz\r\n", "x1\r\n", "fffffffffffffffff\r\n", "-1\r\n", "hello world\r\n", "<html>\n"]).as_bytes().to_vec();
    let n = rng.range(0, 60);
    rest.extend(rng.word(b"abcdefgh \r\n0;z", n, n));
    w.extend_from_slice(&rest);
    want.extend_from_slice(&rest);
    let mode = rng.below(5);
    let mut ops = vec![Op::Req(b"GET / HTTP/1.1\r\nHost: h\r\n\r\n".to_vec())];
    ops.extend(split(rng, &w, mode).into_iter().map(Op::Res));
    ops.push(Op::Close);
    ctx.input = show_ops(&ops);
    ctx.seen(ctx.input.clone().as_bytes());
    let r = run(base_cfg(rng), &ops);
    ctx.eqb(&r.cat(K::ResBody, 0), &want, "broken-chunks-body", "body of a response with a broken chunk length line");
    ctx.eq(&r.count(K::ResComplete, 0), &1, "broken-chunks-complete", "complete callbacks after the close");
    if let Some(t) = r.txs.iter().find(|t| t.index == 0) {
        ctx.eq(&(t.res_message_len as usize, t.res_entity_len as usize), &(w.len() - head, want.len()), "broken-chunks-len", "message and entity length");
    }
    ctx.obs("responses with a broken chunk length line", 1);
}
/// P04
fn body(ctx: &mut Ctx, rng: &mut Rng) {
    if rng.chance(1, 40) {
        return broken_chunks(ctx, rng);
    }
    if rng.chance(1, 25) {
        return huge(ctx, rng);
    }
    let big = if rng.chance(1, 12) { 60000 } else { 2000 };
    let o = Opts { compress: false, max_body: big, big: 60, ..Opts::default() };
    let (c, r, t) = go(ctx, rng, &o);
    if !sane(ctx, &c, &r, &t, true) {
        return;
    }
    for (i, x) in t.iter().enumerate() {
        let (q, s) = (&c.req[i], &c.res[i]);
        ctx.eqb(&x.req_body, &q.entity, "req-body", &format!("request body {}", i));
        ctx.eqb(&x.res_body, &s.entity, "res-body", &format!("response body {}", i));
        ctx.eq(&x.snap.req_entity_len, &(q.entity.len() as u64), "req-entity-len", "request entity length");
        ctx.eq(&x.snap.res_entity_len, &(s.entity.len() as u64), "res-entity-len", "response entity length");
        ctx.eq(&x.snap.req_message_len, &(q.body_wire as u64), "req-message-len", "request message length");
        ctx.eq(&x.snap.res_message_len, &(s.body_wire as u64), "res-message-len", "response message length");
        for (m, coding, side) in [(q, &x.snap.req_coding, "request"), (s, &x.snap.res_coding, "response")] {
            let want = match m.body.as_ref().unwrap() {
                Body::None => "NO_BODY",
                Body::Cl | Body::Close => "IDENTITY",
                Body::Chunked => "CHUNKED",
            };
            ctx.eq(&coding.as_str(), &want, "coding", &format!("{} transfer coding {}", side, i));
            let n = match m.body.as_ref().unwrap() {
                Body::None => "messages without body",
                Body::Cl => "Content-Length bodies",
                Body::Close => "close-delimited bodies",
                Body::Chunked => "chunked bodies",
            };
            ctx.obs(n, 1);
            ctx.obs("body bytes", m.entity.len() as u64);
            ctx.obs("chunks", m.chunks as u64);
        }
        for (m, l, side) in [(q, x.snap.req_content_length, "request"), (s, x.snap.res_content_length, "response")] {
            let want = if m.body == Some(Body::Cl) { Some(m.payload.len() as u64) } else { None };
            if m.has_body() {
                ctx.eq(&l, &want, "content-length", &format!("{} content length", side));
            }
        }
    }
}

/// P07
/// A client that asks before it sends a body sends none if the answer is 4xx: what comes next is a request.
fn asked(ctx: &mut Ctx, rng: &mut Rng) {
    let n = rng.range(2, 4);
    let mut ops = vec![];
    let mut want = vec![];
    let put = |rng: &mut Rng, ops: &mut Vec<Op>, req: bool, b: &[u8]| {
        let mode = rng.below(6);
        ops.extend(split(rng, b, mode).into_iter().map(|p| if req { Op::Req(p) } else { Op::Res(p) }));
    };
    for i in 0..n {
        let status = if i + 1 == n { 200 } else { *rng.pick(&[200, 202, 301, 399, 400, 401, 404, 417, 417, 450, 498, 499, 500, 503, 599]) };
        let body = rng.word(b"abcGET /\r\n", 1, 40);
        let refused = (400..500).contains(&status);
        let chunked = rng.chance(1, 3);
        let framing = if chunked { "Transfer-Encoding: chunked".to_string() } else { format!("Content-Length: {}", body.len()) };
        let word = *rng.pick(&["Expect: 100-continue", "Expect: 100-continue", "Expect: 100-Continue", "Expect: 100-CONTINUE", "Expect: 100", "Expect: 100-continued", "Expect: x-100-continue", "X-Expect: 100-continue"]);
        // who does not ask sends the body anyway
        let asks = word.eq_ignore_ascii_case("Expect: 100-continue");
        put(rng, &mut ops, true, format!("POST /r{} HTTP/1.1\r\nHost: h\r\n{}\r\n{}\r\n\r\n", i, word, framing).as_bytes());
        if !refused && rng.flip() {
            put(rng, &mut ops, false, b"HTTP/1.1 100 Continue\r\n\r\n");
        }
        let wire = if chunked { [format!("{:x}\r\n", body.len()).as_bytes(), &body, b"\r\n0\r\n\r\n"].concat() } else { body.clone() };
        // The answer may also come when the body is on its way: then the body goes on.
        let most = wire.len().min(if rng.flip() { 2 } else { 60 });
        let begun = if refused && rng.chance(1, 3) { rng.range(1, most) } else { 0 };
        if !refused {
            put(rng, &mut ops, true, &wire);
        } else if begun > 0 {
            put(rng, &mut ops, true, &wire[..begun]);
            ctx.obs("bodies begun before a 4xx", 1);
        }
        let late = refused && begun == 0 && !asks;
        let refused = refused && begun == 0 && asks;
        if refused && chunked {
            ctx.obs("chunked bodies not sent after 4xx", 1);
        }
        put(rng, &mut ops, false, format!("HTTP/1.1 {} x\r\nX-Tag: {}\r\nContent-Length: 2\r\n\r\nok", status, i).as_bytes());
        if late || (begun > 0 && begun < wire.len()) {
            put(rng, &mut ops, true, &wire[begun..]);
            ctx.obs("bodies sent after a 4xx", 1);
        }
        want.push((i, status, if refused { vec![] } else { body }));
        ctx.obs(if refused { "bodies not sent after 4xx" } else { "bodies sent after asking" }, 1);
    }
    ctx.input = show_ops(&ops);
    ctx.seen(ctx.input.clone().as_bytes());
    let r = exec(base_cfg(rng), &ops);
    ctx.eq(&r.txs.len(), &n, "asked-count", "transactions");
    for (i, status, body) in want {
        let Some(t) = r.txs.get(i) else { return };
        ctx.eq(&t.uri, &Some(format!("/r{}", i).into_bytes()), "asked-request", &format!("URI of tx {}", i));
        ctx.eq(&t.res_status_number, &status, "asked-response", &format!("status of tx {}", i));
        ctx.eq(&t.res_get("x-tag"), &Some(i.to_string().into_bytes()), "asked-response", &format!("response of tx {}", i));
        ctx.eqb(&r.cat(K::ReqBody, i), &body, "asked-body", &format!("request body of tx {}", i));
        ctx.eqb(&r.cat(K::ResBody, i), b"ok", "asked-body", &format!("response body of tx {}", i));
        ctx.eq(&r.count(K::TxComplete, i), &1, "asked-complete", &format!("completions of tx {}", i));
    }
}
/// 100 responses: interim unless they announce a body.
fn interim(ctx: &mut Ctx, rng: &mut Rng) {
    let n = rng.range(1, 4);
    let (mut q, mut s) = (vec![], vec![]);
    let mut want = vec![];
    for i in 0..n {
        q.extend_from_slice(format!("GET /r{} HTTP/1.1\r\nHost: h\r\n\r\n", i).as_bytes());
        let k = rng.below(4);
        for j in 0..k {
            s.extend_from_slice(b"HTTP/1.1 100 Continue\r\n");
            for h in 0..rng.below(3) {
                s.extend_from_slice(format!("{}: i{}\r\n", rng.pick(&["X-Interim", "X-Tag", "Server", "Content-Type"]), h + j).as_bytes());
            }
            if rng.chance(1, 4) {
                s.extend_from_slice(b"Content-Length: 0\r\n");
            }
            s.extend_from_slice(b"\r\n");
        }
        let mut body = rng.word(b"abc HTTP/1.0\r\n", 1, 30);
        body[0] = b'b';
        let odd = rng.chance(1, 4);
        let st = if odd { 100 } else { *rng.pick(&[200, 404, 500]) };
        s.extend_from_slice(format!("HTTP/1.1 {} x\r\nX-Tag: {}\r\nContent-Length: {}\r\n\r\n", st, i, body.len()).as_bytes());
        s.extend_from_slice(&body);
        ctx.obs(if odd { "100 responses with a body" } else { "interim responses in a row" }, 1);
        want.push((k, st, body));
    }
    let mut ops = vec![];
    for (req, b) in [(true, &q), (false, &s)] {
        let mode = rng.below(6);
        ops.extend(split(rng, b, mode).into_iter().map(|p| if req { Op::Req(p) } else { Op::Res(p) }));
    }
    ctx.input = show_ops(&ops);
    ctx.seen(ctx.input.clone().as_bytes());
    let r = exec(base_cfg(rng), &ops);
    let t = collect(&r);
    if !ctx.check(t.len() == n, "interim-count", || format!("{} transactions complete of {}", t.len(), n)) {
        return;
    }
    for (i, (k, st, body)) in want.iter().enumerate() {
        let x = &t[i];
        ctx.eq(&x.snap.res_status_number, st, "interim-status", &format!("status of tx {}", i));
        ctx.eq(&x.snap.seen_100, &(*k > 0), "interim", &format!("interim response of tx {}", i));
        ctx.eq(&x.snap.res_headers.len(), &2, "interim-headers", &format!("header fields of response {}", i));
        ctx.eq(&x.snap.res_get("x-tag"), &Some(i.to_string().into_bytes()), "interim-headers", &format!("response of tx {}", i));
        ctx.eqb(&x.res_body, body, "interim-body", &format!("response body of tx {}", i));
    }
    let again: usize = want.iter().map(|w| w.0.saturating_sub(1)).sum();
    let told = r.logs.iter().filter(|l| l.0 == htp::log::HtpLogCode::CONTINUE_ALREADY_SEEN).count();
    ctx.eq(&told, &again, "interim-log", "messages about repeated interim responses");
}
thread_local! {
    /// completed exchanges, and what was wrong with them
    static ENDLESS: std::cell::RefCell<(usize, Vec<String>)> = Default::default();
}
fn endless_cb(tx: &mut htp::transaction::Transaction) -> Result<(), htp::HtpStatus> {
    ENDLESS.with(|e| {
        let mut e = e.borrow_mut();
        let i = e.0;
        e.0 += 1;
        let uri = tx.request_uri.as_ref().map(|u| u.to_vec());
        let tag = tx.response_headers.get_nocase("x-tag").map(|h| h.value.to_vec());
        if (tx.index != i || uri != Some(format!("/{}", i).into_bytes()) || tag != Some(i.to_string().into_bytes())) && e.1.len() < 3 {
            e.1.push(format!("exchange {}: index {} URI {} answer {}", i, tx.index, show(&uri.unwrap_or_default()), show(&tag.unwrap_or_default())));
        }
        Ok(())
    })
}
/// One connection that outlasts every 16-bit count.
fn endless(ctx: &mut Ctx, rng: &mut Rng) {
    let n = 66_000;
    let mut cfg = Config::default();
    cfg.set_tx_auto_destroy(true);
    cfg.register_transaction_complete(endless_cb);
    let mut p = new_parser(cfg);
    ENDLESS.with(|e| *e.borrow_mut() = Default::default());
    let (mut q, mut s) = (0, 0);
    ctx.input = format!("{} exchanges on one connection", n);
    ctx.seen(ctx.input.clone().as_bytes());
    while s < n {
        for _ in 0..rng.range(1, 5) {
            p.request_data(format!("GET /{} HTTP/1.1\r\nHost: h\r\n\r\n", q).as_bytes().into(), None);
            q += 1;
        }
        while s < q {
            p.response_data(format!("HTTP/1.1 200 OK\r\nX-Tag: {}\r\nContent-Length: 0\r\n\r\n", s).as_bytes().into(), None);
            s += 1;
        }
    }
    let (done, bad) = ENDLESS.with(|e| e.borrow().clone());
    ctx.eq(&done, &s, "endless", "completed exchanges");
    ctx.check(bad.is_empty(), "endless", || bad.join("; "));
    ctx.eq(&p.tx_size(), &s, "endless", "transactions seen");
    ctx.obs("exchanges of an endless connection", s as u64);
}
fn pairing(ctx: &mut Ctx, rng: &mut Rng) {
    if ctx.case == 5 {
        return endless(ctx, rng);
    }
    if rng.chance(1, 8) {
        return asked(ctx, rng);
    }
    if rng.chance(1, 12) {
        return interim(ctx, rng);
    }
    let o = Opts { max_tx: 12, max_body: 200, compress: false, long: true, big: 300, ..Opts::default() };
    let mut c = conversation(rng, &o);
    // tag every response so that it can be recognised
    for (i, s) in c.res.iter_mut().enumerate() {
        let h = format!("X-Tag: {}{}", i, s.eol);
        let at = s.interim_len + s.line.len() + s.eol.len();
        s.wire.splice(at..at, h.bytes());
    }
    let mut cfg = base_cfg(rng);
    cfg.set_tx_auto_destroy(rng.chance(1, 3));
    c.limit(&mut cfg);
    ctx.obs("conversations of unusual size", (c.size != Size::Usual) as u64);
    let ops = schedule(rng, &c);
    ctx.input = show_ops(&ops);
    boundaries(ctx, &ops);
    let r = exec(cfg, &ops);
    let t = collect(&r);
    ctx.obs("transactions", t.len() as u64);
    ctx.sample(|| ctx_input_short(&ops));
    if !sane(ctx, &c, &r, &t, true) {
        return;
    }
    for (i, x) in t.iter().enumerate() {
        ctx.eq(&x.snap.index, &i, "index", "transaction completion order");
        ctx.eq(&x.snap.uri, &Some(c.req[i].uri.clone()), "request", &format!("URI of tx {}", i));
        ctx.eq(&x.snap.method, &Some(c.req[i].method.clone()), "request", &format!("method of tx {}", i));
        ctx.eq(&x.snap.res_get("x-tag"), &Some(i.to_string().into_bytes()), "response", &format!("response of tx {}", i));
        ctx.eq(&x.snap.res_status_number, &(c.res[i].status as i32), "response", &format!("status of tx {}", i));
        ctx.eq(&x.snap.seen_100, &(c.res[i].interim > 0), "interim", &format!("interim response of tx {}", i));
        ctx.obs("interim responses", c.res[i].interim as u64);
    }
    // how deep requests ran ahead of responses
    let (mut q, mut s, mut deep) = (0i64, 0i64, 0i64);
    for e in &r.evs {
        match e.k {
            K::ReqComplete => q += 1,
            K::ResComplete => s += 1,
            _ => {}
        }
        deep = deep.max(q - s);
    }
    if t.len() > 256 {
        ctx.obs("connections with more than 256 exchanges", 1);
    }
    if deep > 1 {
        ctx.obs("pipelined conversations", 1);
    }
    let pipelined = r.conn_flags & 1 != 0;
    // the connection is marked pipelined only if a request really ran ahead
    if pipelined {
        ctx.obs("connections flagged pipelined", 1);
    }
    ctx.check(deep < 2 || pipelined, "pipelined-missed", || "a request complete before the response to the one preceding it does not mark the connection as pipelined".into());
    ctx.check(deep > 1 || !pipelined, "pipelined-flag", || "flagged as pipelined without pipelining".into());
}

/// P08: automaton over the callbacks
pub fn order(ctx: &mut Ctx, r: &Run, strict: bool) {
    use std::collections::HashMap;
    #[derive(Default, Clone)]
    struct S {
        req: usize,
        res: usize,
        done: bool,
        req_p: u8,
        res_p: u8,
        seen: [usize; 18],
    }
    let rank = |k: K| match k {
        K::ReqStart => 1,
        K::ReqUriNorm => 2,
        K::ReqLine => 3,
        K::ReqHeaderData => 4,
        K::ReqHeaders => 5,
        K::ReqBody => 6,
        K::ReqTrailerData => 7,
        K::ReqTrailer => 8,
        K::ReqComplete => 9,
        K::ResStart => 1,
        K::ResLine => 2,
        K::ResHeaderData => 3,
        K::ResHeaders => 4,
        K::ResBody => 5,
        K::ResTrailerData => 6,
        K::ResTrailer => 7,
        K::ResComplete => 8,
        K::TxComplete => 99,
    };
    let mut st: HashMap<usize, S> = HashMap::new();
    let (mut last_start, mut last_res) = (None::<usize>, None::<usize>);
    for (n, e) in r.evs.iter().enumerate() {
        let s = st.entry(e.tx).or_default();
        ctx.evaluations += 1;
        let bad = |ctx: &mut Ctx, sig: &str, what: String| {
            ctx.fail(sig, format!("event {} {:?} of tx {}: {}", n, e.k, e.tx, what));
        };
        if s.done {
            bad(ctx, "after-complete", "callback after transaction completion".into());
            return;
        }
        let was = s.seen[e.k as usize];
        s.seen[e.k as usize] += 1;
        match e.k {
            K::TxComplete => {
                if s.seen[K::ReqComplete as usize] != 1 || s.seen[K::ResComplete as usize] != 1 {
                    bad(ctx, "tx-complete", "before both sides completed".into());
                }
                s.done = true;
            }
            K::ReqStart | K::ReqUriNorm | K::ReqLine | K::ReqHeaders | K::ReqTrailer | K::ReqComplete
            | K::ResStart | K::ResTrailer | K::ResComplete if was > 0 => {
                bad(ctx, "repeated", "delivered twice".into());
            }
            _ => {}
        }
        if e.k == K::TxComplete {
            continue;
        }
        let mut k = rank(e.k);
        if e.k == K::ReqBody && e.data.is_none() && !e.gap {
            // end-of-body marker: nothing but the end of the request may follow
            s.seen[17] += 1;
            k = 8;
        } else if strict && e.k == K::ReqBody && s.seen[17] > 0 {
            bad(ctx, "after-end", "request body data after the end-of-body marker".into());
        }
        if is_req(e.k) {
            if k < s.req && strict {
                bad(ctx, "order", format!("after a later stage ({})", s.req));
            }
            s.req = s.req.max(k);
            if e.req_progress < s.req_p {
                bad(ctx, "progress", format!("request progress went back {} -> {}", s.req_p, e.req_progress));
            }
            s.req_p = e.req_progress;
            if e.k != K::ReqStart && s.seen[K::ReqStart as usize] == 0 {
                bad(ctx, "no-start", "before the request start callback".into());
            }
        } else {
            // an interim response makes the head callbacks start over
            if k < s.res && (strict && !(s.res <= 4 && k >= 2 && s.seen[K::ResBody as usize] == 0)) {
                bad(ctx, "order", format!("after a later stage ({})", s.res));
            }
            s.res = if k < s.res { k } else { s.res.max(k) };
            s.res_p = e.res_progress;
            if e.k != K::ResStart && s.seen[K::ResStart as usize] == 0 {
                bad(ctx, "no-start", "before the response start callback".into());
            }
        }
        if e.k == K::ReqStart {
            if last_start.map_or(false, |l| e.tx <= l) {
                bad(ctx, "start-order", "requests start out of order".into());
            }
            last_start = Some(e.tx);
        }
        if e.k == K::ResStart {
            if last_res.map_or(false, |l| e.tx <= l) {
                bad(ctx, "start-order", "responses start out of order".into());
            }
            last_res = Some(e.tx);
        }
    }
}
/// Order of the callbacks of histories that need not be well-formed, with callbacks that fail.
fn hostile_lifecycle(ctx: &mut Ctx, rng: &mut Rng) {
    let (mut cfg, desc) = crate::p_host::any_cfg(rng);
    cfg.set_tx_auto_destroy(false);
    cfg.set_flush_incomplete(false);
    let ops = crate::p_host::hostile(rng);
    let fault = crate::p_host::some_fault(rng).filter(|f| matches!(f.status, -1 | 0 | 4));
    ctx.input = format!("{}{:?}\n{}", desc, fault, show_ops(&ops));
    ctx.seen(ctx.input.clone().as_bytes());
    let r = run_fault(cfg, &ops, fault);
    if r.logs.iter().any(|l| l.0 == htp::log::HtpLogCode::UNABLE_TO_MATCH_RESPONSE_TO_REQUEST) {
        ctx.obs("histories left out: response without request", 1);
        return;
    }
    order(ctx, &r, false);
    ctx.obs("hostile callback sequences checked", 1);
}
fn lifecycle(ctx: &mut Ctx, rng: &mut Rng) {
    if ctx.case % 3 == 2 {
        return hostile_lifecycle(ctx, rng);
    }
    let o = Opts { max_body: 300, max_tx: 6, long: true, big: 300, ..Opts::default() };
    let (c, r, t) = go(ctx, rng, &o);
    if !sane(ctx, &c, &r, &t, true) {
        return;
    }
    order(ctx, &r, true);
    for i in 0..t.len() {
        let (q, s) = (&c.req[i], &c.res[i]);
        let n = |k: K| r.count(k, i);
        let mut want = vec![
            (K::ReqStart, 1),
            (K::ReqUriNorm, 1),
            (K::ReqLine, 1),
            (K::ReqHeaders, 1),
            (K::ReqComplete, 1),
            (K::ResStart, 1),
            (K::ResLine, 1 + s.interim),
            (K::ResHeaders, 1),
            (K::ResComplete, 1),
            (K::TxComplete, 1),
        ];
        want.push((K::ReqTrailer, (q.body == Some(Body::Chunked)) as usize));
        want.push((K::ResTrailer, (s.body == Some(Body::Chunked)) as usize));
        for (k, w) in want {
            ctx.eq(&n(k), &w, "count", &format!("deliveries of {:?} for tx {}", k, i));
        }
        let ends = r.evs.iter().filter(|e| e.k == K::ReqBody && e.tx == i && e.data.is_none()).count();
        if q.has_body() && !q.entity.is_empty() {
            ctx.check(ends >= 1, "end-marker", || format!("request body of tx {} was not ended", i));
        }
        if !q.has_body() {
            ctx.eq(&n(K::ReqBody), &0, "count", "body callbacks of a request without body");
        }
        if !s.has_body() {
            ctx.eq(&n(K::ResBody), &0, "count", "body callbacks of a response without body");
        }
    }
    ctx.obs("callback sequences checked", 1);
}

/// P09
fn raw(ctx: &mut Ctx, rng: &mut Rng) {
    let o = Opts { max_body: 100, interim: false, big: 150, ..Opts::default() };
    let (c, r, t) = go(ctx, rng, &o);
    if !sane(ctx, &c, &r, &t, true) {
        return;
    }
    for (i, x) in t.iter().enumerate() {
        let (q, s) = (&c.req[i], &c.res[i]);
        ctx.eqb(&x.req_hd, &q.head, "req-head", &format!("raw request headers {}", i));
        ctx.eqb(&x.res_hd, &s.head, "res-head", &format!("raw response headers {}", i));
        ctx.eqb(&x.req_td, &q.trailer_block, "req-trailer", &format!("raw request trailer {}", i));
        ctx.eqb(&x.res_td, &s.trailer_block, "res-trailer", &format!("raw response trailer {}", i));
        ctx.obs("raw head bytes", (q.head.len() + s.head.len()) as u64);
        ctx.obs("raw trailer bytes", (q.trailer_block.len() + s.trailer_block.len()) as u64);
    }
}

/// P10
fn headers(ctx: &mut Ctx, rng: &mut Rng) {
    let many = rng.chance(1, 5);
    // the repetitions of an interim response count for the final one
    let o = Opts { max_body: 50, many, interim: !many, big: 100, ..Opts::default() };
    let (c, r, t) = go(ctx, rng, &o);
    if !sane(ctx, &c, &r, &t, true) {
        return;
    }
    for (i, x) in t.iter().enumerate() {
        for (m, h, side) in [(&c.req[i], &x.snap.req_headers, "request"), (&c.res[i], &x.snap.res_headers, "response")] {
            let want = m.table();
            let got: Vec<(Vec<u8>, Vec<u8>, bool)> = h.iter().map(|h| (h.0.clone(), h.1.clone(), h.2 & 0x20 != 0)).collect();
            ctx.obs("headers", got.len() as u64);
            ctx.obs("messages with more repetitions than are merged", (m.headers.len() + m.trailers.len() > want.len() + 64 + want.iter().filter(|x| x.2).count()) as u64);
            ctx.obs("repeated headers", want.iter().filter(|x| x.2).count() as u64);
            ctx.obs("trailer headers", m.trailers.len() as u64);
            ctx.obs("folded headers", m.headers.iter().filter(|h| h.wire.iter().filter(|c| **c == b'\n').count() > 1).count() as u64);
            ctx.evaluations += 1;
            if got != want {
                let d = got
                    .iter()
                    .map(Some)
                    .chain(std::iter::repeat(None))
                    .zip(want.iter().map(Some).chain(std::iter::repeat(None)))
                    .take(got.len().max(want.len()))
                    .find(|(a, b)| a != b);
                let f = |x: Option<&(Vec<u8>, Vec<u8>, bool)>| x.map(|x| format!("{}: {} (repeated {})", show(&x.0), show(&x.1), x.2));
                ctx.fail("table", format!("{} headers of tx {}: {} rows, want {}; first difference {:?}", side, i, got.len(), want.len(), d.map(|(a, b)| (f(a), f(b)))));
            }
            for g in h.iter() {
                let first = m.headers.iter().chain(m.trailers.iter()).find(|x| x.name.eq_ignore_ascii_case(&g.0));
                let folded = first.map_or(false, |x| crate::gen::trim(&x.wire).contains(&b'\n'));
                ctx.check((g.2 & 0x10 != 0) == folded, "folded", || {
                    format!("{} header {}: folded {} but its flags are {:x}", side, show(&g.0), folded, g.2)
                });
                ctx.obs("folded fields", folded as u64);
                if g.2 & !0x30 != 0 {
                    ctx.fail("flags", format!("{} header {} of a well-formed message has flags {:x}", side, show(&g.0), g.2));
                }
            }
        }
    }
}

/// P24
/// A side that waits for the other one is waiting for something the other side can do.
pub fn no_mutual_wait(ctx: &mut Ctx, r: &Run) {
    use htp::connection_parser::HtpStreamState as S;
    for w in r.calls.windows(2) {
        if w[0].req != w[1].req && w[0].ret == S::DATA_OTHER && w[1].ret == S::DATA_OTHER {
            ctx.obs("both sides yielded in turn", 1);
            ctx.check(w[1].consumed > 0 || w[1].evs.0 < w[1].evs.1, "mutual-wait", || format!("each side waits for the other: {:?} {:?}", w[0], w[1]));
        }
    }
}

fn counters(ctx: &mut Ctx, rng: &mut Rng) {
    if rng.flip() {
        return hostile_counters(ctx, rng);
    }
    let o = Opts { max_body: 1000, big: 100, ..Opts::default() };
    let (c, r, t) = go(ctx, rng, &o);
    if !sane(ctx, &c, &r, &t, true) {
        return;
    }
    let sum = |q: bool| r.calls.iter().filter(|x| x.req == q).map(|x| x.len as u64).sum::<u64>();
    ctx.eq(&r.req_counter, &sum(true), "counter", "request byte counter");
    ctx.eq(&r.res_counter, &sum(false), "counter", "response byte counter");
}

fn hostile_counters(ctx: &mut Ctx, rng: &mut Rng) {
    use htp::connection_parser::HtpStreamState as S;
    let (cfg, desc) = crate::p_host::any_cfg(rng);
    let ops = crate::p_host::hostile(rng);
    let mut ops = ops;
    if rng.chance(1, 8) {
        // counters are 64 bits wide
        for o in ops.iter_mut() {
            let (Op::ReqGap(n) | Op::ResGap(n)) = o else { continue };
            *n = n.wrapping_add(*rng.pick(&[0, 1 << 16, 1 << 31, 1 << 32, 3 << 31, 1 << 40]));
        }
    }
    let fault = crate::p_host::some_fault(rng);
    let raw = rng.flip();
    ctx.input = format!("{}{:?} {}\n{}", desc, fault, if raw { "raw" } else { "" }, show_ops(&ops));
    ctx.seen(ctx.input.clone().as_bytes());
    let mut d = Driver::new(cfg).with_fault(fault);
    for o in &ops {
        if raw {
            d.call(o);
        } else {
            d.feed(o);
        }
    }
    let r = d.finish();
    let mut want = [0u64; 2];
    for (i, c) in r.calls.iter().enumerate() {
        let before = if c.req { c.before.0 } else { c.before.1 };
        let dead = matches!(before, S::STOP | S::ERROR);
        if !dead {
            want[c.req as usize] += c.len as u64;
        }
        ctx.check(c.counted.1 == want[c.req as usize], "counter", || format!("after call {} {:?}: want {}", i, c, want[c.req as usize]));
        ctx.obs("bytes of gaps", if c.gap && !dead { c.len as u64 } else { 0 });
        ctx.obs("tunnelled bytes", if before == S::TUNNEL { c.len as u64 } else { 0 });
        ctx.obs("calls after STOP or ERROR", dead as u64);
    }
    ctx.eq(&r.req_counter, &want[1], "counter", "request byte counter");
    ctx.eq(&r.res_counter, &want[0], "counter", "response byte counter");
}

pub fn props() -> Vec<Prop> {
    let a: &[&str] = &["generated messages are well-formed HTTP/1.0 or 1.1", "the caller re-offers unconsumed input after DATA_OTHER, as the API documents"];
    let mk = |id, case, quick, need: &'static [&'static str], rule| Prop { id, case, quick, thorough: quick * 6, rule, need, assumptions: a, mem: 0, asan: &[] };
    vec![
        mk("C03", seg as fn(&mut Ctx, &mut Rng), 24000, &["transactions compared", "conversations of unusual size"], "hash of the sequence of data calls (direction and bytes): one distinct segmentation and interleaving of one conversation"),
        mk("C04", body, 80_000, &["bodies announced as huge", "chunked bodies", "Content-Length bodies", "close-delimited bodies", "messages without body", "responses with a broken chunk length line", "conversations of unusual size"], "hash of the sequence of data calls"),
        mk("C07", pairing, 120_000, &["pipelined conversations", "interim responses", "100 responses with a body", "interim responses in a row", "bodies not sent after 4xx", "chunked bodies not sent after 4xx", "bodies sent after asking", "bodies begun before a 4xx", "conversations of unusual size"], "hash of the sequence of data calls"),
        mk("C08", lifecycle, 120000, &["callback sequences checked", "hostile callback sequences checked", "conversations of unusual size"], "hash of the sequence of data calls"),
        mk("C09", raw, 160_000, &["raw head bytes", "raw trailer bytes", "conversations of unusual size"], "hash of the sequence of data calls"),
        mk("C10", headers, 160_000, &["repeated headers", "messages with more repetitions than are merged", "trailer headers", "folded headers", "conversations of unusual size"], "hash of the sequence of data calls"),
        mk("C24", counters, 200_000, &["transactions", "bytes of gaps", "tunnelled bytes", "calls after STOP or ERROR", "conversations of unusual size"], "hash of the sequence of data calls"),
    ]
}
