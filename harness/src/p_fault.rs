//! C18: what a callback returns.
use crate::drive::*;
use crate::fw::*;
use crate::gen::*;
use crate::p_conv::{base_cfg, is_req};
use crate::p_host::{any_cfg, hostile};
use crate::rng::Rng;
use htp::connection_parser::HtpStreamState as S;

fn brief(r: &Run) -> Vec<(K, usize, Option<Vec<u8>>, usize)> {
    r.evs.iter().map(|e| (e.k, e.tx, e.data.clone(), e.call)).collect()
}

/// Some of the data calls bring the news of missing bytes instead of data.
fn lose(rng: &mut Rng, ops: &mut [Op]) {
    let first: Vec<usize> = [true, false].iter().filter_map(|q| ops.iter().position(|o| if *q { matches!(o, Op::Req(_)) } else { matches!(o, Op::Res(_)) })).collect();
    for _ in 0..rng.range(1, 4) {
        let i = rng.below(ops.len());
        if first.contains(&i) {
            continue;
        }
        match &ops[i] {
            Op::Req(b) if !b.is_empty() => ops[i] = Op::ReqGap(b.len()),
            Op::Res(b) if !b.is_empty() => ops[i] = Op::ResGap(b.len()),
            _ => {}
        }
    }
}
/// Any callback, or a callback of any kind, or one for missing bytes.
fn choose(rng: &mut Rng, a: &Run) -> usize {
    let gaps: Vec<usize> = (0..a.evs.len()).filter(|i| a.evs[*i].gap).collect();
    if !gaps.is_empty() && rng.flip() {
        return *rng.pick(&gaps);
    }
    let at = rng.below(a.evs.len());
    if rng.flip() {
        return at;
    }
    let mut kinds: Vec<K> = vec![];
    for e in &a.evs {
        if !kinds.contains(&e.k) {
            kinds.push(e.k);
        }
    }
    let k = *rng.pick(&kinds);
    let of: Vec<usize> = (0..a.evs.len()).filter(|i| a.evs[*i].k == k).collect();
    *rng.pick(&of)
}
/// The connection is closed in the middle: what remains is never sent.
fn cut(rng: &mut Rng, ops: &mut Vec<Op>) {
    let n = rng.range(1, ops.len());
    ops.truncate(n);
    if let Some(Op::Req(b) | Op::Res(b)) = ops.last_mut() {
        let k = rng.range(1, b.len().max(1));
        b.truncate(k);
    }
    if rng.chance(1, 3) {
        ops.push(Op::ReqClose);
    }
    ops.push(Op::Close);
}
/// A callback that fails while the connection is closed ends its direction there as well.
fn closing(ctx: &mut Ctx, b: &Run, at: usize, k: K, stop: bool) {
    ctx.obs("faults while closing", 1);
    if k == K::TxComplete {
        return;
    }
    let req = is_req(k);
    ctx.obs(&format!("faults while closing, {:?}", k), 1);
    let more = b.evs[at + 1..].iter().find(|e| e.k != K::TxComplete && is_req(e.k) == req);
    ctx.check(more.is_none(), &format!("closing-goes-on-{:?}", k), || format!("{:?} failed while closing: {:?} followed", k, more.unwrap().k));
    let st = if req { b.p.request_status } else { b.p.response_status };
    let want = if stop { S::STOP } else { S::ERROR };
    ctx.check(st == want, &format!("closing-state-{:?}", k), || format!("{:?} failed while closing: the state of its direction is {:?}", k, st));
}
/// A body callback registered on a transaction fails: it runs before those of the configuration.
fn tx_case(ctx: &mut Ctx, rng: &mut Rng) {
    let o = Opts { max_tx: 3, max_body: 120, hdrs: 2, req_compress: rng.flip(), nonempty: true, ..Opts::default() };
    let c = conversation(rng, &o);
    let seed = rng.next();
    let mk = || {
        let mut cfg = base_cfg(&mut Rng::new(seed));
        cfg.set_request_decompression(o.req_compress);
        cfg
    };
    let mut ops = schedule(rng, &c);
    if rng.chance(1, 4) {
        lose(rng, &mut ops);
    }
    let a = run(mk(), &ops);
    let lines = |tx: usize, i: usize| a.evs[..i].iter().any(|e| e.k == K::ReqLine && e.tx == tx);
    let all: Vec<usize> = (0..a.evs.len()).filter(|i| matches!(a.evs[*i].k, K::ReqBody | K::ResBody) && a.evs[*i].tx % 2 == 0 && lines(a.evs[*i].tx, *i)).collect();
    if all.is_empty() {
        return;
    }
    let at = *rng.pick(&all);
    let (k, tx) = (a.evs[at].k, a.evs[at].tx);
    let nth = all.iter().filter(|i| **i < at && a.evs[**i].k == k && a.evs[**i].tx == tx).count();
    let status = *rng.pick(&[-1i32, 4, 0, -1, 4]);
    ctx.input = format!("{:?} of transaction {} number {} returns {} (event {})\n{}", k, tx, nth, status, at, show_ops(&ops));
    ctx.seen(ctx.input.clone().as_bytes());
    let mut cfg = mk();
    instrument(&mut cfg);
    instrument_second(&mut cfg);
    let mut d = Driver::bare(cfg);
    REC.with(|r| {
        let mut r = r.borrow_mut();
        r.tx_hooks = true;
        r.tx_fault = Some((k == K::ReqBody, tx, nth, status));
    });
    for op in &ops {
        d.feed(op);
    }
    let no = REC.with(|r| r.borrow().fired_in);
    let b = d.finish();
    ctx.check(b.fired, "tx-not-fired", || "the callback of the transaction was not called".into());
    if status == 0 {
        ctx.check(brief(&a) == brief(&b) && a.txs == b.txs, "declined", || "a callback of a transaction that declines changes the result".into());
        return;
    }
    ctx.check(b.evs.len() >= at && brief(&a)[..at] == brief(&b)[..at], "prefix", || "different callbacks before the fault".into());
    let Some(call) = b.calls.iter().find(|c| c.no == no) else { return };
    let want = if status == 4 { S::STOP } else { S::ERROR };
    ctx.obs("faults of callbacks registered on a transaction", 1);
    ctx.check(call.ret == want, &format!("tx-ignored-{:?}", k), || format!("a callback of a transaction for {:?} returned {}: the call returned {:?}", k, status, call.ret));
    ctx.check(call.evs.1 == at, &format!("tx-goes-on-{:?}", k), || format!("{} callbacks followed in the same call", call.evs.1 as i64 - at as i64));
    for c in b.calls.iter().filter(|c| c.no > no && c.req == call.req && c.len > 0) {
        ctx.check(c.evs.0 == c.evs.1 && c.ret == want, "not-sticky", || format!("a later call returned {:?} after {} callbacks", c.ret, c.evs.1 - c.evs.0));
    }
}
fn case(ctx: &mut Ctx, rng: &mut Rng) {
    if rng.chance(1, 3) {
        return hostile_case(ctx, rng);
    }
    if rng.chance(1, 8) {
        return tx_case(ctx, rng);
    }
    let o = Opts { max_tx: 3, max_body: 120, hdrs: 2, req_compress: rng.flip(), ..Opts::default() };
    let c = conversation(rng, &o);
    let seed = rng.next();
    let destroy = rng.chance(1, 4);
    let mk = || {
        let mut cfg = base_cfg(&mut Rng::new(seed));
        cfg.set_tx_auto_destroy(destroy);
        cfg.set_request_decompression(o.req_compress);
        cfg
    };
    let mut ops = schedule(rng, &c);
    if rng.chance(1, 3) {
        lose(rng, &mut ops);
    }
    if rng.chance(1, 4) {
        cut(rng, &mut ops);
    }
    let a = run(mk(), &ops);
    if a.evs.is_empty() {
        return;
    }
    // one callback of that execution, any of them
    let at = choose(rng, &a);
    let k = a.evs[at].k;
    let nth = a.evs[..at].iter().filter(|e| e.k == k).count();
    let status = *rng.pick(&[-1i32, 4, 0, -1, 4]);
    let f = Fault { k, nth, status };
    ctx.input = format!("{:?} (event {}, tx {})\n{}", f, at, a.evs[at].tx, show_ops(&ops));
    ctx.seen(ctx.input.clone().as_bytes());
    // with callbacks behind each one, one of which may be the one that fails, and callbacks on single transactions
    let mut cfg = mk();
    instrument(&mut cfg);
    let behind = *rng.pick(&[1usize, 1, 1, 2, 3, 5, 20]);
    for _ in 0..behind {
        instrument_second(&mut cfg);
    }
    let late = if rng.chance(1, 3) { Some(rng.below(behind)) } else { None };
    ctx.input = format!("{} callbacks per hook, failing: {:?}\n{}", behind + 1, late.map_or(0, |l| l + 1), ctx.input);
    let mut d = Driver::bare(cfg).with_fault(Some(f));
    REC.with(|r| {
        let mut r = r.borrow_mut();
        r.tx_hooks = true;
        r.late = late;
    });
    ctx.obs("faults of callbacks behind the first", late.is_some() as u64);
    ctx.obs("hooks with more than five callbacks", (behind > 5) as u64);
    for op in &ops {
        d.feed(op);
    }
    let (second, txd) = REC.with(|r| {
        let mut r = r.borrow_mut();
        (std::mem::take(&mut r.second), std::mem::take(&mut r.tx_data))
    });
    let b = d.finish();
    // each event reaches the second callback right after the first, unless the first one failed
    let copies = |i: usize| if i == at && status != 0 { late.map_or(0, |l| l + 1) } else { behind };
    let want: Vec<(K, usize, usize)> = b.evs.iter().enumerate().flat_map(|(i, e)| std::iter::repeat((e.k, e.tx, i + 1)).take(copies(i))).collect();
    ctx.check(second == want, "second", || {
        let i = second.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(second.len().min(want.len()));
        format!("callback registered second: call {} is {:?}, want {:?} (of {} and {})", i, second.get(i), want.get(i), second.len(), want.len())
    });
    ctx.obs("second callbacks", second.len() as u64);
    let want: Vec<(bool, usize, Option<Vec<u8>>)> =
        b.evs
        .iter()
        .enumerate()
        .filter(|(i, e)| matches!(e.k, K::ReqBody | K::ResBody) && e.tx % 2 == 0 && second.iter().any(|x| x.0 == K::ReqLine && x.1 == e.tx && x.2 <= *i))
        .map(|(_, e)| (e.k == K::ReqBody, e.tx, e.data.clone()))
        .collect();
    ctx.check(txd == want, "tx-callback", || format!("callbacks registered on a transaction got {} pieces of body data, the others {}", txd.len(), want.len()));
    ctx.obs("callbacks registered on a transaction", txd.len() as u64);
    ctx.check(b.fired, "not-fired", || "the callback was not called again in the same execution".into());
    if status == 0 {
        // declining changes nothing
        ctx.check(brief(&a) == brief(&b), "declined", || format!("{} callbacks without, {} with a callback that declines", a.evs.len(), b.evs.len()));
        ctx.check(a.txs == b.txs, "declined", || "different transactions".into());
        ctx.obs("callbacks that declined", 1);
        return;
    }
    // up to the callback nothing changes
    let n = at + 1;
    ctx.check(brief(&a)[..n] == brief(&b)[..n.min(b.evs.len())], "prefix", || "different callbacks before the fault".into());
    let Some(call) = b.calls.iter().find(|c| c.evs.0 <= at && at < c.evs.1) else {
        // raised while closing: there is nobody to tell
        return closing(ctx, &b, at, k, status == 4);
    };
    let want = if status == 4 { S::STOP } else { S::ERROR };
    let name = format!("{:?} returned {} in a {} call", k, if status == 4 { "STOP" } else { "ERROR" }, if call.req { "request" } else { "response" });
    ctx.obs(&format!("{} by {:?}", if status == 4 { "STOP" } else { "ERROR" }, k), 1);
    let tx = b.evs[at].tx;
    let packed = match k {
        _ if b.evs[at].gap => false,
        K::ReqBody => o.req_compress && c.req.get(tx).map_or(false, |m| !m.codings.is_empty()),
        K::ResBody => c.res.get(tx).map_or(false, |m| !m.codings.is_empty()),
        _ => false,
    };
    ctx.obs("faults in decompressed bodies", packed as u64);
    ctx.obs("faults in callbacks for missing bytes", b.evs[at].gap as u64);
    ctx.check(call.ret == want, &format!("ignored-{:?}", k), || format!("{}: the call returned {:?}", name, call.ret));
    ctx.check(call.evs.1 == at + 1, &format!("goes-on-{:?}", k), || format!("{}: {:?} followed in the same call", name, b.evs[at + 1].k));
    let mut seen = false;
    for c in &b.calls {
        if std::ptr::eq(c, call) {
            seen = true;
        } else if seen && c.req == call.req && c.len > 0 {
            ctx.check(c.evs.0 == c.evs.1, "later", || format!("{}: {:?} in a later call of that direction", name, b.evs[c.evs.0].k));
            ctx.check(c.ret == want, "not-sticky", || format!("{}: a later call returned {:?}", name, c.ret));
        }
    }
}
/// The same for anything a peer may send and any configuration.
fn hostile_case(ctx: &mut Ctx, rng: &mut Rng) {
    let seed = rng.next();
    let mk = || any_cfg(&mut Rng::new(seed)).0;
    let ops = hostile(rng);
    let a = run(mk(), &ops);
    if a.evs.is_empty() {
        return;
    }
    let at = choose(rng, &a);
    let k = a.evs[at].k;
    let nth = a.evs[..at].iter().filter(|e| e.k == k).count();
    let stop = rng.flip();
    let f = Fault { k, nth, status: if stop { 4 } else { -1 } };
    ctx.input = format!("{:?} (event {}, tx {}) {}\n{}", f, at, a.evs[at].tx, any_cfg(&mut Rng::new(seed)).1, show_ops(&ops));
    ctx.seen(ctx.input.clone().as_bytes());
    let b = run_fault(mk(), &ops, Some(f));
    ctx.check(b.fired, "not-fired", || "the callback was not called again in the same execution".into());
    let n = at + 1;
    ctx.check(brief(&a)[..n] == brief(&b)[..n.min(b.evs.len())], "prefix", || "different callbacks before the fault".into());
    let Some(call) = b.calls.iter().find(|c| c.evs.0 <= at && at < c.evs.1) else {
        return closing(ctx, &b, at, k, stop);
    };
    let want = if stop { S::STOP } else { S::ERROR };
    let name = format!("{:?} returned {} in a {} call", k, if stop { "STOP" } else { "ERROR" }, if call.req { "request" } else { "response" });
    ctx.obs("faults in hostile input", 1);
    ctx.check(call.ret == want, &format!("ignored-{:?}", k), || format!("{}: the call returned {:?}", name, call.ret));
    ctx.check(call.evs.1 == at + 1, &format!("goes-on-{:?}", k), || format!("{}: {:?} followed in the same call", name, b.evs[at + 1].k));
    let mut seen = false;
    for c in &b.calls {
        if std::ptr::eq(c, call) {
            seen = true;
        } else if seen && c.req == call.req && c.len > 0 {
            ctx.check(c.evs.0 == c.evs.1, "later", || format!("{}: {:?} in a later call of that direction", name, b.evs[c.evs.0].k));
            ctx.check(c.ret == want, "not-sticky", || format!("{}: a later call returned {:?}", name, c.ret));
        }
    }
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C18",
        case,
        quick: 300_000,
        thorough: 1_000_000,
        rule: "hash of the fault (callback, occurrence, status) and the sequence of data calls",
        need: &["callbacks that declined", "second callbacks", "faults of callbacks behind the first", "hooks with more than five callbacks", "faults of callbacks registered on a transaction", "callbacks registered on a transaction", "faults in decompressed bodies", "faults in callbacks for missing bytes", "faults in hostile input", "faults while closing"],
        assumptions: &["a callback returns OK, DECLINED, ERROR or STOP: the values a callback is documented to return"],
        mem: 0, asan: &[],
    }]
}
