//! C20: gaps. C21: streams that end early.
use crate::drive::*;
use crate::fw::*;
use crate::gen::*;
use crate::p_conv::{base_cfg, collect, norm, ctx_input_short};
use crate::rng::Rng;
use htp::connection_parser::HtpStreamState as S;
use htp::log::HtpLogCode as L;

const MISSING: u64 = 0x38_0000_0000;

#[derive(Clone, Debug)]
enum Piece {
    Data(Vec<u8>),
    /// length, and how much of it lies behind the body
    Gap(usize, usize),
}

/// The message with parts of its body missing: what is sent, and what a reader can know of the body.
fn pierce(rng: &mut Rng, m: &Msg) -> (Vec<Piece>, Vec<Option<u8>>) {
    let n = m.body_wire;
    let mut mask = vec![false; n];
    let ok = matches!(m.body, Some(Body::Cl) | Some(Body::Close)) && n > 0;
    if ok && rng.chance(3, 4) {
        for _ in 0..rng.range(1, 3) {
            let a = rng.below(n);
            let b = if rng.chance(1, 3) { n } else { a + 1 + rng.below(n - a) };
            let a = if rng.chance(1, 8) { 0 } else { a };
            mask[a..b].iter_mut().for_each(|x| *x = true);
        }
    }
    let want: Vec<Option<u8>> = if ok { (0..n).map(|i| if mask[i] { None } else { Some(m.entity[i]) }).collect() } else { m.entity.iter().map(|b| Some(*b)).collect() };
    let mut out = vec![];
    let mut data = m.wire[..m.body_off].to_vec();
    if !ok {
        return (vec![Piece::Data(m.wire.clone())], want);
    }
    let mut i = 0;
    while i < n {
        if mask[i] {
            let mut j = i;
            while j < n && mask[j] {
                j += 1;
            }
            if !data.is_empty() {
                out.push(Piece::Data(std::mem::take(&mut data)));
            }
            let mut left = j - i;
            while left > 0 {
                let g = if rng.flip() { left } else { 1 + rng.below(left) };
                left -= g;
                let beyond = if left == 0 && j == n && m.body == Some(Body::Cl) && rng.chance(1, 4) { rng.range(1, 50) } else { 0 };
                out.push(Piece::Gap(g, beyond));
            }
            i = j;
        } else {
            data.push(m.wire[m.body_off + i]);
            i += 1;
        }
    }
    if !data.is_empty() {
        out.push(Piece::Data(data));
    }
    (out, want)
}

fn rebuilt(r: &Run, k: K, tx: usize) -> Vec<Option<u8>> {
    let mut v = vec![];
    for e in r.evs.iter().filter(|e| e.k == k && e.tx == tx) {
        if e.gap {
            v.extend(std::iter::repeat(None).take(e.len));
        } else if let Some(d) = &e.data {
            v.extend(d.iter().map(|b| Some(*b)));
        }
    }
    v
}

fn gaps(ctx: &mut Ctx, rng: &mut Rng) {
    let o = Opts { compress: false, max_tx: 4, max_body: 300, nonempty: true, hdrs: 3, ..Opts::default() };
    let c = conversation(rng, &o);
    let (mut q, mut s) = (vec![], vec![]);
    let (mut wq, mut ws) = (vec![], vec![]);
    for i in 0..c.req.len() {
        let (p, w) = pierce(rng, &c.req[i]);
        q.push(p);
        wq.push(w);
        let (p, w) = pierce(rng, &c.res[i]);
        s.push(p);
        ws.push(w);
    }
    let mut cfg = base_cfg(rng);
    let destroy = rng.chance(1, 4);
    cfg.set_tx_auto_destroy(destroy);
    let mode = rng.below(5);
    // (op, bytes of it beyond the end of the body)
    let mut ops: Vec<(Op, usize)> = vec![];
    let mut put = |rng: &mut Rng, req: bool, p: &[Piece]| {
        for x in p {
            match x {
                Piece::Data(d) => {
                    for b in split(rng, d, mode) {
                        ops.push((if req { Op::Req(b) } else { Op::Res(b) }, 0));
                    }
                }
                Piece::Gap(n, beyond) => ops.push((if req { Op::ReqGap(n + beyond) } else { Op::ResGap(n + beyond) }, *beyond)),
            }
        }
    };
    if rng.flip() {
        for i in 0..q.len() {
            put(rng, true, &q[i]);
            put(rng, false, &s[i]);
        }
    } else {
        // pipelined; data on both sides of a message boundary shares segments
        for (req, l) in [(true, &q), (false, &s)] {
            let mut flat: Vec<Piece> = vec![];
            for p in l.iter().flatten() {
                match (flat.last_mut(), p) {
                    (Some(Piece::Data(a)), Piece::Data(b)) => a.extend_from_slice(b),
                    _ => flat.push(p.clone()),
                }
            }
            put(rng, req, &flat);
        }
    }
    ops.push((Op::Close, 0));
    ctx.input = show_ops(&ops.iter().map(|o| o.0.clone()).collect::<Vec<_>>());
    ctx.seen(ctx.input.clone().as_bytes());
    ctx.sample(|| ctx_input_short(&ops.iter().map(|o| o.0.clone()).collect::<Vec<_>>()));
    let mut d = Driver::new(cfg).snap_at(&[K::TxComplete]);
    let mut refused = 0;
    for (op, beyond) in &ops {
        if matches!(op, Op::Close) {
            d.call(op);
            continue;
        }
        let n = match op {
            Op::Req(b) | Op::Res(b) => b.len(),
            Op::ReqGap(n) | Op::ResGap(n) => *n,
            _ => 0,
        };
        let (ret, used) = d.call(op);
        let want = if *beyond > 0 { S::CLOSED } else { S::DATA };
        if !ctx.check(ret == want && used == n - beyond, "call", || format!("{}, {} of it beyond the body: returned {:?}, consumed {}", show_op(op), beyond, ret, used)) {
            return;
        }
        refused += (*beyond > 0) as usize;
        if *beyond > 0 {
            // the message whose body it ended is complete
            let last = REC.with(|r| r.borrow().evs.last().map(|e| e.k));
            let want = if matches!(op, Op::ReqGap(_)) { K::ReqComplete } else { K::ResComplete };
            ctx.check(last == Some(want) || last == Some(K::TxComplete), "ended", || format!("{}, {} of it beyond the body: the last callback is {:?}", show_op(op), beyond, last));
        }
    }
    let r = d.finish();
    let t = collect(&r);
    let logged = r.logs.iter().filter(|l| l.0 == L::INVALID_GAP).count();
    ctx.eq(&logged, &refused, "log", "gaps reported as invalid");
    ctx.obs("gaps that go beyond the body", refused as u64);
    if !ctx.check(t.len() == c.req.len(), "tx-count", || format!("{} transactions completed, {} exchanged\n{:?}", t.len(), c.req.len(), r.logs)) {
        return;
    }
    for (i, x) in t.iter().enumerate() {
        for (k, want, m, elen, mlen, side) in [
            (K::ReqBody, &wq[i], &c.req[i], x.snap.req_entity_len, x.snap.req_message_len, "request"),
            (K::ResBody, &ws[i], &c.res[i], x.snap.res_entity_len, x.snap.res_message_len, "response"),
        ] {
            let got = rebuilt(&r, k, i);
            let lost = want.iter().filter(|b| b.is_none()).count();
            ctx.check(&got == want, "body", || {
                let at = got.iter().zip(want.iter()).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
                format!("{} body {}: {} bytes, want {}; they differ at {}: {:?} {:?}", side, i, got.len(), want.len(), at, got.get(at), want.get(at))
            });
            ctx.eq(&elen, &((want.len() - lost) as u64), "entity-len", &format!("{} entity length {}", side, i));
            ctx.eq(&mlen, &(m.body_wire as u64), "message-len", &format!("{} message length {}", side, i));
            ctx.obs("missing bytes", lost as u64);
            ctx.obs(&format!("{} bodies with missing bytes", side), (lost > 0) as u64);
            if lost > 0 && m.body == Some(Body::Close) {
                ctx.obs("close-delimited bodies with missing bytes", 1);
            }
        }
        let miss = |w: &Vec<Option<u8>>| w.iter().any(|b| b.is_none());
        let want = if miss(&wq[i]) { 0x18_0000_0000 } else { 0 } | if miss(&ws[i]) { 0x28_0000_0000 } else { 0 };
        ctx.eq(&(x.snap.flags & MISSING), &want, "flag", &format!("missing-bytes flags of transaction {}", i));
        ctx.eq(&x.snap.uri, &Some(c.req[i].uri.clone()), "uri", "URI");
        ctx.eq(&x.snap.res_status_number, &(c.res[i].status as i32), "status", "status");
        ctx.eq(&r.count(K::ReqComplete, i), &1, "complete", "request completions");
        ctx.eq(&r.count(K::ResComplete, i), &1, "complete", "response completions");
    }
}

/// A gap where it cannot be bridged is refused and changes nothing else.
fn refused(ctx: &mut Ctx, rng: &mut Rng) {
    let o = Opts { compress: false, max_tx: 3, max_body: 100, hdrs: 3, ..Opts::default() };
    let c = conversation(rng, &o);
    let seed = rng.next();
    let mk = || base_cfg(&mut Rng::new(seed));
    let mut ops = schedule(rng, &c);
    if ops.last() != Some(&Op::Close) {
        ops.push(Op::Close);
    }
    let req = rng.flip();
    let gap = rng.range(1, 200);
    let op = if req { Op::ReqGap(gap) } else { Op::ResGap(gap) };
    // places inside of a head or of a chunked body
    let msgs = if req { &c.req } else { &c.res };
    let mut pos = 0;
    let mut asked = 0;
    let mut places = vec![];
    for (i, o) in ops.iter().enumerate() {
        if let Op::Req(b) = o {
            asked += b.len();
        }
        match o {
            Op::Req(b) if req => pos += b.len(),
            Op::Res(b) if !req => pos += b.len(),
            _ => {}
        }
        let mut p = pos;
        for (k, m) in msgs.iter().enumerate() {
            if p < m.wire.len() {
                if p > 0 && (p < m.body_off || m.body == Some(Body::Chunked)) && i + 1 < ops.len() {
                    places.push((i + 1, k));
                }
                // between two messages (the request of a response is there)
                if p == 0 && k > 0 && (req || asked >= c.req[..=k].iter().map(|m| m.wire.len()).sum()) && i + 1 < ops.len() {
                    places.push((i + 1, k));
                }
                break;
            }
            p -= m.wire.len();
        }
    }
    if rng.chance(1, 15) {
        // before the first byte
        let mut d = Driver::new(mk());
        let op0 = ops.iter().position(|o| if req { matches!(o, Op::Req(_)) } else { matches!(o, Op::Res(_)) }).unwrap();
        for o in &ops[..op0] {
            d.feed(o);
        }
        let n = d.calls.len();
        ctx.input = format!("{}\n{}", show_ops(&ops[..op0]), show_op(&op));
        let (ret, used) = d.call(&op);
        let evs = d.calls[n].evs;
        ctx.check((ret == S::ERROR || (!req && ret == S::CLOSED)) && used == 0 && evs.0 == evs.1, "leading", || format!("{}: returned {:?}, consumed {}, {} callbacks", show_op(&op), ret, used, evs.1 - evs.0));
        ctx.obs("leading gaps", 1);
        return;
    }
    if places.is_empty() {
        return;
    }
    let (at, msg) = *rng.pick(&places);
    ctx.input = format!("{}\n{}\n{}", show_ops(&ops[..at]), show_op(&op), show_ops(&ops[at..]));
    ctx.seen(ctx.input.clone().as_bytes());
    let a = crate::p_conv::exec(mk(), &ops);
    let mut d = Driver::new(mk()).snap_at(&[K::TxComplete]);
    for o in &ops[..at] {
        d.feed(o);
    }
    let n = d.calls.len();
    let before = (d.p.request_status, d.p.response_status);
    let (ret, used) = d.call(&op);
    let evs = d.calls[n].evs;
    let after = (d.p.request_status, d.p.response_status);
    for o in &ops[at..] {
        d.feed(o);
    }
    let b = d.finish();
    ctx.check(ret == S::CLOSED && used == 0, "accepted", || format!("{} inside of message {}: returned {:?}, consumed {}", show_op(&op), msg, ret, used));
    let made: Vec<K> = b.evs[evs.0..evs.1].iter().filter(|e| e.data.is_some() || e.gap).map(|e| e.k).collect();
    ctx.check(made.is_empty(), "delivered", || format!("{} inside of message {}: callbacks with data {:?}", show_op(&op), msg, made));
    ctx.eq(&after, &before, "state", "stream states");
    ctx.eq(&b.logs.iter().filter(|l| l.0 == L::INVALID_GAP).count(), &1, "log", "gaps reported as invalid");
    let (ta, tb) = (collect(&a), collect(&b));
    if !ctx.check(ta.len() == tb.len(), "tx-count", || format!("{} transactions completed, {} without the gap", tb.len(), ta.len())) {
        return;
    }
    ctx.obs("refused gaps", 1);
    let taken: usize = ops[..at].iter().map(|o| match o {
        Op::Req(b) if req => b.len(),
        Op::Res(b) if !req => b.len(),
        _ => 0,
    }).sum();
    ctx.obs("gaps between messages", (taken == msgs[..msg].iter().map(|m| m.wire.len()).sum::<usize>()) as u64);
    for (i, (x, y)) in ta.iter().zip(&tb).enumerate() {
        let f = y.snap.flags & MISSING;
        ctx.check(f == 0 || ((i == msg || i + 1 == msg) && f == if req { 0x18_0000_0000 } else { 0x28_0000_0000 }), "flag", || format!("missing-bytes flags {:x} of transaction {} after a gap in {}", f, i, msg));
        let mut z = norm(&y.snap);
        z.flags &= !MISSING;
        ctx.check(z == norm(&x.snap), "differs", || format!("transaction {} is reported differently after the refused gap", i));
        ctx.eqb(&y.req_body, &x.req_body, "body-after", "request body");
        ctx.eqb(&y.res_body, &x.res_body, "body-after", "response body");
    }
    let flagged = tb.iter().filter(|t| t.snap.flags & MISSING != 0).count();
    ctx.eq(&flagged, &1, "flag", "transactions flagged");
}

fn trim_eol(b: &[u8]) -> &[u8] {
    let n = b.iter().rposition(|c| *c != b'\r' && *c != b'\n').map_or(0, |i| i + 1);
    &b[..n]
}

/// Decodes what there is of a well-formed chunked body: the data, and whether the last chunk was seen.
fn dechunk(w: &[u8]) -> (Vec<u8>, bool) {
    let mut out = vec![];
    let mut i = 0;
    loop {
        let Some(e) = w[i..].iter().position(|b| *b == b'\n') else { return (out, false) };
        let mut n = 0usize;
        for b in w[i..i + e].iter() {
            match (*b as char).to_digit(16) {
                Some(v) => n = n * 16 + v as usize,
                None => break,
            }
        }
        i += e + 1;
        if n == 0 {
            return (out, true);
        }
        let end = (i + n).min(w.len());
        out.extend_from_slice(&w[i..end]);
        if end < i + n {
            return (out, false);
        }
        i = end;
        match w[i..].iter().position(|b| *b == b'\n') {
            Some(e) => i += e + 1,
            None => return (out, false),
        }
    }
}

/// The fields received in full, and that nothing but a partial one is added.
fn fields(ctx: &mut Ctx, m: &Msg, p: usize, got: &[(Vec<u8>, Vec<u8>, u64)], side: &str) {
    let mut at = m.interim_len + m.line.len() + m.eol.len();
    let mut n = 0;
    for h in &m.headers {
        at += h.wire.len();
        if at > p {
            break;
        }
        n += 1;
    }
    let want = table(m.headers[..n].iter());
    let mut longer = 0;
    let mut bad = got.len() > want.len() + 1;
    for (i, w) in want.iter().enumerate() {
        match got.get(i) {
            Some(g) if g.0 == w.0 && g.1 == w.1 => {}
            Some(g) if g.0 == w.0 && g.1.starts_with(&w.1) => longer += 1,
            _ => bad = true,
        }
    }
    ctx.check(!bad && longer <= 1, "fields", || format!("{} fields: got {:?}, received in full {:?}", side, got.iter().map(|g| (show(&g.0), show(&g.1))).collect::<Vec<_>>(), want.iter().map(|g| (show(&g.0), show(&g.1))).collect::<Vec<_>>()));
    ctx.obs("fields of truncated heads", n as u64);
}

fn closing(ctx: &mut Ctx, rng: &mut Rng) {
    let o = Opts { compress: rng.chance(1, 3), max_tx: 4, max_body: 200, hdrs: 4, ..Opts::default() };
    let c = conversation(rng, &o);
    let mut cfg = base_cfg(rng);
    let (flush, destroy) = (rng.flip(), rng.chance(1, 4));
    cfg.set_flush_incomplete(flush);
    cfg.set_tx_auto_destroy(destroy);
    let mut ops: Vec<Op> = schedule(rng, &c).into_iter().filter(|o| *o != Op::Close).collect();
    let k = rng.below(ops.len() + 1);
    let part = if k < ops.len() && rng.chance(2, 3) {
        Some(match &ops[k] {
            Op::Req(b) => Op::Req(b[..rng.below(b.len() + 1)].to_vec()),
            Op::Res(b) => Op::Res(b[..rng.below(b.len() + 1)].to_vec()),
            o => o.clone(),
        })
    } else {
        None
    };
    ops.truncate(k);
    if let Some(p) = part {
        if !matches!(&p, Op::Req(b) | Op::Res(b) if b.is_empty()) {
            ops.push(p);
        }
    }
    if rng.chance(1, 4) {
        ops.push(Op::ReqClose);
    }
    let data_end = ops.len();
    ops.push(Op::Close);
    ctx.input = format!("flush {} destroy {}\n{}", flush, destroy, show_ops(&ops));
    ctx.seen(ctx.input.clone().as_bytes());
    ctx.sample(|| ctx_input_short(&ops));
    let mut d = Driver::new(cfg).snap_at(&[K::TxComplete]);
    let (mut qpos, mut spos) = (0, 0);
    for o in &ops[..data_end] {
        match o {
            Op::Req(b) => qpos += b.len(),
            Op::Res(b) => spos += b.len(),
            _ => {}
        }
        d.feed(o);
    }
    let open: Vec<bool> = (0..c.req.len()).map(|i| d.p.tx(i).map_or(false, |t| t.is_started())).collect();
    d.feed(&Op::Close);
    let at = REC.with(|r| r.borrow().evs.len());
    if !flush {
        d.call(&Op::Close);
    }
    let again = REC.with(|r| r.borrow().evs.len()) - at;
    let r = d.finish();
    ctx.check(again == 0, "twice", || format!("closing again made {} callbacks", again));
    if !ctx.check(r.leftover == (0, 0) && !r.stuck, "stuck", || format!("{:?} bytes left", r.leftover)) {
        return;
    }
    // snapshot of a transaction: at completion or what is left of it
    let snap = |i: usize| r.evs.iter().find(|e| e.k == K::TxComplete && e.tx == i).map(|e| (**e.snap.as_ref().unwrap()).clone()).or_else(|| r.txs.iter().find(|t| t.index == i).cloned());
    let n = c.req.len();
    let at = |msgs: &[Msg], pos: usize| -> Vec<usize> {
        let mut p = pos;
        msgs.iter()
            .map(|m| {
                let x = p.min(m.wire.len());
                p -= x;
                x
            })
            .collect()
    };
    let (qp, sp) = (at(&c.req, qpos), at(&c.res, spos));
    let mut fuzzy = vec![false; n + 1];
    for i in 0..n {
        // the start of a method may be taken for excess body data of the message before it
        if qp[i] > 0 && qp[i] <= c.req[i].method.len() {
            fuzzy[i] = true;
            if i > 0 {
                fuzzy[i - 1] = true;
            }
        }
        let m = &c.res[i];
        if sp[i] > 0 && sp[i] < m.interim_len + m.line.len() {
            fuzzy[i] = true;
            if i > 0 {
                fuzzy[i - 1] = true;
            }
        }
    }
    let mut done = vec![];
    for i in 0..n {
        if fuzzy[i] {
            done.push(None);
            continue;
        }
        let sn = snap(i);
        let mut complete = [None, None];
        for (side, m, p) in [(0, &c.req[i], qp[i]), (1, &c.res[i], sp[i])] {
            let name = ["request", "response"][side];
            let (kstart, kheaders, kbody, ktrailer, kcomplete) = if side == 0 { (K::ReqStart, K::ReqHeaders, K::ReqBody, K::ReqTrailer, K::ReqComplete) } else { (K::ResStart, K::ResHeaders, K::ResBody, K::ResTrailer, K::ResComplete) };
            let body = r.cat(kbody, i);
            if p == 0 {
                ctx.eq(&(r.count(kstart, i), r.count(kcomplete, i), body.len()), &(0, 0, 0), "unseen", &format!("starts, completions and body of {} {} that was not sent", name, i));
                complete[side] = Some(false);
                continue;
            }
            ctx.eq(&r.count(kstart, i), &1, "start", &format!("starts of {} {}", name, i));
            let Some(sn) = &sn else {
                ctx.fail("gone", format!("transaction {} is gone", i));
                return;
            };
            let line = if side == 0 { sn.request_line.clone() } else { sn.response_line.clone() }.unwrap_or_default();
            let lp = m.interim_len + m.line.len();
            if p >= lp {
                ctx.eqb(trim_eol(&line), &m.line, "line", &format!("line of {} {}", name, i));
            } else {
                ctx.eqb(trim(&line), trim(&m.line[..p - m.interim_len]), "line", &format!("truncated line of {} {}", name, i));
            }
            let packed = !m.codings.is_empty();
            let hs = if side == 0 { &sn.req_headers } else { &sn.res_headers };
            let chunked = m.body == Some(Body::Chunked);
            if p == m.wire.len() && m.body != Some(Body::Close) {
                if packed {
                    ctx.check(body == m.entity, "body", || format!("body of {} {}: {} bytes of {}", name, i, body.len(), m.entity.len()));
                } else {
                    ctx.eqb(&body, &m.entity, "body", &format!("body of {} {}", name, i));
                }
                ctx.eq(&r.count(kcomplete, i), &1, "complete", &format!("completions of {} {}", name, i));
                complete[side] = Some(true);
                ctx.obs("complete messages", 1);
            } else if p >= m.body_off {
                ctx.obs("truncated bodies", 1);
                ctx.eq(&r.count(kheaders, i), &1, "headers", &format!("header callbacks of {} {}", name, i));
                let sent = &m.wire[m.body_off..p];
                let (want, last) = if chunked { dechunk(sent) } else { (sent.to_vec(), false) };
                if packed {
                    ctx.check(m.entity.starts_with(&body), "prefix", || format!("body of {} {}: {} bytes that are no prefix", name, i, body.len()));
                    ctx.obs("truncated compressed bodies", 1);
                } else {
                    ctx.eqb(&body, &want, "body", &format!("truncated body of {} {}", name, i));
                }
                let end = if chunked { last } else { side == 1 };
                ctx.eq(&r.count(kcomplete, i), &(end as usize), "complete", &format!("completions of {} {} cut in its body", name, i));
                complete[side] = Some(end);
            } else if p + 3 > m.body_off {
                complete[side] = None;
            } else {
                ctx.obs("truncated heads", 1);
                if p < lp {
                    ctx.eq(&r.count(kcomplete, i), &1, "complete", &format!("completions of {} {} cut in its line", name, i));
                } else {
                    ctx.eq(&(r.count(kheaders, i), r.count(ktrailer, i), r.count(kcomplete, i), body.len()), &(0, 1, 1, 0), "head", &format!("header, trailer and completion callbacks and body of {} {} cut in its head", name, i));
                    fields(ctx, m, p, hs, name);
                }
                complete[side] = Some(true);
            }
        }
        done.push(match complete {
            [Some(a), Some(b)] => Some(a && b),
            _ => None,
        });
    }
    let mut last = 0;
    for i in 0..n {
        let got = r.count(K::TxComplete, i);
        if let Some(x) = done[i] {
            let started = qp[i] > 0 || sp[i] > 0;
            let want = x || (flush && started);
            ctx.eq(&got, &(want as usize), "tx-complete", &format!("completions of transaction {} (flush {}, both sides complete {})", i, flush, x));
            ctx.obs("flushed transactions", (want && !x) as u64);
            ctx.obs("transactions left incomplete", (!want && started) as u64);
            if destroy && want {
                ctx.check(!r.txs.iter().any(|t| t.index == i), "kept", || format!("transaction {} was not removed", i));
            }
        }
        if let Some(e) = r.evs.iter().position(|e| e.k == K::TxComplete && e.tx == i) {
            if open[i] || flush {
                ctx.check(e >= last, "order", || format!("transaction {} was completed before its predecessor", i));
            }
            last = e;
        }
    }
}

/// A body of which most of a very long part is missing.
fn vast(ctx: &mut Ctx, rng: &mut Rng) {
    let req = rng.flip();
    let (a, b) = (rng.range(0, 20), rng.range(0, 20));
    let g: usize = *rng.pick(&[(1usize << 31) - 1, 1 << 31, 1 << 32, (1 << 32) + 5, 1 << 40, 1 << 62]) - rng.below(2);
    let len = g + a + b;
    let (x, y) = (rng.word(b"abcdef", a, a), rng.word(b"abcdef", b, b));
    let mut w = if req { b"POST / HTTP/1.1\r\nHost: h\r\n".to_vec() } else { b"HTTP/1.1 200 OK\r\n".to_vec() };
    w.extend_from_slice(format!("Content-Length: {}\r\n\r\n", len).as_bytes());
    w.extend_from_slice(&x);
    let next: &[u8] = if req { b"GET /2 HTTP/1.1\r\nHost: h\r\n\r\n" } else { b"HTTP/1.1 404 N\r\nContent-Length: 0\r\n\r\n" };
    let data = |d: Vec<u8>| if req { Op::Req(d) } else { Op::Res(d) };
    let mut ops = vec![];
    if !req {
        ops.push(Op::Req(b"GET /1 HTTP/1.1\r\nHost: h\r\n\r\nGET /2 HTTP/1.1\r\nHost: h\r\n\r\n".to_vec()));
    }
    ops.push(data(w));
    ops.push(if req { Op::ReqGap(g) } else { Op::ResGap(g) });
    ops.push(data([&y[..], next].concat()));
    ctx.input = show_ops(&ops);
    ctx.seen(ctx.input.clone().as_bytes());
    let r = run(base_cfg(rng), &ops);
    let (k, done) = if req { (K::ReqBody, K::ReqComplete) } else { (K::ResBody, K::ResComplete) };
    ctx.eqb(&r.cat(k, 0), &[&x[..], &y[..]].concat(), "vast-body", "body around the gap");
    let gaps: Vec<usize> = r.evs.iter().filter(|e| e.k == k && e.gap).map(|e| e.len).collect();
    ctx.eq(&gaps, &vec![g], "vast-gap", "gaps reported");
    ctx.eq(&(r.count(done, 0), r.count(done, 1)), &(1, 1), "vast-complete", "completions of the two messages");
    if let Some(t) = r.txs.iter().find(|t| t.index == 0) {
        let (m, e) = if req { (t.req_message_len, t.req_entity_len) } else { (t.res_message_len, t.res_entity_len) };
        ctx.eq(&(m as usize, e as usize), &(len, a + b), "vast-len", "message and entity length");
    }
    ctx.obs("gaps of gigabytes", 1);
}
fn case20(ctx: &mut Ctx, rng: &mut Rng) {
    if rng.chance(1, 50) {
        return vast(ctx, rng);
    }
    if rng.chance(3, 5) {
        gaps(ctx, rng)
    } else {
        refused(ctx, rng)
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C20",
            case: case20,
            quick: 400_000,
            thorough: 1_500_000,
            rule: "hash of the sequence of data calls and gaps",
            need: &["request bodies with missing bytes", "response bodies with missing bytes", "close-delimited bodies with missing bytes", "refused gaps", "gaps between messages", "leading gaps", "gaps that go beyond the body", "gaps of gigabytes"],
            assumptions: &["bodies with gaps are not compressed"],
            mem: 0, asan: &[],
        },
        Prop {
            id: "C21",
            case: closing,
            quick: 500_000,
            thorough: 2_000_000,
            rule: "hash of the truncated sequence of data calls",
            need: &["truncated heads", "truncated bodies", "truncated compressed bodies", "flushed transactions", "transactions left incomplete", "complete messages", "fields of truncated heads"],
            assumptions: &["a stream cut inside of a method or status line may report the fragment as data"],
            mem: 0, asan: &[],
        },
    ]
}
