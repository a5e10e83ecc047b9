//! C27: the connection record, user data and the transactions a parser keeps.
use crate::drive::*;
use crate::fw::*;
use crate::gen::*;
use crate::p_conv::{base_cfg, collect};
use crate::rng::Rng;
use htp::config::Config;
use htp::connection_parser::{ConnectionParser, HtpStreamState as S, ParserData};
use htp::log::{HtpLogCode as L, HtpLogLevel};
use htp::transaction::Transaction;
use htp::HtpStatus;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::net::IpAddr;
use time::OffsetDateTime;

/// What the callbacks of this module keep.
#[derive(Default)]
struct Book {
    /// drops of every token made so far
    drops: Vec<usize>,
    /// transaction -> its current token
    of: BTreeMap<usize, usize>,
    /// transaction -> callbacks since the token was set
    seen: BTreeMap<usize, usize>,
    started: BTreeMap<usize, ()>,
    complete: BTreeMap<usize, usize>,
    errors: Vec<String>,
    /// the token is replaced in this many-th callback of a transaction
    replace: usize,
    replaced: usize,
}
thread_local! {
    static BOOK: RefCell<Book> = RefCell::new(Book::default());
}
/// Data of the user: knows its transaction and counts its own end.
struct Token {
    id: usize,
    tx: usize,
    hits: usize,
}
impl Drop for Token {
    fn drop(&mut self) {
        BOOK.with(|b| b.borrow_mut().drops[self.id] += 1);
    }
}
fn token(tx: usize) -> Box<Token> {
    BOOK.with(|b| {
        let mut b = b.borrow_mut();
        b.drops.push(0);
        let id = b.drops.len() - 1;
        b.of.insert(tx, id);
        b.seen.insert(tx, 0);
        Box::new(Token { id, tx, hits: 0 })
    })
}
fn note(s: String) {
    BOOK.with(|b| b.borrow_mut().errors.push(s));
}
fn cb(tx: &mut Transaction) -> Result<(), HtpStatus> {
    let i = tx.index;
    let known = BOOK.with(|b| b.borrow_mut().started.insert(i, ()).is_some());
    if !known {
        if tx.user_data::<Token>().is_some() || tx.user_data.is_some() {
            note(format!("transaction {} starts with user data", i));
        }
        tx.set_user_data(token(i));
        return Ok(());
    }
    let want = BOOK.with(|b| {
        let mut b = b.borrow_mut();
        *b.seen.get_mut(&i).unwrap() += 1;
        (b.of[&i], b.seen[&i])
    });
    if tx.user_data::<u64>().is_some() || tx.user_data_mut::<String>().is_some() {
        note(format!("user data of transaction {} has another type", i));
    }
    match tx.user_data_mut::<Token>() {
        None => note(format!("user data of transaction {} is gone", i)),
        Some(t) => {
            t.hits += 1;
            if t.tx != i || t.id != want.0 || t.hits != want.1 {
                note(format!("transaction {} got the user data of {} (token {} for {}, {} hits for {})", i, t.tx, t.id, want.0, t.hits, want.1));
            }
        }
    }
    let (n, rep) = BOOK.with(|b| (b.borrow().seen[&i], b.borrow().replace));
    if rep > 0 && n == rep && want.0 == BOOK.with(|b| b.borrow().of[&i]) && BOOK.with(|b| b.borrow().replaced) < 40 {
        tx.set_user_data(token(i));
        BOOK.with(|b| {
            let mut b = b.borrow_mut();
            b.replaced += 1;
            if b.drops[want.0] != 1 {
                let e = format!("replaced user data was dropped {} times", b.drops[want.0]);
                b.errors.push(e);
            }
        });
    }
    Ok(())
}
fn cbc(tx: &mut Transaction) -> Result<(), HtpStatus> {
    BOOK.with(|b| *b.borrow_mut().complete.entry(tx.index).or_insert(0) += 1);
    cb(tx)
}
fn cbd(tx: &mut Transaction, _: &ParserData) -> Result<(), HtpStatus> {
    cb(tx)
}
fn hooks(cfg: &mut Config) {
    cfg.register_request_start(cb);
    cfg.register_request_line(cb);
    cfg.register_request_headers(cb);
    cfg.register_request_body_data(cbd);
    cfg.register_request_trailer(cb);
    cfg.register_request_complete(cb);
    cfg.register_response_start(cb);
    cfg.register_response_line(cb);
    cfg.register_response_headers(cb);
    cfg.register_response_body_data(cbd);
    cfg.register_response_trailer(cb);
    cfg.register_response_complete(cb);
    cfg.register_transaction_complete(cbc);
}

fn store(ctx: &mut Ctx, rng: &mut Rng) {
    let o = Opts { max_tx: *rng.pick(&[3usize, 6, 12]), max_body: 200, long: true, ..Opts::default() };
    let c = conversation(rng, &o);
    let seed = rng.next();
    let destroy = rng.chance(1, 3);
    let ops = schedule(rng, &c);
    ctx.input = show_ops(&ops);
    ctx.seen(ctx.input.clone().as_bytes());
    ctx.sample(|| crate::p_conv::ctx_input_short(&ops));
    let mk = || base_cfg(&mut Rng::new(seed));
    // nothing is removed and nothing is attached
    let r0 = crate::p_conv::exec(mk(), &ops);
    let t0 = collect(&r0);
    BOOK.with(|b| *b.borrow_mut() = Book { replace: rng.below(6), ..Book::default() });
    let mut cfg = mk();
    cfg.set_tx_auto_destroy(destroy);
    hooks(&mut cfg);
    let mut d = Driver::new(cfg).snap_at(&[K::TxComplete]);
    let mut gone: BTreeMap<usize, ()> = BTreeMap::new();
    // the user takes completed transactions out: at once, after a while, or never
    let take = rng.below(4);
    let own = rng.flip();
    if own {
        d.p.set_user_data(Box::new(77u64));
    }
    let mut taken = 0u64;
    for (step, op) in ops.iter().enumerate() {
        d.feed(op);
        let (n, done) = BOOK.with(|b| (b.borrow().started.len(), b.borrow().complete.keys().cloned().collect::<Vec<_>>()));
        for &i in &done {
            if destroy {
                gone.insert(i, ());
            }
        }
        ctx.eq(&d.p.tx_size(), &n, "tx-size", "transactions seen so far");
        for i in 0..n {
            // (of a long connection only some)
            if c.req.len() > 40 && i > 0 && i + 3 < n && (i + step) % 32 != 0 {
                continue;
            }
            let there = d.p.tx(i).map(|t| t.index);
            let want = if gone.contains_key(&i) { None } else { Some(i) };
            ctx.eq(&there, &want, "available", &format!("transaction {} ({} complete, auto-destroy {})", i, done.contains(&i), destroy));
            let (id, drops) = BOOK.with(|b| {
                let b = b.borrow();
                (b.of[&i], b.drops[b.of[&i]])
            });
            ctx.eq(&drops, &(gone.contains_key(&i) as usize), "user-data-drop", &format!("drops of the user data of transaction {}", i));
            if want.is_some() {
                let got = d.p.tx_mut(i).and_then(|t| t.user_data_mut::<Token>().map(|t| (t.id, t.tx)));
                ctx.eq(&got, &Some((id, i)), "user-data", &format!("user data of transaction {}", i));
                ctx.obs("stored transactions looked at", 1);
            }
        }
        if take > 0 && !destroy {
            for &i in &done {
                if !gone.contains_key(&i) && (take == 1 || rng.chance(1, take + 1)) {
                    d.p.remove_tx(i);
                    gone.insert(i, ());
                    taken += 1;
                    let n = BOOK.with(|b| b.borrow().drops[b.borrow().of[&i]]);
                    ctx.eq(&n, &1, "user-data-drop", "drops of the user data of a removed transaction");
                    ctx.check(d.p.tx(i).is_none(), "available", || format!("transaction {} is there after it was removed", i));
                    if rng.chance(1, 4) {
                        // again, and one that never was
                        d.p.remove_tx(i);
                        d.p.remove_tx(i + 1000);
                    }
                }
            }
        }
    }
    if own {
        ctx.eq(&d.p.user_data::<u64>().cloned(), &Some(77), "parser-data", "user data of the parser");
        ctx.check(d.p.user_data::<u32>().is_none(), "parser-data", || "user data of the parser has another type".into());
        *d.p.user_data_mut::<u64>().unwrap() = 78;
        ctx.eq(&d.p.user_data::<u64>().cloned(), &Some(78), "parser-data", "changed user data of the parser");
    }
    let r = d.finish();
    let t = collect(&r);
    ctx.obs("transactions", t.len() as u64);
    ctx.obs("transactions removed by the user", taken);
    if destroy {
        ctx.obs("transactions destroyed by the parser", t.len() as u64);
    }
    // what is reported about the others does not change
    if ctx.check(t.len() == t0.len(), "tx-count", || format!("{} transactions complete, {} when none is removed", t.len(), t0.len())) {
        for (a, b) in t.iter().zip(&t0) {
            ctx.check(a.snap == b.snap, "changed", || format!("transaction {} differs from the one reported when none is removed:\n{:?}\n{:?}", a.snap.index, a.snap, b.snap));
            ctx.eqb(&a.req_body, &b.req_body, "changed", "request body");
            ctx.eqb(&a.res_body, &b.res_body, "changed", "response body");
        }
    }
    ctx.eq(&r.evs.len(), &r0.evs.len(), "changed", "callbacks");
    ctx.eq(&r.logs.len(), &r0.logs.len(), "changed", "log messages");
    // what stays is what was reported
    for s in &r.txs {
        if let Some(x) = t.iter().find(|x| x.snap.index == s.index) {
            ctx.check(x.snap == *s, "kept", || format!("transaction {} changed after its completion:\n{:?}\n{:?}", s.index, x.snap, s));
        }
    }
    drop(r);
    let (drops, errors, rep) = BOOK.with(|b| (b.borrow().drops.clone(), b.borrow().errors.clone(), b.borrow().replaced));
    ctx.obs("user data replaced", rep as u64);
    ctx.check(drops.iter().all(|x| *x == 1), "user-data-drop", || format!("drops of user data at the end: {:?}", drops));
    ctx.check(errors.is_empty(), "user-data", || errors.join("; "));
}

fn addr(rng: &mut Rng) -> Option<IpAddr> {
    match rng.below(4) {
        0 => None,
        1 => Some(IpAddr::from([rng.below(256) as u8, rng.below(256) as u8, 0, rng.below(2) as u8])),
        2 => Some(IpAddr::from([10, 0, 0, rng.below(2) as u8])),
        _ => Some(IpAddr::from([0x2001, 0xdb8, 0, 0, 0, 0, 0, rng.below(3) as u16])),
    }
}
fn port(rng: &mut Rng) -> Option<u16> {
    match rng.below(3) {
        0 => None,
        1 => Some(*rng.pick(&[80u16, 443, 0, 65535])),
        _ => Some(rng.below(65536) as u16),
    }
}
fn stamp(rng: &mut Rng) -> Option<OffsetDateTime> {
    if rng.chance(1, 3) {
        None
    } else {
        OffsetDateTime::from_unix_timestamp(rng.below(4_000_000_000) as i64).ok()
    }
}
type Rec4 = (Option<IpAddr>, Option<u16>, Option<IpAddr>, Option<u16>);
fn rec4(p: &ConnectionParser) -> Rec4 {
    (p.conn.client_addr, p.conn.client_port, p.conn.server_addr, p.conn.server_port)
}

/// A connection that was never opened, and is when it is in use already.
fn late(ctx: &mut Ctx, rng: &mut Rng) {
    let mut p = ConnectionParser::new(base_cfg(rng));
    let t0 = p.conn.open_timestamp;
    let q = rng.flip();
    if q {
        p.request_data(b"GET / HTTP/1.1\r\nHost: a\r\n\r\n".as_ref().into(), stamp(rng));
    } else {
        p.response_data(b"HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nab".as_ref().into(), stamp(rng));
    }
    p.conn.get_logs();
    let a: Rec4 = (addr(rng), port(rng), addr(rng), port(rng));
    ctx.input = format!("open {:?} after data of the {}", a, if q { "client" } else { "server" });
    ctx.seen(ctx.input.clone().as_bytes());
    let before = (p.request_status, p.response_status, p.tx_size());
    p.open(a.0, a.1, a.2, a.3, stamp(rng));
    ctx.eq(&rec4(&p), &(None, None, None, None), "late", "addresses after an open that comes late");
    ctx.check(before == (p.request_status, p.response_status, p.tx_size()) && t0 == p.conn.open_timestamp, "late", || "an open that comes late changed the connection".into());
    let logs = p.conn.get_logs();
    ctx.check(logs.len() == 1 && logs[0].msg.code == L::CONNECTION_ALREADY_OPEN, "late-log", || format!("messages of an open that comes late: {:?}", logs.iter().map(|l| l.msg.code).collect::<Vec<_>>()));
    ctx.obs("opens that come late", 1);
}

fn record(ctx: &mut Ctx, rng: &mut Rng) {
    if rng.chance(1, 8) {
        return late(ctx, rng);
    }
    let mut p = ConnectionParser::new(base_cfg(rng));
    ctx.eq(&rec4(&p), &(None, None, None, None), "fresh", "addresses before open");
    ctx.check(p.request_status == S::NEW && p.response_status == S::NEW, "fresh", || "state before open".into());
    let a: Rec4 = (addr(rng), port(rng), addr(rng), port(rng));
    let ts = stamp(rng);
    let t0 = (p.conn.open_timestamp, p.conn.close_timestamp);
    ctx.input = format!("open {:?} {:?}", a, ts);
    ctx.seen(ctx.input.clone().as_bytes());
    p.open(a.0, a.1, a.2, a.3, ts);
    ctx.eq(&rec4(&p), &a, "open", "addresses after open");
    ctx.eq(&p.conn.open_timestamp, &ts.unwrap_or(t0.0), "open", "time of open");
    ctx.eq(&p.conn.close_timestamp, &t0.1, "open", "time of close after open");
    ctx.check(p.request_status == S::OPEN && p.response_status == S::OPEN, "open", || "state after open".into());
    ctx.eq(&p.conn.get_logs().len(), &0, "log", "messages of open");
    // traffic, or none, and then an open that comes too late
    let used = rng.below(4);
    if used > 0 {
        p.request_data(b"GET / HTTP/1.1\r\nHost: a\r\n\r\n".as_ref().into(), stamp(rng));
    }
    if used > 1 {
        p.response_data(b"HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nab".as_ref().into(), stamp(rng));
    }
    ctx.eq(&(p.conn.open_timestamp, p.conn.close_timestamp), &(ts.unwrap_or(t0.0), t0.1), "times", "times after data");
    let before = (p.request_status, p.response_status, p.tx_size(), p.conn.open_timestamp);
    let b: Rec4 = (addr(rng), port(rng), addr(rng), port(rng));
    p.open(b.0, b.1, b.2, b.3, stamp(rng));
    ctx.eq(&rec4(&p), &a, "reopen", "addresses after a second open");
    ctx.check(before == (p.request_status, p.response_status, p.tx_size(), p.conn.open_timestamp), "reopen", || "a second open changed the connection".into());
    let logs = p.conn.get_logs();
    ctx.check(logs.len() == 1 && logs[0].msg.code == L::CONNECTION_ALREADY_OPEN && logs[0].msg.level == HtpLogLevel::ERROR, "reopen-log", || format!("messages of a second open: {:?}", logs.iter().map(|l| l.msg.code).collect::<Vec<_>>()));
    for l in &logs {
        ctx.eq(&(l.client_addr, l.client_port, l.server_addr, l.server_port), &a, "log-addr", "addresses in the log");
    }
    if used > 2 {
        p.response_data(b"c".as_ref().into(), None);
        ctx.eq(&p.tx(0).map(|t| t.is_complete()), &Some(true), "reopen", "exchange complete after a second open");
    }
    let cs = stamp(rng);
    let only = rng.chance(1, 4);
    if only {
        p.request_close(cs);
        ctx.eq(&p.conn.close_timestamp, &t0.1, "half-close", "time of close after the client closed its side");
    } else {
        p.close(cs);
        ctx.eq(&p.conn.close_timestamp, &cs.unwrap_or(t0.1), "close", "time of close");
        ctx.obs("closes recorded", 1);
    }
    ctx.eq(&p.conn.open_timestamp, &ts.unwrap_or(t0.0), "close", "time of open after close");
    ctx.eq(&rec4(&p), &a, "close", "addresses after close");
    p.open(b.0, b.1, b.2, b.3, None);
    ctx.eq(&rec4(&p), &a, "reopen", "addresses after an open behind the close");
    ctx.obs("refused opens", 2);
    // connections are the same when the four numbers are
    let mut q = ConnectionParser::new(base_cfg(rng));
    let mut e = if rng.flip() { a } else { b };
    match rng.below(8) {
        0 => e.0 = addr(rng),
        1 => e.1 = port(rng),
        2 => e.2 = addr(rng),
        3 => e.3 = port(rng),
        _ => {}
    }
    q.open(e.0, e.1, e.2, e.3, stamp(rng));
    ctx.eq(&(p.conn == q.conn), &(e == a), "equal", "equality of connections");
    ctx.obs(if e == a { "equal connections" } else { "different connections" }, 1);
}

fn case(ctx: &mut Ctx, rng: &mut Rng) {
    if rng.chance(1, 8) {
        record(ctx, rng)
    } else {
        store(ctx, rng)
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C27",
        case,
        quick: 60_000,
        thorough: 400000,
        rule: "hash of the sequence of data calls, or of the connection record",
        need: &["stored transactions looked at", "transactions removed by the user", "transactions destroyed by the parser", "user data replaced", "closes recorded", "refused opens", "opens that come late", "equal connections", "different connections"],
        assumptions: &["the user removes transactions between data calls, after their completion callback"],
        mem: 0, asan: &[],
    }]
}
