//! C22: determinism, isolation, and the log.
use crate::drive::*;
use crate::fw::*;
use crate::p_host::{any_cfg, hostile};
use crate::rng::Rng;
use htp::config::Config;
use htp::log::{HtpLogCode, HtpLogLevel as V, Log};
use htp::HtpStatus;
use std::cell::RefCell;

const LEVELS: [V; 7] = [V::NONE, V::ERROR, V::WARNING, V::NOTICE, V::INFO, V::DEBUG, V::DEBUG2];
type Entry = (HtpLogCode, V, String);
thread_local! {
    static HOOKED: RefCell<Vec<Entry>> = const { RefCell::new(vec![]) };
}
fn on_log(l: &mut Log) -> Result<(), HtpStatus> {
    HOOKED.with(|h| h.borrow_mut().push((l.msg.code, l.msg.level, l.msg.msg.clone())));
    Ok(())
}

/// Everything observable about an execution.
#[derive(PartialEq, Clone)]
struct Seen {
    evs: Vec<Ev>,
    calls: Vec<String>,
    txs: Vec<Snap>,
    logs: Vec<Entry>,
    flags: u64,
}
fn of(r: Run) -> Seen {
    Seen { evs: r.evs, calls: r.calls.iter().map(|c| format!("{:?}", c)).collect(), txs: r.txs, logs: r.logs, flags: r.conn_flags }
}
fn diff(a: &Seen, b: &Seen) -> Option<String> {
    if a == b {
        return None;
    }
    if let Some(i) = a.evs.iter().zip(&b.evs).position(|(x, y)| x != y) {
        return Some(format!("callback {}: {:?} tx {} {:?} against {:?} tx {} {:?}", i, a.evs[i].k, a.evs[i].tx, a.evs[i].data.as_ref().map(|d| show(d)), b.evs[i].k, b.evs[i].tx, b.evs[i].data.as_ref().map(|d| show(d))));
    }
    if a.evs.len() != b.evs.len() {
        return Some(format!("{} callbacks against {}", a.evs.len(), b.evs.len()));
    }
    if let Some(i) = a.calls.iter().zip(&b.calls).position(|(x, y)| x != y) {
        return Some(format!("call {}: {} against {}", i, a.calls[i], b.calls[i]));
    }
    if a.txs != b.txs {
        return Some("transactions".into());
    }
    if a.flags != b.flags {
        return Some("connection flags".into());
    }
    Some(format!("log {:?} against {:?}", a.logs.iter().map(|l| l.0).collect::<Vec<_>>(), b.logs.iter().map(|l| l.0).collect::<Vec<_>>()))
}

/// Recorder and driver of one of several parsers in the same process.
struct One {
    d: Option<Driver>,
    rec: Rec,
    ops: Vec<Op>,
    at: usize,
    logs: Vec<Entry>,
}
fn swap(o: &mut One) {
    REC.with(|r| std::mem::swap(&mut *r.borrow_mut(), &mut o.rec));
}
impl One {
    fn new(cfg: Config, ops: Vec<Op>) -> One {
        let d = Driver::new(cfg);
        let mut o = One { d: Some(d), rec: Rec::default(), ops, at: 0, logs: vec![] };
        swap(&mut o);
        o
    }
    fn step(&mut self) -> bool {
        if self.at == self.ops.len() {
            return false;
        }
        swap(self);
        let op = self.ops[self.at].clone();
        self.d.as_mut().unwrap().feed(&op);
        self.at += 1;
        swap(self);
        true
    }
    fn drain(&mut self, rng: &mut Rng) {
        let d = self.d.as_ref().unwrap();
        let mut n = 0;
        let all = rng.chance(1, 3);
        if all {
            for l in d.p.conn.get_logs() {
                self.logs.push((l.msg.code, l.msg.level, l.msg.msg.clone()));
            }
            return;
        }
        while n < 3 {
            let Some(l) = d.p.conn.get_next_log() else { break };
            self.logs.push((l.msg.code, l.msg.level, l.msg.msg.clone()));
            n += 1;
        }
    }
    fn end(mut self) -> Seen {
        swap(&mut self);
        let mut s = of(self.d.take().unwrap().finish());
        let mut l = std::mem::take(&mut self.logs);
        l.append(&mut s.logs);
        s.logs = l;
        s
    }
}

fn case(ctx: &mut Ctx, rng: &mut Rng) {
    let mut make = |rng: &mut Rng| {
        let seed = rng.next();
        let mut o = hostile(rng);
        o.truncate(60);
        if rng.chance(1, 3000) {
            // much to report
            o = vec![];
            for i in 0..*rng.pick(&[40, 150, 400]) {
                let q = format!("GET /{} HTTP/1.1\r\nno colon\r\nContent-Length: x\r\nb@d: 1\r\n\r\n", i);
                let s = "HTTP/1.1 200 OK\r\nno colon\r\nb@d: 1\r\nContent-Length: 0\r\nTransfer-Encoding: x\r\n\r\n";
                o.push(Op::Req(q.into_bytes()));
                o.push(Op::Res(s.into()));
            }
        }
        (seed, o)
    };
    let (s1, o1) = make(rng);
    let (s2, o2) = make(rng);
    let cfg = |seed: u64, level: V| {
        let (mut c, _) = any_cfg(&mut Rng::new(seed));
        c.log_level = level;
        c
    };
    ctx.input = format!("{}{}\n\nother connection: {}{}", any_cfg(&mut Rng::new(s1)).1, show_ops(&o1), any_cfg(&mut Rng::new(s2)).1, show_ops(&o2));
    ctx.seen(ctx.input.clone().as_bytes());
    let a1 = of(run(cfg(s1, V::DEBUG2), &o1));
    let a2 = of(run(cfg(s2, V::DEBUG2), &o2));
    ctx.obs("callbacks", a1.evs.len() as u64);
    // again
    let b1 = of(run(cfg(s1, V::DEBUG2), &o1));
    let d = diff(&a1, &b1);
    ctx.check(d.is_none(), "repeat", || format!("the same calls give another result: {}", d.unwrap()));
    // two connections at a time, the log read in between
    let mut x = One::new(cfg(s1, V::DEBUG2), o1.clone());
    let mut y = One::new(cfg(s2, V::DEBUG2), o2.clone());
    loop {
        let f = rng.flip();
        let (p, q) = if f { (&mut x, &mut y) } else { (&mut y, &mut x) };
        if !p.step() && !q.step() {
            break;
        }
        if rng.chance(1, 3) {
            p.drain(rng);
        }
    }
    let (c1, c2) = (x.end(), y.end());
    for (a, c, n) in [(&a1, &c1, "one"), (&a2, &c2, "other")] {
        let d = diff(a, c);
        ctx.check(d.is_none(), "interference", || format!("the {} connection is reported differently next to another one: {}", n, d.unwrap()));
    }
    ctx.obs("connections run side by side", 2);
    // log levels select messages and change nothing else
    let lv = *rng.pick(&LEVELS);
    let e = of(run(cfg(s1, lv), &o1));
    let want: Vec<Entry> = a1.logs.iter().filter(|l| l.1 <= lv).cloned().collect();
    ctx.check(e.logs == want, "level", || format!("log at level {:?}: {:?}, want {:?}", lv, e.logs.iter().map(|l| (l.0, l.1)).collect::<Vec<_>>(), want.iter().map(|l| (l.0, l.1)).collect::<Vec<_>>()));
    let mut f = a1.clone();
    f.logs = e.logs.clone();
    let d = diff(&f, &e);
    ctx.check(d.is_none(), "level-effect", || format!("log level {:?} changes the result: {}", lv, d.unwrap()));
    ctx.obs("log messages", a1.logs.len() as u64);
    ctx.obs("connections with more than 256 messages", (a1.logs.len() > 256) as u64);
    ctx.obs("log messages suppressed by the level", (a1.logs.len() - want.len()) as u64);
    for l in &a1.logs {
        ctx.check(!l.2.is_empty() && l.1 != V::NONE, "message", || format!("log message without text or level: {:?}", l));
    }
    // addresses, and the log callback
    if ctx.case % 4 == 0 && !a1.logs.is_empty() {
        HOOKED.with(|h| h.borrow_mut().clear());
        let mut c = cfg(s1, V::DEBUG2);
        c.register_log(on_log);
        let mut d = Driver::new(c);
        let (cp, sp) = (rng.below(65536) as u16, rng.below(65536) as u16);
        let (ca, sa): (std::net::IpAddr, std::net::IpAddr) = (std::net::Ipv4Addr::from(rng.next() as u32).into(), std::net::Ipv6Addr::from(rng.next() as u128).into());
        d.p.conn.open(Some(ca), Some(cp), Some(sa), Some(sp), None);
        for o in &o1 {
            d.feed(o);
        }
        let logs = d.p.conn.get_logs();
        for l in &logs {
            let got = (l.client_addr, l.client_port, l.server_addr, l.server_port);
            ctx.eq(&got, &(Some(ca), Some(cp), Some(sa), Some(sp)), "addresses", "addresses of a log message");
        }
        ctx.check(d.p.conn.get_next_log().is_none() && d.p.conn.get_logs().is_empty(), "drained", || "messages left after reading all".into());
        let hooked = HOOKED.with(|h| std::mem::take(&mut *h.borrow_mut()));
        if hooked.is_empty() && !logs.is_empty() {
            ctx.fail("log-callback-never-called", format!("{} messages were logged, the log callback was not called", logs.len()));
        } else {
            let want: Vec<Entry> = logs.iter().map(|l| (l.msg.code, l.msg.level, l.msg.msg.clone())).collect();
            ctx.eq(&hooked, &want, "log-callback", "messages given to the log callback");
        }
        drop(d);
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C22",
        case,
        quick: 120_000,
        thorough: 1_500_000,
        rule: "hash of the configurations and histories of both connections",
        need: &["callbacks", "connections run side by side", "log messages", "connections with more than 256 messages", "log messages suppressed by the level"],
        assumptions: &["the decompression time limit, which depends on the clock, is out of reach"],
        mem: 0, asan: &[],
    }]
}
