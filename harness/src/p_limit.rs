//! C17: bounded resources.
use crate::drive::{new_parser, show};
use crate::fw::*;
use crate::gen::gzip;
use crate::rng::Rng;
use htp::config::Config;
use htp::connection_parser::{ConnectionParser, HtpStreamState as S, ParserData};
use htp::log::HtpLogCode as L;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

/// Counts what is allocated. Workers have one thread.
pub struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static TOTAL: AtomicUsize = AtomicUsize::new(0);
fn add(n: usize) {
    TOTAL.fetch_add(n, Relaxed);
    let v = LIVE.fetch_add(n, Relaxed) + n;
    if v > PEAK.load(Relaxed) {
        PEAK.store(v, Relaxed);
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n);
        LIVE.fetch_sub(l.size(), Relaxed);
        System.realloc(p, l, n)
    }
}
pub fn live() -> usize {
    LIVE.load(Relaxed)
}
/// What two runs of the same thing leave behind; the first one may set up what lasts (tables made on first use).
pub fn left_behind(mut f: impl FnMut()) -> isize {
    f();
    let a = live() as isize;
    f();
    live() as isize - a
}
fn reset_peak() -> usize {
    let v = LIVE.load(Relaxed);
    PEAK.store(v, Relaxed);
    v
}

/// A caller that keeps nothing: feeds both sides, drains the log.
struct Eat {
    p: Box<ConnectionParser>,
    last: [S; 2],
    codes: Vec<L>,
}
impl Eat {
    fn new(cfg: Config) -> Self {
        Eat { p: new_parser(cfg), last: [S::NEW; 2], codes: vec![] }
    }
    fn drain(&mut self) {
        while let Some(l) = self.p.conn.get_next_log() {
            if matches!(l.msg.code, L::REQUEST_FIELD_TOO_LONG | L::RESPONSE_FIELD_TOO_LONG) && self.codes.len() < 8 {
                self.codes.push(l.msg.code);
            }
        }
    }
    fn data(&mut self, side: usize, b: &[u8]) -> S {
        let mut off = 0;
        let mut n = 0;
        loop {
            let d = ParserData::from(&b[off..]);
            let r = if side == 0 { self.p.request_data(d, None) } else { self.p.response_data(d, None) };
            let c = if side == 0 { self.p.request_data_consumed() } else { self.p.response_data_consumed() };
            self.drain();
            self.last[side] = r;
            n += 1;
            // a response may yield at the end of a message although nothing is pending here
            if side == 1 && r == S::DATA_OTHER && off + c < b.len() && n < 50 {
                off += c;
                continue;
            }
            return r;
        }
    }
    fn gap(&mut self, side: usize, n: usize) {
        let d = ParserData::from(n);
        self.last[side] = if side == 0 { self.p.request_data(d, None) } else { self.p.response_data(d, None) };
        self.drain();
    }
}

/// What is sent first on the two sides, then the piece that repeats.
enum Unit {
    Data(usize, Vec<u8>),
    Pair(Vec<u8>, Vec<u8>),
    Gap(usize, usize),
}
struct Scen {
    name: &'static str,
    pre: Vec<(usize, Vec<u8>)>,
    unit: Unit,
    /// the state the repeating side is in at the end
    end: &'static [S],
}
const OK: &[S] = &[S::DATA];
const ANY: &[S] = &[S::DATA, S::ERROR, S::CLOSED, S::TUNNEL, S::STOP];
const REQ: &[u8] = b"GET /a HTTP/1.1\r\nHost: a\r\n\r\n";
const N: usize = 38;

fn scen(rng: &mut Rng, i: usize, n: usize) -> Scen {
    let fill = |rng: &mut Rng, al: &[u8]| rng.word(al, n, n);
    let (mut pre, unit, name, end): (Vec<(usize, &[u8])>, Unit, &'static str, &'static [S]) = match i {
        0 => (vec![(0, b"POST /a HTTP/1.1\r\nHost: a\r\nContent-Length: 999999999\r\n\r\n")], Unit::Data(0, fill(rng, b"ab\n")), "request body with Content-Length", OK),
        1 => (vec![(0, b"POST /a HTTP/1.1\r\nHost: a\r\nTransfer-Encoding: chunked\r\n\r\n")], Unit::Data(0, [format!("{:x}\r\n", n).into_bytes(), fill(rng, b"ab\n"), b"\r\n".to_vec()].concat()), "request chunks", OK),
        2 => (vec![(0, b"POST /a HTTP/1.1\r\nHost: a\r\nTransfer-Encoding: chunked\r\n\r\n7fffffff\r\n")], Unit::Data(0, fill(rng, b"ab\n")), "one endless request chunk", OK),
        3 => (vec![(0, REQ), (1, b"HTTP/1.1 200 OK\r\nContent-Length: 999999999\r\n\r\n")], Unit::Data(1, fill(rng, b"ab\n")), "response body with Content-Length", OK),
        4 => (vec![(0, REQ), (1, b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n")], Unit::Data(1, [format!("{:x};e\r\n", n).into_bytes(), fill(rng, b"ab\n"), b"\r\n".to_vec()].concat()), "response chunks", OK),
        5 => (vec![(0, REQ), (1, b"HTTP/1.1 200 OK\r\n\r\n")], Unit::Data(1, fill(rng, b"ab\n")), "response body until close", OK),
        6 => (vec![], Unit::Pair(REQ.to_vec(), b"HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nabc".to_vec()), "exchanges", OK),
        7 => (vec![], Unit::Pair(b"POST /a?b=c HTTP/1.1\r\nHost: u:p@h:8\r\nAuthorization: Basic YTpi\r\nContent-Type: a/b\r\nX: 1\r\nX: 2\r\nTransfer-Encoding: chunked\r\n\r\n1\r\na\r\n0\r\nT: v\r\n\r\n".to_vec(), b"HTTP/1.1 100 C\r\n\r\nHTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nY: 1\r\n\r\n1\r\na\r\n0\r\nT: v\r\n\r\n".to_vec()), "exchanges with all parts", OK),
        8 => {
            let z = gzip(rng, b"hello hello hello hello", 6);
            (vec![], Unit::Pair(REQ.to_vec(), [format!("HTTP/1.1 200 OK\r\nContent-Encoding: gzip\r\nContent-Length: {}\r\n\r\n", z.len()).into_bytes(), z].concat()), "exchanges with compressed bodies", OK)
        }
        9 => (vec![], Unit::Data(0, fill(rng, b"ab ")), "request line without end", &[S::ERROR]),
        10 => (vec![(0, b"GET /a HTTP/1.1\r\nA: b")], Unit::Data(0, fill(rng, b"ab ")), "request header without end", &[S::ERROR]),
        11 => (vec![(0, b"GET /a HTTP/1.1\r\nA: b")], Unit::Data(0, [b"\r\n ".to_vec(), fill(rng, b"ab:")].concat()), "request header folded without end", &[S::ERROR]),
        12 => (vec![(0, b"POST /a HTTP/1.1\r\nHost: a\r\nTransfer-Encoding: chunked\r\n\r\n1")], Unit::Data(0, [b";".to_vec(), fill(rng, b"ab=")].concat()), "request chunk length line without end", &[S::ERROR]),
        13 => (vec![(0, b"POST /a HTTP/1.1\r\nHost: a\r\nTransfer-Encoding: chunked\r\n\r\n1\r\nx\r\n0\r\nA: b")], Unit::Data(0, fill(rng, b"ab ")), "request trailer without end", &[S::ERROR]),
        14 => (vec![(0, REQ), (1, b"HTTP/1.1 200 O")], Unit::Data(1, fill(rng, b"ab ")), "response line without end", &[S::ERROR]),
        15 => (vec![(0, REQ), (1, b"HTTP/1.1 200 OK\r\nA: b")], Unit::Data(1, fill(rng, b"ab ")), "response header without end", &[S::ERROR]),
        16 => (vec![(0, REQ), (1, b"HTTP/1.1 200 OK\r\nA: b")], Unit::Data(1, [b"\r\n ".to_vec(), fill(rng, b"ab ")].concat()), "response header folded without end", &[S::ERROR]),
        17 => (vec![(0, REQ), (1, b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n1")], Unit::Data(1, [b";".to_vec(), fill(rng, b"ab=")].concat()), "response chunk length line without end", &[S::ERROR]),
        18 => (vec![(0, REQ), (1, b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n1\r\nx\r\n0\r\nA: b")], Unit::Data(1, fill(rng, b"ab ")), "response trailer without end", &[S::ERROR]),
        19 => (vec![(0, b"CONNECT a:1 HTTP/1.1\r\nHost: a\r\n\r\n"), (1, b"HTTP/1.1 200 OK\r\n\r\n"), (0, b"\x16\x03\0\n")], Unit::Data(0, fill(rng, b"ab\n")), "client data in a tunnel", &[S::TUNNEL]),
        20 => (vec![(0, b"CONNECT a:1 HTTP/1.1\r\nHost: a\r\n\r\n"), (1, b"HTTP/1.1 200 OK\r\n\r\n"), (0, b"\x16\x03\0\n")], Unit::Data(1, fill(rng, b"ab\n")), "server data in a tunnel", &[S::TUNNEL]),
        21 => (vec![(0, b"CONNECT a:1 HTTP/1.1\r\nHost: a\r\n\r\n"), (1, b"HTTP/1.1 200 OK\r\n\r\n"), (0, b"abc")], Unit::Data(0, fill(rng, b"abc")), "client data in a tunnel, without line end", &[S::ERROR, S::TUNNEL]),
        22 => (vec![(0, b"POST /a HTTP/1.1\r\nHost: a\r\nContent-Length: 999999999\r\n\r\n")], Unit::Gap(0, n), "gaps in a request body", OK),
        23 => (vec![(0, REQ), (1, b"HTTP/1.1 200 OK\r\nContent-Length: 999999999\r\n\r\n")], Unit::Gap(1, n), "gaps in a response body", OK),
        24 => (vec![(0, REQ), (1, b"HTTP/1.1 200 OK\r\n\r\n")], Unit::Gap(1, n), "gaps in a response body until close", OK),
        25 => (vec![(0, b"GET /a\r\n\r\n")], Unit::Data(0, fill(rng, b"ab\r\n")), "data after an HTTP/0.9 request", ANY),
        26 => (vec![], Unit::Data(0, b"\r\n".to_vec()), "empty lines before a request", OK),
        27 => (vec![(0, REQ)], Unit::Data(1, b"HTTP/1.1 100 Continue\r\nA: b\r\n\r\n".to_vec()), "interim responses", OK),
        28 => (vec![(0, b"GET /a HTTP/1.1\r\n")], Unit::Data(0, [b"A: ".to_vec(), fill(rng, b"ab"), b"\r\n".to_vec()].concat()), "the same request header again and again", OK),
        29 => (vec![(0, REQ), (1, b"HTTP/1.1 200 OK\r\n")], Unit::Data(1, [b"A: ".to_vec(), fill(rng, b"ab"), b"\r\n".to_vec()].concat()), "the same response header again and again", OK),
        30 => (vec![(0, b"GET /a HTTP/1.1\r\n")], Unit::Data(0, [fill(rng, b"ab"), b"\r\n".to_vec()].concat()), "request header lines without colon", OK),
        31 => (vec![(0, REQ), (1, b"HTTP/1.1 200 OK\r\nContent-Encoding: gzip\r\n\r\n\x1f\x8b\x08\x08\0\0\0\0\0\0")], Unit::Data(1, fill(rng, b"ab\n")), "gzip header without end", OK),
        32 => (vec![(0, REQ), (1, b"HTTP/1.1 200 OK\r\nContent-Encoding: gzip\r\n\r\n")], Unit::Data(1, fill(rng, b"\xff\xfe\n")), "data that is not gzip", OK),
        33 => (vec![(0, REQ), (1, b"HTTP/1.1 200 OK\r\nContent-Encoding: deflate\r\n\r\n")], Unit::Data(1, fill(rng, b"\xff\xfe\n")), "data that is not deflate", OK),
        34 => {
            // stored blocks: each unit is one
            let b = fill(rng, b"ab\n");
            let mut u = vec![0u8];
            u.extend_from_slice(&(n as u16).to_le_bytes());
            u.extend_from_slice(&(!(n as u16)).to_le_bytes());
            u.extend_from_slice(&b);
            (vec![(0, REQ), (1, b"HTTP/1.1 200 OK\r\nContent-Encoding: deflate\r\n\r\n")], Unit::Data(1, u), "endless deflate stream", OK)
        }
        35 => (vec![], Unit::Data(1, b"HTTP/1.1 200 OK\r\nContent-Length: 1\r\n\r\na".to_vec()), "responses without requests", OK),
        36 => (vec![(0, b"POST /a HTTP/1.1\r\nHost: a\r\nContent-Length: 3\r\n\r\nabcx")], Unit::Data(0, fill(rng, b"ab ")), "line without end behind a request", &[S::ERROR]),
        _ => (vec![(0, b"POST /a HTTP/1.1\r\nHost: a\r\nTransfer-Encoding: chunked\r\n\r\nzzz\r\n")], Unit::Data(0, fill(rng, b"ab\n")), "data after an error", &[S::ERROR]),
    };
    Scen { name, pre: pre.drain(..).map(|(s, b)| (s, b.to_vec())).collect(), unit, end }
}

fn endless(ctx: &mut Ctx, rng: &mut Rng) {
    let i = (turn(ctx.case) / 3) as usize % N;
    let limit = *rng.pick(&[300usize, 1000, 3000]);
    let n = *rng.pick(&[1usize, 7, 60, 250]);
    let s = scen(rng, i, n);
    let mut cfg = htp::test::TestConfig();
    cfg.set_tx_auto_destroy(true);
    cfg.set_field_limit(limit);
    cfg.set_parse_urlencoded(true);
    cfg.compression_options.set_time_limit(1_000_000_000);
    cfg.log_level = htp::log::HtpLogLevel::DEBUG2;
    ctx.input = format!("{}: field limit {}, pieces of {} bytes", s.name, limit, n);
    ctx.seen(ctx.input.clone().as_bytes());
    let mut e = Eat::new(cfg);
    for (side, b) in &s.pre {
        e.data(*side, b);
    }
    // What it may need: the buffer of a line (twice, when it grows) and fixed-size structures.
    let slack = 4 * limit + 16384;
    let per = match &s.unit {
        Unit::Data(_, b) => b.len(),
        Unit::Pair(a, b) => a.len() + b.len(),
        Unit::Gap(..) => 1,
    };
    // each repetition may leak as little as a few bytes
    let reps = if matches!(s.unit, Unit::Pair(..)) { 2500 } else { (20 * slack / per).clamp(6000, 60000) };
    reset_peak();
    let mut first = 0;
    let mut last = 0;
    // bytes allocated in the four quarters: how much is copied around
    let mut copied = [0usize; 4];
    let mut t0 = TOTAL.load(Relaxed);
    for k in 0..reps {
        match &s.unit {
            Unit::Data(side, b) => {
                e.data(*side, b);
            }
            Unit::Pair(a, b) => {
                e.data(0, a);
                e.data(1, b);
            }
            Unit::Gap(side, n) => e.gap(*side, *n),
        }
        if k == reps / 4 {
            first = PEAK.load(Relaxed);
            last = reset_peak();
        }
        if (k + 1) * 4 / reps > k * 4 / reps {
            let t = TOTAL.load(Relaxed);
            copied[k * 4 / reps] = t - t0;
            t0 = t;
        }
    }
    last = last.max(PEAK.load(Relaxed));
    let sides: &[usize] = match &s.unit {
        Unit::Data(x, _) | Unit::Gap(x, _) => if *x == 0 { &[0] } else { &[1] },
        Unit::Pair(..) => &[0, 1],
    };
    for x in sides {
        let st = e.last[*x];
        ctx.check(s.end.contains(&st), "state", || format!("{}: ends in state {:?} of side {}", s.name, st, x));
        if s.end == [S::ERROR] && !s.name.starts_with("data after") {
            let c = if *x == 0 { L::REQUEST_FIELD_TOO_LONG } else { L::RESPONSE_FIELD_TOO_LONG };
            ctx.check(e.codes.contains(&c), "code", || format!("{}: stopped without {:?}", s.name, c));
        }
    }
    ctx.obs("endless streams", 1);
    ctx.obs("bytes of endless streams", (per * reps) as u64);
    ctx.obs(&format!("endless: {}", s.name), 1);
    ctx.check(last <= first + slack, "grows", || format!("{}: {} bytes of heap in the first quarter of {} repetitions of {} bytes, {} later", s.name, first, reps, per, last));
    ctx.check(copied[3] <= 2 * copied[1].max(copied[0]) + slack, "copies", || format!("{}: the four quarters of {} repetitions allocate {:?} bytes", s.name, reps, copied));
    ctx.obs("bytes allocated in endless streams", copied.iter().sum::<usize>() as u64);
    let ntx = (0..e.p.tx_size() + 2).rev().take(600).filter(|i| e.p.tx(*i).is_some()).count();
    ctx.check(ntx <= 2, "transactions", || format!("{}: {} transactions kept", s.name, ntx));
}

/// The limit on one line or field is exact.
fn limit(ctx: &mut Ctx, rng: &mut Rng) {
    // without a setting: 18000
    let default = rng.chance(1, 12);
    let lim = if default { 18000 } else { rng.range(120, 700) };
    let (side, pre, start): (usize, Vec<(usize, &[u8])>, &[u8]) = match rng.below(16) {
        0 => (0, vec![], b"GET /"),
        1 => (0, vec![(0, b"GET / HTTP/1.1\r\nA: b\r\n")], b"C: "),
        2 => (0, vec![(0, b"POST / HTTP/1.1\r\nHost: a\r\nTransfer-Encoding: chunked\r\n\r\n")], b"1;"),
        3 => (0, vec![(0, b"POST / HTTP/1.1\r\nHost: a\r\nTransfer-Encoding: chunked\r\n\r\n1\r\na\r\n0\r\n")], b"T: v"),
        4 => (0, vec![(0, b"GET / HTTP/1.1\r\n")], b"C: d\r\n e"),
        5 => (0, vec![(0, b"GET / HTTP/1.1\r\nHost: a\r\n\r\n")], b"GET /"),
        6 => (1, vec![(0, REQ)], b"HTTP/1.1 200 O"),
        7 => (1, vec![(0, REQ), (1, b"HTTP/1.1 200 OK\r\nA: b\r\n")], b"C: "),
        8 => (1, vec![(0, REQ), (1, b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n")], b"1;"),
        9 => (1, vec![(0, REQ), (1, b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n1\r\na\r\n0\r\n")], b"T: v"),
        10 => (1, vec![(0, REQ), (1, b"HTTP/1.1 200 OK\r\n")], b"C: d\r\n e"),
        11 => (0, vec![(0, b"POST / HTTP/1.1\r\nHost: a\r\nContent-Length: 3\r\n\r\nabcx")], b"y"),
        12 => (1, vec![(0, REQ), (1, b"HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nabcx")], b"y"),
        13 => (0, vec![(0, b"CONNECT a:1 HTTP/1.1\r\nHost: a\r\n\r\n"), (1, b"HTTP/1.1 200 OK\r\n\r\n")], b"x"),
        14 => (0, vec![(0, b"CONNECT a:1 HTTP/1.1\r\nHost: a\r\n\r\n"), (1, b"HTTP/1.1 200 OK\r\n\r\n")], b"GET /"),
        _ => (1, vec![(0, REQ), (0, REQ), (1, b"HTTP/1.1 200 OK\r\nContent-Length: 1\r\n\r\na")], b"HTTP/1.1 200 O"),
    };
    ctx.obs("default limit", default as u64);
    let setup = |ctx: &mut Ctx| {
        let mut cfg = htp::test::TestConfig();
        if !default {
            cfg.set_field_limit(lim);
        }
        let mut e = Eat::new(cfg);
        for (s, b) in &pre {
            let r = e.data(*s, b);
            ctx.check(r != S::ERROR, "refused-early", || format!("refused \"{}\" under a limit of {}", show(b), lim));
        }
        e
    };
    let mut e = setup(ctx);
    // exactly the limit is taken, in any pieces
    let mut line = start.to_vec();
    // the line may have begun behind a body
    let begun = pre.last().map_or(false, |x| x.1.ends_with(b"abcx")) as usize;
    while line.len() + begun < lim {
        line.push(*rng.pick(b"abcdef"));
    }
    ctx.input = format!("limit {}, side {}, after {:?}: \"{}\"", lim, side, pre.iter().map(|x| show(x.1)).collect::<Vec<_>>(), show(&line));
    ctx.seen(ctx.input.clone().as_bytes());
    let mode = if default { *rng.pick(&[0, 2]) } else { rng.below(4) };
    let mut st = S::DATA;
    for b in crate::drive::split(rng, &line, mode) {
        st = e.data(side, &b);
        if st == S::ERROR {
            break;
        }
    }
    if !ctx.check(st == S::DATA && e.codes.is_empty(), "refused", || format!("{} bytes were refused ({:?}, {:?})", line.len(), st, e.codes)) {
        return;
    }
    // one more is not
    let mut more = rng.word(b"abc", 1, 3);
    let whole = rng.chance(1, 3);
    if whole {
        more.extend(b"\r\n");
        ctx.obs("lines that end beyond the limit", 1);
    }
    let st = e.data(side, &more);
    let code = if side == 0 { L::REQUEST_FIELD_TOO_LONG } else { L::RESPONSE_FIELD_TOO_LONG };
    ctx.check(st == S::ERROR && e.codes.contains(&code), "taken", || format!("{} bytes were taken ({:?}, {:?})", line.len() + more.len(), st, e.codes));
    ctx.obs("limits tested from both sides", 1);
    // nor when it all comes at once
    let mut e = setup(ctx);
    let mut all = [line, rng.word(b"abc", 1, 3)].concat();
    // (a chunk line or the first line of a tunnel that is there as a whole is not collected)
    if rng.flip() && !matches!(start, b"1;" | b"x") {
        all.extend(b"\r\n");
        ctx.obs("whole lines beyond the limit", 1);
    }
    let st = e.data(side, &all);
    ctx.check(st == S::ERROR && e.codes.contains(&code), "taken-at-once", || format!("{} bytes in one segment were taken ({:?}, {:?})", all.len(), st, e.codes));
}

/// The number of transactions kept when only the responses are seen.
fn answers_only(ctx: &mut Ctx, rng: &mut Rng) {
    let m = rng.range(1, 12);
    let mut cfg = htp::test::TestConfig();
    cfg.max_tx = m as u32;
    let mut e = Eat::new(cfg);
    let res = b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nab";
    let seg = rng.below(3);
    for i in 0..m + 2 {
        let mut st = S::DATA;
        for b in crate::drive::split(rng, res, seg) {
            st = e.data(1, &b);
        }
        let l = (0..m + 4).filter(|i| e.p.tx(*i).map_or(false, |t| t.is_started())).count();
        ctx.input = format!("limit {}, {} answers", m, i + 1);
        ctx.check(l <= m, "kept", || format!("limit {}: after {} responses without requests {} transactions are kept", m, i + 1, l));
        if i < m {
            ctx.check(st == S::DATA || (i + 1 == m && st == S::ERROR), "response", || format!("limit {}: response {} without request got {:?}", m, i + 1, st));
            ctx.check(e.p.tx(i).map_or(false, |t| t.is_complete()), "complete", || format!("limit {}: response {} is not complete", m, i + 1));
        } else {
            ctx.check(st == S::ERROR, "not-refused", || format!("limit {}: response {} without request got {:?}", m, i + 1, st));
        }
    }
    ctx.seen(ctx.input.clone().as_bytes());
    ctx.obs("responses without requests refused", 1);
}

/// The number of transactions kept.
fn transactions(ctx: &mut Ctx, rng: &mut Rng) {
    if rng.chance(1, 6) {
        return answers_only(ctx, rng);
    }
    let m = rng.range(1, 12);
    let destroy = rng.flip();
    let mut cfg = htp::test::TestConfig();
    cfg.set_tx_auto_destroy(destroy);
    cfg.max_tx = m as u32;
    let mut e = Eat::new(cfg);
    let live = |e: &Eat, hi: usize| (0..hi + 3).filter(|i| e.p.tx(*i).map_or(false, |t| t.is_started())).count();
    let res = b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nab";
    let (mut sent, mut answered) = (0usize, 0usize);
    let mut log = String::new();
    let seg = rng.below(3);
    loop {
        let kept = if destroy { sent - answered } else { sent };
        if sent > 4 * m + 6 {
            break;
        }
        if rng.flip() && answered < sent {
            log.push('<');
            let full = !destroy && answered + 1 == m;
            for b in crate::drive::split(rng, res, seg) {
                let st = e.data(1, &b);
                ctx.check(st == S::DATA || (full && st == S::ERROR), "response", || format!("limit {}, destroy {}: after {} the response got {:?}", m, destroy, log, st));
            }
            answered += 1;
            continue;
        }
        log.push('>');
        let mut st = S::DATA;
        for b in crate::drive::split(rng, REQ, seg) {
            st = e.data(0, &b);
        }
        let l = live(&e, sent + 1);
        ctx.check(l <= m, "kept", || format!("limit {}, destroy {}: after {} {} transactions are kept", m, destroy, log, l));
        if kept == m {
            ctx.check(st == S::ERROR, "not-refused", || format!("limit {}, destroy {}: after {} the request got {:?}", m, destroy, log, st));
            ctx.obs("requests refused", 1);
            break;
        }
        if kept + 1 == m && st == S::ERROR {
            // The request that takes the last place is complete, but there is no place for the next one.
            ctx.obs("requests refused", 1);
            sent += 1;
            break;
        }
        if !ctx.check(st == S::DATA, "refused-request", || format!("limit {}, destroy {}: after {} the request got {:?}", m, destroy, log, st)) {
            break;
        }
        sent += 1;
    }
    // what was admitted is still answered
    while answered < sent {
        log.push('<');
        let full = !destroy && answered + 1 == m;
        let st = e.data(1, res);
        if !ctx.check(st == S::DATA || (full && st == S::ERROR), "response", || format!("limit {}, destroy {}: after {} the response got {:?}", m, destroy, log, st)) {
            break;
        }
        answered += 1;
    }
    ctx.input = format!("limit {} destroy {} {}", m, destroy, log);
    ctx.seen(ctx.input.clone().as_bytes());
    ctx.obs("exchanges under a transaction limit", sent as u64);
    if !destroy {
        let complete = (0..sent).filter(|i| e.p.tx(*i).map_or(false, |t| t.is_complete())).count();
        ctx.eq(&complete, &sent, "complete", "transactions complete");
    }
}

/// A connection that is gone leaves nothing behind.
fn release(ctx: &mut Ctx, rng: &mut Rng) {
    let seed = rng.next();
    {
        let mut r = Rng::new(seed);
        let (_, desc) = crate::p_host::any_cfg(&mut r);
        ctx.input = format!("{}\n{}", desc, crate::drive::show_ops(&crate::p_host::hostile(&mut r)));
        ctx.seen(ctx.input.clone().as_bytes());
    }
    let (mut n, mut used) = (0, 0);
    let d = left_behind(|| {
        let mut r = Rng::new(seed);
        let (cfg, _) = crate::p_host::any_cfg(&mut r);
        let ops = crate::p_host::hostile(&mut r);
        let a = live();
        let mut d = crate::drive::Driver::bare(cfg);
        for o in &ops {
            d.feed(o);
        }
        if r.flip() {
            for i in 0..d.p.tx_size() {
                if r.flip() && d.p.tx(i).map_or(false, |t| t.is_complete()) {
                    d.p.remove_tx(i);
                }
            }
        }
        n = d.calls.len();
        used = live().wrapping_sub(a) as isize;
    });
    ctx.obs("connections released", 2);
    ctx.obs("bytes released", used.max(0) as u64);
    ctx.eq(&d, &0, "leak", &format!("bytes still allocated after a connection of {} calls was dropped", n));
}

/// Number of the case among those that are not about the release of memory.
fn turn(case: u64) -> u64 {
    case / 4 * 3 + case % 4
}
fn case(ctx: &mut Ctx, rng: &mut Rng) {
    if ctx.case % 4 == 3 {
        return release(ctx, rng);
    }
    match turn(ctx.case) % 3 {
        0 => endless(ctx, rng),
        1 => limit(ctx, rng),
        _ => transactions(ctx, rng),
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C17",
        case,
        quick: 4 * N as u64 * 150,
        thorough: 4 * N as u64 * 3000,
        rule: "hash of the scenario, limit and piece size",
        need: &["connections released", "bytes released", "endless streams", "limits tested from both sides", "requests refused", "responses without requests refused", "exchanges under a transaction limit"],
        assumptions: &["the caller drains the log and transactions are removed when complete", "the number of distinct header names of one message is not limited by the library"],
        mem: 0, asan: &[],
    }]
}
