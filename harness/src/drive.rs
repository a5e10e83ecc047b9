//! Driver: feeds byte streams to the real parser, records every callback and every call.
use crate::rng::Rng;
use htp::config::Config;
use htp::connection_parser::{ConnectionParser, HtpStreamState, ParserData};
use htp::log::{HtpLogCode, HtpLogLevel};
use htp::transaction::*;
use htp::{bstr::Bstr, HtpStatus};
use std::cell::RefCell;
use std::collections::VecDeque;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum K {
    ReqStart,
    ReqUriNorm,
    ReqLine,
    ReqHeaderData,
    ReqHeaders,
    ReqBody,
    ReqTrailerData,
    ReqTrailer,
    ReqComplete,
    ResStart,
    ResLine,
    ResHeaderData,
    ResHeaders,
    ResBody,
    ResTrailerData,
    ResTrailer,
    ResComplete,
    TxComplete,
}
pub const ALLK: [K; 18] = [
    K::ReqStart, K::ReqUriNorm, K::ReqLine, K::ReqHeaderData, K::ReqHeaders, K::ReqBody,
    K::ReqTrailerData, K::ReqTrailer, K::ReqComplete, K::ResStart, K::ResLine, K::ResHeaderData,
    K::ResHeaders, K::ResBody, K::ResTrailerData, K::ResTrailer, K::ResComplete, K::TxComplete,
];

#[derive(Clone, PartialEq, Debug)]
pub struct Ev {
    pub k: K,
    pub tx: usize,
    /// Some(bytes) for data callbacks with data; None for null data / gap / tx callbacks.
    pub data: Option<Vec<u8>>,
    pub len: usize,
    pub gap: bool,
    pub req_progress: u8,
    pub res_progress: u8,
    /// number of the data call in which it was seen
    pub call: usize,
    /// snapshot (only when asked for)
    pub snap: Option<Box<Snap>>,
}

type B = Option<Vec<u8>>;
fn ob(b: &Option<Bstr>) -> B {
    b.as_ref().map(|b| b.as_slice().to_vec())
}

#[derive(Clone, PartialEq, Debug)]
pub struct UriSnap {
    pub scheme: B,
    pub username: B,
    pub password: B,
    pub hostname: B,
    pub port: B,
    pub port_number: Option<u16>,
    pub path: B,
    pub query: B,
    pub fragment: B,
}
impl UriSnap {
    pub fn of(u: &htp::uri::Uri) -> Self {
        UriSnap {
            scheme: ob(&u.scheme),
            username: ob(&u.username),
            password: ob(&u.password),
            hostname: ob(&u.hostname),
            port: ob(&u.port),
            port_number: u.port_number,
            path: ob(&u.path),
            query: ob(&u.query),
            fragment: ob(&u.fragment),
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct Snap {
    pub index: usize,
    pub request_line: B,
    pub method: B,
    pub method_number: String,
    pub uri: B,
    pub protocol: B,
    pub protocol_number: i32,
    pub is_0_9: bool,
    pub parsed: Option<UriSnap>,
    pub parsed_raw: Option<UriSnap>,
    pub complete_uri: B,
    pub partial_uri: B,
    pub req_message_len: u64,
    pub req_entity_len: u64,
    pub req_headers: Vec<(Vec<u8>, Vec<u8>, u64)>,
    pub req_coding: String,
    pub req_ce: String,
    pub req_content_type: B,
    pub req_content_length: Option<u64>,
    pub auth_type: String,
    pub auth_user: B,
    pub auth_pass: B,
    pub auth_token: B,
    pub hostname: B,
    pub port: Option<u16>,
    pub req_ignored: u32,
    pub res_ignored: u32,
    pub response_line: B,
    pub res_protocol: B,
    pub res_protocol_number: i32,
    pub res_status: B,
    pub res_status_number: i32,
    pub expected_status: i32,
    pub res_message: B,
    pub seen_100: bool,
    pub res_headers: Vec<(Vec<u8>, Vec<u8>, u64)>,
    pub h2_upgrade: bool,
    pub res_message_len: u64,
    pub res_entity_len: u64,
    pub res_content_length: Option<u64>,
    pub res_coding: String,
    pub res_ce: String,
    pub res_content_type: B,
    pub flags: u64,
    pub req_progress: u8,
    pub res_progress: u8,
}

pub fn hdrs(h: &Headers) -> Vec<(Vec<u8>, Vec<u8>, u64)> {
    h.elements
        .iter()
        .map(|x| (x.name.as_slice().to_vec(), x.value.as_slice().to_vec(), x.flags))
        .collect()
}

impl Snap {
    pub fn of(t: &Transaction) -> Self {
        Snap {
            index: t.index,
            request_line: ob(&t.request_line),
            method: ob(&t.request_method),
            method_number: format!("{:?}", t.request_method_number),
            uri: ob(&t.request_uri),
            protocol: ob(&t.request_protocol),
            protocol_number: t.request_protocol_number as i32,
            is_0_9: t.is_protocol_0_9,
            parsed: t.parsed_uri.as_ref().map(UriSnap::of),
            parsed_raw: t.parsed_uri_raw.as_ref().map(UriSnap::of),
            complete_uri: ob(&t.complete_normalized_uri),
            partial_uri: ob(&t.partial_normalized_uri),
            req_message_len: t.request_message_len,
            req_entity_len: t.request_entity_len,
            req_headers: hdrs(&t.request_headers),
            req_coding: format!("{:?}", t.request_transfer_coding),
            req_ce: format!("{:?}", t.request_content_encoding),
            req_content_type: ob(&t.request_content_type),
            req_content_length: t.request_content_length,
            auth_type: format!("{:?}", t.request_auth_type),
            auth_user: ob(&t.request_auth_username),
            auth_pass: ob(&t.request_auth_password),
            auth_token: ob(&t.request_auth_token),
            hostname: ob(&t.request_hostname),
            port: t.request_port_number,
            req_ignored: t.request_ignored_lines,
            res_ignored: t.response_ignored_lines,
            response_line: ob(&t.response_line),
            res_protocol: ob(&t.response_protocol),
            res_protocol_number: t.response_protocol_number as i32,
            res_status: ob(&t.response_status),
            res_status_number: match t.response_status_number {
                HtpResponseNumber::UNKNOWN => 0,
                HtpResponseNumber::INVALID => -1,
                HtpResponseNumber::VALID(n) => n as i32,
            },
            expected_status: t.response_status_expected_number as i32,
            res_message: ob(&t.response_message),
            seen_100: t.seen_100continue,
            res_headers: hdrs(&t.response_headers),
            h2_upgrade: t.is_http_2_upgrade,
            res_message_len: t.response_message_len,
            res_entity_len: t.response_entity_len,
            res_content_length: t.response_content_length,
            res_coding: format!("{:?}", t.response_transfer_coding),
            res_ce: format!("{:?}", t.response_content_encoding),
            res_content_type: ob(&t.response_content_type),
            flags: t.flags,
            req_progress: t.request_progress as u8,
            res_progress: t.response_progress as u8,
        }
    }
    pub fn req_get(&self, name: &str) -> B {
        self.req_headers
            .iter()
            .find(|h| h.0.eq_ignore_ascii_case(name.as_bytes()))
            .map(|h| h.1.clone())
    }
    pub fn res_get(&self, name: &str) -> B {
        self.res_headers
            .iter()
            .find(|h| h.0.eq_ignore_ascii_case(name.as_bytes()))
            .map(|h| h.1.clone())
    }
}

pub fn status_of(n: i32) -> HtpStatus {
    for s in [
        HtpStatus::ERROR_RESERVED, HtpStatus::ERROR, HtpStatus::DECLINED, HtpStatus::OK,
        HtpStatus::DATA, HtpStatus::DATA_OTHER, HtpStatus::STOP, HtpStatus::DATA_BUFFER,
    ] {
        // HtpStatus is neither Copy nor Clone
        let k = match s {
            HtpStatus::ERROR_RESERVED => -1000,
            HtpStatus::ERROR => -1,
            HtpStatus::DECLINED => 0,
            HtpStatus::OK => 1,
            HtpStatus::DATA => 2,
            HtpStatus::DATA_OTHER => 3,
            HtpStatus::STOP => 4,
            HtpStatus::DATA_BUFFER => 5,
            HtpStatus::STATUS_RESERVED => 1000,
        };
        if k == n {
            return s;
        }
    }
    HtpStatus::ERROR
}

/// What the recorder does at a callback: nothing but record, or inject a fault.
#[derive(Clone, Debug)]
pub struct Fault {
    pub k: K,
    /// fires at the nth (0-based) invocation of kind k
    pub nth: usize,
    /// the HtpStatus value to return, as its number
    pub status: i32,
}

#[derive(Default)]
pub struct Rec {
    pub evs: Vec<Ev>,
    pub fault: Option<Fault>,
    pub fired: bool,
    pub counts: [usize; 18],
    pub call: usize,
    pub snap_at: Vec<K>,
    /// data delivered to a second recorder registered on the same hook (order check)
    pub second: Vec<(K, usize, usize)>,
    pub tx_hooks: bool,
    /// the fault is raised by this one of the callbacks behind the recorder
    pub late: Option<usize>,
    /// the callback of a transaction raises one: request side, transaction, number, status
    pub tx_fault: Option<(bool, usize, usize, i32)>,
    pub fired_in: usize,
    /// the callback of this kind and number takes this many milliseconds
    pub sleep: Option<(K, usize, usize, u64)>,
    /// what callbacks registered on a transaction got: (request side, transaction, data)
    pub tx_data: Vec<(bool, usize, Option<Vec<u8>>)>,
}

thread_local! {
    pub static REC: RefCell<Rec> = RefCell::new(Rec::default());
}

fn on_tx(k: K, tx: &mut Transaction) -> Result<(), HtpStatus> {
    REC.with(|r| {
        let mut r = r.borrow_mut();
        let n = r.counts[k as usize];
        r.counts[k as usize] += 1;
        let snap = if r.snap_at.contains(&k) { Some(Box::new(Snap::of(tx))) } else { None };
        let call = r.call;
        r.evs.push(Ev {
            k,
            tx: tx.index,
            data: None,
            len: 0,
            gap: false,
            req_progress: tx.request_progress as u8,
            res_progress: tx.response_progress as u8,
            call,
            snap,
        });
        if let Some(f) = &r.fault {
            if f.k == k && f.nth == n && r.late.is_none() {
                let s = status_of(f.status);
                r.fired = true;
                return if s == HtpStatus::OK { Ok(()) } else { Err(s) };
            }
        }
        Ok(())
    })
}

fn on_data(k: K, tx: &mut Transaction, d: &ParserData) -> Result<(), HtpStatus> {
    REC.with(|r| {
        let mut r = r.borrow_mut();
        let n = r.counts[k as usize];
        r.counts[k as usize] += 1;
        let call = r.call;
        r.evs.push(Ev {
            k,
            tx: tx.index,
            data: d.data().map(|x| x.to_vec()),
            len: d.len(),
            gap: d.is_gap(),
            req_progress: tx.request_progress as u8,
            res_progress: tx.response_progress as u8,
            call,
            snap: None,
        });
        if let Some((sk, from, to, ms)) = r.sleep {
            if sk == k && (from..=to).contains(&n) {
                std::thread::sleep(std::time::Duration::from_millis(ms));
            }
        }
        if let Some(f) = &r.fault {
            if f.k == k && f.nth == n && r.late.is_none() {
                let s = status_of(f.status);
                r.fired = true;
                return if s == HtpStatus::OK { Ok(()) } else { Err(s) };
            }
        }
        Ok(())
    })
}

macro_rules! txcb {
    ($n:ident, $k:expr) => {
        fn $n(tx: &mut Transaction) -> Result<(), HtpStatus> {
            on_tx($k, tx)
        }
    };
}
macro_rules! datacb {
    ($n:ident, $k:expr) => {
        fn $n(tx: &mut Transaction, d: &ParserData) -> Result<(), HtpStatus> {
            on_data($k, tx, d)
        }
    };
}
txcb!(cb_req_start, K::ReqStart);
txcb!(cb_req_norm, K::ReqUriNorm);
txcb!(cb_req_line, K::ReqLine);
txcb!(cb_req_headers, K::ReqHeaders);
txcb!(cb_req_trailer, K::ReqTrailer);
txcb!(cb_req_complete, K::ReqComplete);
txcb!(cb_res_start, K::ResStart);
txcb!(cb_res_line, K::ResLine);
txcb!(cb_res_headers, K::ResHeaders);
txcb!(cb_res_trailer, K::ResTrailer);
txcb!(cb_res_complete, K::ResComplete);
txcb!(cb_tx_complete, K::TxComplete);
datacb!(cb_req_hd, K::ReqHeaderData);
datacb!(cb_req_body, K::ReqBody);
datacb!(cb_req_td, K::ReqTrailerData);
datacb!(cb_res_hd, K::ResHeaderData);
datacb!(cb_res_body, K::ResBody);
datacb!(cb_res_td, K::ResTrailerData);

/// Registers the recorder on every hook of the configuration.
pub fn instrument(cfg: &mut Config) {
    cfg.register_request_start(cb_req_start);
    cfg.hook_request_uri_normalize.register(cb_req_norm);
    cfg.register_request_line(cb_req_line);
    cfg.register_request_header_data(cb_req_hd);
    cfg.register_request_headers(cb_req_headers);
    cfg.register_request_body_data(cb_req_body);
    cfg.register_request_trailer_data(cb_req_td);
    cfg.register_request_trailer(cb_req_trailer);
    cfg.register_request_complete(cb_req_complete);
    cfg.register_response_start(cb_res_start);
    cfg.register_response_line(cb_res_line);
    cfg.register_response_header_data(cb_res_hd);
    cfg.register_response_headers(cb_res_headers);
    cfg.register_response_body_data(cb_res_body);
    cfg.register_response_trailer_data(cb_res_td);
    cfg.register_response_trailer(cb_res_trailer);
    cfg.register_response_complete(cb_res_complete);
    cfg.register_transaction_complete(cb_tx_complete);
}

fn on_second(k: K, tx: usize) -> Result<(), HtpStatus> {
    REC.with(|r| {
        let mut r = r.borrow_mut();
        let at = r.evs.len();
        let which = r.second.iter().rev().take_while(|x| **x == (k, tx, at)).count();
        r.second.push((k, tx, at));
        if let (Some(f), Some(late)) = (&r.fault, r.late) {
            if f.k == k && f.nth + 1 == r.counts[k as usize] && late == which {
                let s = status_of(f.status);
                r.fired = true;
                return if s == HtpStatus::OK { Ok(()) } else { Err(s) };
            }
        }
        Ok(())
    })
}
/// This is the first of the callbacks behind the recorder.
fn first_behind(k: K, tx: usize) -> bool {
    REC.with(|r| {
        let r = r.borrow();
        r.second.last() != Some(&(k, tx, r.evs.len()))
    })
}
fn on_tx_data(req: bool, tx: usize, d: &ParserData) -> Result<(), HtpStatus> {
    REC.with(|r| {
        let mut r = r.borrow_mut();
        let n = r.tx_data.iter().filter(|x| x.0 == req && x.1 == tx).count();
        r.tx_data.push((req, tx, d.data().map(|x| x.to_vec())));
        if let Some((q, t, nth, status)) = r.tx_fault {
            if (q, t, nth) == (req, tx, n) {
                let s = status_of(status);
                r.fired = true;
                r.fired_in = r.call;
                return if s == HtpStatus::OK { Ok(()) } else { Err(s) };
            }
        }
        Ok(())
    })
}
macro_rules! seconds {
    ($($t:ident $n:ident $k:ident),*) => {
        $(seconds!(@ $t $n $k);)*
        /// Registers a second callback on every hook, behind the recorder.
        pub fn instrument_second(cfg: &mut Config) {
            $(cfg.$n.register($n::cb);)*
        }
    };
    (@ tx $n:ident $k:ident) => {
        #[allow(non_snake_case)]
        mod $n {
            use super::*;
            pub fn cb(tx: &mut Transaction) -> Result<(), HtpStatus> {
                if K::$k == K::ReqLine && REC.with(|r| r.borrow().tx_hooks) && tx.index % 2 == 0 && first_behind(K::$k, tx.index) {
                    // callbacks of this transaction alone
                    tx.register_request_body_data(tx_req_body);
                    tx.hook_response_body_data.register(tx_res_body);
                }
                on_second(K::$k, tx.index)
            }
        }
    };
    (@ data $n:ident $k:ident) => {
        #[allow(non_snake_case)]
        mod $n {
            use super::*;
            pub fn cb(tx: &mut Transaction, _: &ParserData) -> Result<(), HtpStatus> {
                on_second(K::$k, tx.index)
            }
        }
    };
}
fn tx_req_body(tx: &mut Transaction, d: &ParserData) -> Result<(), HtpStatus> {
    on_tx_data(true, tx.index, d)
}
fn tx_res_body(tx: &mut Transaction, d: &ParserData) -> Result<(), HtpStatus> {
    on_tx_data(false, tx.index, d)
}
seconds!(
    tx hook_request_start ReqStart, tx hook_request_uri_normalize ReqUriNorm, tx hook_request_line ReqLine,
    data hook_request_header_data ReqHeaderData, tx hook_request_headers ReqHeaders, data hook_request_body_data ReqBody,
    data hook_request_trailer_data ReqTrailerData, tx hook_request_trailer ReqTrailer, tx hook_request_complete ReqComplete,
    tx hook_response_start ResStart, tx hook_response_line ResLine, data hook_response_header_data ResHeaderData,
    tx hook_response_headers ResHeaders, data hook_response_body_data ResBody, data hook_response_trailer_data ResTrailerData,
    tx hook_response_trailer ResTrailer, tx hook_response_complete ResComplete, tx hook_transaction_complete TxComplete
);

pub fn rec_reset() {
    REC.with(|r| *r.borrow_mut() = Rec::default());
}
pub fn rec_take() -> Vec<Ev> {
    REC.with(|r| std::mem::take(&mut r.borrow_mut().evs))
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Req(Vec<u8>),
    Res(Vec<u8>),
    ReqGap(usize),
    ResGap(usize),
    ReqClose,
    Close,
}

/// A close of the connection or of its request direction.
#[derive(Clone, Debug)]
pub struct Closed {
    pub half: bool,
    pub before: (HtpStreamState, HtpStreamState),
    pub after: (HtpStreamState, HtpStreamState),
    pub evs: (usize, usize),
    pub counted: (u64, u64),
}
#[derive(Clone, Debug)]
pub struct Call {
    /// number among all calls of the API
    pub no: usize,
    /// true: request side
    pub req: bool,
    pub len: usize,
    pub gap: bool,
    pub ret: HtpStreamState,
    pub consumed: usize,
    pub req_status: HtpStreamState,
    pub res_status: HtpStreamState,
    pub ntx: usize,
    /// status of the request and the response side before the call
    pub before: (HtpStreamState, HtpStreamState),
    /// range of the callbacks it made
    pub evs: (usize, usize),
    /// byte counter of its direction before and after
    pub counted: (u64, u64),
}

pub struct Run {
    pub evs: Vec<Ev>,
    pub calls: Vec<Call>,
    pub closes: Vec<Closed>,
    pub txs: Vec<Snap>,
    pub logs: Vec<(HtpLogCode, HtpLogLevel, String)>,
    pub conn_flags: u64,
    pub req_counter: u64,
    pub res_counter: u64,
    pub fired: bool,
    pub p: Box<ConnectionParser>,
    pub stuck: bool,
    pub leftover: (usize, usize),
}

pub struct Driver {
    pub p: Box<ConnectionParser>,
    pub calls: Vec<Call>,
    pub closes: Vec<Closed>,
    pend: [VecDeque<Op>; 2],
    blocked: [bool; 2],
    pub stuck: bool,
    pub max_idx: usize,
}

pub fn new_parser(cfg: Config) -> Box<ConnectionParser> {
    let mut p = Box::new(ConnectionParser::new(cfg));
    p.open(
        Some("127.0.0.1".parse().unwrap()),
        Some(10000),
        Some("127.0.0.1".parse().unwrap()),
        Some(80),
        None,
    );
    p
}

impl Driver {
    pub fn new(mut cfg: Config) -> Self {
        instrument(&mut cfg);
        Self::bare(cfg)
    }
    /// No recorder is added to the configuration.
    pub fn bare(cfg: Config) -> Self {
        rec_reset();
        Driver {
            p: new_parser(cfg),
            calls: vec![],
            closes: vec![],
            pend: [VecDeque::new(), VecDeque::new()],
            blocked: [false; 2],
            stuck: false,
            max_idx: 0,
        }
    }
    pub fn with_fault(self, f: Option<Fault>) -> Self {
        REC.with(|r| r.borrow_mut().fault = f);
        self
    }
    pub fn snap_at(self, ks: &[K]) -> Self {
        REC.with(|r| r.borrow_mut().snap_at = ks.to_vec());
        self
    }
    /// One raw call of the API.
    pub fn call(&mut self, op: &Op) -> (HtpStreamState, usize) {
        REC.with(|r| r.borrow_mut().call += 1);
        let ev0 = REC.with(|r| r.borrow().evs.len());
        let p = &mut *self.p;
        let before = (p.request_status, p.response_status);
        let cnt = (p.conn.request_data_counter, p.conn.response_data_counter);
        let (req, len, gap, ret) = match op {
            Op::Req(b) => (true, b.len(), false, p.request_data(b.as_slice().into(), None)),
            Op::Res(b) => (false, b.len(), false, p.response_data(b.as_slice().into(), None)),
            Op::ReqGap(n) => (true, *n, true, p.request_data(ParserData::from(*n), None)),
            Op::ResGap(n) => (false, *n, true, p.response_data(ParserData::from(*n), None)),
            Op::ReqClose | Op::Close => {
                if matches!(op, Op::Close) {
                    p.close(None);
                } else {
                    p.request_close(None);
                }
                self.closes.push(Closed {
                    half: matches!(op, Op::ReqClose),
                    before,
                    after: (p.request_status, p.response_status),
                    evs: (ev0, REC.with(|r| r.borrow().evs.len())),
                    counted: (p.conn.request_data_counter as u64 - cnt.0 as u64, p.conn.response_data_counter as u64 - cnt.1 as u64),
                });
                return (HtpStreamState::CLOSED, 0);
            }
        };
        let consumed = if req { p.request_data_consumed() } else { p.response_data_consumed() };
        self.calls.push(Call {
            no: REC.with(|r| r.borrow().call),
            req,
            len,
            gap,
            ret,
            consumed,
            req_status: p.request_status,
            res_status: p.response_status,
            ntx: p.tx_size(),
            before,
            evs: (ev0, REC.with(|r| r.borrow().evs.len())),
            counted: if req { (cnt.0 as u64, p.conn.request_data_counter as u64) } else { (cnt.1 as u64, p.conn.response_data_counter as u64) },
        });
        (ret, consumed)
    }
    /// Both sides hold data and wait for the other.
    pub fn deadlocked(&self) -> bool {
        (0..2).all(|i| self.blocked[i] && !self.pend[i].is_empty())
    }
    /// Queue data on one side and pump both sides as a caller honouring DATA_OTHER does.
    pub fn feed(&mut self, op: &Op) {
        let d = match op {
            Op::Req(_) | Op::ReqGap(_) => 0,
            Op::Res(_) | Op::ResGap(_) => 1,
            _ => {
                self.call(op);
                return;
            }
        };
        self.pend[d].push_back(op.clone());
        let mut steps = 0;
        let mut stall = 0;
        loop {
            let mut progressed = false;
            for side in [d, 1 - d] {
                while !self.blocked[side] {
                    let Some(op) = self.pend[side].pop_front() else { break };
                    steps += 1;
                    if steps > 10000 {
                        self.stuck = true;
                        return;
                    }
                    let (ret, consumed) = self.call(&op);
                    let mut moved = consumed > 0;
                    if ret == HtpStreamState::DATA_OTHER {
                        let rest = match op {
                            Op::Req(b) => Op::Req(b[consumed.min(b.len())..].to_vec()),
                            Op::Res(b) => Op::Res(b[consumed.min(b.len())..].to_vec()),
                            o => o,
                        };
                        self.pend[side].push_front(rest);
                        self.blocked[side] = true;
                    } else {
                        moved = true;
                    }
                    if moved {
                        self.blocked[1 - side] = false;
                        progressed = true;
                        stall = 0;
                    } else if stall < 3 {
                        // yielded without taking anything: let the other side run
                        self.blocked[1 - side] = false;
                        progressed = true;
                        stall += 1;
                    }
                }
            }
            if !progressed && stall < 3 {
                // nothing to offer on the side that was yielded to: go on here
                for side in [0, 1] {
                    if self.blocked[side] && self.pend[1 - side].is_empty() && self.yielded(side) {
                        self.blocked[side] = false;
                        progressed = true;
                        stall += 1;
                    }
                }
            }
            if !progressed {
                break;
            }
        }
    }
    /// The side gave way at the end of a message, not to wait for an answer.
    fn yielded(&self, side: usize) -> bool {
        side == 1
    }
    pub fn finish(self) -> Run {
        let p = self.p;
        let left = |q: &VecDeque<Op>| {
            q.iter()
                .map(|o| match o {
                    Op::Req(b) | Op::Res(b) => b.len(),
                    _ => 0,
                })
                .sum::<usize>()
        };
        let leftover = (left(&self.pend[0]), left(&self.pend[1]));
        let hi = p.request_index().max(p.response_index()) + 2;
        let mut txs = vec![];
        for i in 0..hi {
            if let Some(t) = p.tx(i) {
                if t.is_started() {
                    txs.push(Snap::of(t));
                }
            }
        }
        let logs = p
            .conn
            .get_logs()
            .into_iter()
            .map(|l| (l.msg.code, l.msg.level, l.msg.msg.clone()))
            .collect();
        let fired = REC.with(|r| r.borrow().fired);
        Run {
            evs: rec_take(),
            calls: self.calls,
            closes: self.closes,
            txs,
            logs,
            conn_flags: p.conn.flags as u64,
            req_counter: p.conn.request_data_counter as u64,
            res_counter: p.conn.response_data_counter as u64,
            fired,
            p,
            stuck: self.stuck,
            leftover,
        }
    }
}

pub fn run(cfg: Config, ops: &[Op]) -> Run {
    run_fault(cfg, ops, None)
}
pub fn run_fault(cfg: Config, ops: &[Op], f: Option<Fault>) -> Run {
    let mut d = Driver::new(cfg).with_fault(f);
    for op in ops {
        d.feed(op);
    }
    d.finish()
}

impl Run {
    /// Concatenated bytes delivered to data callback k of transaction tx.
    pub fn cat(&self, k: K, tx: usize) -> Vec<u8> {
        let mut v = vec![];
        for e in &self.evs {
            if e.k == k && e.tx == tx {
                if let Some(d) = &e.data {
                    v.extend_from_slice(d);
                }
            }
        }
        v
    }
    pub fn count(&self, k: K, tx: usize) -> usize {
        self.evs.iter().filter(|e| e.k == k && e.tx == tx).count()
    }
}

/// Cuts `data` into pieces: mode 0 whole, 1 bytewise, 2 random few cuts, 3 random small pieces,
/// 4 cuts hugging line ends.
pub fn split(rng: &mut Rng, data: &[u8], mode: usize) -> Vec<Vec<u8>> {
    if data.is_empty() {
        return vec![];
    }
    let n = data.len();
    let mut cuts: Vec<usize> = vec![];
    match mode {
        0 => {}
        1 => cuts = (1..n).collect(),
        2 => {
            for _ in 0..rng.range(1, 3) {
                cuts.push(rng.range(0, n));
            }
        }
        3 => {
            let mut i = 0;
            let m = *rng.pick(&[2usize, 3, 7, 20, 60]);
            while i < n {
                i += rng.range(1, m);
                cuts.push(i);
            }
        }
        _ => {
            for (i, b) in data.iter().enumerate() {
                if (*b == b'\r' || *b == b'\n') && rng.chance(1, 2) {
                    cuts.push(i + rng.below(2));
                }
                if rng.chance(1, 60) {
                    cuts.push(i)
                }
            }
        }
    }
    cuts.retain(|c| *c > 0 && *c < n);
    cuts.sort();
    cuts.dedup();
    let mut out = vec![];
    let mut s = 0;
    for c in cuts {
        out.push(data[s..c].to_vec());
        s = c;
    }
    out.push(data[s..].to_vec());
    out
}

pub fn show(b: &[u8]) -> String {
    let mut s = String::new();
    for &c in b.iter().take(4000) {
        match c {
            b'\r' => s.push_str("\\r"),
            b'\n' => s.push_str("\\n"),
            b'\\' => s.push_str("\\\\"),
            b'"' => s.push_str("\\\""),
            32..=126 => s.push(c as char),
            _ => s.push_str(&format!("\\x{:02x}", c)),
        }
    }
    if b.len() > 4000 {
        s.push_str(&format!("...({} bytes)", b.len()));
    }
    s
}
pub fn show_op(o: &Op) -> String {
    match o {
        Op::Req(b) => format!(">>> \"{}\"", show(b)),
        Op::Res(b) => format!("<<< \"{}\"", show(b)),
        Op::ReqGap(n) => format!(">>> GAP({})", n),
        Op::ResGap(n) => format!("<<< GAP({})", n),
        Op::ReqClose => "request_close".into(),
        Op::Close => "close".into(),
    }
}
pub fn show_ops(o: &[Op]) -> String {
    o.iter().map(show_op).collect::<Vec<_>>().join("\n")
}
