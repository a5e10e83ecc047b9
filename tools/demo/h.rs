#![allow(dead_code)]
use htp::config::Config;
use htp::connection_parser::{ConnectionParser, HtpStreamState, ParserData};
use htp::transaction::Transaction;
use htp::HtpStatus;
use std::cell::RefCell;

thread_local! {
    /// (callback, transaction, data)
    pub static EV: RefCell<Vec<(&'static str, usize, Option<Vec<u8>>)>> = RefCell::new(vec![]);
}
macro_rules! cb { ($f:ident, $n:expr) => { fn $f(t: &mut Transaction) -> Result<(), HtpStatus> {
    EV.with(|e| e.borrow_mut().push(($n, t.index, None))); Ok(()) } } }
macro_rules! db { ($f:ident, $n:expr) => { fn $f(t: &mut Transaction, d: &ParserData) -> Result<(), HtpStatus> {
    EV.with(|e| e.borrow_mut().push(($n, t.index, d.data().map(|x| x.to_vec())))); Ok(()) } } }
cb!(a1, "req_start"); cb!(a2, "req_line"); cb!(a3, "req_headers"); cb!(a4, "req_trailer"); cb!(a5, "req_complete");
cb!(a6, "res_start"); cb!(a7, "res_line"); cb!(a8, "res_headers"); cb!(a9, "res_trailer"); cb!(b0, "res_complete"); cb!(b1, "tx_complete");
db!(d1, "req_header_data"); db!(d2, "req_body"); db!(d3, "req_trailer_data"); db!(d4, "res_header_data"); db!(d5, "res_body"); db!(d6, "res_trailer_data");
pub fn parser(mut c: Config) -> Box<ConnectionParser> {
    EV.with(|e| e.borrow_mut().clear());
    c.compression_options.set_time_limit(4_000_000_000);
    c.register_request_start(a1); c.register_request_line(a2); c.register_request_headers(a3); c.register_request_trailer(a4);
    c.register_request_complete(a5); c.register_response_start(a6); c.register_response_line(a7); c.register_response_headers(a8);
    c.register_response_trailer(a9); c.register_response_complete(b0); c.register_transaction_complete(b1);
    c.register_request_header_data(d1); c.register_request_body_data(d2); c.register_request_trailer_data(d3);
    c.register_response_header_data(d4); c.register_response_body_data(d5); c.register_response_trailer_data(d6);
    let mut p = Box::new(ConnectionParser::new(c));
    p.open(Some("127.0.0.1".parse().unwrap()), Some(10000), Some("127.0.0.1".parse().unwrap()), Some(80), None);
    p
}
pub fn req(p: &mut ConnectionParser, b: &[u8]) -> HtpStreamState { p.request_data(b.into(), None) }
pub fn res(p: &mut ConnectionParser, b: &[u8]) -> HtpStreamState { p.response_data(b.into(), None) }
/// concatenated data of one callback of one transaction
pub fn cat(name: &str, tx: usize) -> Vec<u8> {
    EV.with(|e| e.borrow().iter().filter(|x| x.0 == name && x.1 == tx).flat_map(|x| x.2.clone().unwrap_or_default()).collect())
}
pub fn count(name: &str, tx: usize) -> usize { EV.with(|e| e.borrow().iter().filter(|x| x.0 == name && x.1 == tx).count()) }
pub fn names(tx: usize) -> Vec<&'static str> { EV.with(|e| e.borrow().iter().filter(|x| x.1 == tx).map(|x| x.0).collect()) }
pub fn check(ok: bool, what: &str) { if !ok { println!("FAILED: {}", what); std::process::exit(1) } }
