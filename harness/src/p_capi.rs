//! C23: the C interface reports what the Rust interface reports, for the same configuration and history.
use crate::drive::*;
use crate::fw::*;
use crate::p_conv::PERS;
use crate::p_host::{hostile, some_fault};
use crate::rng::Rng;
use htp::bstr::Bstr;
use htp::c_api::{bstr::*, config::*, connection::*, connection_parser::*, header::*, log::*, transaction::*, uri::*};
use htp::c_api::{htp_free_cstring, htp_get_version};
use htp::config::{Config, HtpServerPersonality, HtpUrlEncodingHandling};
use htp::connection_parser::{ConnectionParser, HtpStreamState as S};
use htp::transaction::{Data, Header, Headers, Transaction};
use htp::HtpStatus;
use std::cell::RefCell;
use std::ffi::{CStr, CString};
use std::ptr::{null, null_mut};

#[derive(Default)]
struct CRec {
    evs: Vec<(K, usize, Option<Vec<u8>>, usize)>,
    connp: usize,
    bad: Vec<String>,
    fault: Option<Fault>,
    counts: [usize; 18],
    /// deliveries to the body callback registered on a transaction
    own: Vec<(usize, Option<Vec<u8>>, usize)>,
    own_at: Option<usize>,
    /// transactions whose user data was set
    tagged: Vec<usize>,
    forget: bool,
}
thread_local! {
    static CREC: RefCell<CRec> = RefCell::new(CRec::default());
}
fn tag(i: usize) -> *mut libc::c_void {
    (0x1000 + i * 16) as *mut libc::c_void
}
unsafe fn ctx_cb(k: K, connp: *const ConnectionParser, tx: *mut Transaction) -> HtpStatus {
    CREC.with(|r| {
        let mut r = r.borrow_mut();
        if connp as usize != r.connp {
            let m = format!("{:?}: parser {:?} instead of {:x}", k, connp, r.connp);
            r.bad.push(m);
        }
        if htp_connp_user_data(connp) != tag(999_999) {
            r.bad.push(format!("{:?}: user data of the parser is {:?}", k, htp_connp_user_data(connp)));
        }
        let i = htp_tx_index(tx) as usize;
        if r.tagged.contains(&i) {
            if htp_tx_get_user_data(tx) != tag(i) && !r.forget {
                r.bad.push(format!("{:?}: user data of transaction {} is {:?}", k, i, htp_tx_get_user_data(tx)));
            }
        } else {
            if !htp_tx_get_user_data(tx).is_null() && !r.forget {
                r.bad.push(format!("{:?}: new transaction {} has user data {:?}", k, i, htp_tx_get_user_data(tx)));
            }
            htp_tx_set_user_data(tx, tag(i));
            r.tagged.push(i);
        }
        if k == K::ResStart && r.own_at == Some(i) {
            htp_tx_register_response_body_data(tx, own_body);
        }
        let n = r.counts[k as usize];
        r.counts[k as usize] += 1;
        r.evs.push((k, i, None, 0));
        if let Some(f) = &r.fault {
            if f.k == k && f.nth == n {
                return status_of(f.status);
            }
        }
        HtpStatus::OK
    })
}
unsafe fn cdata(data: *mut Data) -> (usize, Option<Vec<u8>>, usize) {
    let len = htp_tx_data_len(data);
    let p = htp_tx_data_data(data);
    let d = if p.is_null() { None } else { Some(std::slice::from_raw_parts(p, len as usize).to_vec()) };
    (htp_tx_index(htp_tx_data_tx(data)) as usize, d, len as usize)
}
unsafe fn cdata_cb(k: K, connp: *const ConnectionParser, data: *mut Data) -> HtpStatus {
    CREC.with(|r| {
        let mut r = r.borrow_mut();
        if connp as usize != r.connp {
            let m = format!("{:?}: parser {:?} instead of {:x}", k, connp, r.connp);
            r.bad.push(m);
        }
        let (i, d, len) = cdata(data);
        if htp_tx_data_is_empty(data) != (len == 0) {
            r.bad.push(format!("{:?}: is_empty {} with length {}", k, htp_tx_data_is_empty(data), len));
        }
        if !r.forget && r.tagged.contains(&i) && htp_tx_get_user_data(htp_tx_data_tx(data)) != tag(i) {
            r.bad.push(format!("{:?}: user data of transaction {} lost", k, i));
        }
        let n = r.counts[k as usize];
        r.counts[k as usize] += 1;
        r.evs.push((k, i, d, len));
        if let Some(f) = &r.fault {
            if f.k == k && f.nth == n {
                return status_of(f.status);
            }
        }
        HtpStatus::OK
    })
}
unsafe extern "C" fn own_body(_: *const ConnectionParser, data: *mut Data) -> HtpStatus {
    CREC.with(|r| {
        let mut r = r.borrow_mut();
        let d = cdata(data);
        r.own.push(d);
        HtpStatus::OK
    })
}
macro_rules! t {
    ($n:ident, $k:expr) => {
        unsafe extern "C" fn $n(c: *const ConnectionParser, t: *mut Transaction) -> HtpStatus {
            ctx_cb($k, c, t)
        }
    };
}
macro_rules! d {
    ($n:ident, $k:expr) => {
        unsafe extern "C" fn $n(c: *const ConnectionParser, t: *mut Data) -> HtpStatus {
            cdata_cb($k, c, t)
        }
    };
}
t!(c_req_start, K::ReqStart);
t!(c_req_line, K::ReqLine);
t!(c_req_headers, K::ReqHeaders);
t!(c_req_trailer, K::ReqTrailer);
t!(c_req_complete, K::ReqComplete);
t!(c_res_start, K::ResStart);
t!(c_res_headers, K::ResHeaders);
t!(c_res_trailer, K::ResTrailer);
t!(c_res_complete, K::ResComplete);
t!(c_tx_complete, K::TxComplete);
d!(c_req_hd, K::ReqHeaderData);
d!(c_req_body, K::ReqBody);
d!(c_req_td, K::ReqTrailerData);
d!(c_res_hd, K::ResHeaderData);
d!(c_res_body, K::ResBody);
d!(c_res_td, K::ResTrailerData);

unsafe fn register_all(c: *mut Config) {
    htp_config_register_request_start(c, c_req_start);
    htp_config_register_request_line(c, c_req_line);
    htp_config_register_request_header_data(c, c_req_hd);
    htp_config_register_request_headers(c, c_req_headers);
    htp_config_register_request_body_data(c, c_req_body);
    htp_config_register_request_trailer_data(c, c_req_td);
    htp_config_register_request_trailer(c, c_req_trailer);
    htp_config_register_request_complete(c, c_req_complete);
    htp_config_register_response_start(c, c_res_start);
    htp_config_register_response_header_data(c, c_res_hd);
    htp_config_register_response_headers(c, c_res_headers);
    htp_config_register_response_body_data(c, c_res_body);
    htp_config_register_response_trailer_data(c, c_res_td);
    htp_config_register_response_trailer(c, c_res_trailer);
    htp_config_register_response_complete(c, c_res_complete);
    htp_config_register_transaction_complete(c, c_tx_complete);
}

/// The same settings through both interfaces.
unsafe fn configure(rng: &mut Rng, c: *mut Config, r: &mut Config, s: &mut String, ctx: &mut Ctx) {
    if rng.chance(2, 3) {
        let p = if rng.chance(1, 8) {
            *rng.pick(&[HtpServerPersonality::IIS_4_0, HtpServerPersonality::IIS_5_0])
        } else {
            *rng.pick(&PERS)
        };
        let a = htp_config_set_server_personality(c, p);
        let b = r.set_server_personality(p).is_ok();
        ctx.check((a == HtpStatus::OK) == b, "personality-status", || format!("{:?}: {:?}", p, a));
        *s += &format!("{:?} ", p);
    }
    macro_rules! b {
        ($cf:ident, $rf:ident) => {
            if rng.chance(1, 4) {
                let v = rng.flip();
                $cf(c, v as libc::c_int);
                r.$rf(v);
                *s += &format!("{}={} ", stringify!($rf), v);
            }
        };
    }
    macro_rules! bb {
        ($cf:ident, $rf:ident) => {
            if rng.chance(1, 4) {
                let v = rng.flip();
                $cf(c, v);
                r.$rf(v);
                *s += &format!("{}={} ", stringify!($rf), v);
            }
        };
    }
    b!(htp_config_set_backslash_convert_slashes, set_backslash_convert_slashes);
    b!(htp_config_set_convert_lowercase, set_convert_lowercase);
    b!(htp_config_set_nul_encoded_terminates, set_nul_encoded_terminates);
    b!(htp_config_set_nul_raw_terminates, set_nul_raw_terminates);
    b!(htp_config_set_path_separators_compress, set_path_separators_compress);
    b!(htp_config_set_plusspace_decode, set_plusspace_decode);
    b!(htp_config_set_path_separators_decode, set_path_separators_decode);
    b!(htp_config_set_request_decompression, set_request_decompression);
    b!(htp_config_set_u_encoding_decode, set_u_encoding_decode);
    b!(htp_config_set_utf8_convert_bestfit, set_utf8_convert_bestfit);
    b!(htp_config_set_tx_auto_destroy, set_tx_auto_destroy);
    b!(htp_config_set_flush_incomplete, set_flush_incomplete);
    b!(htp_config_set_parse_urlencoded, set_parse_urlencoded);
    bb!(htp_config_set_allow_space_uri, set_allow_space_uri);
    bb!(htp_config_set_double_decode_normalized_query, set_double_decode_normalized_query);
    bb!(htp_config_set_double_decode_normalized_path, set_double_decode_normalized_path);
    bb!(htp_config_set_normalized_uri_include_all, set_normalized_uri_include_all);
    if rng.chance(1, 8) {
        // kept for compatibility, without effect
        htp_config_set_parse_request_cookies(c, rng.below(2) as libc::c_int);
    }
    if rng.chance(1, 4) {
        let v = rng.below(256) as u8;
        htp_config_set_bestfit_replacement_byte(c, v as libc::c_int);
        r.set_bestfit_replacement_byte(v);
    }
    if rng.chance(1, 4) {
        let v = *rng.pick(&[0u64, 1, 1000, 1 << 20]);
        htp_config_set_compression_bomb_limit(c, v as usize);
        r.compression_options.set_bomb_limit(v);
        *s += &format!("bomb={} ", v);
    }
    htp_config_set_compression_time_limit(c, 4_000_000_000);
    r.compression_options.set_time_limit(4_000_000_000);
    if rng.chance(1, 4) {
        let v = *rng.pick(&[1usize, 10, 50, 100, 1000, 20000]);
        htp_config_set_field_limit(c, v);
        r.set_field_limit(v);
        *s += &format!("field_limit={} ", v);
    }
    if rng.chance(1, 4) {
        let v = *rng.pick(&[0usize, 1, 1 << 16, 1 << 20]);
        htp_config_set_lzma_memlimit(c, v);
        r.compression_options.set_lzma_memlimit(v);
        *s += &format!("memlimit={} ", v);
    }
    if rng.chance(1, 4) {
        let v = rng.range(0, 4) as i32 - 1;
        htp_config_set_lzma_layers(c, v);
        r.compression_options.set_lzma_layers(if v <= 0 { None } else { Some(v as u32) });
        *s += &format!("lzma_layers={} ", v);
    }
    if rng.chance(1, 4) {
        let v = rng.range(0, 4) as i32 - 1;
        htp_config_set_decompression_layer_limit(c, v);
        r.set_decompression_layer_limit(if v <= 0 { None } else { Some(v as u32) });
        *s += &format!("layers={} ", v);
    }
    if rng.chance(1, 6) {
        let v = rng.range(0, 4) as u32;
        htp_config_set_max_tx(c, v);
        r.max_tx = v;
        *s += &format!("max_tx={} ", v);
    }
    if rng.chance(1, 4) {
        let v = *rng.pick(&[HtpUrlEncodingHandling::REMOVE_PERCENT, HtpUrlEncodingHandling::PROCESS_INVALID, HtpUrlEncodingHandling::PRESERVE_PERCENT]);
        htp_config_set_url_encoding_invalid_handling(c, v);
        r.set_url_encoding_invalid_handling(v);
        *s += &format!("{:?} ", v);
    }
}

unsafe fn bs(b: *const Bstr) -> Option<Vec<u8>> {
    if b.is_null() {
        None
    } else {
        Some(std::slice::from_raw_parts(bstr_ptr(b), bstr_len(b)).to_vec())
    }
}
unsafe fn one_header(h: *const Header) -> (Vec<u8>, Vec<u8>, u64) {
    (bs(htp_header_name(h)).unwrap_or_default(), bs(htp_header_value(h)).unwrap_or_default(), htp_header_flags(h))
}
unsafe fn header_views_agree(ctx: &mut Ctx, h: *const Header) {
    let (n, v, _) = one_header(h);
    let n2 = std::slice::from_raw_parts(htp_header_name_ptr(h), htp_header_name_len(h).max(0) as usize);
    let v2 = std::slice::from_raw_parts(htp_header_value_ptr(h), htp_header_value_len(h).max(0) as usize);
    ctx.check(n == n2 && v == v2, "header-ptr", || format!("{} {} versus {} {}", show(&n), show(&v), show(n2), show(v2)));
}
/// Looks a name up the way the interface promises: without case, NUL bytes of the stored name skipped.
fn lookup(t: &[(Vec<u8>, Vec<u8>, u64)], key: &[u8]) -> Option<(Vec<u8>, Vec<u8>, u64)> {
    t.iter()
        .find(|h| {
            let n: Vec<u8> = h.0.iter().copied().filter(|c| *c != 0).collect();
            n.eq_ignore_ascii_case(key)
        })
        .cloned()
}
unsafe fn headers_agree(ctx: &mut Ctx, rng: &mut Rng, what: &str, hs: *const Headers, size: isize, at: &dyn Fn(usize) -> *const Header, get: &dyn Fn(*const libc::c_char) -> *const Header, want: &[(Vec<u8>, Vec<u8>, u64)]) {
    ctx.check(size == want.len() as isize && htp_headers_size(hs) == size, "headers-size", || format!("{}: {} {} want {}", what, size, htp_headers_size(hs), want.len()));
    let mut flags = 0;
    for (i, w) in want.iter().enumerate() {
        let (a, b) = (at(i), htp_headers_get_index(hs, i));
        if !ctx.check(!a.is_null() && a == b, "headers-index", || format!("{} {}: {:?} {:?}", what, i, a, b)) {
            continue;
        }
        let g = one_header(a);
        ctx.eq(&g, w, "header", what);
        header_views_agree(ctx, a);
        flags |= w.2;
    }
    ctx.eq(&htp_headers_flags(hs), &flags, "headers-flags", what);
    ctx.check(at(want.len()).is_null() && htp_headers_get_index(hs, want.len()).is_null(), "headers-past-end", || what.into());
    let mut keys: Vec<Vec<u8>> = want.iter().map(|h| h.0.clone()).collect();
    keys.push(b"host".to_vec());
    keys.push(b"No-Such-Field".to_vec());
    let l = keys.len();
    for mut key in keys.into_iter().skip(l.saturating_sub(5)) {
        for c in key.iter_mut() {
            if rng.flip() {
                *c = if rng.flip() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
            }
        }
        key.retain(|c| *c != 0);
        let k = CString::new(key.clone()).unwrap();
        let (a, b) = (get(k.as_ptr()), htp_headers_get(hs, k.as_ptr()));
        let w = lookup(want, &key);
        let g = if a.is_null() { None } else { Some(one_header(a)) };
        ctx.check(a == b && g == w, "headers-get", || format!("{} {}: {:?} want {:?}", what, show(&key), g, w));
    }
}
unsafe fn uri_agrees(ctx: &mut Ctx, u: *const htp::uri::Uri, want: &Option<UriSnap>) {
    let got = if u.is_null() {
        None
    } else {
        Some(UriSnap {
            scheme: bs(htp_uri_scheme(u)),
            username: bs(htp_uri_username(u)),
            password: bs(htp_uri_password(u)),
            hostname: bs(htp_uri_hostname(u)),
            port: bs(htp_uri_port(u)),
            port_number: u16::try_from(htp_uri_port_number(u)).ok(),
            path: bs(htp_uri_path(u)),
            query: bs(htp_uri_query(u)),
            fragment: bs(htp_uri_fragment(u)),
        })
    };
    ctx.eq(&got, want, "uri", "parsed URI");
}
fn num(v: Option<u64>) -> i64 {
    v.and_then(|n| i64::try_from(n).ok()).unwrap_or(-1)
}
unsafe fn tx_agrees(ctx: &mut Ctx, rng: &mut Rng, t: *const Transaction, w: &Snap, include_all: bool) {
    macro_rules! f {
        ($g:ident, $w:expr) => {{
            let g = $g(t);
            ctx.eq(&g, &$w, stringify!($g), "value");
        }};
    }
    macro_rules! s {
        ($g:ident, $w:expr) => {{
            let g = bs($g(t));
            ctx.eq(&g, &$w, stringify!($g), "string");
        }};
    }
    macro_rules! n {
        ($g:ident, $w:expr) => {{
            let g = format!("{:?}", $g(t));
            ctx.eq(&g, &$w, stringify!($g), "name");
        }};
    }
    f!(htp_tx_index, w.index as isize);
    s!(htp_tx_request_line, w.request_line);
    s!(htp_tx_request_method, w.method);
    n!(htp_tx_request_method_number, w.method_number);
    s!(htp_tx_request_uri, w.uri);
    s!(htp_tx_request_protocol, w.protocol);
    ctx.eq(&(htp_tx_request_protocol_number(t) as i32), &w.protocol_number, "htp_tx_request_protocol_number", "value");
    f!(htp_tx_is_protocol_0_9, w.is_0_9 as i32);
    f!(htp_tx_is_http_2_upgrade, w.h2_upgrade as i32);
    uri_agrees(ctx, htp_tx_parsed_uri(t), &w.parsed);
    let norm = if include_all { w.complete_uri.clone() } else { w.partial_uri.clone() };
    s!(htp_tx_normalized_uri, norm);
    n!(htp_tx_request_transfer_coding, w.req_coding);
    n!(htp_tx_request_content_encoding, w.req_ce);
    s!(htp_tx_request_content_type, w.req_content_type);
    f!(htp_tx_request_content_length, num(w.req_content_length));
    n!(htp_tx_request_auth_type, w.auth_type);
    s!(htp_tx_request_hostname, w.hostname);
    f!(htp_tx_request_port_number, w.port.map_or(-1, |p| p as i32));
    f!(htp_tx_request_message_len, w.req_message_len as i64);
    f!(htp_tx_request_entity_len, w.req_entity_len as i64);
    s!(htp_tx_response_line, w.response_line);
    s!(htp_tx_response_protocol, w.res_protocol);
    ctx.eq(&(htp_tx_response_protocol_number(t) as i32), &w.res_protocol_number, "htp_tx_response_protocol_number", "value");
    s!(htp_tx_response_status, w.res_status);
    f!(htp_tx_response_status_number, w.res_status_number);
    f!(htp_tx_response_status_expected_number, w.expected_status);
    s!(htp_tx_response_message, w.res_message);
    f!(htp_tx_response_message_len, w.res_message_len as i64);
    f!(htp_tx_response_entity_len, w.res_entity_len as i64);
    f!(htp_tx_response_content_length, num(w.res_content_length));
    s!(htp_tx_response_content_type, w.res_content_type);
    f!(htp_tx_flags, w.flags);
    ctx.eq(&(htp_tx_request_progress(t) as u8), &w.req_progress, "htp_tx_request_progress", "value");
    ctx.eq(&(htp_tx_response_progress(t) as u8), &w.res_progress, "htp_tx_response_progress", "value");
    headers_agree(ctx, rng, "request", htp_tx_request_headers(t), htp_tx_request_headers_size(t), &|i| htp_tx_request_header_index(t, i), &|k| htp_tx_request_header(t, k), &w.req_headers);
    headers_agree(ctx, rng, "response", htp_tx_response_headers(t), htp_tx_response_headers_size(t), &|i| htp_tx_response_header_index(t, i), &|k| htp_tx_response_header(t, k), &w.res_headers);
    ctx.check(!htp_tx_cfg(t).is_null() && (*htp_tx_cfg(t)).decoder_cfg.normalized_uri_include_all == include_all, "htp_tx_cfg", || "configuration".into());
    ctx.obs("transactions read through the C interface", 1);
}

unsafe fn nulls(ctx: &mut Ctx) {
    let (p, t, u, c, h, hs, d, b): (
        *mut ConnectionParser, *mut Transaction, *const htp::uri::Uri, *mut Config, *const Header, *const Headers, *const Data, *const Bstr,
    ) = (null_mut(), null_mut(), null(), null_mut(), null(), null(), null(), null());
    macro_rules! is {
        ($e:expr, $w:expr) => {
            ctx.check($e == $w, concat!("null ", stringify!($e)), || "result for NULL".into())
        };
    }
    macro_rules! np {
        ($($f:ident($x:expr))*) => { $( ctx.check($f($x).is_null(), concat!("null ", stringify!($f)), || "result for NULL".into()); )* };
    }
    htp_connp_close(p, null());
    htp_connp_request_close(p, null());
    htp_connp_destroy_all(p);
    htp_connp_open(p, null(), 0, null(), 0, null());
    htp_connp_set_user_data(p, null_mut());
    np!(htp_connp_connection(p) htp_connp_user_data(p) htp_connp_get_response_tx(p) htp_connp_get_request_tx(p));
    is!(htp_connp_request_data(p, null(), null(), 0), S::ERROR);
    is!(htp_connp_response_data(p, null(), null(), 0), S::ERROR);
    is!(htp_connp_tx_size(p), -1);
    is!(htp_connp_request_data_consumed(p), -1);
    is!(htp_connp_response_data_consumed(p), -1);
    ctx.check(htp_connp_tx(p, 0).is_null(), "null htp_connp_tx", || "NULL".into());
    htp_tx_destroy(p, t);
    np!(htp_tx_normalized_uri(t) htp_tx_cfg(t) htp_tx_get_user_data(t) htp_tx_request_line(t) htp_tx_request_method(t) htp_tx_request_uri(t) htp_tx_request_protocol(t)
        htp_tx_parsed_uri(t) htp_tx_request_headers(t) htp_tx_request_content_type(t) htp_tx_request_hostname(t) htp_tx_response_line(t) htp_tx_response_protocol(t)
        htp_tx_response_status(t) htp_tx_response_message(t) htp_tx_response_headers(t) htp_tx_response_content_type(t)
        htp_uri_scheme(u) htp_uri_username(u) htp_uri_password(u) htp_uri_hostname(u) htp_uri_port(u) htp_uri_path(u) htp_uri_query(u) htp_uri_fragment(u)
        htp_header_name(h) htp_header_name_ptr(h) htp_header_value(h) htp_header_value_ptr(h) htp_conn_next_log(null()) htp_log_message(null()) htp_log_file(null())
        htp_tx_data_tx(d) htp_tx_data_data(d) bstr_util_strdup_to_c(b));
    is!(htp_tx_is_protocol_0_9(t), 0);
    is!(htp_tx_is_http_2_upgrade(t), 0);
    is!(htp_tx_request_headers_size(t), -1);
    is!(htp_tx_response_headers_size(t), -1);
    is!(htp_tx_request_content_length(t), -1);
    is!(htp_tx_response_content_length(t), -1);
    is!(htp_tx_request_port_number(t), -1);
    is!(htp_tx_request_message_len(t), -1);
    is!(htp_tx_request_entity_len(t), -1);
    is!(htp_tx_response_message_len(t), -1);
    is!(htp_tx_response_entity_len(t), -1);
    is!(htp_tx_response_status_number(t), -1);
    is!(htp_tx_response_status_expected_number(t), -1);
    is!(htp_tx_flags(t), 0);
    is!(htp_tx_index(t), -1);
    is!(format!("{:?}", htp_tx_request_method_number(t)), "ERROR");
    is!(format!("{:?}", htp_tx_request_protocol_number(t)), "ERROR");
    is!(format!("{:?}", htp_tx_response_protocol_number(t)), "ERROR");
    is!(format!("{:?}", htp_tx_request_transfer_coding(t)), "ERROR");
    is!(format!("{:?}", htp_tx_request_content_encoding(t)), "ERROR");
    is!(format!("{:?}", htp_tx_request_auth_type(t)), "ERROR");
    is!(format!("{:?}", htp_tx_request_progress(t)), "ERROR");
    is!(format!("{:?}", htp_tx_response_progress(t)), "ERROR");
    is!(htp_uri_port_number(u), -1);
    is!(htp_headers_size(hs), -1);
    is!(htp_headers_flags(hs), 0);
    is!(htp_header_flags(h), 0);
    is!(htp_header_name_len(h), -1);
    is!(htp_header_value_len(h), -1);
    is!(htp_tx_data_len(d), -1);
    is!(htp_tx_data_is_empty(d), true);
    is!(htp_conn_request_data_counter(null()), 0);
    is!(htp_conn_response_data_counter(null()), 0);
    is!(format!("{:?}", htp_log_code(null())), "ERROR");
    let k = c"Host".as_ptr();
    ctx.check(
        htp_headers_get(hs, k).is_null() && htp_headers_get_index(hs, 0).is_null() && htp_tx_request_header(t, k).is_null() && htp_tx_response_header(t, k).is_null()
            && htp_tx_request_header_index(t, 0).is_null() && htp_tx_response_header_index(t, 0).is_null(),
        "null header lookup", || "NULL".into(),
    );
    htp_tx_set_user_data(t, null_mut());
    htp_tx_register_response_body_data(t, own_body);
    htp_log_free(null_mut());
    htp_free_cstring(null_mut());
    bstr_free(null_mut());
    htp_config_destroy(c);
    register_all(c);
    htp_config_set_backslash_convert_slashes(c, 1);
    htp_config_set_bestfit_replacement_byte(c, 1);
    htp_config_set_compression_bomb_limit(c, 1);
    htp_config_set_compression_time_limit(c, 1);
    htp_config_set_convert_lowercase(c, 1);
    htp_config_set_field_limit(c, 1);
    htp_config_set_lzma_memlimit(c, 1);
    htp_config_set_lzma_layers(c, 1);
    htp_config_set_max_tx(c, 1);
    htp_config_set_nul_encoded_terminates(c, 1);
    htp_config_set_nul_raw_terminates(c, 1);
    htp_config_set_parse_request_cookies(c, 1);
    htp_config_set_path_separators_compress(c, 1);
    htp_config_set_plusspace_decode(c, 1);
    htp_config_set_path_separators_decode(c, 1);
    htp_config_set_request_decompression(c, 1);
    htp_config_set_decompression_layer_limit(c, 1);
    htp_config_set_allow_space_uri(c, true);
    is!(htp_config_set_server_personality(c, HtpServerPersonality::IDS), HtpStatus::ERROR);
    htp_config_set_u_encoding_decode(c, 1);
    htp_config_set_url_encoding_invalid_handling(c, HtpUrlEncodingHandling::PRESERVE_PERCENT);
    htp_config_set_utf8_convert_bestfit(c, 1);
    htp_config_set_double_decode_normalized_query(c, true);
    htp_config_set_double_decode_normalized_path(c, true);
    htp_config_set_normalized_uri_include_all(c, true);
    htp_config_set_tx_auto_destroy(c, 1);
    htp_config_set_flush_incomplete(c, 1);
    htp_config_set_parse_urlencoded(c, 1);
    // a parser made without a configuration or an open call
    let p = htp_connp_create(null_mut());
    ctx.check(!p.is_null(), "create", || "NULL parser".into());
    ctx.check(htp_connp_user_data(p).is_null() && htp_connp_tx_size(p) >= 0, "create-state", || "fresh parser".into());
    htp_connp_request_data(p, null(), b"GET / HTTP/1.1\r\n\r\n".as_ptr() as *const _, 18);
    htp_connp_destroy_all(p);
    ctx.obs("NULL argument sweeps", 1);
}

unsafe fn strings(ctx: &mut Ctx, rng: &mut Rng) {
    let n = rng.below(20);
    let al = [0u8, b'a', b'A', b'b', b'B', b'[', b'@', b'z', b'Z', 0xc0, 0xe0, 0xff, b'\\', b'0'];
    let a: Vec<u8> = (0..n).map(|_| if rng.chance(9, 10) { *rng.pick(&al) } else { rng.below(256) as u8 }).collect();
    let c: Vec<u8> = if rng.flip() {
        let mut c = a.clone();
        if !c.is_empty() && rng.flip() {
            let i = rng.below(c.len());
            c[i] ^= 0x20;
        }
        if rng.chance(1, 3) {
            c.truncate(rng.below(c.len() + 1));
        }
        c
    } else {
        (0..rng.below(20)).map(|_| *rng.pick(&al)).collect()
    };
    let c: Vec<u8> = c.into_iter().filter(|x| *x != 0).collect();
    let cs = CString::new(c.clone()).unwrap();
    let b = Bstr::from(a.as_slice());
    let sgn = |o: std::cmp::Ordering| o as i32;
    ctx.input = format!("{} {}", show(&a), show(&c));
    ctx.eq(&bstr_cmp_c(&b, cs.as_ptr()), &sgn(a.cmp(&c)), "bstr_cmp_c", "sign");
    ctx.eq(&bstr_cmp_c_nocase(&b, cs.as_ptr()), &sgn(a.to_ascii_lowercase().cmp(&c.to_ascii_lowercase())), "bstr_cmp_c_nocase", "sign");
    ctx.eq(&bs(&b), &Some(a.clone()), "bstr_ptr", "bytes");
    let m = bstr_util_strdup_to_c(&b);
    let got = CStr::from_ptr(m).to_bytes().to_vec();
    libc::free(m as *mut libc::c_void);
    let mut want = vec![];
    for x in &a {
        if *x == 0 {
            want.extend(b"\\0");
        } else {
            want.push(*x);
        }
    }
    ctx.eqb(&got, &want, "strdup_to_c", "copy");
    let d = bstr_dup_c(cs.as_ptr());
    ctx.eq(&bs(d), &Some(c.clone()), "bstr_dup_c", "copy");
    ctx.check(bstr_size(d) >= c.len(), "bstr_size", || format!("{} < {}", bstr_size(d), c.len()));
    bstr_free(d);
    let d = bstr_alloc(n);
    ctx.check(bstr_len(d) == 0 && bstr_size(d) >= n, "bstr_alloc", || format!("{} {}", bstr_len(d), bstr_size(d)));
    bstr_free(d);
    let v = CStr::from_ptr(htp_get_version());
    ctx.check(v.to_bytes().starts_with(b"LibHTP v"), "version", || format!("{:?}", v));
    ctx.obs("string cases", 1);
}

/// Everything made through the C interface is given back when it is destroyed.
unsafe fn release(ctx: &mut Ctx, rng: &mut Rng) {
    let ops = hostile(rng);
    let seed = rng.next();
    ctx.input = show_ops(&ops);
    let mut logs = 0;
    let d = crate::p_limit::left_behind(|| {
        let mut r = Rng::new(seed);
        let cfg = htp_config_create();
        htp_config_set_parse_request_cookies(cfg, r.below(2) as i32);
        htp_config_set_tx_auto_destroy(cfg, r.below(2) as i32);
        let p = htp_connp_create(cfg);
        let early = r.flip();
        if early {
            htp_config_destroy(cfg);
        }
        htp_connp_open(p, c"127.0.0.1".as_ptr(), 10000, c"127.0.0.1".as_ptr(), 80, null());
        for o in &ops {
            match o {
                Op::Req(b) => {
                    htp_connp_request_data(p, null(), b.as_ptr() as *const _, b.len());
                }
                Op::Res(b) => {
                    htp_connp_response_data(p, null(), b.as_ptr() as *const _, b.len());
                }
                Op::ReqGap(n) => {
                    htp_connp_request_data(p, null(), null(), *n);
                }
                Op::ResGap(n) => {
                    htp_connp_response_data(p, null(), null(), *n);
                }
                Op::ReqClose => htp_connp_request_close(p, null()),
                Op::Close => htp_connp_close(p, null()),
            }
        }
        for i in 0..4 {
            let t = htp_connp_tx(p, i);
            if !t.is_null() {
                let u = htp_tx_request_uri(t);
                if !u.is_null() {
                    let c = bstr_util_strdup_to_c(u);
                    libc::free(c as *mut libc::c_void);
                }
                if r.flip() && (*t).is_complete() {
                    htp_tx_destroy(p, t);
                }
            }
        }
        let conn = htp_connp_connection(p);
        for _ in 0..r.below(20) {
            let l = htp_conn_next_log(conn);
            if l.is_null() {
                break;
            }
            logs += 1;
            htp_free_cstring(htp_log_message(l));
            htp_free_cstring(htp_log_file(l));
            htp_log_free(l);
        }
        htp_connp_destroy_all(p);
        if !early {
            htp_config_destroy(cfg);
        }
        let b = bstr_alloc(r.below(500));
        bstr_free(b);
        bstr_free(bstr_dup_c(c"some words".as_ptr()));
    });
    ctx.obs("connections released", 2);
    ctx.obs("log messages released", logs);
    ctx.eq(&d, &0, "leak", "bytes still allocated after everything made through the C interface was destroyed");
}

fn c23(ctx: &mut Ctx, rng: &mut Rng) {
    unsafe {
        if ctx.case % 8 == 2 {
            return release(ctx, rng);
        }
        if ctx.case % 4 == 0 {
            return strings(ctx, rng);
        }
        if ctx.case % 251 == 1 {
            nulls(ctx);
        }
        let ccfg = htp_config_create();
        let mut rcfg = Config::default();
        let mut s = String::new();
        configure(rng, ccfg, &mut rcfg, &mut s, ctx);
        // a destroyed transaction may be made again under its number by a later call
        let forget = s.contains("set_tx_auto_destroy=true");
        let include_all = rcfg.decoder_cfg.normalized_uri_include_all;
        register_all(ccfg);
        let fault = some_fault(rng).filter(|f| !matches!(f.k, K::ReqUriNorm | K::ResLine));
        let forget = forget || fault.as_ref().map_or(false, |f| !matches!(f.status, -1 | 0 | 4));
        let mut ops = hostile(rng);
        if rng.chance(1, 3) {
            // an address that shows what the decoder is set to
            let d = crate::p_uri::decoder(rng);
            let mut q = b"GET ".to_vec();
            q.extend(crate::p_uri::gen_uri(rng, &d).1);
            q.extend_from_slice(b" HTTP/1.1\r\nHost: a\r\n\r\n");
            ops.insert(0, Op::Req(q));
            ctx.obs("addresses for the decoder", 1);
        }
        ctx.input = format!("{}{:?}\n{}", s, fault, show_ops(&ops));
        ctx.seen(ctx.input.clone().as_bytes());
        // Rust side
        let mut d = Driver::new(rcfg).with_fault(fault.clone());
        for o in &ops {
            d.call(o);
        }
        let r = d.finish();
        // C side
        let p = htp_connp_create(ccfg);
        // the parser has its own copy
        htp_config_set_tx_auto_destroy(ccfg, rng.below(2) as i32);
        htp_config_set_normalized_uri_include_all(ccfg, rng.flip());
        htp_config_set_field_limit(ccfg, rng.below(100));
        htp_config_destroy(ccfg);
        CREC.with(|c| *c.borrow_mut() = CRec { fault, forget, connp: p as usize, own_at: if rng.flip() { Some(0) } else { None }, ..Default::default() });
        let tv = |rng: &mut Rng| {
            let sec = if rng.chance(1, 10) { *rng.pick(&[i64::MIN, i64::MAX, 253402300799, -377705116800, 0, -1]) } else { rng.below(2_000_000_000) as i64 };
            let usec = if rng.chance(1, 10) { *rng.pick(&[i64::MIN, i64::MAX, -1, 1_000_000]) } else { rng.below(1_000_000) as i64 };
            libc::timeval { tv_sec: sec, tv_usec: usec }
        };
        let plain = |t: &libc::timeval| {
            // times every calendar can hold
            (0..4_000_000_000).contains(&t.tv_sec) && (0..1_000_000).contains(&t.tv_usec)
        };
        let nanos = |t: &libc::timeval| t.tv_sec as i128 * 1_000_000_000 + t.tv_usec as i128 * 1000;
        htp_connp_set_user_data(p, tag(999_999));
        let t0 = tv(rng);
        htp_connp_open(p, c"127.0.0.1".as_ptr(), 10000, c"127.0.0.1".as_ptr(), 80, &t0);
        let conn = htp_connp_connection(p);
        if plain(&t0) {
            let g = (*conn).open_timestamp.unix_timestamp_nanos();
            ctx.eq(&g, &nanos(&t0), "open-time", "time");
        }
        ctx.check((*conn).client_port == Some(10000) && (*conn).server_port == Some(80) && (*conn).client_addr == "127.0.0.1".parse().ok(), "endpoints", || "addresses".into());
        let mut calls = r.calls.iter();
        let mut inm;

        for o in &ops {
            let t = tv(rng);
            let tp: *const libc::timeval = if rng.flip() { &t } else { null() };
            // the data is in a block of its own that goes away after the call
            let (req, ret) = match o {
                Op::Req(b) => {
                    inm = b.clone().into_boxed_slice();

                    (true, htp_connp_request_data(p, tp, if b.is_empty() { null() } else { inm.as_ptr() as *const _ }, b.len()))
                }
                Op::Res(b) => {
                    inm = b.clone().into_boxed_slice();
                    (false, htp_connp_response_data(p, tp, if b.is_empty() { null() } else { inm.as_ptr() as *const _ }, b.len()))
                }
                Op::ReqGap(n) => (true, htp_connp_request_data(p, tp, null(), *n)),
                Op::ResGap(n) => (false, htp_connp_response_data(p, tp, null(), *n)),
                Op::ReqClose => {
                    htp_connp_request_close(p, tp);
                    continue;
                }
                Op::Close => {
                    htp_connp_close(p, tp);
                    if forget {
                        CREC.with(|c| c.borrow_mut().tagged.clear());
                    }
                    if !tp.is_null() && plain(&t) {
                        ctx.eq(&(*conn).close_timestamp.unix_timestamp_nanos(), &nanos(&t), "close-time", "time");
                    }
                    continue;
                }
            };
            inm = Default::default();
            let _ = &inm;
            let Some(w) = calls.next() else { break };
            let got = if req { htp_connp_request_data_consumed(p) } else { htp_connp_response_data_consumed(p) };
            ctx.check(ret == w.ret && got == w.consumed as i64, "call", || format!("{}: returned {:?} consumed {} want {:?} {}", show_op(o), ret, got, w.ret, w.consumed));
            ctx.eq(&htp_connp_tx_size(p), &(w.ntx as isize), "tx-size", "transactions");
            if w.len > 0 && !tp.is_null() && plain(&t) && !matches!(w.ret, S::STOP | S::ERROR | S::TUNNEL | S::CLOSED) {
                let g = if req { (*p).request_timestamp } else { (*p).response_timestamp };
                ctx.eq(&g.unix_timestamp_nanos(), &nanos(&t), "data-time", "time");
            }
            ctx.obs("calls through the C interface", 1);
        }
        // callbacks
        let (evs, bad, own) = CREC.with(|c| {
            let mut c = c.borrow_mut();
            (std::mem::take(&mut c.evs), std::mem::take(&mut c.bad), std::mem::take(&mut c.own))
        });
        for b in bad {
            ctx.fail("callback-argument", b);
        }
        let want: Vec<_> = r
            .evs
            .iter()
            .filter(|e| !matches!(e.k, K::ReqUriNorm | K::ResLine))
            .map(|e| (e.k, e.tx, e.data.clone(), e.len))
            .collect();
        ctx.evaluations += want.len() as u64;
        if evs != want {
            let i = evs.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(evs.len().min(want.len()));
            let m = format!("callback {}: got {} want {}", i, dbg_short(&evs.get(i)), dbg_short(&want.get(i)));
            ctx.fail("callbacks", m);
        }
        ctx.obs("C callbacks", evs.len() as u64);
        if !own.is_empty() {
            ctx.obs("callbacks registered on a transaction", own.len() as u64);
            for o in &own {
                ctx.check(o.0 == 0, "own-tx", || format!("{:?}", o));
            }
        }
        // every body event of a transaction reaches the callback registered on it at response start
        let mine: Vec<_> = evs.iter().filter(|e| e.0 == K::ResBody && e.1 == 0).map(|e| (e.1, e.2.clone(), e.3)).collect();
        let reg = CREC.with(|c| c.borrow().own_at.is_some());
        let started = evs.iter().any(|e| e.0 == K::ResStart && e.1 == 0);
        let faulty = CREC.with(|c| c.borrow().fault.is_some());
        if reg && started && !faulty {
            // registered again if the response starts again
            let starts = evs.iter().filter(|e| e.0 == K::ResStart && e.1 == 0).count();
            // data that follows a close may belong to a transaction made anew
            if starts == 1 && !(forget && ops.iter().any(|o| matches!(o, Op::Close))) {
                ctx.check(own == mine, "own-body", || format!("{} deliveries, {} expected", own.len(), mine.len()));
            }
        }
        // counters
        ctx.eq(&htp_conn_request_data_counter(conn), &r.req_counter, "counter", "request bytes");
        ctx.eq(&htp_conn_response_data_counter(conn), &r.res_counter, "counter", "response bytes");
        // current transactions
        let q = htp_tx_index(htp_connp_get_request_tx(p));
        let s2 = htp_tx_index(htp_connp_get_response_tx(p));
        let mut rp = r.p;
        let wq = rp.request().map(|t| t.index as isize).unwrap_or(-1);
        let ws = rp.response().map(|t| t.index as isize).unwrap_or(-1);
        ctx.check(q == wq && s2 == ws, "current-tx", || format!("{} {} want {} {}", q, s2, wq, ws));
        // transactions
        let hi = rp.request_index().max(rp.response_index()) + 2;
        for i in 0..hi {
            let t = htp_connp_tx(p, i);
            match r.txs.iter().find(|x| x.index == i) {
                None => {
                    ctx.check(t.is_null(), "tx-null", || format!("transaction {}", i));
                }
                Some(w) => {
                    if ctx.check(!t.is_null(), "tx", || format!("transaction {} is NULL", i)) {
                        tx_agrees(ctx, rng, t, w, include_all);
                    }
                }
            }
        }
        // log
        for (code, _, msg) in &r.logs {
            let l = htp_conn_next_log(conn);
            if !ctx.check(!l.is_null(), "log-missing", || msg.clone()) {
                break;
            }
            ctx.eq(&format!("{:?}", htp_log_code(l)), &format!("{:?}", code), "log-code", "code");
            let m = htp_log_message(l);
            if msg.contains('\0') {
                ctx.check(m.is_null(), "log-nul", || msg.clone());
            } else if ctx.check(!m.is_null(), "log-message", || msg.clone()) {
                ctx.eq(&CStr::from_ptr(m).to_string_lossy().to_string(), msg, "log-message", "text");
            }
            htp_free_cstring(m);
            let f = htp_log_file(l);
            ctx.check(!f.is_null() && CStr::from_ptr(f).to_bytes().ends_with(b".rs"), "log-file", || "file".into());
            htp_free_cstring(f);
            htp_log_free(l);
            ctx.obs("log messages", 1);
        }
        let l = htp_conn_next_log(conn);
        ctx.check(l.is_null(), "log-extra", || "more messages than the Rust interface".into());
        // removal
        if rng.flip() {
            for w in &r.txs {
                let t = htp_connp_tx(p, w.index);
                if !t.is_null() && (*t).is_complete() && rng.flip() {
                    htp_tx_destroy(p, t);
                    ctx.check(htp_connp_tx(p, w.index).is_null(), "destroy", || format!("transaction {}", w.index));
                    ctx.obs("transactions destroyed", 1);
                }
            }
        }

        htp_connp_destroy_all(p);
        ctx.sample(|| show_ops(&ops).chars().take(300).collect());
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C23", case: c23, quick: 100_000, thorough: 3_000_000,
        rule: "configuration, history of calls and injected fault, through both interfaces",
        need: &["connections released", "log messages released", "calls through the C interface", "C callbacks", "callbacks registered on a transaction", "transactions read through the C interface", "log messages", "NULL argument sweeps", "string cases", "transactions destroyed"],
        assumptions: &[], mem: 0, asan: &[("C23", 25000)],
    }]
}
