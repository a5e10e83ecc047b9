//! C25: what deviates from HTTP is reported, what does not is not.
use crate::drive::*;
use crate::fw::*;
use crate::gen::{self, gzip, Opts};
use crate::p_conv::base_cfg;
use crate::rng::Rng;
use htp::config::Config;
use htp::connection_parser::HtpStreamState as S;
use htp::log::{HtpLogCode as L, HtpLogLevel as V};

const UNPARSEABLE: u64 = 0x4;
const INVALID: u64 = 0x8;
const FOLDED: u64 = 0x10;
const REPEATED: u64 = 0x20;
const SMUGGLING: u64 = 0x100;
const FOLDING: u64 = 0x200;
const BAD_TE: u64 = 0x400;
const STATUS: u64 = 0x100_0000;
const REQ_BAD: u64 = 0x1_0000_0000;
const REQ_BAD_CL: u64 = 0x2_0000_0000;
const MASK: u64 = UNPARSEABLE | INVALID | FOLDED | SMUGGLING | FOLDING | BAD_TE | STATUS | REQ_BAD | REQ_BAD_CL;

type Row = (Vec<u8>, Vec<u8>, u64);

/// One exchange and what it is expected to bring about.
#[derive(Default)]
struct Ex {
    req: Vec<u8>,
    res: Vec<u8>,
    codes: Vec<(L, V)>,
    flags: u64,
    qh: Vec<Row>,
    sh: Vec<Row>,
    /// the request is offered in one call
    whole: bool,
    /// nothing can follow on this side
    last: bool,
    req_fails: bool,
    res_fails: bool,
    names: Vec<&'static str>,
}
impl Ex {
    fn warn(&mut self, c: L) {
        self.codes.push((c, V::WARNING));
    }
    fn error(&mut self, c: L) {
        self.codes.push((c, V::ERROR));
    }
    /// Logged once per transaction.
    fn once(&mut self, c: L, f: u64) {
        if self.flags & f == 0 {
            self.warn(c);
        }
        self.flags |= f;
    }
    /// A header line was read.
    fn row(&mut self, req: bool, name: &[u8], value: &[u8], flags: u64) {
        let t = if req { &mut self.qh } else { &mut self.sh };
        let mut c = vec![];
        if let Some(r) = t.iter_mut().find(|r| r.0.eq_ignore_ascii_case(name)) {
            if r.2 & REPEATED == 0 {
                c.push(if req { L::REQUEST_HEADER_REPETITION } else { L::RESPONSE_HEADER_REPETITION });
            }
            r.2 |= REPEATED;
            if name.eq_ignore_ascii_case(b"content-length") {
                if number(&r.1) != number(value) || number(value).is_none() {
                    c.push(if req { L::DUPLICATE_CONTENT_LENGTH_FIELD_IN_REQUEST } else { L::DUPLICATE_CONTENT_LENGTH_FIELD_IN_RESPONSE });
                }
            } else {
                r.1.extend_from_slice(b", ");
                r.1.extend_from_slice(value);
            }
        } else {
            t.push((name.to_vec(), value.to_vec(), flags));
        }
        for x in c {
            self.warn(x);
        }
    }
    fn put(&mut self, req: bool, b: &[u8]) {
        if req {
            self.req.extend_from_slice(b)
        } else {
            self.res.extend_from_slice(b)
        }
    }
    fn plain(&mut self, req: bool, name: &str, value: &str) {
        self.put(req, format!("{}: {}\r\n", name, value).as_bytes());
        self.row(req, name.as_bytes(), value.as_bytes(), 0);
    }
}
/// First run of digits.
fn number(v: &[u8]) -> Option<u64> {
    let s = v.iter().position(|c| c.is_ascii_digit())?;
    let e = v[s..].iter().position(|c| !c.is_ascii_digit()).map_or(v.len(), |x| s + x);
    std::str::from_utf8(&v[s..e]).ok()?.parse().ok()
}

fn word(rng: &mut Rng) -> String {
    String::from_utf8(rng.word(b"abcdefghijklmnopqrstuvwxyz", 1, 9)).unwrap()
}

/// One header line that deviates (or is merely unusual).
fn odd_header(rng: &mut Rng, x: &mut Ex, req: bool, first: bool) {
    let (n, v) = (format!("X-{}", word(rng)), word(rng));
    match rng.below(if first { 10 } else { 9 }) {
        0 => {
            x.names.push("white space after a field name");
            let ws = *rng.pick(&[" ", "\t", "  "]);
            x.put(req, format!("{}{}: {}\r\n", n, ws, v).as_bytes());
            x.once(if req { L::REQUEST_INVALID_LWS_AFTER_NAME } else { L::RESPONSE_INVALID_LWS_AFTER_NAME }, INVALID);
            x.row(req, n.as_bytes(), v.as_bytes(), INVALID);
        }
        1 | 2 => {
            x.names.push("a field name that is no token");
            let c = *rng.pick(&["(", ")", "<", "@", ",", ";", "\\", "\"", "/", "[", "]", "?", "=", "{", "}", "\u{7f}", "\u{1}"]);
            let i = 1 + rng.below(n.len());
            let n = format!("{}{}{}", &n[..i], c, &n[i..]);
            x.put(req, format!("{}: {}\r\n", n, v).as_bytes());
            x.once(if req { L::REQUEST_HEADER_INVALID } else { L::RESPONSE_HEADER_NAME_NOT_TOKEN }, INVALID);
            x.row(req, n.as_bytes(), v.as_bytes(), INVALID);
        }
        3 => {
            x.names.push("a field without a colon");
            let l = format!("{} {}", n, v);
            x.put(req, format!("{}\r\n", l).as_bytes());
            x.once(if req { L::REQUEST_FIELD_MISSING_COLON } else { L::RESPONSE_FIELD_MISSING_COLON }, UNPARSEABLE);
            x.row(req, b"", l.as_bytes(), if req { UNPARSEABLE } else { UNPARSEABLE | INVALID });
        }
        4 => {
            x.names.push("a field without a name");
            x.put(req, format!(": {}\r\n", v).as_bytes());
            x.once(if req { L::REQUEST_INVALID_EMPTY_NAME } else { L::RESPONSE_INVALID_EMPTY_NAME }, INVALID);
            x.row(req, b"", v.as_bytes(), INVALID);
        }
        5 => {
            x.names.push("a repeated field");
            x.plain(req, &n, &v);
            for _ in 0..rng.range(1, 3) {
                let w = word(rng);
                let n = if rng.flip() { n.to_uppercase() } else { n.clone() };
                x.plain(req, &n, &w);
            }
        }
        6 => {
            x.names.push("a folded field");
            let w = word(rng);
            x.put(req, format!("{}: {}\r\n {}\r\n", n, v, w).as_bytes());
            x.flags |= FOLDED;
            x.row(req, n.as_bytes(), format!("{} {}", v, w).as_bytes(), FOLDED);
        }
        7 | 8 => x.plain(req, &n, &v),
        _ => {
            x.names.push("white space before the first field name");
            let sp = *rng.pick(&[" ", "\t", "  "]);
            x.put(req, format!("{}{}: {}\r\n", sp, n, v).as_bytes());
            x.once(if req { L::INVALID_REQUEST_FIELD_FOLDING } else { L::INVALID_RESPONSE_FIELD_FOLDING }, FOLDING);
            x.row(req, n.as_bytes(), v.as_bytes(), if req { FOLDING } else { FOLDING | INVALID });
        }
    }
}
/// Odd header lines with a chance each; `first`: they are the first of the block.
fn odd_headers(rng: &mut Rng, x: &mut Ex, req: bool, first: bool) {
    if rng.chance(1, 2) {
        for i in 0..rng.range(1, 3) {
            odd_header(rng, x, req, first && i == 0);
        }
    }
}

/// Transfer coding: chunks.
fn chunks(rng: &mut Rng, x: &mut Ex, req: bool, body: &[u8]) {
    let mut rest = body;
    let bad = rng.chance(1, 10);
    while !rest.is_empty() {
        let n = rng.range(1, rest.len());
        let ext = rng.chance(1, 4);
        if ext {
            x.names.push("a chunk extension");
            x.warn(if req { L::REQUEST_CHUNK_EXTENSION } else { L::RESPONSE_CHUNK_EXTENSION });
        }
        let mut l = format!("{:x}{}\r\n", n, if ext { *rng.pick(&[";a=b", ";x", " ; y=\"z\""]) } else { "" }).into_bytes();
        l.extend_from_slice(&rest[..n]);
        l.extend_from_slice(b"\r\n");
        x.put(req, &l);
        rest = &rest[n..];
    }
    if bad {
        x.names.push("an invalid chunk length");
        x.error(if req { L::INVALID_REQUEST_CHUNK_LEN } else { L::INVALID_RESPONSE_CHUNK_LEN });
        let j = if req { *rng.pick(&["zz\r\n", "x1\r\n", "80000000\r\n", "ffffffff\r\n", "fffffffffffffffff\r\n", "-1\r\n"]) } else { *rng.pick(&["zz\r\n", "x1\r\n", "fffffffffffffffff\r\n", "-1\r\n"]) };
        x.put(req, j.as_bytes());
        if req {
            x.req_fails = true;
        }
        x.last = true;
        return;
    }
    x.put(req, b"0\r\n");
    if rng.chance(1, 3) {
        odd_headers(rng, x, req, true);
    }
    x.put(req, b"\r\n");
}

fn content_length(rng: &mut Rng, x: &mut Ex, req: bool, n: usize) {
    let mut v = n.to_string();
    match rng.below(8) {
        0 => {
            x.names.push("junk before a length");
            v = format!("{}{}", *rng.pick(&["+", "-", "x", "a "]), v);
            x.warn(L::CONTENT_LENGTH_EXTRA_DATA_START);
        }
        1 => {
            x.names.push("junk after a length");
            v = format!("{}{}", v, *rng.pick(&["x", ", 7", " 3", ".0"]));
            x.warn(L::CONTENT_LENGTH_EXTRA_DATA_END);
        }
        _ => {}
    }
    x.plain(req, "Content-Length", &v);
    if rng.chance(1, 8) {
        x.names.push("two lengths");
        let m = if rng.flip() { n } else { n + 1 };
        x.plain(req, "Content-Length", &m.to_string());
        x.flags |= SMUGGLING;
    }
}

/// Names of content codings: (value, codings applied, warnings, body decodes)
fn coding(rng: &mut Rng, x: &mut Ex, req: bool) -> String {
    let (v, w): (&str, &[L]) = *rng.pick(&[
        ("gzip", &[][..]),
        ("X-GZIP", &[]),
        ("none", &[]),
        ("inflate", &[]),
        ("Inflate", &[]),
        ("x-deflate", &[]),
        ("gzip, deflate", &[]),
        ("x-gzip,x-deflate", &[]),
        ("none,inflate", &[]),
        ("inflate, none", &[]),
        ("xgzip", &[L::ABNORMAL_CE_HEADER]),
        ("gzipx", &[L::ABNORMAL_CE_HEADER]),
        ("GZIP,deflate", &[L::ABNORMAL_CE_HEADER]),
        ("xdeflate", &[L::ABNORMAL_CE_HEADER]),
        ("deflate2, gzip", &[L::ABNORMAL_CE_HEADER]),
        ("br", &[L::ABNORMAL_CE_HEADER]),
        ("br, zstd", &[L::ABNORMAL_CE_HEADER, L::ABNORMAL_CE_HEADER]),
        ("gzip, gzip, gzip", &[L::TOO_MANY_ENCODING_LAYERS]),
        ("none none none", &[L::TOO_MANY_ENCODING_LAYERS]),
        ("gzip,br,gzip,br", &[L::ABNORMAL_CE_HEADER, L::TOO_MANY_ENCODING_LAYERS]),
        ("lzma,lzma", if req { &[L::REQUEST_TOO_MANY_LZMA_LAYERS] } else { &[L::RESPONSE_TOO_MANY_LZMA_LAYERS] }),
    ]);
    if !w.is_empty() {
        x.names.push("an unusual content coding");
    }
    for c in w {
        x.warn(*c);
    }
    v.to_string()
}

/// A request; true: the answer has no body whatever it says.
fn request(rng: &mut Rng, x: &mut Ex, i: usize, decomp: bool) -> &'static str {
    let r = true;
    let mut m = *rng.pick(&["GET", "POST", "PUT", "OPTIONS"]);
    let u = format!("/{}/{}", i, word(rng));
    let mut proto = "HTTP/1.1";
    let line = match rng.below(16) {
        0 => {
            x.names.push("white space before the method");
            x.warn(L::REQUEST_LINE_LEADING_WHITESPACE);
            format!("{}{} {} HTTP/1.1", *rng.pick(&[" ", "  ", "\t"]), m, u)
        }
        1 => {
            x.names.push("a delimiter other than a space after the method");
            x.warn(L::METHOD_DELIM_NON_COMPLIANT);
            format!("{}{}{} HTTP/1.1", m, *rng.pick(&["\t", " \t", "\u{b}", "\u{c} "]), u)
        }
        2 => {
            x.names.push("a delimiter other than a space after the URI");
            x.warn(L::URI_DELIM_NON_COMPLIANT);
            format!("{} {}{}HTTP/1.1", m, u, *rng.pick(&["\t", "\u{b}", "\u{c}"]))
        }
        3 => {
            x.names.push("a protocol with extra data");
            x.warn(L::PROTOCOL_CONTAINS_EXTRA_DATA);
            format!("{} {} {}", m, u, *rng.pick(&["HTTP/01.1", "HTTP/ 1.1", "HTTP /1.1", "HTTP/001.1", "HTTP / 1.1", "http/01.1"]))
        }
        4 if i == 0 => {
            x.names.push("an unknown method and an invalid protocol");
            x.warn(L::REQUEST_LINE_UNKNOWN_METHOD_INVALID_PROTOCOL);
            m = "FOO";
            proto = "?";
            format!("{} {} {}", m, u, *rng.pick(&["XTTP/1.1", "HTTP/1.2", "HTTP/2.0", "HTTP1.1", "a b c"]))
        }
        5 if i == 0 => {
            // each alone is not remarkable
            if rng.flip() {
                m = "FOO";
                format!("{} {} HTTP/1.1", m, u)
            } else {
                proto = "?";
                format!("{} {} {}", m, u, *rng.pick(&["XTTP/1.1", "HTTP/1.2", "HTTP/2.0"]))
            }
        }
        6 if rng.chance(1, 2) => {
            x.names.push("a head without a protocol");
            x.warn(L::REQUEST_LINE_NO_PROTOCOL);
            x.whole = true;
            proto = "0";
            format!("{} {}", m, u)
        }
        _ => format!("{} {} HTTP/1.1", m, u),
    };
    x.put(r, line.as_bytes());
    x.put(r, b"\r\n");
    odd_headers(rng, x, r, true);
    x.plain(r, "Host", "h.example");
    if rng.chance(1, 5) {
        let v = {
            let mut y = Ex::default();
            let v = coding(rng, &mut y, r);
            if decomp {
                x.names.extend(y.names);
                x.codes.extend(y.codes);
            }
            v
        };
        x.plain(r, "Content-Encoding", &v);
    }
    let n = rng.range(1, 30);
    let b = rng.word(b"abcdef", n, n);
    match rng.below(6) {
        0 | 1 => {
            let n = if rng.chance(1, 4) { 0 } else { n };
            content_length(rng, x, r, n);
            odd_headers(rng, x, r, false);
            x.put(r, b"\r\n");
            x.put(r, &b[..n]);
        }
        2 | 3 => {
            let te = *rng.pick(&["chunked", "Chunked", "CHUNKED"]);
            x.plain(r, "Transfer-Encoding", te);
            if rng.chance(1, 6) {
                x.names.push("a length and a transfer coding");
                let k = rng.below(50).to_string();
                x.plain(r, "Content-Length", &k);
                x.flags |= SMUGGLING;
            }
            if proto != "HTTP/1.1" {
                x.flags |= SMUGGLING | BAD_TE;
            }
            x.put(r, b"\r\n");
            chunks(rng, x, r, &b);
        }
        4 if proto == "HTTP/1.1" && rng.chance(1, 2) => {
            if rng.flip() {
                x.names.push("an unknown transfer coding");
                let te = rng.pick(&["gzip", "identity", "chunke"]).to_string();
                x.plain(r, "Transfer-Encoding", &te);
                x.flags |= BAD_TE | REQ_BAD;
            } else {
                x.names.push("an invalid length");
                let cl = rng.pick(&["x", "99999999999999999999999", "a,b"]).to_string();
                x.plain(r, "Content-Length", &cl);
                x.flags |= REQ_BAD_CL | REQ_BAD;
                if rng.chance(1, 3) {
                    x.names.push("two invalid lengths");
                    let c2 = rng.pick(&["x", "y", "12"]).to_string();
                    x.plain(r, "Content-Length", &c2);
                    x.flags |= SMUGGLING;
                }
            }
            x.put(r, b"\r\n");
            x.req_fails = true;
            x.last = true;
        }
        5 if rng.chance(1, 2) && !x.whole => {
            // a body that nothing announces
            x.put(r, b"\r\n");
            x.names.push("an unexpected request body");
            x.warn(L::REQUEST_BODY_UNEXPECTED);
            let j = rng.word(b"0123456789", 1, 20);
            x.put(r, &j);
            x.put(r, b"\n");
            x.whole = true;
        }
        _ => {
            odd_headers(rng, x, r, false);
            x.put(r, b"\r\n");
        }
    }
    m
}

fn response(rng: &mut Rng, x: &mut Ex, decomp: bool) {
    let r = false;
    let mut proto = "HTTP/1.1";
    let mut st = rng.pick(&["200", "201", "404", "500", "302"]).to_string();
    for k in 0..rng.below(8).saturating_sub(5) {
        if k > 0 {
            x.names.push("two interim responses");
            x.error(L::CONTINUE_ALREADY_SEEN);
        }
        x.put(r, b"HTTP/1.1 100 Continue\r\n");
        if rng.chance(1, 4) {
            x.put(r, b"X-Interim: 1\r\n");
        }
        if rng.chance(1, 4) {
            x.put(r, b"Content-Length: 0\r\n");
        }
        x.put(r, b"\r\n");
    }
    match rng.below(12) {
        0 => {
            x.names.push("an invalid response protocol");
            proto = *rng.pick(&["HTTP/1.2", "HTTP/2.0", "HTTP1.1", "HTTPS/1.1", "HTTP/x"]);
            x.warn(L::RESPONSE_LINE_INVALID_PROTOCOL);
            x.flags |= STATUS;
        }
        1 => {
            x.names.push("an invalid status");
            st = rng.pick(&["99", "0", "1000", "abc", "-200", "2x0", "99999999999"]).to_string();
            x.warn(L::RESPONSE_LINE_INVALID_RESPONSE_STATUS);
            x.flags |= STATUS;
        }
        2 => {
            x.names.push("a response protocol with extra data");
            proto = *rng.pick(&["HTTP/01.1", "HTTP/0001.1"]);
            x.warn(L::PROTOCOL_CONTAINS_EXTRA_DATA);
        }
        3 => {
            proto = "HTTP/1.0";
        }
        4 => {
            st = rng.pick(&["204", "304", "102", "199", "103"]).to_string();
        }
        5 => st = "101".into(),
        _ => {}
    }
    x.put(r, format!("{} {} {}\r\n", proto, st, word(rng)).as_bytes());
    odd_headers(rng, x, r, true);
    let bodyless = matches!(st.as_str(), "204" | "304" | "102" | "199" | "103" | "101");
    if bodyless {
        x.names.push("a body where there is none");
        x.warn(L::RESPONSE_BODY_UNEXPECTED);
    }
    if st == "101" {
        x.names.push("a switch of protocols with a body");
        x.warn(L::SWITCHING_PROTO_WITH_CONTENT_LENGTH);
    }
    let n = rng.range(1, 30);
    let mut b = rng.word(b"abcdef", n, n);
    let mut coded = Ex::default();
    if rng.chance(1, 4) {
        let v = {
            let mut y = Ex::default();
            let v = coding(rng, &mut y, r);
            if decomp {
                coded = y;
            }
            v
        };
        if v == "gzip" {
            b = gzip(rng, &b, 6);
        }
        x.plain(r, "Content-Encoding", &v);
    }
    match rng.below(9) {
        0..=2 => {
            let n = if rng.chance(1, 4) { 0 } else { b.len() };
            content_length(rng, x, r, n);
            if x.codes.is_empty() || rng.flip() {
                odd_headers(rng, x, r, false);
            }
            x.put(r, b"\r\n");
            let b = b[..n].to_vec();
            x.put(r, &b);
        }
        3..=5 => {
            let te = *rng.pick(&["chunked", "Chunked", "chunked", "gzip, chunked", "chunked ; x", "xchunked"]);
            if !te.eq_ignore_ascii_case("chunked") {
                x.names.push("an abnormal transfer coding");
                x.warn(L::RESPONSE_ABNORMAL_TRANSFER_ENCODING);
            }
            if proto == "HTTP/1.0" || x.flags & STATUS != 0 && !matches!(proto, "HTTP/1.1" | "HTTP/01.1" | "HTTP/0001.1") {
                x.names.push("chunks in an old protocol");
                x.warn(L::RESPONSE_CHUNKED_OLD_PROTO);
            }
            x.plain(r, "Transfer-Encoding", te);
            if rng.chance(1, 6) {
                x.names.push("a length and a transfer coding");
                let k = rng.below(50).to_string();
                x.plain(r, "Content-Length", &k);
                x.flags |= SMUGGLING;
            }
            x.put(r, b"\r\n");
            chunks(rng, x, r, &b);
        }
        6 if rng.chance(1, 3) && !bodyless => {
            x.names.push("an invalid length");
            let cl = rng.pick(&["x", "99999999999999999999999", "a,b"]).to_string();
            x.plain(r, "Content-Length", &cl);
            if rng.chance(1, 3) {
                x.names.push("two invalid lengths");
                let c2 = rng.pick(&["x", "y", "12"]).to_string();
                x.plain(r, "Content-Length", &c2);
                x.flags |= SMUGGLING;
            }
            x.error(L::INVALID_CONTENT_LENGTH_FIELD_IN_RESPONSE);
            x.put(r, b"\r\n");
            x.res_fails = true;
            x.last = true;
        }
        7 if rng.chance(1, 3) && !bodyless => {
            x.names.push("a multipart/byteranges response");
            let ct = rng.pick(&["multipart/byteranges; boundary=x", "Multipart/Byteranges"]).to_string();
            x.plain(r, "Content-Type", &ct);
            x.error(L::RESPONSE_MULTIPART_BYTERANGES);
            x.put(r, b"\r\n");
            x.res_fails = true;
            x.last = true;
        }
        _ => {
            x.plain(r, "Content-Length", "0");
            x.put(r, b"\r\n");
        }
    }
    // the codings of a response that is refused are not looked at
    if !x.res_fails {
        x.names.extend(coded.names);
        x.codes.extend(coded.codes);
    }
}

fn exchanges(ctx: &mut Ctx, rng: &mut Rng) {
    let mut cfg = Config::default();
    cfg.compression_options.set_time_limit(4_000_000_000);
    let (dq, ds) = (rng.flip(), rng.chance(3, 4));
    cfg.set_request_decompression(dq);
    cfg.response_decompression_enabled = ds;
    let mut xs: Vec<Ex> = vec![];
    for i in 0..rng.range(1, 4) {
        let mut x = Ex::default();
        request(rng, &mut x, i, dq);
        if !x.req_fails {
            response(rng, &mut x, ds);
        }
        let end = x.last;
        xs.push(x);
        if end {
            break;
        }
    }
    let mut ops = vec![];
    let pipe = rng.chance(1, 3) && xs.iter().all(|x| !x.whole && !x.last);
    let mut later = vec![];
    for x in &xs {
        let m = if x.whole { 0 } else { rng.below(5) };
        ops.extend(split(rng, &x.req, m).into_iter().map(Op::Req));
        let m = rng.below(5);
        let s: Vec<Op> = split(rng, &x.res, m).into_iter().map(Op::Res).collect();
        if pipe {
            later.extend(s);
        } else {
            ops.extend(s);
        }
    }
    ops.extend(later);
    ctx.input = format!("reqdec={} resdec={}\n{}", dq, ds, show_ops(&ops));
    ctx.seen(ctx.input.clone().as_bytes());
    let r = run(cfg, &ops);
    let mut want: Vec<(String, String)> = xs.iter().flat_map(|x| x.codes.iter()).map(|(c, v)| (format!("{:?}", c), format!("{:?}", v))).collect();
    let mut got: Vec<(String, String)> = r.logs.iter().map(|(c, v, _)| (format!("{:?}", c), format!("{:?}", v))).filter(|x| x.0 != "PARSER_STATE_ERROR").collect();
    want.sort();
    got.sort();
    if want != got {
        let miss: Vec<_> = diff(&want, &got);
        let extra: Vec<_> = diff(&got, &want);
        let sig = if !miss.is_empty() { "not-reported" } else { "false-report" };
        ctx.fail(sig, format!("missing {:?}, not called for {:?}", miss, extra));
    }
    ctx.evaluations += want.len() as u64 + 1;
    ctx.obs("anomalies reported", want.len() as u64);
    for (i, x) in xs.iter().enumerate() {
        for n in &x.names {
            ctx.obs(n, 1);
        }
        if x.names.is_empty() {
            ctx.obs("exchanges without an anomaly", 1);
        }
        let Some(t) = r.txs.iter().find(|t| t.index == i) else {
            ctx.fail("tx", format!("no transaction {}", i));
            return;
        };
        ctx.eq(&(t.flags & MASK), &x.flags, "flags", &format!("flags of transaction {}", i));
        rows(ctx, &t.req_headers, &x.qh, &format!("request {}", i));
        if !x.req_fails {
            rows(ctx, &t.res_headers, &x.sh, &format!("response {}", i));
        }
        let bad = |q: bool| r.calls.iter().any(|c| c.req == q && c.ret == S::ERROR);
        if i + 1 == xs.len() {
            ctx.eq(&bad(true), &x.req_fails, "req-fails", "request side failed");
            ctx.eq(&bad(false), &x.res_fails, "res-fails", "response side failed");
        }
    }
    ctx.sample(|| show_ops(&ops).chars().take(400).collect());
}
fn rows(ctx: &mut Ctx, got: &[Row], want: &[Row], what: &str) {
    let f = |l: &[Row]| l.iter().map(|r| format!("{:?}: {:?} {:x}", show(&r.0), show(&r.1), r.2)).collect::<Vec<_>>();
    ctx.eq(&f(got), &f(want), "table", &format!("header fields of {}", what));
}
fn diff(a: &[(String, String)], b: &[(String, String)]) -> Vec<String> {
    let mut b = b.to_vec();
    let mut o = vec![];
    for x in a {
        if let Some(i) = b.iter().position(|y| y == x) {
            b.remove(i);
        } else {
            o.push(format!("{} {}", x.0, x.1));
        }
    }
    o
}

/// Conversations as they should be leave nothing in the log but the notes on repeated fields, chunk extensions and interim responses.
fn quiet(ctx: &mut Ctx, rng: &mut Rng) {
    let o = Opts { max_body: 200, ..Opts::default() };
    let c = gen::conversation(rng, &o);
    let ops = gen::schedule(rng, &c);
    ctx.input = show_ops(&ops);
    ctx.seen(ctx.input.clone().as_bytes());
    let r = run(base_cfg(rng), &ops);
    for (c, v, m) in &r.logs {
        let fine = matches!(
            c,
            L::REQUEST_HEADER_REPETITION | L::RESPONSE_HEADER_REPETITION | L::REQUEST_CHUNK_EXTENSION | L::RESPONSE_CHUNK_EXTENSION | L::CONTINUE_ALREADY_SEEN
        );
        ctx.check(fine, "false-report", || format!("{:?} {:?} {}", c, v, m));
    }
    for t in &r.txs {
        // the generator repeats a Content-Length now and then, which is noted, as it should be
        let twice = t.req_headers.iter().chain(&t.res_headers).any(|h| h.0.eq_ignore_ascii_case(b"content-length") && h.2 & 0x20 != 0);
        let ok = FOLDED | if twice { SMUGGLING } else { 0 };
        ctx.check(t.flags & MASK & !ok == 0, "false-flag", || format!("flags {:x}", t.flags));
    }
    ctx.obs("conversations without an anomaly", 1);
}

/// Use of the interface that is out of order.
fn misuse(ctx: &mut Ctx, rng: &mut Rng) {
    let mut p = new_parser(Config::default());
    let mut want = vec![];
    let mut req_dead = false;
    let mut log = String::new();
    for _ in 0..rng.range(1, 8) {
        match rng.below(6) {
            0 => {
                p.open(None, None, None, None, None);
                want.push((L::CONNECTION_ALREADY_OPEN, V::ERROR));
                log += "open ";
            }
            1 => {
                let r = p.request_data(b"".as_ref().into(), None);
                if req_dead {
                    want.push((L::PARSER_STATE_ERROR, V::ERROR));
                    ctx.eq(&r, &S::ERROR, "dead", "result");
                } else {
                    want.push((L::ZERO_LENGTH_DATA_CHUNKS, V::ERROR));
                }
                log += "empty-request ";
            }
            2 => {
                p.response_data(b"".as_ref().into(), None);
                want.push((L::ZERO_LENGTH_DATA_CHUNKS, V::ERROR));
                log += "empty-response ";
            }
            3 if !req_dead => {
                p.request_data(b"GET / HTTP/1.1\r\nHost: a\r\n\r\n".as_ref().into(), None);
                log += "request ";
            }
            4 => {
                p.request_data(b"POST / HTTP/1.1\r\nHost: a\r\nTransfer-Encoding: gzip\r\n\r\n".as_ref().into(), None);
                if req_dead {
                    want.push((L::PARSER_STATE_ERROR, V::ERROR));
                }
                req_dead = true;
                log += "bad-request ";
            }
            _ => {}
        }
    }
    ctx.input = log;
    let got: Vec<_> = p.conn.get_logs().into_iter().map(|l| format!("{:?} {:?}", l.msg.code, l.msg.level)).collect();
    let want: Vec<_> = want.iter().map(|(c, v)| format!("{:?} {:?}", c, v)).collect();
    ctx.eq(&got, &want, "misuse", "log");
    ctx.obs("histories out of order", 1);
    if rng.flip() {
        return;
    }
    // calls after a stop are worth a note, those after an error an error
    let (req, stop) = (rng.flip(), rng.flip());
    let level = *rng.pick(&[V::INFO, V::DEBUG, V::NOTICE]);
    let mut cfg = Config::default();
    cfg.log_level = level;
    let k = if req { *rng.pick(&[K::ReqLine, K::ReqHeaders, K::ReqComplete]) } else { *rng.pick(&[K::ResLine, K::ResHeaders, K::ResComplete]) };
    let n = rng.range(0, 3);
    ctx.input = format!("{:?} returns {}, then {} calls, log level {:?}", k, if stop { "STOP" } else { "ERROR" }, n, level);
    let mut d = Driver::new(cfg).with_fault(Some(Fault { k, nth: 0, status: if stop { 4 } else { -1 } }));
    d.call(&Op::Req(b"GET / HTTP/1.1\r\nHost: a\r\n\r\n".to_vec()));
    if !req {
        d.call(&Op::Res(b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n".to_vec()));
    }
    for _ in 0..n {
        let b = if rng.chance(1, 4) { vec![] } else { b"x".to_vec() };
        d.call(&if req { Op::Req(b) } else { Op::Res(b) });
    }
    let r = d.finish();
    let got: Vec<_> = r.logs.iter().map(|l| format!("{:?} {:?}", l.0, l.1)).collect();
    let one = if !stop { Some("PARSER_STATE_ERROR ERROR") } else if level == V::NOTICE { None } else { Some("PARSER_STATE_ERROR INFO") };
    let want: Vec<String> = one.into_iter().flat_map(|s| std::iter::repeat(s.to_string()).take(n)).collect();
    ctx.eq(&got, &want, "after-the-end", "log");
    ctx.obs("calls after the end of a direction", n as u64);
}

/// A last request that stays without a protocol or incomplete, and an odd end of line before the end of a head.
fn lines(ctx: &mut Ctx, rng: &mut Rng) {
    let mut want: Vec<(L, V)> = vec![];
    let mut flags = vec![];
    let mut ops = vec![];
    let seg = |rng: &mut Rng, req: bool, b: Vec<u8>, ops: &mut Vec<Op>| {
        let mut i = 0;
        // what an odd end of line is depends on what follows it: in one piece
        let whole = b.windows(4).any(|w| w == b"\n\r\r\n") || rng.flip();
        while i < b.len() {
            let k = if whole { b.len() } else { rng.range(1, 12) }.min(b.len() - i);
            let d = b[i..i + k].to_vec();
            ops.push(if req { Op::Req(d) } else { Op::Res(d) });
            i += k;
        }
    };
    for _ in 0..rng.below(3) {
        let odd = rng.below(3);
        let end: &[u8] = if odd == 1 { b"\n\r\r\n\r\n" } else { b"\r\n\r\n" };
        let mut b = b"GET /a HTTP/1.1\r\nHost: h\r\nA: b".to_vec();
        b.extend(end);
        seg(rng, true, b, &mut ops);
        let end: &[u8] = if odd == 2 { b"\n\r\r\n\r\n" } else { b"\r\n\r\n" };
        let mut b = b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\nA: b".to_vec();
        b.extend(end);
        seg(rng, false, b, &mut ops);
        if odd == 2 {
            want.push((L::DEFORMED_EOL, V::WARNING));
        }
        flags.push(odd);
    }
    let known = rng.flip();
    let m = if known { *rng.pick(&["GET", "POST", "HEAD", "PROPFIND"]) } else { *rng.pick(&["FOO", "get", "GETX", "G", "X-Y", "0"]) };
    let kind = rng.below(4);
    let eol = if rng.flip() { "\r\n" } else { "\n" };
    match kind {
        0 => {
            // the method alone
            seg(rng, true, format!("{}{}", m, eol).into_bytes(), &mut ops);
            if !known {
                want.push((L::REQUEST_LINE_UNKNOWN_METHOD, V::WARNING));
            }
        }
        1 => {
            let u = "x".repeat(rng.below(9));
            seg(rng, true, format!("{} /{}{}", m, u, eol).into_bytes(), &mut ops);
            if !known {
                want.push((L::REQUEST_LINE_UNKNOWN_METHOD_NO_PROTOCOL, V::WARNING));
            }
        }
        _ => {
            // answered (timed out, say) before its line is complete, or after that
            let line = format!("{} /{} HTTP/1.1\r\n", m, "x".repeat(rng.below(9)));
            let whole = format!("{}Host: h\r\n", line);
            let k = if kind == 2 { rng.range(1, line.len() - 1) } else { rng.range(line.len() + 1, whole.len()) };
            seg(rng, true, whole.as_bytes()[..k].to_vec(), &mut ops);
            seg(rng, false, b"HTTP/1.1 408 Timeout\r\nContent-Length: 0\r\n\r\n".to_vec(), &mut ops);
            if kind == 2 {
                want.push((L::REQUEST_LINE_INCOMPLETE, V::WARNING));
            }
        }
    }
    ctx.input = show_ops(&ops);
    ctx.seen(ctx.input.clone().as_bytes());
    let r = run(base_cfg(rng), &ops);
    let got: Vec<_> = r.logs.iter().map(|(c, v, _)| format!("{:?} {:?}", c, v)).collect();
    let want: Vec<_> = want.iter().map(|(c, v)| format!("{:?} {:?}", c, v)).collect();
    ctx.eq(&got, &want, "lines", "log");
    for (i, _) in flags.iter().enumerate() {
        if let Some(t) = r.txs.iter().find(|t| t.index == i) {
            ctx.eq(&(t.flags & MASK), &0, "lines-flags", "flags");
            rows(ctx, &t.req_headers, &[(b"Host".to_vec(), b"h".to_vec(), 0), (b"A".to_vec(), b"b".to_vec(), 0)], "request");
            rows(ctx, &t.res_headers, &[(b"Content-Length".to_vec(), b"0".to_vec(), 0), (b"A".to_vec(), b"b".to_vec(), 0)], "response");
        }
    }
    ctx.obs("odd line endings", flags.iter().filter(|f| **f == 2).count() as u64);
    ctx.obs(["a method alone", "no protocol", "answered before the line was complete", "answered within the head"][kind], 1);
}

fn case(ctx: &mut Ctx, rng: &mut Rng) {
    match ctx.case % 8 {
        0 => quiet(ctx, rng),
        1 => misuse(ctx, rng),
        2 => lines(ctx, rng),
        _ => exchanges(ctx, rng),
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C25",
        case,
        quick: 300_000,
        thorough: 3_000_000,
        rule: "hash of the sequence of data calls",
        need: &["anomalies reported", "exchanges without an anomaly", "conversations without an anomaly", "histories out of order", "calls after the end of a direction", "odd line endings", "answered before the line was complete", "no protocol", "a method alone"],
        assumptions: &["default configuration but for the decompression switches"],
        mem: 0,
        asan: &[],
    }]
}
