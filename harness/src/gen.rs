//! Generator of well-formed HTTP/1 conversations together with their ground truth.
use crate::drive::Op;
use crate::rng::Rng;
use std::io::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum Body {
    None,
    Cl,
    Chunked,
    /// response only: delimited by the end of the connection
    Close,
}

#[derive(Clone, Debug)]
pub struct Hdr {
    pub name: Vec<u8>,
    /// exactly the bytes on the wire, line ending included
    pub wire: Vec<u8>,
    /// the value a reader of the message gets
    pub value: Vec<u8>,
}

#[derive(Clone, Debug, Default)]
pub struct Msg {
    /// first line, without line ending
    pub line: Vec<u8>,
    pub method: Vec<u8>,
    pub uri: Vec<u8>,
    pub proto: Vec<u8>,
    pub proto_num: i32,
    pub status: u16,
    pub reason: Vec<u8>,
    pub headers: Vec<Hdr>,
    pub trailers: Vec<Hdr>,
    /// header block: everything after the first line up to and including the empty line
    pub head: Vec<u8>,
    pub trailer_block: Vec<u8>,
    pub body: Option<Body>,
    /// entity as the application wrote it
    pub entity: Vec<u8>,
    /// entity after content coding: what is carried by the transfer coding
    pub payload: Vec<u8>,
    /// names of content codings in application order
    pub codings: Vec<&'static str>,
    /// wire length of the body, chunk framing included and trailer excluded
    pub body_wire: usize,
    pub wire: Vec<u8>,
    /// offset in wire of the first byte after the header block
    pub body_off: usize,
    /// interim 100 responses that precede (responses), count
    pub interim: usize,
    /// length of the interim part in wire
    pub interim_len: usize,
    pub chunks: usize,
    pub eol: &'static str,
}

impl Msg {
    pub fn has_body(&self) -> bool {
        !matches!(self.body, None | Some(Body::None))
    }
    /// Header table a reader is expected to get: (name of first occurrence, merged value, repeated)
    pub fn table(&self) -> Vec<(Vec<u8>, Vec<u8>, bool)> {
        table(self.headers.iter().chain(self.trailers.iter()))
    }
}

pub fn table<'a>(h: impl Iterator<Item = &'a Hdr>) -> Vec<(Vec<u8>, Vec<u8>, bool)> {
    let mut out: Vec<(Vec<u8>, Vec<u8>, bool)> = vec![];
    // repetitions behind the second line of a name, of all names together
    let mut more = 0;
    for x in h {
        if let Some(e) = out.iter_mut().find(|e| e.0.eq_ignore_ascii_case(&x.name)) {
            if e.2 {
                if more == 64 {
                    continue;
                }
                more += 1;
            }
            e.2 = true;
            if !x.name.eq_ignore_ascii_case(b"content-length") {
                e.1.extend_from_slice(b", ");
                e.1.extend_from_slice(&x.value);
            }
        } else {
            out.push((x.name.clone(), x.value.clone(), false));
        }
    }
    out
}

pub const METHODS: [&str; 26] = [
    "GET", "POST", "PUT", "HEAD", "DELETE", "OPTIONS", "TRACE", "PATCH", "PROPFIND", "PROPPATCH",
    "MKCOL", "COPY", "MOVE", "LOCK", "UNLOCK", "VERSION-CONTROL", "CHECKOUT", "UNCHECKOUT",
    "CHECKIN", "UPDATE", "LABEL", "REPORT", "MKWORKSPACE", "MKACTIVITY", "BASELINE-CONTROL",
    "MERGE",
];
const NAMES: [&str; 44] = [
    "Accept", "Accept-Encoding", "Accept-Language", "Age", "Allow", "Cache-Control", "Connection", "Content-Disposition", "Content-Language",
    "Content-Location", "Content-MD5", "Content-Range", "Cookie", "Date", "ETag", "From", "If-Match", "Keep-Alive", "Location", "Max-Forwards",
    "Origin", "Pragma", "Proxy-Authenticate", "Proxy-Authorization", "Proxy-Connection", "Range", "Referer", "Server", "Set-Cookie", "TE", "Trailer",
    "User-Agent", "Vary", "Via", "Warning", "X-Forwarded-For", "X-Forwarded-Host", "Content-Lengt", "Content-Lengths", "X-Content-Length",
    "Transfer-Encodin", "Content-Encodings", "Hos", "Hosts",
];
fn rng_pick(rng: &mut Rng, l: &[&'static str]) -> &'static str {
    l[rng.below(l.len())]
}
pub const TOK: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.!~*'#$%&+^`|";
const ALNUM: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
const VAL: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 -_.!~*'()/=;,\"<>@[]{}?+&%$#^`|\\:";

#[derive(Clone)]
pub struct Opts {
    pub max_tx: usize,
    /// allow bodies delimited by close on the last response
    pub close: bool,
    pub interim: bool,
    pub compress: bool,
    pub req_compress: bool,
    pub folding: bool,
    pub repeats: bool,
    pub lf_only: bool,
    pub max_body: usize,
    pub absolute: bool,
    pub trailers: bool,
    pub ext: bool,
    /// body forced to have at least one byte when the message has a body
    pub nonempty: bool,
    /// at most this many random headers per message
    pub hdrs: usize,
    /// names of real header fields among the random ones
    pub names: bool,
    /// now and then a field is repeated more often than the parser merges
    pub many: bool,
    /// now and then a connection with many short exchanges
    pub long: bool,
    /// one in this many conversations is out of the ordinary size in one respect (0: none is)
    pub big: usize,
    pub size: Size,
}
/// What is out of the ordinary in a message.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Size {
    Usual,
    Body,
    Chunks,
    Fields,
    Value,
    Name,
    Uri,
    Interim,
    Folds,
    Merge,
    Ext,
}
const SIZES: [Size; 10] = [Size::Body, Size::Chunks, Size::Fields, Size::Value, Size::Name, Size::Uri, Size::Interim, Size::Folds, Size::Merge, Size::Ext];
fn big_len(rng: &mut Rng) -> usize {
    *rng.pick(&[255usize, 256, 257, 1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 9000, 12000, 16383, 16384, 16385, 17000, 33000, 66000])
}
impl Default for Opts {
    fn default() -> Self {
        Opts {
            max_tx: 5,
            close: true,
            interim: true,
            compress: true,
            req_compress: false,
            folding: true,
            repeats: true,
            lf_only: true,
            max_body: 3000,
            absolute: true,
            trailers: true,
            ext: true,
            nonempty: false,
            hdrs: 5,
            names: true,
            many: false,
            long: false,
            big: 0,
            size: Size::Usual,
        }
    }
}

pub fn deflate_raw(d: &[u8], level: u32) -> Vec<u8> {
    let mut e = flate2::write::DeflateEncoder::new(vec![], flate2::Compression::new(level));
    e.write_all(d).unwrap();
    e.finish().unwrap()
}
pub fn zlib(d: &[u8], level: u32) -> Vec<u8> {
    let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::new(level));
    e.write_all(d).unwrap();
    e.finish().unwrap()
}
pub fn crc32(d: &[u8]) -> u32 {
    let mut c = 0xffff_ffffu32;
    for b in d {
        c ^= *b as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { (c >> 1) ^ 0xedb88320 } else { c >> 1 };
        }
    }
    !c
}
/// gzip member with any combination of the optional header fields.
pub fn gzip(rng: &mut Rng, d: &[u8], level: u32) -> Vec<u8> {
    let fl = if rng.chance(1, 2) { 0 } else { rng.below(16) as u8 };
    let t = rng.flip() as u8;
    gzip_flags(rng, d, level, (fl << 1) | t)
}
/// flags: 1 FTEXT, 2 FHCRC, 4 FEXTRA, 8 FNAME, 16 FCOMMENT
pub fn gzip_flags(rng: &mut Rng, d: &[u8], level: u32, flags: u8) -> Vec<u8> {
    let mut o = vec![0x1f, 0x8b, 8, flags];
    o.extend_from_slice(&(rng.next() as u32).to_le_bytes());
    o.push(0);
    o.push(3);
    if flags & 4 != 0 {
        let n = *rng.pick(&[0usize, 1, 2, 5, 40, 300]);
        o.extend_from_slice(&(n as u16).to_le_bytes());
        o.extend(rng.bytes(n));
    }
    if flags & 8 != 0 {
        o.extend(rng.word(ALNUM, 0, 30));
        o.push(0);
    }
    if flags & 16 != 0 {
        o.extend(rng.word(ALNUM, 0, 30));
        o.push(0);
    }
    if flags & 2 != 0 {
        let c = crc32(&o) as u16;
        o.extend_from_slice(&c.to_le_bytes());
    }
    o.extend(deflate_raw(d, level));
    o.extend_from_slice(&crc32(d).to_le_bytes());
    o.extend_from_slice(&(d.len() as u32).to_le_bytes());
    o
}
pub fn lzma(d: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut r = std::io::BufReader::new(d);
    lzma_rs::lzma_compress(&mut r, &mut o).unwrap();
    o
}

/// Body content: binary, text, compressible, protocol look-alikes.
pub fn content(rng: &mut Rng, n: usize) -> Vec<u8> {
    match rng.below(6) {
        0 => rng.bytes(n),
        1 => rng.word(b"ab", n, n),
        2 => {
            let parts: [&[u8]; 12] = [
                b"\r\n", b"\n", b"\r", b"0\r\n\r\n", b"HTTP/1.1 200 OK\r\n", b"GET / HTTP/1.1\r\n", b"\0",
                b"Content-Length: 5\r\n", b"\r\n\r\n", b"5\r\nhello\r\n", b" ", b"x",
            ];
            let mut v = vec![];
            while v.len() < n {
                let w: &[u8] = parts[rng.below(12)];
                v.extend_from_slice(w);
            }
            v.truncate(n);
            v
        }
        3 => vec![rng.byte(); n],
        4 => rng.word(VAL, n, n),
        _ => {
            let w = rng.bytes(7);
            (0..n).map(|i| w[i % 7] ^ ((i / 97) as u8)).collect()
        }
    }
}

fn mk_hdr(rng: &mut Rng, name: &[u8], value: &[u8], eol: &str, plain: bool) -> Hdr {
    let mut w = name.to_vec();
    w.push(b':');
    if plain {
        w.push(b' ');
        w.extend_from_slice(value);
    } else {
        w.extend(rng.word(b" \t ", 0, 2));
        w.extend_from_slice(value);
        w.extend(rng.word(b" \t ", 0, 2));
    }
    w.extend_from_slice(eol.as_bytes());
    Hdr { name: name.to_vec(), wire: w, value: value.to_vec() }
}

pub fn value(rng: &mut Rng, hi: usize) -> Vec<u8> {
    let mut v = rng.word(VAL, 1, hi);
    if rng.chance(1, 12) {
        // obs-text
        let i = rng.below(v.len());
        v[i] = rng.range(0x80, 0xff) as u8;
    }
    let t = trim(&v);
    if t.is_empty() {
        b"v".to_vec()
    } else {
        t.to_vec()
    }
}
pub fn trim(v: &[u8]) -> &[u8] {
    let s = v.iter().position(|c| !is_sp(*c)).unwrap_or(v.len());
    let e = v.iter().rposition(|c| !is_sp(*c)).map_or(s, |x| x + 1);
    &v[s..e]
}
pub fn is_sp(c: u8) -> bool {
    matches!(c, 0x20 | 0x0c | 0x0a | 0x0d | 0x09 | 0x0b)
}

fn random_headers(rng: &mut Rng, o: &Opts, eol: &'static str, req: bool, prefix: &str) -> Vec<Hdr> {
    let mut v: Vec<Hdr> = vec![];
    let most = if o.hdrs > 3 && rng.chance(1, 40) { 50 } else { o.hdrs };
    let least = if o.size == Size::Fields { rng.range(60, 400) } else { 0 };
    for i in 0..rng.range(least, most.max(least)) {
        if o.repeats && !v.is_empty() && rng.chance(1, 6) {
            let mut n = rng.pick(&v).name.clone();
            if rng.flip() {
                n = n.to_ascii_uppercase();
            }
            let val = if rng.chance(1, 5) { vec![] } else { value(rng, 20) };
            v.push(mk_hdr(rng, &n, &val, eol, false));
            continue;
        }
        // the index keeps independent names distinct; '~' keeps them clear of header names the parser interprets
        let mut name = format!("{}{}~", prefix, i).into_bytes();
        name.extend(rng.word(TOK, 0, 12));
        if o.names && rng.chance(1, 3) {
            // names in real use, and names that are almost ones the parser interprets
            let n = rng_pick(rng, &NAMES);
            let n = casing(rng, n);
            if o.repeats || !v.iter().any(|h| h.name.eq_ignore_ascii_case(&n)) {
                name = n;
            }
        }
        let val = if rng.chance(1, 12) { vec![] } else { value(rng, 60) };
        if o.folding && !val.is_empty() && rng.chance(1, 8) {
            // obs-fold: the value continues on the next line(s). No colon in it (the response parser
            // documents that a folded line that looks like a header is one).
            let mut w = name.clone();
            w.extend_from_slice(b": ");
            let mut val: Vec<u8> = val.into_iter().filter(|c| *c != b':').collect();
            if val.is_empty() {
                val = b"v".to_vec();
            }
            let val = trim(&val).to_vec();
            let val = if val.is_empty() { b"v".to_vec() } else { val };
            w.extend_from_slice(&val);
            let mut exp = val.clone();
            for _ in 0..rng.range(1, 2) {
                let c = *rng.pick(&[b' ', b'\t']);
                let more = rng.word(ALNUM, 1, 12);
                w.extend_from_slice(eol.as_bytes());
                w.push(c);
                w.extend_from_slice(&more);
                exp.push(c);
                exp.extend_from_slice(&more);
            }
            w.extend_from_slice(eol.as_bytes());
            v.push(Hdr { name, wire: w, value: exp });
            let _ = req;
            continue;
        }
        v.push(mk_hdr(rng, &name, &val, eol, false));
    }
    if matches!(o.size, Size::Value | Size::Name | Size::Folds | Size::Merge) && rng.chance(3, 4) {
        let n = big_len(rng);
        let mut name = format!("{}big~", prefix).into_bytes();
        match o.size {
            Size::Name => {
                name.extend(rng.word(ALNUM, n, n));
                v.push(mk_hdr(rng, &name, b"v", eol, false));
            }
            Size::Value => {
                let val = [&b"v"[..], &rng.word(VAL, n - 2, n - 2), b"v"].concat();
                v.push(mk_hdr(rng, &name, &val, eol, false));
            }
            Size::Folds => {
                let mut w = [&name[..], b": v"].concat();
                let mut exp = b"v".to_vec();
                for _ in 0..n / 20 {
                    let more = [&b" "[..], &rng.word(ALNUM, 1, 12)].concat();
                    w.extend_from_slice(eol.as_bytes());
                    w.extend_from_slice(&more);
                    exp.extend_from_slice(&more);
                }
                w.extend_from_slice(eol.as_bytes());
                v.push(Hdr { name, wire: w, value: exp });
            }
            _ => {
                let k = rng.range(2, 60);
                for _ in 0..k {
                    let val = rng.word(ALNUM, n / k, n / k);
                    v.push(mk_hdr(rng, &name, &val, eol, false));
                }
            }
        }
        if o.size != Size::Merge {
            // and one behind it
            let name = format!("{}after~", prefix);
            v.push(mk_hdr(rng, name.as_bytes(), b"v", eol, false));
        }
    }
    if o.many && !v.is_empty() && rng.chance(1, 12) {
        let names: Vec<Vec<u8>> = v.iter().rev().take(rng.range(1, 3)).map(|h| h.name.clone()).collect();
        for _ in 0..rng.range(50, 80) {
            let (n, val) = (rng.pick(&names).clone(), rng.word(ALNUM, 0, 3));
            v.push(mk_hdr(rng, &n, &val, eol, false));
        }
    }
    v
}

fn casing(rng: &mut Rng, s: &str) -> Vec<u8> {
    match rng.below(4) {
        0 => s.to_ascii_lowercase().into_bytes(),
        1 => s.to_ascii_uppercase().into_bytes(),
        _ => s.as_bytes().to_vec(),
    }
}

fn encode(rng: &mut Rng, m: &mut Msg, o: &Opts, allow: bool) {
    m.payload = m.entity.clone();
    if !allow || !rng.chance(1, 3) || m.entity.is_empty() {
        return;
    }
    let n = if rng.chance(1, 3) { 2 } else { 1 };
    for _ in 0..n {
        let (name, p): (&'static str, Vec<u8>) = match rng.below(3) {
            0 => ("gzip", gzip(rng, &m.payload, 6)),
            1 => ("deflate", deflate_raw(&m.payload, 6)),
            _ => ("deflate", zlib(&m.payload, 6)),
        };
        m.codings.push(name);
        m.payload = p;
    }
    let _ = o;
}

/// The parser documents lenient line endings (blank lines made of CR, SP and HT runs count as line
/// ends): bytes right after a header block that could be read as part of such a line ending are not
/// part of the well-formed domain.
fn unambiguous(m: &mut Msg, req: bool) {
    if m.body == Some(Body::Chunked) || (req && m.eol == "\r\n") {
        return;
    }
    let bl = |c: Option<&u8>| matches!(c, Some(b' ' | b'\t' | b'\r' | b'\n') | None);
    let p = &m.payload;
    let ok = p.is_empty() || !bl(p.first());
    if !ok {
        m.entity[0] = b'x';
        m.payload = m.entity.clone();
        m.codings.clear();
    }
}

/// Appends transfer coding of m.payload to m.wire.
fn transfer(rng: &mut Rng, m: &mut Msg, o: &Opts) {
    m.body_off = m.wire.len();
    match m.body {
        Some(Body::Cl) | Some(Body::Close) => {
            m.body_wire = m.payload.len();
            let p = m.payload.clone();
            m.wire.extend(p);
        }
        Some(Body::Chunked) => {
            let p = m.payload.clone();
            let mut i = 0;
            let max = match o.size {
                Size::Body => *rng.pick(&[5000usize, 66000, 1 << 20, 1 << 20]),
                Size::Chunks => *rng.pick(&[1usize, 2]),
                _ => *rng.pick(&[1usize, 3, 17, 200, 5000]),
            };
            let start = m.wire.len();
            while i < p.len() {
                let n = if max >= 1 << 20 { p.len() - i } else { rng.range(1, max).min(p.len() - i) };
                let h = match rng.below(4) {
                    0 => format!("{:X}", n),
                    1 => format!("{:04x}", n),
                    _ => format!("{:x}", n),
                };
                m.wire.extend_from_slice(h.as_bytes());
                if o.size == Size::Ext && rng.chance(1, 10) {
                    let n = big_len(rng).min(16000);
                    m.wire.push(b';');
                    m.wire.extend(rng.word(ALNUM, n, n));
                } else if o.ext && rng.chance(1, 10) {
                    m.wire.extend_from_slice(b";");
                    m.wire.extend(rng.word(ALNUM, 1, 8));
                    if rng.flip() {
                        m.wire.extend_from_slice(b"=");
                        m.wire.extend(rng.word(ALNUM, 1, 8));
                    } else if rng.flip() {
                        m.wire.extend_from_slice(b"=\"");
                        m.wire.extend(rng.word(b"ab0; =,5\t", 1, 8));
                        m.wire.push(b'"');
                    }
                }
                m.wire.extend_from_slice(b"\r\n");
                m.wire.extend_from_slice(&p[i..i + n]);
                m.wire.extend_from_slice(b"\r\n");
                i += n;
                m.chunks += 1;
            }
            m.wire.extend_from_slice(if rng.chance(1, 3) { b"000\r\n" } else { b"0\r\n" });
            m.body_wire = m.wire.len() - start;
            for t in &m.trailers {
                m.trailer_block.extend_from_slice(&t.wire);
            }
            m.trailer_block.extend_from_slice(b"\r\n");
            let t = m.trailer_block.clone();
            m.wire.extend(t);
        }
        _ => {}
    }
}

pub fn path(rng: &mut Rng) -> Vec<u8> {
    let mut p = vec![];
    for _ in 0..rng.range(1, 4) {
        p.push(b'/');
        p.extend(rng.word(b"abcXYZ019-_.~", 0, 8));
        if rng.chance(1, 6) {
            p.extend_from_slice(format!("%{:02x}", rng.range(0x41, 0x5a)).as_bytes());
        }
    }
    if rng.chance(1, 3) {
        p.push(b'?');
        p.extend(rng.word(b"abc=&019-_.~%41+", 0, 20));
    }
    p
}

pub fn request(rng: &mut Rng, o: &Opts, idx: usize) -> Msg {
    let mut m = Msg::default();
    let method = if rng.chance(1, 2) {
        *rng.pick(&["GET", "POST", "PUT", "HEAD"])
    } else {
        *rng.pick(&METHODS)
    };
    m.method = method.as_bytes().to_vec();
    m.uri = path(rng);
    if o.size == Size::Uri {
        let n = big_len(rng);
        m.uri.push(b'/');
        m.uri.extend(rng.word(b"abcXYZ019-_.~/?&=", n, n));
    }
    m.uri.extend_from_slice(format!("/t{}", idx).as_bytes());
    let host = format!("h{}.example.org", rng.below(100));
    if o.absolute && rng.chance(1, 5) {
        let mut u = b"http://".to_vec();
        u.extend_from_slice(host.as_bytes());
        if rng.flip() {
            u.extend_from_slice(format!(":{}", rng.range(1, 65535)).as_bytes());
        }
        u.extend_from_slice(&m.uri);
        m.uri = u;
    }
    let old = rng.chance(1, 6);
    m.proto = if old { b"HTTP/1.0".to_vec() } else { b"HTTP/1.1".to_vec() };
    m.proto_num = if old { 100 } else { 101 };
    m.line = [&m.method[..], b" ", &m.uri, b" ", &m.proto].concat();
    let hasbody = match method {
        _ if matches!(o.size, Size::Body | Size::Chunks | Size::Ext) && rng.chance(3, 4) => true,
        "POST" | "PUT" | "PATCH" => rng.chance(5, 6),
        _ => rng.chance(1, 5),
    };
    m.body = Some(if !hasbody {
        Body::None
    } else if old || rng.flip() {
        Body::Cl
    } else {
        Body::Chunked
    });
    m.eol = if o.lf_only && m.body != Some(Body::Chunked) && rng.chance(1, 8) { "\n" } else { "\r\n" };
    if hasbody {
        let n = body_len(rng, o);
        m.entity = content(rng, n);
        encode(rng, &mut m, o, o.req_compress);
        unambiguous(&mut m, true);
    }
    m.headers = random_headers(rng, o, m.eol, true, "X");
    let eol = m.eol;
    let mut ins = |rng: &mut Rng, m: &mut Msg, n: &str, v: &[u8]| {
        let name = casing(rng, n);
        let h = mk_hdr(rng, &name, v, eol, rng.0 & 1 == 0);
        let at = rng.below(m.headers.len() + 1);
        m.headers.insert(at, h);
    };
    if old && !hasbody && rng.chance(1, 3) {
        // a request without any header
        m.headers.clear();
    } else {
        ins(rng, &mut m, "Host", host.as_bytes());
    }
    framing_headers(rng, &mut m, &mut ins);
    if hasbody && !old && rng.chance(1, 6) {
        ins(rng, &mut m, "Expect", b"100-continue");
    }
    if m.body == Some(Body::Chunked) && o.trailers && rng.chance(1, 3) {
        m.trailers = random_headers(rng, &Opts { folding: o.folding, ..o.clone() }, "\r\n", true, "T");
    }
    build(rng, &mut m, o);
    m
}

fn body_len(rng: &mut Rng, o: &Opts) -> usize {
    match o.size {
        Size::Body => return *rng.pick(&[8192usize, 8193, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 100_000, 131_072, 200_000]),
        Size::Chunks => return rng.range(200, 3000),
        _ => {}
    }
    let n = match rng.below(5) {
        0 => rng.below(4),
        1 => rng.below(20),
        2 | 3 => rng.below(o.max_body / 10 + 1),
        _ => rng.below(o.max_body + 1),
    };
    if o.nonempty {
        n.max(1)
    } else {
        n
    }
}

fn framing_headers(rng: &mut Rng, m: &mut Msg, ins: &mut dyn FnMut(&mut Rng, &mut Msg, &str, &[u8])) {
    match m.body {
        Some(Body::Cl) => {
            let v = format!("{}", m.payload.len());
            ins(rng, m, "Content-Length", v.as_bytes());
            if rng.chance(1, 20) {
                // the same length again
                ins(rng, m, "Content-Length", v.as_bytes());
            }
        }
        Some(Body::Chunked) => {
            let v = casing(rng, "chunked");
            ins(rng, m, "Transfer-Encoding", &v)
        }
        _ => {}
    }
    if !m.codings.is_empty() {
        let sep = *rng.pick(&[", ", ","]);
        let v = m.codings.join(sep);
        ins(rng, m, "Content-Encoding", v.as_bytes());
    }
}

fn build(rng: &mut Rng, m: &mut Msg, o: &Opts) {
    m.wire.extend_from_slice(&m.line.clone());
    m.wire.extend_from_slice(m.eol.as_bytes());
    for h in &m.headers {
        m.head.extend_from_slice(&h.wire);
    }
    m.head.extend_from_slice(m.eol.as_bytes());
    m.wire.extend_from_slice(&m.head.clone());
    transfer(rng, m, o);
}

pub fn response(rng: &mut Rng, o: &Opts, req: &Msg, last: bool) -> Msg {
    let mut m = Msg::default();
    m.status = if rng.chance(1, 8) {
        rng.range(200, 599) as u16
    } else {
        *rng.pick(&[200u16, 200, 200, 200, 201, 204, 206, 301, 304, 400, 404, 407, 500, 503, 599])
    };
    m.reason = if rng.chance(1, 10) { vec![] } else { value(rng, 20) };
    let old = rng.chance(1, 8);
    m.proto = if old { b"HTTP/1.0".to_vec() } else { b"HTTP/1.1".to_vec() };
    m.proto_num = if old { 100 } else { 101 };
    m.line = [&m.proto[..], b" ", m.status.to_string().as_bytes(), b" ", &m.reason].concat();
    let head = req.method == b"HEAD";
    let nobody = head || m.status == 204 || m.status == 304;
    m.body = Some(if nobody {
        Body::None
    } else if last && o.close && rng.chance(1, 3) {
        Body::Close
    } else if old || rng.flip() {
        Body::Cl
    } else {
        Body::Chunked
    });
    m.eol = if o.lf_only && m.body != Some(Body::Chunked) && rng.chance(1, 8) { "\n" } else { "\r\n" };
    if !nobody {
        let n = body_len(rng, o);
        m.entity = content(rng, n);
        encode(rng, &mut m, o, o.compress);
        unambiguous(&mut m, false);
    }
    m.headers = random_headers(rng, o, m.eol, false, "Y");
    let eol = m.eol;
    let mut ins = |rng: &mut Rng, m: &mut Msg, n: &str, v: &[u8]| {
        let name = casing(rng, n);
        let h = mk_hdr(rng, &name, v, eol, rng.0 & 1 == 0);
        let at = rng.below(m.headers.len() + 1);
        m.headers.insert(at, h);
    };
    ins(rng, &mut m, "Server", b"s");
    if head && rng.flip() {
        // a response to HEAD describes a body that is not sent
        ins(rng, &mut m, "Content-Length", b"1234");
    }
    if rng.flip() {
        let v = *rng.pick(&["text/html", "Text/HTML; charset=utf-8", "application/octet-stream"]);
        ins(rng, &mut m, "Content-Type", v.as_bytes());
    }
    framing_headers(rng, &mut m, &mut ins);
    if m.body == Some(Body::Chunked) && o.trailers && rng.chance(1, 3) {
        m.trailers = random_headers(rng, o, "\r\n", false, "U");
    }
    if o.interim && (o.size == Size::Interim || rng.chance(1, 8)) {
        m.interim = if o.size == Size::Interim { *rng.pick(&[30usize, 70, 260, 400]) } else if rng.chance(1, 3) { rng.range(2, 4) } else { 1 };
        for i in 0..m.interim {
            m.wire.extend_from_slice(b"HTTP/1.1 100 Continue\r\n");
            if rng.flip() {
                m.wire.extend_from_slice(format!("Interim{}: yes\r\n", i).as_bytes());
            }
            if rng.chance(1, 3) {
                m.wire.extend_from_slice(rng.pick::<&[u8]>(&[b"Server: interim\r\n", b"Content-Length: 0\r\n", b"Content-Type: a/b\r\n"]));
            }
            m.wire.extend_from_slice(b"\r\n");
        }
        m.interim_len = m.wire.len();
    }
    build(rng, &mut m, o);
    m
}

#[derive(Clone, Debug)]
pub struct Conv {
    pub req: Vec<Msg>,
    pub res: Vec<Msg>,
    pub closes: bool,
    pub size: Size,
}

pub fn conversation(rng: &mut Rng, o: &Opts) -> Conv {
    let tiny;
    let o = if rng.chance(1, 4) {
        tiny = Opts { hdrs: o.hdrs.min(1), max_body: o.max_body.min(20), max_tx: o.max_tx.min(3), ..o.clone() };
        &tiny
    } else {
        o
    };
    let short;
    let mut n = rng.range(1, o.max_tx);
    let o = if o.long && rng.chance(1, 300) {
        n = *rng.pick(&[70, 130, 260, 300]);
        short = Opts { hdrs: 1, max_body: 5, interim: false, compress: false, ..o.clone() };
        &short
    } else {
        o
    };
    let unusual;
    let o = if o.big > 0 && rng.chance(1, o.big) {
        n = rng.range(1, 3);
        unusual = Opts { size: *rng.pick(&SIZES), max_body: o.max_body.min(500), ..o.clone() };
        &unusual
    } else {
        o
    };
    let mut c = Conv { req: vec![], res: vec![], closes: false, size: o.size };
    for i in 0..n {
        let q = request(rng, o, i);
        let r = response(rng, o, &q, i + 1 == n);
        c.closes |= r.body == Some(Body::Close);
        c.req.push(q);
        c.res.push(r);
    }
    c
}

impl Conv {
    /// Long heads need a field limit that lets them through.
    pub fn limit(&self, cfg: &mut htp::config::Config) {
        let one = |m: &Msg| m.line.len() + m.head.len() + m.trailer_block.len() + m.interim_len;
        if self.req.iter().chain(self.res.iter()).any(|m| one(m) > 15_000) || self.size == Size::Ext {
            cfg.set_field_limit(1 << 24);
        }
    }
    pub fn bytes(&self) -> usize {
        self.req.iter().chain(self.res.iter()).map(|m| m.wire.len()).sum()
    }
}

/// How the two byte streams are cut and interleaved.
/// A response starts only after its request has been delivered completely.
pub fn schedule(rng: &mut Rng, c: &Conv) -> Vec<Op> {
    let mut ops = vec![];
    let n = c.req.len();
    let mut rmode = rng.below(5);
    let mut smode = rng.below(5);
    if c.size != Size::Usual && c.bytes() > 30_000 {
        rmode = *rng.pick(&[0, 0, 2, 2, 4]);
        smode = *rng.pick(&[0, 0, 2, 2, 4]);
    }
    match rng.below(4) {
        0 => {
            // strict ping-pong
            for i in 0..n {
                for p in crate::drive::split(rng, &c.req[i].wire, rmode) {
                    ops.push(Op::Req(p));
                }
                for p in crate::drive::split(rng, &c.res[i].wire, smode) {
                    ops.push(Op::Res(p));
                }
            }
        }
        1 => {
            // everything pipelined, segments cross message boundaries
            let q: Vec<u8> = c.req.iter().flat_map(|m| m.wire.clone()).collect();
            let s: Vec<u8> = c.res.iter().flat_map(|m| m.wire.clone()).collect();
            for p in crate::drive::split(rng, &q, rmode) {
                ops.push(Op::Req(p));
            }
            for p in crate::drive::split(rng, &s, smode) {
                ops.push(Op::Res(p));
            }
        }
        _ => {
            // arbitrary causal interleaving of the two segment streams
            let q: Vec<u8> = c.req.iter().flat_map(|m| m.wire.clone()).collect();
            let s: Vec<u8> = c.res.iter().flat_map(|m| m.wire.clone()).collect();
            let mut qends = vec![];
            let mut e = 0;
            // a server may answer as soon as it has seen the head of the request
            let early = rng.chance(1, 3);
            for m in &c.req {
                // (a client that asked for permission does not send the body after a refusal)
                let expect = m.headers.iter().any(|h| h.name.eq_ignore_ascii_case(b"expect"));
                qends.push(e + if early && !expect { m.body_off } else { m.wire.len() });
                e += m.wire.len();
            }
            let mut sends = vec![];
            e = 0;
            for m in &c.res {
                e += m.wire.len();
                sends.push(e);
            }
            let mut qs: std::collections::VecDeque<_> = crate::drive::split(rng, &q, rmode).into();
            let mut ss: std::collections::VecDeque<_> = crate::drive::split(rng, &s, smode).into();
            let (mut qpos, mut spos) = (0, 0);
            let bias = *rng.pick(&[1usize, 3, 5]);
            while !qs.is_empty() || !ss.is_empty() {
                let can_res = ss.front().map_or(false, |p| {
                    let end = spos + p.len();
                    // every response this segment touches has its request fully delivered
                    let touched = sends.iter().position(|x| *x >= end).unwrap_or(n - 1);
                    qpos >= qends[touched]
                });
                if can_res && (qs.is_empty() || rng.chance(bias, 6)) {
                    let p = ss.pop_front().unwrap();
                    spos += p.len();
                    ops.push(Op::Res(p));
                } else if let Some(p) = qs.pop_front() {
                    qpos += p.len();
                    ops.push(Op::Req(p));
                } else {
                    let p = ss.pop_front().unwrap();
                    spos += p.len();
                    ops.push(Op::Res(p));
                }
            }
        }
    }
    // the client may close its side once it has sent everything
    if rng.chance(1, 6) {
        let last = ops.iter().rposition(|o| matches!(o, Op::Req(_))).unwrap_or(0);
        let at = rng.range(last + 1, ops.len());
        ops.insert(at, Op::ReqClose);
    }
    if c.closes || rng.flip() {
        ops.push(Op::Close);
    }
    ops
}
