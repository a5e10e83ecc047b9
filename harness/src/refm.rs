//! Reference models: independent, straight-line restatements of what the decoders must do.
use htp::config::{Config, HtpServerPersonality as SP, HtpUnwanted, HtpUrlEncodingHandling as H};

pub const PATH_ENCODED_NUL: u64 = 0x4000;
pub const PATH_RAW_NUL: u64 = 0x8000;
pub const PATH_INVALID_ENCODING: u64 = 0x1_0000;
pub const PATH_INVALID: u64 = 0x2_0000;
pub const PATH_OVERLONG_U: u64 = 0x4_0000;
pub const PATH_ENCODED_SEPARATOR: u64 = 0x8_0000;
pub const PATH_UTF8_VALID: u64 = 0x10_0000;
pub const PATH_UTF8_INVALID: u64 = 0x20_0000;
pub const PATH_UTF8_OVERLONG: u64 = 0x40_0000;
pub const PATH_HALF_FULL_RANGE: u64 = 0x80_0000;
pub const PATH_FLAGS: u64 = 0xff_c000;

#[derive(Clone, Debug, PartialEq)]
pub enum Inv {
    Preserve,
    Remove,
    Process,
}

/// The decoder options, in our own terms.
#[derive(Clone, Debug)]
pub struct D {
    pub pers: Option<SP>,
    pub backslash: bool,
    pub lower: bool,
    pub compress: bool,
    pub sep_decode: bool,
    pub plus: bool,
    pub nul_raw_term: bool,
    pub nul_enc_term: bool,
    pub ctl_unwanted: i32,
    pub u_decode: bool,
    pub u_unwanted: i32,
    pub inv: Inv,
    pub inv_unwanted: i32,
    pub bestfit: bool,
    pub repl: u8,
    pub dd_path: bool,
    pub dd_query: bool,
    pub lead_ws_unwanted: i32,
    pub nul_raw_unwanted: i32,
    pub nul_enc_unwanted: i32,
    pub sep_unwanted: i32,
    pub utf8_unwanted: i32,
    /// a best-fit map of our own in place of the built-in one
    pub own_map: bool,
    /// a personality is set over other settings
    pub before: bool,
}
impl Default for D {
    fn default() -> Self {
        D {
            pers: None, backslash: false, lower: false, compress: false, sep_decode: false, plus: true,
            nul_raw_term: false, nul_enc_term: false, ctl_unwanted: 0, u_decode: false, u_unwanted: 0,
            inv: Inv::Preserve, inv_unwanted: 0, bestfit: false, repl: b'?', dd_path: false, dd_query: false,
            lead_ws_unwanted: 0, nul_raw_unwanted: 0, nul_enc_unwanted: 0, sep_unwanted: 0, utf8_unwanted: 0,
            own_map: false,
            before: false,
        }
    }
}
fn unw(n: i32) -> HtpUnwanted {
    match n {
        400 => HtpUnwanted::CODE_400,
        404 => HtpUnwanted::CODE_404,
        _ => HtpUnwanted::IGNORE,
    }
}
impl D {
    /// What each personality stands for, applied to the default settings.
    pub fn personality(p: SP) -> D {
        let mut d = D { pers: Some(p), ..D::default() };
        if p == SP::MINIMAL {
            return d;
        }
        d.backslash = p != SP::APACHE_2;
        d.sep_decode = p != SP::APACHE_2;
        d.compress = true;
        match p {
            SP::IDS => {
                d.lower = true;
                d.bestfit = true;
                d.u_decode = true;
            }
            SP::APACHE_2 => {
                d.inv_unwanted = 400;
                d.lead_ws_unwanted = 400;
            }
            SP::IIS_6_0 => {
                d.u_decode = true;
                d.u_unwanted = 400;
                d.ctl_unwanted = 400;
            }
            SP::IIS_7_0 | SP::IIS_7_5 => {
                d.u_decode = true;
                d.inv_unwanted = 400;
                d.ctl_unwanted = 400;
            }
            _ => {}
        }
        d
    }
    /// The library configuration these options stand for. A personality is set by name only.
    pub fn config(&self) -> Config {
        let mut c = Config::default();
        if let Some(p) = self.pers {
            if self.before && p != SP::MINIMAL {
                // what a personality stands for takes the place of what was set before
                c.set_backslash_convert_slashes(!self.backslash);
                c.set_path_separators_decode(!self.sep_decode);
                c.set_path_separators_compress(!self.compress);
                if p != SP::GENERIC && p != SP::IDS {
                    c.set_u_encoding_decode(!self.u_decode);
                    c.set_url_encoding_invalid_handling(H::REMOVE_PERCENT);
                    c.set_control_chars_unwanted(HtpUnwanted::CODE_404);
                    c.set_requestline_leading_whitespace_unwanted(HtpUnwanted::CODE_404);
                }
            }
            c.set_server_personality(p).unwrap();
        } else {
            c.set_backslash_convert_slashes(self.backslash);
            c.set_convert_lowercase(self.lower);
            c.set_path_separators_compress(self.compress);
            c.set_path_separators_decode(self.sep_decode);
            c.set_control_chars_unwanted(unw(self.ctl_unwanted));
            c.set_u_encoding_decode(self.u_decode);
            c.set_u_encoding_unwanted(unw(self.u_unwanted));
            c.set_url_encoding_invalid_handling(match self.inv {
                Inv::Preserve => H::PRESERVE_PERCENT,
                Inv::Remove => H::REMOVE_PERCENT,
                Inv::Process => H::PROCESS_INVALID,
            });
            c.set_url_encoding_invalid_unwanted(unw(self.inv_unwanted));
            c.set_utf8_convert_bestfit(self.bestfit);
            c.set_requestline_leading_whitespace_unwanted(unw(self.lead_ws_unwanted));
        }
        // what is the default anyway is set in some cases only
        let all = self.own_map;
        if all || !self.plus {
            c.set_plusspace_decode(self.plus);
        }
        if all || self.nul_raw_term {
            c.set_nul_raw_terminates(self.nul_raw_term);
        }
        if all || self.nul_enc_term {
            c.set_nul_encoded_terminates(self.nul_enc_term);
        }
        if self.own_map {
            let mut m = c.decoder_cfg.bestfit_map;
            m.map = own_map();
            m.replacement_byte = b'!';
            c.set_bestfit_map(m);
        }
        c.decoder_cfg.nul_raw_unwanted = unw(self.nul_raw_unwanted);
        c.decoder_cfg.nul_encoded_unwanted = unw(self.nul_enc_unwanted);
        c.decoder_cfg.path_separators_encoded_unwanted = unw(self.sep_unwanted);
        c.decoder_cfg.utf8_invalid_unwanted = unw(self.utf8_unwanted);
        if all || self.repl != b'?' {
            c.set_bestfit_replacement_byte(self.repl);
        }
        if all || self.dd_path {
            c.set_double_decode_normalized_path(self.dd_path);
        }
        if all || self.dd_query {
            c.set_double_decode_normalized_query(self.dd_query);
        }
        c
    }
    pub fn best(&self, cp: u32) -> u8 {
        let map = if self.own_map { &OWN[..] } else { crate::bestfit::BESTFIT };
        map.binary_search_by_key(&cp, |e| e.0).map_or(self.repl, |i| map[i].1)
    }
}
/// (code point, byte), sorted
pub const OWN: [(u32, u8); 6] = [(0x100, b'Q'), (0x2215, b'%'), (0x3042, b'a'), (0xff0e, b'/'), (0xff0f, b'.'), (0x1f600, b'S')];
fn own_map() -> &'static std::collections::HashMap<u32, u8> {
    static M: std::sync::OnceLock<std::collections::HashMap<u32, u8>> = std::sync::OnceLock::new();
    M.get_or_init(|| OWN.iter().copied().collect())
}

fn hexv(c: u8) -> Option<u32> {
    (c as char).to_digit(16)
}
/// value of a "digit" that need not be one
fn any(c: u8) -> u8 {
    if c >= b'A' {
        (c & 0xdf).wrapping_sub(b'A' - 10)
    } else {
        c.wrapping_sub(b'0')
    }
}
fn pair(a: u8, b: u8) -> u8 {
    (any(a) << 4).wrapping_add(any(b))
}

#[derive(Clone, Copy, PartialEq)]
enum Got {
    /// decoded to this byte, using n bytes after the percent
    Byte(u8, usize),
    /// invalid
    Bad,
    /// leave the percent as an ordinary character
    Plain,
}

struct Pct {
    got: Got,
    /// the pair of bytes of a %u encoding
    u: Option<(u8, u8)>,
    invalid: bool,
}
/// The encoding starting after the '%' at i-1.
fn pct(d: &D, s: &[u8], i: usize) -> Pct {
    let r = &s[i..];
    if r.first().map_or(false, |c| *c == b'u' || *c == b'U') {
        if !d.u_decode {
            return Pct { got: Got::Plain, u: None, invalid: false };
        }
        if r.len() >= 5 {
            let h = &r[1..5];
            let ok = h.iter().all(|c| hexv(*c).is_some());
            if ok || d.inv == Inv::Process {
                let u = (pair(h[0], h[1]), pair(h[2], h[3]));
                let b = if u.0 == 0 { u.1 } else { d.best((u.0 as u32) << 8 | u.1 as u32) };
                return Pct { got: Got::Byte(b, 5), u: Some(u), invalid: !ok };
            }
        }
        return Pct { got: Got::Bad, u: None, invalid: true };
    }
    if r.len() >= 2 {
        let ok = hexv(r[0]).is_some() && hexv(r[1]).is_some();
        if ok || d.inv == Inv::Process {
            return Pct { got: Got::Byte(pair(r[0], r[1]), 2), u: None, invalid: !ok };
        }
    }
    Pct { got: Got::Bad, u: None, invalid: true }
}

pub struct Out {
    pub bytes: Vec<u8>,
    pub flags: u64,
    pub status: i32,
}

/// Decoding of the path, before UTF-8 handling and dot segment removal.
pub fn path_decode(d: &D, s: &[u8]) -> Out {
    let mut o = Out { bytes: vec![], flags: 0, status: 0 };
    let mut i = 0;
    let st = |o: &mut Out, n: i32| {
        if n != 0 {
            o.status = n
        }
    };
    while i < s.len() {
        let mut c = s[i];
        i += 1;
        if c == b'%' {
            let p = pct(d, s, i);
            if p.invalid {
                o.flags |= PATH_INVALID_ENCODING;
                st(&mut o, d.inv_unwanted);
            }
            match p.got {
                Got::Plain => {}
                Got::Bad => {
                    if d.inv == Inv::Remove {
                        continue;
                    }
                }
                Got::Byte(b, n) => {
                    let sep = b == b'/' || (d.backslash && b == b'\\');
                    if let Some((hi, lo)) = p.u {
                        if !p.invalid || hi != 0 {
                            st(&mut o, d.u_unwanted);
                        }
                        if hi == 0 {
                            o.flags |= PATH_OVERLONG_U;
                        } else if hi == 0xff && lo <= 0xef {
                            o.flags |= PATH_HALF_FULL_RANGE;
                        }
                        if sep {
                            o.flags |= PATH_ENCODED_SEPARATOR;
                            st(&mut o, d.sep_unwanted);
                        }
                    }
                    if b == 0 && !p.invalid {
                        o.flags |= PATH_ENCODED_NUL;
                        st(&mut o, d.nul_enc_unwanted);
                        if d.nul_enc_term {
                            break;
                        }
                    }
                    if p.u.is_none() && !p.invalid && sep {
                        o.flags |= PATH_ENCODED_SEPARATOR;
                        st(&mut o, d.sep_unwanted);
                        if d.sep_decode {
                            c = b;
                            i += n;
                        }
                        // otherwise it stays encoded
                    } else {
                        c = b;
                        i += n;
                    }
                }
            }
        } else if c == 0 {
            st(&mut o, d.nul_raw_unwanted);
            if d.nul_raw_term {
                break;
            }
        }
        if c < 0x20 {
            st(&mut o, d.ctl_unwanted);
        }
        if c == b'\\' && d.backslash {
            c = b'/';
        }
        if d.lower {
            c = c.to_ascii_lowercase();
        }
        if c == b'/' && d.compress && o.bytes.last() == Some(&b'/') {
            continue;
        }
        o.bytes.push(c);
    }
    o
}

/// UTF-8 handling of a decoded path: bytes, flags.
pub fn utf8(d: &D, s: &[u8]) -> (Vec<u8>, u64) {
    let mut out = vec![];
    let mut flags = 0;
    let mut valid = false;
    let mut i = 0;
    while i < s.len() {
        let c = s[i];
        let (need, mut cp) = match c {
            0..=0x7f => {
                out.push(c);
                i += 1;
                continue;
            }
            0xc0..=0xdf => (1, c as u32 & 0x1f),
            0xe0..=0xef => (2, c as u32 & 0x0f),
            0xf0..=0xf4 => (3, c as u32 & 0x07),
            _ => {
                flags |= PATH_UTF8_INVALID;
                out.push(d.repl);
                i += 1;
                continue;
            }
        };
        let mut n = 0;
        let mut bad = false;
        while n < need {
            let Some(&k) = s.get(i + 1 + n) else { break };
            let top = match (c, n) {
                (0xed, 0) => 0x9f,
                (0xf4, 0) => 0x8f,
                _ => 0xbf,
            };
            if !(0x80..=top).contains(&k) {
                bad = true;
                break;
            }
            cp = cp << 6 | (k as u32 & 0x3f);
            n += 1;
        }
        i += 1 + n;
        if bad {
            flags |= PATH_UTF8_INVALID;
            out.push(d.repl);
        } else if n < need {
            // cut off by the end of the path
            flags |= PATH_UTF8_INVALID;
            out.extend(std::iter::repeat(d.repl).take(n));
        } else {
            valid = true;
            if cp < [0x80, 0x800, 0x10000][need - 1] {
                flags |= PATH_UTF8_OVERLONG;
            }
            if (0xff00..=0xffef).contains(&cp) {
                flags |= PATH_HALF_FULL_RANGE;
            }
            out.push(if cp < 0x100 { cp as u8 } else { d.best(cp) });
        }
    }
    if valid && flags & PATH_UTF8_INVALID == 0 {
        flags |= PATH_UTF8_VALID;
    }
    (out, flags)
}

/// Dot segment removal; a final dot segment leaves nothing behind.
pub fn dots(s: &[u8]) -> Vec<u8> {
    let abs = s.first() == Some(&b'/');
    let body = if abs { &s[1..] } else { s };
    let mut st: Vec<&[u8]> = vec![];
    for seg in body.split(|c| *c == b'/') {
        if seg == b"." {
        } else if seg == b".." {
            // a relative path may lose its only, empty, segment to no avail: "/" is never crossed
            if abs || !(st.len() == 1 && st[0].is_empty()) {
                st.pop();
            }
        } else {
            st.push(seg);
        }
    }
    let mut o = vec![];
    for (i, seg) in st.iter().enumerate() {
        if abs || i > 0 {
            o.push(b'/');
        }
        o.extend_from_slice(seg);
    }
    o
}

/// The whole path pipeline.
pub fn path(d: &D, s: &[u8]) -> Out {
    let mut o = path_decode(d, s);
    let (b, f) = utf8(d, &o.bytes);
    o.flags |= f;
    if o.flags & PATH_UTF8_INVALID != 0 && d.utf8_unwanted != 0 {
        o.status = d.utf8_unwanted;
    }
    if d.bestfit {
        o.bytes = b;
    }
    o.bytes = dots(&o.bytes);
    o
}

pub const UE_OVERLONG_U: u64 = 1;
pub const UE_INVALID: u64 = 2;
pub const UE_ENC_NUL: u64 = 4;
pub const UE_RAW_NUL: u64 = 8;
pub const UE_HALF_FULL: u64 = 16;

/// Decoding of anything but the path: query, parameters, user name, password, host, fragment.
pub fn decode(d: &D, s: &[u8]) -> Out {
    let mut o = Out { bytes: vec![], flags: 0, status: 0 };
    let mut i = 0;
    while i < s.len() {
        let mut c = s[i];
        i += 1;
        let mut keep = true;
        let mut status = 0;
        if c == b'%' {
            let p = pct(d, s, i);
            if p.invalid {
                o.flags |= UE_INVALID;
                status = d.inv_unwanted;
                // four bytes that are no digits after %u are also a %u encoding
                if status == 0 && s.get(i).map_or(false, |c| c | 32 == b'u') && s.len() - i >= 5 {
                    status = d.u_unwanted;
                }
            }
            match p.got {
                Got::Plain => {}
                Got::Bad => keep = d.inv != Inv::Remove,
                Got::Byte(b, n) => {
                    c = b;
                    i += n;
                    if let Some((hi, lo)) = p.u {
                        if !p.invalid {
                            status = d.u_unwanted;
                        }
                        if hi == 0 {
                            o.flags |= UE_OVERLONG_U;
                        } else if hi == 0xff && lo <= 0xef {
                            o.flags |= UE_HALF_FULL;
                        }
                    }
                    if c == 0 {
                        o.flags |= UE_ENC_NUL;
                        if d.nul_enc_unwanted != 0 {
                            status = d.nul_enc_unwanted;
                        }
                    }
                }
            }
            if status != 0 {
                o.status = status;
            }
            if c == 0 && d.nul_enc_term {
                break;
            }
        } else if c == b'+' && d.plus {
            c = b' ';
        } else if c == 0 {
            o.flags |= UE_RAW_NUL;
            if d.nul_raw_unwanted != 0 {
                o.status = d.nul_raw_unwanted;
            }
            if d.nul_raw_term {
                break;
            }
        }
        if keep {
            o.bytes.push(c);
        }
    }
    o
}

/// name=value pairs of an urlencoded string, decoded.
pub fn params(d: &D, sep: u8, dec: bool, s: &[u8]) -> (Vec<(Vec<u8>, Vec<u8>)>, u64, i32) {
    let mut v = vec![];
    let (mut flags, mut status) = (0, 0);
    for seg in s.split(|c| *c == sep) {
        if seg.is_empty() {
            continue;
        }
        let k = seg.iter().position(|c| *c == b'=').unwrap_or(seg.len());
        let (n, val) = (&seg[..k], &seg[(k + 1).min(seg.len())..]);
        let mut one = |x: &[u8]| {
            if !dec {
                return x.to_vec();
            }
            let o = decode(d, x);
            flags |= o.flags;
            if o.status != 0 {
                status = o.status;
            }
            o.bytes
        };
        let n = one(n);
        let val = one(val);
        v.push((n, val));
    }
    if v.is_empty() && !s.is_empty() {
        v.push((vec![], vec![]));
    }
    (v, flags, status)
}
