//! C16: string, table and number primitives against executable specifications.
use crate::drive::show;
use crate::fw::*;
use crate::rng::Rng;
use htp::bstr::Bstr;
use htp::parsers::*;
use htp::table::Table;
use htp::transaction::{Header, Headers, HtpResponseNumber};
use htp::util::*;
use std::cmp::Ordering;

const ALPHAS: [&[u8]; 8] = [b"aA\xc3\xa9\x89\xa0\xc2\x85", b"aA \x0b\x0c\t\xe3\x80\0", b"aAbB\0", b"aAbBcC \t\0", b"ab", b"aA\0z{@[`\x7f\xc1\xe1", b"xX\0\0", b"Content-Lhgt \0"];

fn text(rng: &mut Rng, al: &[u8], hi: usize) -> Vec<u8> {
    if rng.chance(1, 300) {
        let n = *rng.pick(&[17usize, 33, 65, 129, 257, 300, 520]);
        return rng.word(al, n - 2, n);
    }
    if rng.chance(1, 12) {
        let n = rng.below(hi + 1);
        return rng.bytes(n);
    }
    rng.word(al, 0, hi)
}
fn low(b: &[u8]) -> Vec<u8> {
    b.iter().map(|c| if (b'A'..=b'Z').contains(c) { c + 32 } else { *c }).collect()
}
fn nozero(b: &[u8]) -> Vec<u8> {
    b.iter().copied().filter(|c| *c != 0).collect()
}
fn ord(a: &[u8], b: &[u8]) -> Ordering {
    for i in 0..a.len().max(b.len()) {
        match (a.get(i), b.get(i)) {
            (None, _) => return Ordering::Less,
            (_, None) => return Ordering::Greater,
            (Some(x), Some(y)) if x != y => return if x < y { Ordering::Less } else { Ordering::Greater },
            _ => {}
        }
    }
    Ordering::Equal
}
/// white space on which all definitions used by the crate agree
fn ws(c: u8) -> bool {
    matches!(c, b' ' | b'\t' | b'\r' | b'\n' | 0x0c)
}
fn strip(b: &[u8], f: impl Fn(u8) -> bool) -> &[u8] {
    let s = b.iter().position(|c| !f(*c)).unwrap_or(b.len());
    let e = b.iter().rposition(|c| !f(*c)).map_or(s, |x| x + 1);
    &b[s..e]
}
fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    (0..=h.len()).find(|i| h[*i..].starts_with(n))
}

fn strings(ctx: &mut Ctx, rng: &mut Rng) {
    let al = *rng.pick(&ALPHAS);
    let h = text(rng, al, 14);
    let mut n = text(rng, al, 5);
    if rng.chance(1, 3) && !h.is_empty() {
        // a part of the other one, in another case
        let a = rng.below(h.len());
        let (a, e) = if rng.chance(1, 4) { (0, h.len()) } else { (a, rng.range(a, h.len())) };
        n = h[a..e].to_vec();
        if n.len() > 1 && rng.chance(1, 5) {
            // all but its end
            let i = n.len() - 1 - rng.below(2);
            n[i] = *rng.pick(al);
        }
        ctx.obs("strings longer than 64 bytes that begin alike", (n.len() > 64 && a == 0) as u64);
        if rng.flip() {
            n = nozero(&n);
        }
        for c in n.iter_mut() {
            if rng.flip() {
                *c = if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
            }
        }
    }
    ctx.input = format!("\"{}\" and \"{}\"", show(&h), show(&n));
    ctx.seen(ctx.input.clone().as_bytes());
    let b = Bstr::from(&h[..]);
    let (lh, ln) = (low(&h), low(&n));
    ctx.eq(&b.cmp_slice(&n), &ord(&h, &n), "cmp", "cmp_slice");
    ctx.eq(&b.eq_slice(&n), &(h == n), "cmp", "eq_slice");
    ctx.eq(&b.cmp_nocase(&n), &ord(&lh, &ln), "cmp-nocase", "cmp_nocase");
    ctx.eq(&b.eq_nocase(&n), &(lh == ln), "cmp-nocase", "eq_nocase");
    ctx.eq(&b.cmp_nocase_nozero(&n), &ord(&nozero(&lh), &ln), "cmp-nozero", "cmp_nocase_nozero");
    ctx.eq(&b.eq_nocase_nozero(&n), &(nozero(&lh) == ln), "cmp-nozero", "eq_nocase_nozero");
    let edge = |c: Option<&u8>| c.map_or(false, |c| *c == 0x0b || *c >= 0x80 || (0x1c..=0x1f).contains(c));
    let t = strip(&h, ws);
    ctx.eq(&b.cmp_nocase_trimmed(&n), &ord(&low(t), &ln), "cmp-trimmed", "cmp_nocase_trimmed");
    if !edge(t.first()) && !edge(t.last()) {
        ctx.eq(&b.cmp_nocase_nozero_trimmed(&n), &ord(&nozero(&low(t)), &ln), "cmp-trimmed", "cmp_nocase_nozero_trimmed");
    }
    ctx.eq(&b.starts_with(&n), &h.starts_with(&n), "starts", "starts_with");
    ctx.eq(&b.starts_with_nocase(&n), &lh.starts_with(&ln), "starts", "starts_with_nocase");
    ctx.eq(&b.index_of(&n), &find(&h, &n), "index", "index_of");
    if !n.is_empty() {
        ctx.eq(&b.index_of_nocase(&n), &find(&lh, &ln), "index-nocase", "index_of_nocase");
        let w = (0..lh.len()).find(|i| lh[*i] != 0 && nozero(&lh[*i..]).starts_with(&ln));
        ctx.eq(&b.index_of_nocase_nozero(&n), &w, "index-nozero", "index_of_nocase_nozero");
        ctx.obs("needles found", w.is_some() as u64);
    }
    let mut x = b.clone();
    x.add(&n);
    ctx.eqb(x.as_slice(), &[&h[..], &n].concat(), "add", "add");
    let cap = h.len() + rng.below(6);
    let mut x = Bstr::with_capacity(cap);
    x.add(&h);
    let cap = x.capacity();
    x.add_noex(&n);
    let k = n.len().min(cap - h.len());
    ctx.eqb(x.as_slice(), &[&h[..], &n[..k]].concat(), "add-noex", "add_noex");
    ctx.check(x.capacity() == cap, "add-noex", || "add_noex grew the string".into());
    // helpers over slices
    let crlf = text(rng, b"\r\na \t\x0b\x0c\0", 10);
    ctx.input = format!("\"{}\"", show(&crlf));
    let mut e = crlf.len();
    while e > 0 && (crlf[e - 1] == 13 || crlf[e - 1] == 10) {
        e -= 1;
    }
    ctx.eqb(chomp(&crlf), &crlf[..e], "chomp", "chomp");
    let sp = |c: u8| matches!(c, 9..=13 | 32);
    ctx.eqb(trimmed(&crlf), strip(&crlf, sp), "trim", "trimmed");
    let lf = crlf.iter().position(|c| *c == b'\n');
    match (take_till_lf(&crlf), lf) {
        (Ok((r, l)), Some(i)) => {
            ctx.eqb(l, &crlf[..i + 1], "line", "line");
            ctx.eqb(r, &crlf[i + 1..], "line", "rest");
        }
        (Err(_), None) => ctx.evaluations += 1,
        (g, w) => ctx.fail("line", format!("take_till_lf: {:?}, LF at {:?}", g.is_ok(), w)),
    }
    let z = crlf.iter().position(|c| *c == b'\n' || *c == 0);
    match (take_till_lf_null(&crlf), z) {
        (Ok((r, l)), Some(i)) => {
            ctx.eqb(l, &crlf[..i + 1], "line", "line");
            ctx.eqb(r, &crlf[i + 1..], "line", "rest");
        }
        (Err(_), None) => ctx.evaluations += 1,
        (g, w) => ctx.fail("line", format!("take_till_lf_null: {:?}, LF or NUL at {:?}", g.is_ok(), w)),
    }
    let d = text(rng, b"ab :;\t", 10);
    ctx.input = format!("\"{}\"", show(&d));
    for rev in [false, true] {
        for tr in [false, true] {
            let at = if rev { d.iter().rposition(|c| *c == b':') } else { d.iter().position(|c| *c == b':') };
            let (mut a, mut b): (&[u8], &[u8]) = at.map_or((&d[..], &b""[..]), |i| (&d[..i], &d[i + 1..]));
            if tr {
                a = strip(a, sp);
                b = strip(b, sp);
            }
            let g = split_on_predicate(&d, rev, tr, |c| *c == b':');
            ctx.eqb(g.0, a, "split", "first half");
            ctx.eqb(g.1, b, "split", "second half");
        }
    }
    ctx.obs("string pairs", 1);
}

fn tables(ctx: &mut Ctx, rng: &mut Rng) {
    let al: &[u8] = b"aAbB-\0";
    let n = rng.below(7);
    let mut t: Table<usize> = Table::with_capacity(rng.below(4));
    let mut hs = Headers::with_capacity(rng.below(4));
    let mut names = vec![];
    for i in 0..n {
        let mut k = rng.word(al, 0, 3);
        if rng.chance(1, 5) {
            k.insert(0, b' ');
        }
        if rng.chance(1, 5) {
            k.push(b'\t');
        }
        t.add(Bstr::from(&k[..]), i);
        hs.elements.push(Header::new(Bstr::from(&k[..]), Bstr::from(format!("{}", i).as_str())));
        names.push(k);
    }
    let q = rng.word(b"aAbB-", 0, 3);
    ctx.input = format!("{:?} look up \"{}\"", names.iter().map(|n| show(n)).collect::<Vec<_>>(), show(&q));
    ctx.seen(ctx.input.clone().as_bytes());
    let plain = names.iter().position(|k| low(strip(k, ws)) == low(&q));
    let noz = names.iter().position(|k| nozero(&low(strip(k, ws))) == low(&q));
    ctx.eq(&t.size(), &n, "table", "size");
    ctx.eq(&t.get_nocase(&q).map(|x| x.1), &plain, "table", "Table::get_nocase");
    let v = |h: Option<&Header>| h.map(|h| String::from_utf8_lossy(h.value.as_slice()).parse::<usize>().unwrap());
    ctx.eq(&hs.size(), &n, "headers", "size");
    ctx.eq(&v(hs.get_nocase(&q)), &plain, "headers", "Headers::get_nocase");
    ctx.eq(&v(hs.get_nocase_nozero(&q)), &noz, "headers", "Headers::get_nocase_nozero");
    let mut h2 = hs.clone();
    ctx.eq(&v(h2.get_nocase_mut(&q).map(|x| &*x)), &plain, "headers", "Headers::get_nocase_mut");
    ctx.eq(&v(h2.get_nocase_nozero_mut(&q).map(|x| &*x)), &noz, "headers", "Headers::get_nocase_nozero_mut");
    for i in 0..n + 1 {
        ctx.eq(&t.get(i).map(|x| x.1), &(if i < n { Some(i) } else { None }), "table", "Table::get");
    }
    ctx.obs("tables", 1);
    ctx.obs("table hits", noz.is_some() as u64);
}

/// first run of digits, as a number
fn decimal(d: &[u8]) -> Option<u128> {
    let mut n: u128 = 0;
    for c in d {
        n = n * 10 + (*c - b'0') as u128;
        if n > 1 << 100 {
            return Some(n);
        }
    }
    Some(n)
}
fn number(rng: &mut Rng) -> Vec<u8> {
    let s = match rng.below(8) {
        0 => rng.below(10).to_string(),
        1 => rng.below(1000).to_string(),
        2 => (u64::MAX as u128 - 3 + rng.below(7) as u128).to_string(),
        3 => (i32::MAX as u64 - 3 + rng.below(7) as u64).to_string(),
        4 => (65533 + rng.below(6)).to_string(),
        5 => rng.next().to_string(),
        6 => format!("{:0>30}", rng.below(100)),
        _ => (0..rng.range(1, 45)).map(|_| (b'0' + rng.below(10) as u8) as char).collect(),
    };
    s.into_bytes()
}
fn dress(rng: &mut Rng, n: Vec<u8>, junk: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    if rng.chance(1, 3) {
        v.extend(rng.word(b" \t\r\n\x0b\x0c", 0, 3));
    }
    if rng.chance(1, 5) {
        v.extend(rng.word(junk, 1, 3));
    }
    if !rng.chance(1, 15) {
        v.extend(n);
    }
    if rng.chance(1, 3) {
        v.extend(rng.word(b" \t\r\n\x0b\x0c", 0, 3));
    }
    if rng.chance(1, 5) {
        v.extend(rng.word(junk, 1, 4));
    }
    v
}

fn numbers(ctx: &mut Ctx, rng: &mut Rng) {
    // Content-Length
    let n = number(rng);
    let i = dress(rng, n, b"-+.,;xaF$ \t0\0\xff");
    ctx.input = format!("parse_content_length \"{}\"", show(&i));
    ctx.seen(ctx.input.clone().as_bytes());
    let s = i.iter().position(|c| c.is_ascii_digit());
    let want = s.and_then(|s| {
        let e = s + i[s..].iter().take_while(|c| c.is_ascii_digit()).count();
        decimal(&i[s..e]).and_then(|n| u64::try_from(n).ok())
    });
    ctx.eq(&parse_content_length(&i, None), &want, "content-length", "content length");
    ctx.obs("lengths beyond 64 bits", (s.is_some() && want.is_none()) as u64);
    ctx.obs("content lengths", want.is_some() as u64);

    // chunk length
    let x = match rng.below(6) {
        0 => format!("{:x}", rng.below(20)),
        1 => format!("{:X}", rng.below(100000)),
        2 => format!("{:x}", i32::MAX as u64 - 2 + rng.below(5) as u64),
        3 => format!("{:016x}", rng.below(5000)),
        4 => format!("{:x}", rng.next()),
        _ => format!("{:0>20}{:x}", "", rng.below(100)),
    };
    let i = dress(rng, x.into_bytes(), b";;=\"gxz-+ \t,\0");
    ctx.input = format!("parse_chunked_length \"{}\"", show(&i));
    let ctl = |c: u8| matches!(c, 9..=13 | 32);
    let s = i.iter().position(|c| !ctl(*c)).unwrap_or(i.len());
    let e = s + i[s..].iter().take_while(|c| c.is_ascii_hexdigit()).count();
    let t = e + i[e..].iter().take_while(|c| ctl(**c)).count();
    let hex = i[s..e].iter().fold(0u128, |a, c| if a > 1 << 90 { a } else { a * 16 + (*c as char).to_digit(16).unwrap() as u128 });
    let want = if s == e && t == i.len() {
        Ok((None, false))
    } else if s == e || hex > u64::MAX as u128 {
        Err(())
    } else if hex > i32::MAX as u128 {
        Ok((None, false))
    } else {
        Ok((Some(hex as u64), i[t..].contains(&b';')))
    };
    ctx.eq(&parse_chunked_length(&i).map_err(|_| ()), &want, "chunk-length", "chunk length");
    ctx.obs("chunk lengths", matches!(want, Ok((Some(_), _))) as u64);
    ctx.eq(&is_chunked_ctl_line(&i), &i.iter().all(|c| ctl(*c)), "chunk-ctl", "is_chunked_ctl_line");

    // status
    let n = if rng.flip() { rng.range(0, 1100).to_string().into_bytes() } else { number(rng) };
    let i = dress(rng, n, b"-+xa0");
    ctx.input = format!("parse_status \"{}\"", show(&i));
    let d = strip(&i, |c| c == b' ' || c == 9);
    let want = if !d.is_empty() && d.iter().all(|c| c.is_ascii_digit()) {
        match decimal(d) {
            Some(n) if (100..=999).contains(&n) => HtpResponseNumber::VALID(n as u16),
            _ => HtpResponseNumber::INVALID,
        }
    } else {
        HtpResponseNumber::INVALID
    };
    ctx.eq(&parse_status(&i), &want, "status", "status");
    ctx.obs("valid status numbers", (want != HtpResponseNumber::INVALID) as u64);
    if let HtpResponseNumber::VALID(v) = want {
        let (a, b) = (rng.range(90, 1000) as u16, rng.range(90, 1000) as u16);
        ctx.eq(&want.in_range(a, b), &(a <= v && v <= b), "status", "in_range");
        ctx.eq(&want.eq_num(a), &(a == v), "status", "eq_num");
    }

    // port
    let n = number(rng);
    let i = if rng.chance(1, 3) { dress(rng, n, b"+-a") } else { n };
    ctx.input = format!("convert_port \"{}\"", show(&i));
    let want = if !i.is_empty() && i.iter().all(|c| c.is_ascii_digit()) {
        decimal(&i).filter(|n| (1..=65535).contains(n)).map(|n| n as u16)
    } else {
        None
    };
    ctx.eq(&convert_port(&i), &want, "port", "port");
    ctx.obs("valid ports", want.is_some() as u64);

    // content type
    let i = text(rng, b"aZ/; ,=-+.", 20);
    ctx.input = format!("parse_content_type \"{}\"", show(&i));
    let b = i.iter().position(|c| !ws(*c)).unwrap_or(i.len());
    let e = b + i[b..].iter().position(|c| matches!(c, b';' | b',' | b' ')).unwrap_or(i.len() - b);
    if e > b {
        ctx.eq(&parse_content_type(&i).ok().map(|b| b.as_slice().to_vec()), &Some(low(&i[b..e])), "content-type", "content type");
        ctx.obs("content types", 1);
    }

    // host names
    let mut i = vec![];
    for k in 0..rng.range(1, 5) {
        if k > 0 {
            i.push(b'.');
        }
        let n = if rng.chance(1, 20) { rng.range(60, 66) } else { rng.range(0, 8) };
        let n = if rng.chance(5, 6) { n.max(1) } else { n };
        i.extend(rng.word(b"abcXYZ019-_", n, n));
    }
    if rng.chance(1, 8) {
        let at = rng.below(i.len() + 1);
        i.insert(at, *rng.pick(b" !/@:$%\0"));
    }
    if rng.chance(1, 20) {
        let n = *rng.pick(&[254usize, 255, 256, 257]);
        i = (0..n).map(|k| if k % 50 == 49 { b'.' } else { b'a' }).collect();
    }
    ctx.input = format!("validate_hostname \"{}\"", show(&i));
    let labels: Vec<&[u8]> = i.split(|c| *c == b'.').collect();
    let nl = labels.len();
    let want = !i.is_empty()
        && i.len() <= 255
        && labels.iter().enumerate().all(|(k, l)| (!l.is_empty() || (k > 0 && k + 1 == nl)) && l.len() <= 63 && l.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'-' || *c == b'_'));
    ctx.eq(&validate_hostname(&i), &want, "hostname", "validity of the host name");
    ctx.obs("valid host names", want as u64);
    ctx.obs("invalid host names", !want as u64);

    // is this body or a status line?
    let mut i = rng.word(b" \t\0\r\n\x0b\x0c", 0, 3);
    i.extend_from_slice(rng.pick::<&[u8]>(&[b"HTTP/1.1", b"http", b"HtTp", b"HTT", b"TTP", b"x", b"", b"HTTP"]));
    let k = i.iter().position(|c| !(ctl(*c) || *c == 0)).unwrap_or(i.len());
    ctx.input = format!("treat_response_line_as_body \"{}\"", show(&i));
    ctx.eq(&treat_response_line_as_body(&i), &!low(&i[k..]).starts_with(b"http"), "response-line", "treated as body");
}

fn chars(ctx: &mut Ctx) {
    // every byte
    for c in 0..=255u8 {
        ctx.input = format!("byte {:02x}", c);
        let sep = b"()<>@,;:\\\"/[]?={} \t".contains(&c);
        ctx.eq(&is_token(c), &(c > 31 && c < 127 && !sep), "token", "is_token");
        ctx.eq(&is_space(c), &matches!(c, 9..=13 | 32), "space", "is_space");
    }
}

fn case(ctx: &mut Ctx, rng: &mut Rng) {
    match ctx.case % 3 {
        0 => strings(ctx, rng),
        1 => numbers(ctx, rng),
        _ => tables(ctx, rng),
    }
    if ctx.case % 5000 == 0 {
        chars(ctx);
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C16",
        case,
        quick: 6_000_000,
        thorough: 60_000_000,
        rule: "hash of the operands of the primitive",
        need: &["strings longer than 64 bytes that begin alike", "string pairs", "needles found", "tables", "table hits", "content lengths", "lengths beyond 64 bits", "chunk lengths", "valid status numbers", "valid ports", "valid host names", "invalid host names", "content types"],
        assumptions: &["an empty needle is not searched for without case (what that means is not specified)"],
        mem: 0, asan: &[],
    }]
}
