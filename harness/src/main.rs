mod bestfit;
mod drive;
mod fw;
mod gen;
mod p_anom;
mod p_capi;
mod p_conv;
mod p_decomp;
mod p_end;
mod p_fault;
mod p_host;
mod p_limit;
mod p_log;
mod p_old;
mod p_req;
mod p_store;
mod p_tunnel;
mod p_uri;
mod p_util;
mod refm;
mod rng;
use drive::*;

#[global_allocator]
static ALLOC: p_limit::Counting = p_limit::Counting;

fn props() -> Vec<fw::Prop> {
    let mut v = vec![];
    v.extend(p_conv::props());
    v.extend(p_decomp::props());
    v.extend(p_uri::props());
    v.extend(p_req::props());
    v.extend(p_host::props());
    v.extend(p_capi::props());
    v.extend(p_tunnel::props());
    v.extend(p_util::props());
    v.extend(p_fault::props());
    v.extend(p_limit::props());
    v.extend(p_log::props());
    v.extend(p_end::props());
    v.extend(p_anom::props());
    v.extend(p_old::props());
    v.extend(p_store::props());
    v
}

fn exp(parts: &[String]) {
    // experiment: args of the form ">bytes" or "<bytes" with \r \n escapes
    let mut ops = vec![];
    for p in parts {
        let b = unesc(&p[1..]);
        match p.as_bytes()[0] {
            b'>' => ops.push(Op::Req(b)),
            b'<' => ops.push(Op::Res(b)),
            b'g' => ops.push(Op::ReqGap(p[1..].parse().unwrap())),
            b'q' => ops.push(Op::ReqClose),
            b'G' => ops.push(Op::ResGap(p[1..].parse().unwrap())),
            _ => ops.push(Op::Close),
        }
    }
    let mut cfg = htp::test::TestConfig();
    let e = std::env::var("EXPCFG").unwrap_or_default();
    cfg.set_tx_auto_destroy(e.contains("destroy"));
    cfg.set_flush_incomplete(e.contains("flush"));
    let r = run(cfg, &ops);
    for e in &r.evs {
        println!("{:?} tx{} {:?} len{} gap{} call{}", e.k, e.tx, e.data.as_ref().map(|d| show(d)), e.len, e.gap, e.call);
    }
    for c in &r.calls {
        println!("{:?}", c);
    }
    for l in &r.logs {
        println!("{:?}", l);
    }
    for t in &r.txs {
        println!("{:?}", t.index);
        println!("msg {} ent {} | {} {} flags {:x} prog {} {}", t.req_message_len, t.req_entity_len, t.res_message_len, t.res_entity_len, t.flags, t.req_progress, t.res_progress);
        if std::env::var_os("FULL").is_some() {
            println!("{:#?}", t);
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let root = std::env::var("MON_ROOT").unwrap_or("/verif".into());
    let rc = match a.first().map(|s| s.as_str()) {
        Some("worker") => fw::worker(&props(), &a[1..]),
        Some("one") => fw::one(&props(), &a[1..]),
        Some("replay") => fw::replay(&props(), &a[1]),
        Some("run") => fw::run_check(&props(), &a[1], a.get(2).and_then(|s| s.parse().ok()), &root),
        Some("min") => {
            // smallest failing input among N cases: min ID SEED N [SIG]
            fw::install_panic_hook();
            let ps = props();
            let p = ps.iter().find(|p| p.id == a[1]).unwrap();
            let (seed, n) = (a[2].parse().unwrap(), a[3].parse().unwrap());
            let mut best: std::collections::BTreeMap<String, (usize, u64, String, String, usize)> = Default::default();
            for k in 0..n {
                let mut ctx = fw::Ctx::new(false);
                fw::run_case(p, &mut ctx, seed, k);
                for f in &ctx.fails {
                    if a.get(4).map_or(true, |s| f.sig.starts_with(s.as_str())) {
                        let e = best.entry(f.sig.clone()).or_insert((usize::MAX, 0, String::new(), String::new(), 0));
                        e.4 += 1;
                        if ctx.input.len() < e.0 {
                            *e = (ctx.input.len(), k, f.msg.clone(), ctx.input.clone(), e.4);
                        }
                    }
                }
            }
            let mut best: Vec<_> = best.into_iter().collect();
            best.sort_by_key(|b| b.1 .0);
            println!("{:?}", best.iter().map(|b| (&b.0, b.1 .4)).collect::<Vec<_>>());
            for (s, (_, k, m, i, n)) in best.into_iter().take(1) {
                println!("== [{}] x{} case {}: {}\n{}", s, n, k, m.chars().take(400).collect::<String>(), i.chars().take(1300).collect::<String>());
            }
            0
        }
        Some("list") => {
            for p in props() {
                println!("{}", p.id);
            }
            0
        }
        Some("exp") => {
            exp(&a[1..]);
            0
        }
        _ => 2,
    };
    std::process::exit(rc);
}
fn unesc(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 1 < b.len() {
            match b[i + 1] {
                b'r' => o.push(13),
                b'n' => o.push(10),
                b'x' => {
                    o.push(u8::from_str_radix(&s[i + 2..i + 4], 16).unwrap());
                    i += 2;
                }
                c => o.push(c),
            }
            i += 2;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}
