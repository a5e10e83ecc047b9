//! Case runner: worker processes, crash / hang detection, replay files, evidence.
use crate::rng::{hash_bytes, mix, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::{Read, Seek, SeekFrom, Write};
use std::panic::AssertUnwindSafe;
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub case: fn(&mut Ctx, &mut Rng),
    pub quick: u64,
    pub thorough: u64,
    /// what makes an observed execution count as a distinct non-trivial one
    pub rule: &'static str,
    /// counters that must be non-zero for the run to mean anything
    pub need: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    /// memory cap of a worker in bytes (0: the default)
    pub mem: u64,
    /// workloads (property, cases in the quick tier) that are also run under the address sanitizer
    pub asan: &'static [(&'static str, u64)],
}

pub struct Fail {
    pub sig: String,
    pub msg: String,
}

pub struct Ctx {
    pub thorough: bool,
    pub case: u64,
    pub stats: BTreeMap<String, u64>,
    pub hashes: HashSet<u64>,
    pub samples: Vec<String>,
    pub fails: Vec<Fail>,
    pub evaluations: u64,
    pub verbose: bool,
    /// description of the input of the case being run: shown when it fails
    pub input: String,
}

impl Ctx {
    pub fn new(thorough: bool) -> Self {
        Ctx {
            thorough,
            case: 0,
            stats: BTreeMap::new(),
            hashes: HashSet::new(),
            samples: vec![],
            fails: vec![],
            evaluations: 0,
            verbose: false,
            input: String::new(),
        }
    }
    pub fn obs(&mut self, what: &str, n: u64) {
        if n > 0 {
            if let Some(x) = self.stats.get_mut(what) {
                *x += n;
            } else {
                self.stats.insert(what.to_string(), n);
            }
        }
    }
    pub fn seen(&mut self, b: &[u8]) {
        if self.hashes.len() < 400_000 {
            self.hashes.insert(hash_bytes(b));
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 4 {
            let s = f();
            self.samples.push(s);
        }
    }
    pub fn fail(&mut self, sig: &str, msg: String) {
        self.fails.push(Fail { sig: sig.into(), msg });
    }
    /// assertion helper: one oracle evaluation
    pub fn check(&mut self, ok: bool, sig: &str, msg: impl FnOnce() -> String) -> bool {
        self.evaluations += 1;
        if !ok {
            let m = msg();
            self.fail(sig, m);
        }
        ok
    }
    pub fn eq<T: PartialEq + std::fmt::Debug>(&mut self, got: &T, want: &T, sig: &str, what: &str) -> bool {
        self.evaluations += 1;
        if got != want {
            let m = format!("{}: got {} want {}", what, dbg_short(got), dbg_short(want));
            self.fail(sig, m);
            return false;
        }
        true
    }
    pub fn eqb(&mut self, got: &[u8], want: &[u8], sig: &str, what: &str) -> bool {
        self.evaluations += 1;
        if got != want {
            let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
            let lo = at.saturating_sub(40);
            let cut = |b: &[u8]| crate::drive::show(&b[lo.min(b.len())..(at + 60).min(b.len())]);
            let m = format!(
                "{}: got {} bytes, want {}; first difference at {}: got \"..{}..\" want \"..{}..\"",
                what,
                got.len(),
                want.len(),
                at,
                cut(got),
                cut(want)
            );
            self.fail(sig, m);
            return false;
        }
        true
    }
}
pub fn dbg_short<T: std::fmt::Debug>(t: &T) -> String {
    let s = format!("{:?}", t);
    if s.len() > 600 {
        format!("{}...", s.chars().take(600).collect::<String>())
    } else {
        s
    }
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        PANIC.with(|p| *p.borrow_mut() = Some(format!("panic at {}: {}", loc, m)));
    }));
}

pub fn case_seed(seed: u64, id: &str, k: u64) -> u64 {
    mix(mix(seed) ^ hash_bytes(id.as_bytes()) ^ k.wrapping_mul(0x9e3779b97f4a7c15))
}

/// Runs one case; a panic of the code under test is a failure of the case.
pub fn run_case(p: &Prop, ctx: &mut Ctx, seed: u64, k: u64) {
    ctx.case = k;
    ctx.input.clear();
    let mut rng = Rng::new(case_seed(seed, p.id, k));
    PANIC.with(|p| *p.borrow_mut() = None);
    let r = std::panic::catch_unwind(AssertUnwindSafe(|| (p.case)(ctx, &mut rng)));
    crate::drive::rec_reset();
    if r.is_err() {
        let m = PANIC.with(|p| p.borrow_mut().take()).unwrap_or("panic".into());
        let ours = m.contains("panic at src/") && !m.contains("/repo/");
        let sig = if ours { "harness-panic" } else { "panic" };
        ctx.fail(sig, m);
    }
}

fn set_cpu_limit(secs: u64) {
    unsafe {
        let t = libc::itimerval {
            it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
            it_value: libc::timeval { tv_sec: secs as _, tv_usec: 0 },
        };
        libc::setitimer(libc::ITIMER_VIRTUAL, &t, std::ptr::null_mut());
    }
}
pub const CPU_PER_CASE: u64 = 40;

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

/// mon worker ID TIER SEED START STEP END DIR SECS
pub fn worker(props: &[Prop], a: &[String]) -> i32 {
    let p = props.iter().find(|p| p.id == a[0]).expect("property");
    let thorough = a[1] == "thorough";
    let seed: u64 = a[2].parse().unwrap();
    let start: u64 = a[3].parse().unwrap();
    let step: u64 = a[4].parse().unwrap();
    let end: u64 = a[5].parse().unwrap();
    let dir = &a[6];
    let secs: u64 = a[7].parse().unwrap();
    let widx = start % step;
    install_panic_hook();
    if std::env::var_os("MON_ASAN").is_none() {
        // a runaway allocation of the code under test ends the worker, not the sandbox
        let m = if p.mem > 0 { p.mem } else { 3 << 30 };
        unsafe {
            let l = libc::rlimit { rlim_cur: m, rlim_max: m };
            libc::setrlimit(libc::RLIMIT_AS, &l);
        }
    }
    let t0 = Instant::now();
    let mut cur = std::fs::OpenOptions::new()
        .create(true)
        .write(true)
        .open(format!("{}/cur.{}", dir, widx))
        .unwrap();
    let mut ctx = Ctx::new(thorough);
    let mut out = String::new();
    let mut k = start;
    let mut cases = 0u64;
    let mut nfail = 0;
    let mut sigs = BTreeSet::new();
    while k < end {
        cur.seek(SeekFrom::Start(0)).unwrap();
        cur.write_all(&k.to_le_bytes()).unwrap();
        set_cpu_limit(CPU_PER_CASE);
        run_case(p, &mut ctx, seed, k);
        cases += 1;
        for f in std::mem::take(&mut ctx.fails) {
            if sigs.insert(f.sig.clone()) {
                out.push_str(&format!(
                    "F\t{}\t{}\t{}\t{}\n",
                    k,
                    f.sig,
                    esc(&f.msg),
                    esc(&ctx.input)
                ));
                nfail += 1;
            }
        }
        if nfail >= 6 {
            break;
        }
        k += step;
        if cases % 16 == 0 && t0.elapsed().as_secs() >= secs {
            break;
        }
    }
    set_cpu_limit(0);
    out.push_str(&format!("C\t{}\t{}\n", cases, ctx.evaluations));
    for (s, n) in &ctx.stats {
        out.push_str(&format!("S\t{}\t{}\n", s, n));
    }
    for s in &ctx.samples {
        out.push_str(&format!("M\t{}\n", esc(s)));
    }
    let mut hb = Vec::with_capacity(ctx.hashes.len() * 8);
    for h in &ctx.hashes {
        hb.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(format!("{}/hash.{}.{}", dir, widx, start), hb).unwrap();
    std::fs::write(format!("{}/out.{}.{}", dir, widx, start), out).unwrap();
    0
}

pub struct Known {
    pub prop: String,
    pub sig: String,
    pub text: String,
}
/// known-findings.txt: "finding: property=<id> sig=<signature> <text>" lines count; "fixed:" lines suppress nothing.
pub fn known(path: &str) -> Vec<Known> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(path) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("finding: property=") {
                let mut it = r.splitn(3, ' ');
                let prop = it.next().unwrap_or("").to_string();
                let sig = it.next().unwrap_or("").trim_start_matches("sig=").to_string();
                v.push(Known { prop, sig, text: it.next().unwrap_or("").to_string() });
            }
        }
    }
    v
}

struct W {
    child: std::process::Child,
    start: u64,
    widx: u64,
    restarts: u32,
}

/// Options of the address sanitizer for a process that runs cases.
fn sanitized(c: &mut std::process::Command) -> &mut std::process::Command {
    c.env("MON_ASAN", "1").env(
        "ASAN_OPTIONS",
        "detect_leaks=0:exitcode=99:quarantine_size_mb=64:hard_rss_limit_mb=3500:detect_stack_use_after_return=1:strict_string_checks=1",
    )
}
fn command(exe: &std::path::Path, asan: bool) -> std::process::Command {
    let mut c = std::process::Command::new(exe);
    if asan {
        sanitized(&mut c);
    }
    c
}

#[allow(clippy::too_many_arguments)]
fn spawn(asan: bool, exe: &std::path::Path, id: &str, tier: &str, seed: u64, start: u64, step: u64, end: u64, dir: &str, secs: u64) -> std::process::Child {
    command(exe, asan)
        .args([
            "worker", id, tier, &seed.to_string(), &start.to_string(), &step.to_string(), &end.to_string(), dir,
            &secs.to_string(),
        ])
        .stdout(std::process::Stdio::null())
        .stderr(std::fs::File::create(format!("{}/err.{}", dir, start % step)).unwrap())
        .spawn()
        .unwrap()
}

/// Runs one case in a process of its own; (description of the abnormal end, stderr tail) if it died.
fn confirm(asan: bool, exe: &std::path::Path, id: &str, tier: &str, seed: u64, k: u64) -> Option<String> {
    use std::os::unix::process::ExitStatusExt;
    let o = command(exe, asan).args(["one", id, tier, &seed.to_string(), &k.to_string()]).output().ok()?;
    let tail = |b: &[u8]| {
        let s = String::from_utf8_lossy(b).to_string();
        let n = s.len().saturating_sub(3000);
        let mut n2 = n;
        while !s.is_char_boundary(n2) {
            n2 += 1;
        }
        s[n2..].to_string()
    };
    if let Some(sig) = o.status.signal() {
        if sig == libc::SIGKILL {
            return None; // killed from outside: not a verdict
        }
        let what = if sig == libc::SIGVTALRM {
            format!("no return after {} s of CPU time", CPU_PER_CASE)
        } else {
            format!("died of signal {}", sig)
        };
        return Some(format!("{}\n{}", what, tail(&o.stderr)));
    }
    match o.status.code() {
        Some(0) | Some(1) => None,
        c => Some(format!("exit {:?}\n{}", c, tail(&o.stderr))),
    }
}

pub struct Outcome {
    pub evaluations: u64,
    pub cases: u64,
    pub distinct: usize,
    pub stats: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    /// (case, sig, msg, input, workload)
    pub fails: Vec<(u64, String, String, String, String)>,
    pub inconclusive: Vec<String>,
}

pub fn drive_workers(p: &Prop, tier: &str, seed: u64, cases: u64, secs: u64, asan: Option<&std::path::Path>) -> Outcome {
    use std::os::unix::process::ExitStatusExt;
    let exe = asan.map(|a| a.to_path_buf()).unwrap_or_else(|| std::env::current_exe().unwrap());
    let san = asan.is_some();
    let dir = format!("{}/mon-{}-{}", std::env::temp_dir().display(), p.id, std::process::id());
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let n = std::env::var("MON_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8u64);
    let t0 = Instant::now();
    let mut ws: Vec<W> = (0..n)
        .map(|i| W { child: spawn(san, &exe, p.id, tier, seed, i, n, cases, &dir, secs), start: i, widx: i, restarts: 0 })
        .collect();
    let mut fails: Vec<(u64, String, String, String, String)> = vec![];
    let mut inconclusive = vec![];
    while !ws.is_empty() {
        std::thread::sleep(Duration::from_millis(20));
        let mut i = 0;
        while i < ws.len() {
            match ws[i].child.try_wait().unwrap() {
                None => {
                    if t0.elapsed().as_secs() > secs + 120 {
                        let _ = ws[i].child.kill();
                        let _ = ws[i].child.wait();
                        inconclusive.push(format!("worker {} exceeded the wall-clock budget", ws[i].widx));
                        ws.remove(i);
                        continue;
                    }
                    i += 1;
                }
                Some(st) => {
                    let w = ws.remove(i);
                    if st.success() {
                        continue;
                    }
                    // abnormal end: which case?
                    let mut b = [0u8; 8];
                    let ok = std::fs::File::open(format!("{}/cur.{}", dir, w.widx))
                        .and_then(|mut f| f.read_exact(&mut b))
                        .is_ok();
                    if !ok {
                        inconclusive.push(format!("worker {} ended ({:?}) before its first case", w.widx, st));
                        continue;
                    }
                    let k = u64::from_le_bytes(b);
                    match confirm(san, &exe, p.id, tier, seed, k) {
                        Some(d) => {
                            let sig = if d.starts_with("no return") { "hang" } else { "crash" };
                            fails.push((k, sig.into(), d, String::new(), String::new()));
                        }
                        // a wild access may depend on the state of the heap the earlier cases left
                        None if matches!(st.signal(), Some(libc::SIGSEGV) | Some(libc::SIGBUS) | Some(libc::SIGILL)) || san && st.code() == Some(99) => {
                            let e = std::fs::read_to_string(format!("{}/err.{}", dir, w.widx)).unwrap_or_default();
                            fails.push((k, "crash".into(), format!("worker died ({:?}), not reproduced by the case alone\n{}", st, e.chars().take(3000).collect::<String>()), String::new(), String::new()));
                        }
                        None => inconclusive.push(format!(
                            "worker {} ended abnormally ({:?}) at case {}, which does not reproduce it",
                            w.widx,
                            st.signal(),
                            k
                        )),
                    }
                    let secs_left = secs.saturating_sub(t0.elapsed().as_secs());
                    if w.restarts < 3 && secs_left > 0 && k + n < cases {
                        let _ = w.start;
                        ws.push(W {
                            child: spawn(san, &exe, p.id, tier, seed, k + n, n, cases, &dir, secs_left),
                            start: k + n,
                            widx: w.widx,
                            restarts: w.restarts + 1,
                        });
                    }
                }
            }
        }
    }
    let mut o = Outcome {
        evaluations: 0,
        cases: 0,
        distinct: 0,
        stats: BTreeMap::new(),
        samples: vec![],
        fails,
        inconclusive,
    };
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut names: Vec<_> = std::fs::read_dir(&dir).unwrap().flatten().map(|e| e.path()).collect();
    names.sort();
    for f in names {
        let n = f.file_name().unwrap().to_string_lossy().to_string();
        if n.starts_with("hash.") {
            for c in std::fs::read(&f).unwrap().chunks_exact(8) {
                hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        } else if n.starts_with("out.") {
            for l in std::fs::read_to_string(&f).unwrap().lines() {
                let v: Vec<&str> = l.split('\t').collect();
                match v[0] {
                    "F" => o.fails.push((v[1].parse().unwrap(), v[2].into(), v[3].into(), v[4].into(), String::new())),
                    "C" => {
                        o.cases += v[1].parse::<u64>().unwrap();
                        o.evaluations += v[2].parse::<u64>().unwrap();
                    }
                    "S" => *o.stats.entry(v[1].into()).or_insert(0) += v[2].parse::<u64>().unwrap(),
                    "M" => {
                        if o.samples.len() < 6 {
                            o.samples.push(v[1].into())
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    o.distinct = hashes.len();
    o.fails.sort();
    let _ = std::fs::remove_dir_all(&dir);
    o
}

/// mon run ID [cases] : the check. Exit code.
pub fn run_check(props: &[Prop], id: &str, cases_override: Option<u64>, root: &str) -> i32 {
    let Some(p) = props.iter().find(|p| p.id == id) else {
        eprintln!("unknown property {}", id);
        return 2;
    };
    let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = tier == "thorough";
    let cases = cases_override.unwrap_or(if thorough { p.thorough } else { p.quick });
    let secs: u64 = std::env::var("MON_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 1500 } else { 240 });
    let t0 = Instant::now();
    let mut o = drive_workers(p, &tier, seed, cases, secs, None);
    o.fails.iter_mut().for_each(|f| f.4 = id.to_string());
    let mut asan_note = vec![];
    if !p.asan.is_empty() && cases_override.is_none() && o.fails.is_empty() {
        match std::env::var_os("MON_ASAN_EXE").map(std::path::PathBuf::from).filter(|e| e.exists()) {
            None => println!("note: no build with the address sanitizer"),
            Some(exe) => {
                for (w, n) in p.asan {
                    let q = props.iter().find(|x| x.id == *w).unwrap();
                    let n = if thorough { n * 15 } else { *n };
                    let s = drive_workers(q, "quick", seed ^ 0xa5a5, n, secs, Some(&exe));
                    // only what the sanitizer sees: the oracle of the other workload has its own check
                    for mut f in s.fails {
                        if f.1 == "crash" || f.1 == "hang" || f.1 == "panic" {
                            f.1 = format!("asan-{}-{}", w, f.1);
                            f.4 = w.to_string();
                            o.fails.push(f);
                        }
                    }
                    o.inconclusive.extend(s.inconclusive);
                    *o.stats.entry(format!("cases of {} under the address sanitizer", w)).or_insert(0) += s.cases;
                    *o.stats.entry("cases under the address sanitizer".into()).or_insert(0) += s.cases;
                    asan_note.push(format!("{} of {}", s.cases, w));
                }
                println!("address sanitizer: {} cases", asan_note.join(", "));
            }
        }
    }
    let kn = known(&format!("{}/known-findings.txt", root));
    let mut viol = 0;
    let mut reported: BTreeSet<String> = BTreeSet::new();
    let mut knownhit: BTreeSet<String> = BTreeSet::new();
    let rdir = format!("{}/replays", root);
    for (k, sig, msg, input, load) in &o.fails {
        if sig == "harness-panic" {
            // an observation the monitor takes for granted did not hold
            println!("monitor stopped at case {}: {}", k, msg);
        }
        if let Some(f) = kn.iter().find(|f| f.prop == id && f.sig == *sig) {
            if knownhit.insert(sig.clone()) {
                println!("KNOWN-FINDING: property={} {}", id, f.text);
            }
            continue;
        }
        viol += 1;
        if reported.insert(sig.clone()) && reported.len() <= 8 {
            let _ = std::fs::create_dir_all(&rdir);
            let san = sig.starts_with("asan-");
            let path = format!("{}/{}-{}-{}{}.txt", rdir, id, seed, if san { "asan-" } else { "" }, k);
            let body = format!(
                "property {}\nworkload {}\ntier {}\nseed {}\ncase {}\nsig {}\nbuild {}\n\n{}\n\n{}\n\nreplay: {}/run.sh --replay {}\n",
                id,
                load,
                if san { "quick" } else { &tier },
                if san { seed ^ 0xa5a5 } else { seed },
                k,
                sig,
                if san { "asan" } else { "plain" },
                msg,
                input.replace("\\n", "\n").replace("\\\\", "\\"),
                root,
                path
            );
            let _ = std::fs::write(&path, body);
            println!("VIOLATION property={} replay={}", id, path);
            println!("  [{}] case {}: {}", sig, k, msg.chars().take(700).collect::<String>());
        }
    }
    for s in &o.inconclusive {
        println!("inconclusive: {}", s);
    }
    let missing: Vec<&&str> = p.need.iter().filter(|n| o.stats.get(**n).copied().unwrap_or(0) == 0).collect();
    if viol == 0 && !missing.is_empty() && o.cases == cases && o.inconclusive.is_empty() && cases_override.is_none() {
        // every case ran, and what they are made to bring about never came about
        viol += 1;
        let _ = std::fs::create_dir_all(&rdir);
        let path = format!("{}/{}-{}-never.txt", rdir, id, seed);
        let _ = std::fs::write(&path, format!("property {}\nall {} cases of the workload ran, never observed: {:?}\n", id, cases, missing));
        println!("VIOLATION property={} replay={}", id, path);
        println!("  [never-observed] {:?}", missing);
    }
    // evidence
    let samples: Vec<String> = o.samples.iter().map(|s| format!("\"{}\"", s)).collect();
    let stats: Vec<String> = o.stats.iter().map(|(k, v)| format!("\"{}\": {}", esc(k), v)).collect();
    let assumptions: Vec<String> = p.assumptions.iter().map(|s| format!("\"{}\"", esc(s))).collect();
    let inc: Vec<String> = o.inconclusive.iter().map(|s| format!("\"{}\"", esc(s))).collect();
    let ev = format!(
        "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": \"{}\",\n  \"samples\": [{}],\n  \"cases\": {},\n  \"observed\": {{{}}},\n  \"inconclusive\": [{}]\n }},\n \"wall_s\": {:.1},\n \"violations\": {},\n \"assumptions\": [{}]\n}}\n",
        id, tier, seed, o.evaluations, o.distinct, esc(p.rule), samples.join(", "), o.cases, stats.join(", "), inc.join(", "),
        t0.elapsed().as_secs_f64(), viol, assumptions.join(", ")
    );
    let _ = std::fs::create_dir_all(format!("{}/evidence", root));
    std::fs::write(format!("{}/evidence/{}.json", root, id), ev).unwrap();
    println!(
        "{}: {} cases, {} oracle evaluations, {} distinct executions, {} failing, {:.1} s",
        id,
        o.cases,
        o.evaluations,
        o.distinct,
        viol,
        t0.elapsed().as_secs_f64()
    );
    if viol > 0 {
        return 1;
    }
    if !missing.is_empty() {
        println!("inconclusive: never observed {:?}", missing);
        return 3;
    }

    0
}

/// mon one ID TIER SEED CASE: run a single case in this process and print what it found.
pub fn one(props: &[Prop], a: &[String]) -> i32 {
    let p = props.iter().find(|p| p.id == a[0]).expect("property");
    install_panic_hook();
    let mut ctx = Ctx::new(a[1] == "thorough");
    ctx.verbose = true;
    set_cpu_limit(CPU_PER_CASE);
    run_case(p, &mut ctx, a[2].parse().unwrap(), a[3].parse().unwrap());
    println!("{}", ctx.input);
    for f in &ctx.fails {
        println!("[{}] {}", f.sig, f.msg);
    }
    println!("{} oracle evaluations, {} failures", ctx.evaluations, ctx.fails.len());
    (!ctx.fails.is_empty()) as i32
}

pub fn replay(props: &[Prop], path: &str) -> i32 {
    let s = std::fs::read_to_string(path).expect("replay file");
    let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(k)).unwrap().trim().to_string();
    if get("build ") == "asan" && std::env::var_os("MON_ASAN").is_none() {
        let Some(exe) = std::env::var_os("MON_ASAN_EXE") else {
            eprintln!("no build with the address sanitizer");
            return 2;
        };
        return match command(std::path::Path::new(&exe), true).args(["replay", path]).status() {
            Ok(s) if s.success() => 0,
            _ => 1,
        };
    }
    one(props, &[get("workload "), get("tier "), get("seed "), get("case ")])
}
