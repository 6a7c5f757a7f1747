//! Cases, workers, verdicts and evidence.

use crate::dev::Pty;
use crate::util::{clip, combine, hash_str, jstr, Rng};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

pub struct Fail { pub msg: String, pub sig: String }
pub type CaseResult = Result<(), Fail>;

impl From<String> for Fail { fn from(s: String) -> Fail { Fail{sig: String::new(), msg: s} } }
impl From<&str> for Fail { fn from(s: &str) -> Fail { Fail{sig: String::new(), msg: s.to_string()} } }

#[macro_export]
macro_rules! fail { ($($t:tt)*) => { return Err($crate::run::Fail::from(format!($($t)*))) } }
#[macro_export]
macro_rules! ensure { ($c:expr, $($t:tt)*) => { if !$c { $crate::fail!($($t)*) } } }
/// An unexpected error from the library
#[macro_export]
macro_rules! ok { ($e:expr, $($t:tt)*) => { match $e { Ok(x) => x, Err(e) => { $crate::fail!("{}: unexpected error: {}", format!($($t)*), e) } } } }

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Tier { Quick, Thorough }

pub struct Prop {
    pub id: &'static str,
    pub case: fn(&mut Ctx) -> CaseResult,
    pub quick: u64,
    pub thorough: u64,
    /// counters that must reach these values per 1000 evaluations (at least 1) or the run is inconclusive
    pub need: &'static [&'static str],
    pub rule: &'static str,
    pub level: &'static str,
    /// cases enumerate a finite space completely: their number
    pub exhaustive: Option<u64>,
    pub workers: usize,
    pub assumptions: &'static [&'static str],
    /// a case that stays stuck is a violation
    pub hang_s: u64,
}

pub struct Ctx {
    pub idx: u64,
    pub seed: u64,
    pub tier: Tier,
    pub rng: Rng,
    pub pty: &'static Pty,
    pub counters: BTreeMap<&'static str, u64>,
    pub hashes: Vec<u64>,
    pub states: HashSet<u64>,
    pub sample: Option<String>,
    pub trace: Vec<String>,
    pub verbose: bool,
}

impl Ctx {
    pub fn count(&mut self, k: &'static str, n: u64) { *self.counters.entry(k).or_insert(0) += n; }
    pub fn max(&mut self, k: &'static str, n: u64) { let e = self.counters.entry(k).or_insert(0); *e = (*e).max(n); }
    /// This case is distinct and non-trivial under this key
    pub fn distinct(&mut self, h: u64) { self.hashes.push(h); }
    pub fn state(&mut self, h: u64) { if self.states.len() < 200_000 { self.states.insert(h); } }
    pub fn note(&mut self, s: String) {
        if self.verbose { println!("  {}", s); }
        if self.trace.len() < 4000 { self.trace.push(s); }
    }
    pub fn trace_hash(&self) -> u64 {
        let mut h = 0;
        for t in &self.trace { h = combine(h, hash_str(t)); }
        h
    }
    pub fn sample_trace(&mut self) {
        let s = clip(&self.trace.join("; "), 900);
        self.sample = Some(s);
    }
    /// name of the terminal type for this case
    pub fn set_term(&self, t: &str) { std::env::set_var("TERM", t); }
}

pub fn case_rng(seed: u64, id: &str, idx: u64) -> Rng { Rng::new(combine(combine(seed, hash_str(id)), idx)) }

// ---- shared page -------------------------------------------------------------------------------------------

const SH_WORDS: usize = 8;
pub struct Shared { p: *mut AtomicU64 }
unsafe impl Send for Shared {}
unsafe impl Sync for Shared {}
impl Shared {
    pub fn open(path: &Path, create: bool) -> Shared {
        let f = std::fs::OpenOptions::new().read(true).write(true).create(create).open(path).expect("harness: shared page");
        f.set_len(4096).expect("harness: shared page");
        use std::os::fd::AsRawFd;
        let p = unsafe { libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
        assert!(p != libc::MAP_FAILED, "harness: mmap");
        Shared{p: p as *mut AtomicU64}
    }
    fn w(&self, i: usize) -> &AtomicU64 { unsafe { &*self.p.add(i) } }
    pub fn stop(&self) -> &AtomicU64 { self.w(0) }
    /// current case + 1 of a worker, 0 when done
    pub fn cur(&self, k: usize) -> &AtomicU64 { self.w(SH_WORDS + k * 2) }
    /// number of cases finished
    pub fn done(&self, k: usize) -> &AtomicU64 { self.w(SH_WORDS + k * 2 + 1) }
}

// ---- panics ------------------------------------------------------------------------------------------------

static LAST_PANIC: std::sync::Mutex<Option<(String, String)>> = std::sync::Mutex::new(None);
thread_local! { pub static EXPECT_PANIC: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        if EXPECT_PANIC.try_with(|e| e.get()).unwrap_or(false) && info.payload().downcast_ref::<crate::run::Planned>().is_some() { return; }
        let msg = info.payload().downcast_ref::<String>().cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        // The first one in the library explains the others
        let mut last = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner());
        match &*last {
            Some((m, l)) if !panic_in_harness(l, m) => (),
            _ => *last = Some((msg, loc)),
        }
    }));
}

/// Payload of panics the workload raises on purpose
pub struct Planned;

pub fn take_panic() -> Option<(String, String)> { LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).take() }

pub fn panic_in_harness(loc: &str, msg: &str) -> bool {
    msg.starts_with("harness:") || loc.starts_with("src/") || loc.contains("/harness/src/")
}

// ---- running one case --------------------------------------------------------------------------------------

pub enum Outcome { Held, Violated(Fail), Broken(String) }

pub fn run_case(p: &Prop, ctx: &mut Ctx) -> Outcome {
    take_panic();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.case)(ctx)));
    match r {
        Ok(Ok(())) => match take_panic() {
            // a panic caught elsewhere (in a thread of the case) that the case did not account for
            Some((m, l)) if panic_in_harness(&l, &m) => Outcome::Broken(format!("panic in the harness at {}: {}", l, m)),
            Some((m, l)) => Outcome::Violated(Fail{sig: "panic".into(), msg: format!("panic in the library at {}: {}", l, m)}),
            None => Outcome::Held,
        },
        Ok(Err(f)) => Outcome::Violated(f),
        Err(_) => {
            let (m, l) = take_panic().unwrap_or_default();
            if panic_in_harness(&l, &m) { Outcome::Broken(format!("panic in the harness at {}: {}", l, m)) }
            else { Outcome::Violated(Fail{sig: "panic".into(), msg: format!("panic in the library at {}: {}", l, m)}) }
        }
    }
}

pub fn new_ctx(p: &Prop, seed: u64, tier: Tier, idx: u64, pty: &'static Pty) -> Ctx {
    Ctx{idx, seed, tier, rng: case_rng(seed, p.id, idx), pty, counters: BTreeMap::new(), hashes: Vec::new(),
        states: HashSet::new(), sample: None, trace: Vec::new(), verbose: false}
}

fn make_pty() -> &'static Pty {
    // Point standard input and output at the monitored device as well
    let pty: &'static Pty = Box::leak(Box::new(Pty::open(0)));
    pty
}

pub fn stdio_to_pty(pty: &Pty) {
    unsafe {
        libc::dup2(pty.slave, 0);
        libc::dup2(pty.slave, 1);
    }
}

fn esc(s: &str) -> String { s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r").replace('\t', "\\t") }
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' { match it.next() { Some('n') => o.push('\n'), Some('r') => o.push('\r'), Some('t') => o.push('\t'), Some(c) => o.push(c), None => () } }
        else { o.push(c) }
    }
    o
}

/// Worker process: runs cases `from, from + step, ...` below `total`.
pub fn worker(p: &Prop, seed: u64, tier: Tier, dir: &Path, k: usize, from: u64, step: u64, total: u64, cap_s: u64, single: bool) -> i32 {
    install_panic_hook();
    unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); let z = libc::rlimit{rlim_cur: 0, rlim_max: 0}; libc::setrlimit(libc::RLIMIT_CORE, &z); }
    let sh = Shared::open(&dir.join("shared"), false);
    crate::ti::use_dir(&dir.join("terminfo"));
    let pty = make_pty();
    stdio_to_pty(pty);
    let name = if single { format!("single-{}", k) } else { format!("out-{}-{}", k, from) };
    let mut f = std::io::BufWriter::new(std::fs::File::create(dir.join(name)).expect("harness: result file"));
    let start = Instant::now();
    let mut idx = from;
    let mut counters: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut maxes: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut states: HashSet<u64> = HashSet::new();
    let mut evals = 0u64;
    let mut samples = 0;
    let mut code = 0;
    while idx < total {
        if sh.stop().load(SeqCst) != 0 && !single { break; }
        if start.elapsed().as_secs() >= cap_s { break; }
        sh.cur(k).store(idx + 1, SeqCst);
        let mut ctx = new_ctx(p, seed, tier, idx, pty);
        let out = run_case(p, &mut ctx);
        evals += 1;
        for (n, v) in &ctx.counters {
            if n.starts_with("max ") { let e = maxes.entry(n).or_insert(0); *e = (*e).max(*v); }
            else { *counters.entry(n).or_insert(0) += *v; }
        }
        for s in ctx.states.drain() { if states.len() < 300_000 { states.insert(s); } }
        for h in &ctx.hashes { let _ = writeln!(f, "H {:016x}", h); }
        match out {
            Outcome::Held => {
                if let Some(s) = &ctx.sample { if samples < 2 { samples += 1; let _ = writeln!(f, "S {}", esc(s)); } }
            }
            Outcome::Violated(v) if std::env::var_os("MON_KEEP").is_some() => {
                *counters.entry("cases left to their own check").or_insert(0) += 1;
                if samples < 2 { samples += 1; let _ = writeln!(f, "S {}", esc(&clip(&v.msg, 200))); }
            }
            Outcome::Violated(v) => {
                let tr = clip(&ctx.trace.join("\n"), 40000);
                let _ = writeln!(f, "V {}\t{}\t{}\t{}", idx, esc(&v.sig), esc(&v.msg), esc(&tr));
                let _ = f.flush();
                code = 1;
                break;
            }
            Outcome::Broken(m) => {
                let tr = clip(&ctx.trace.join("\n"), 8000);
                let _ = writeln!(f, "B {}\t{}\t{}", idx, esc(&m), esc(&tr));
                code = 2;
                break;
            }
        }
        sh.done(k).fetch_add(1, SeqCst);
        idx += step;
        if single { break; }
    }
    for (n, v) in &counters { let _ = writeln!(f, "C {}\t{}", n, v); }
    for (n, v) in &maxes { let _ = writeln!(f, "M {}\t{}", n, v); }
    for s in &states { let _ = writeln!(f, "T {:016x}", s); }
    let _ = writeln!(f, "E {}", evals);
    let _ = f.flush();
    sh.cur(k).store(0, SeqCst);
    code
}

// ---- parent ------------------------------------------------------------------------------------------------

#[derive(Default)]
pub struct Summary {
    pub evals: u64,
    pub hashes: HashSet<u64>,
    pub states: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Viol>,
    pub broken: Vec<String>,
}
pub struct Viol { pub idx: u64, pub sig: String, pub msg: String, pub trace: String }

fn read_results(path: &Path, s: &mut Summary) {
    let t = match std::fs::read(path) { Ok(t) => String::from_utf8_lossy(&t).into_owned(), Err(_) => return };
    for line in t.lines() {
        if line.len() < 2 { continue; }
        let (k, rest) = (&line[..1], &line[2..]);
        let parts: Vec<&str> = rest.split('\t').collect();
        match k {
            "C" if parts.len() == 2 => *s.counters.entry(parts[0].to_string()).or_insert(0) += parts[1].parse().unwrap_or(0),
            "M" if parts.len() == 2 => {
                let e = s.counters.entry(parts[0].to_string()).or_insert(0);
                *e = (*e).max(parts[1].parse().unwrap_or(0));
            }
            "H" => { s.hashes.insert(u64::from_str_radix(rest, 16).unwrap_or(0)); }
            "T" => { s.states.insert(u64::from_str_radix(rest, 16).unwrap_or(0)); }
            "S" => s.samples.push(unesc(rest)),
            "E" => s.evals += rest.parse().unwrap_or(0),
            "V" if parts.len() >= 4 => s.violations.push(Viol{idx: parts[0].parse().unwrap_or(0), sig: unesc(parts[1]), msg: unesc(parts[2]), trace: unesc(parts[3])}),
            "B" => s.broken.push(format!("case {}: {}\n{}", parts[0], unesc(parts.get(1).unwrap_or(&"")), unesc(parts.get(2).unwrap_or(&"")))),
            _ => (),
        }
    }
}

fn spawn_worker(p: &Prop, seed: u64, tier: Tier, dir: &Path, k: usize, from: u64, step: u64, total: u64, cap_s: u64, single: bool) -> std::process::Child {
    let exe = std::env::current_exe().expect("harness: exe");
    let mut c = std::process::Command::new(exe);
    c.arg("worker").arg(p.id).arg(seed.to_string()).arg(if tier == Tier::Quick { "quick" } else { "thorough" })
        .arg(dir).arg(k.to_string()).arg(from.to_string()).arg(step.to_string()).arg(total.to_string()).arg(cap_s.to_string())
        .arg(if single { "single" } else { "many" });
    c.stdin(std::process::Stdio::null()).stdout(std::process::Stdio::null());
    let err = std::fs::File::create(dir.join(format!("err-{}{}", k, if single { "-single" } else { "" }))).expect("harness: stderr file");
    c.stderr(err);
    c.spawn().expect("harness: spawn worker")
}

/// CPU ticks and state of every thread
fn threads_of(pid: u32) -> (u64, String, bool) {
    let mut ticks = 0;
    let mut desc = String::new();
    let mut all_asleep = true;
    if let Ok(d) = std::fs::read_dir(format!("/proc/{}/task", pid)) {
        for e in d.flatten() {
            if let Ok(s) = std::fs::read_to_string(e.path().join("stat")) {
                if let Some(i) = s.rfind(')') {
                    let f: Vec<&str> = s[i + 2..].split(' ').collect();
                    ticks += f.get(11).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) + f.get(12).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
                    let w = std::fs::read_to_string(e.path().join("wchan")).unwrap_or_default();
                    let _ = write!(desc, "[{} {} {}] ", e.file_name().to_string_lossy(), f[0], w);
                    if f[0] != "S" { all_asleep = false; }
                }
            }
        }
    }
    (ticks, desc, all_asleep)
}

enum Waited { Exit(std::process::ExitStatus), Hung(String, bool) }

fn wait_single(c: &mut std::process::Child, limit: Duration) -> Waited {
    let t = Instant::now();
    loop {
        if let Ok(Some(s)) = c.try_wait() { return Waited::Exit(s); }
        if t.elapsed() > limit {
            let a = threads_of(c.id());
            std::thread::sleep(Duration::from_secs(2));
            if let Ok(Some(s)) = c.try_wait() { return Waited::Exit(s); }
            let b = threads_of(c.id());
            let _ = c.kill();
            let _ = c.wait();
            return Waited::Hung(b.1, a.2 && b.2 && a.0 == b.0);
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn died_by(s: &std::process::ExitStatus) -> Option<i32> {
    use std::os::unix::process::ExitStatusExt;
    s.signal()
}

pub fn scratch() -> PathBuf {
    let d = std::env::temp_dir().join(format!("mon-{}-{}", std::process::id(), std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_nanos()));
    std::fs::create_dir_all(&d).expect("harness: scratch directory");
    d
}

pub fn run_all(p: &Prop, seed: u64, tier: Tier) -> Summary {
    let dir = scratch();
    crate::ti::write_all(&dir.join("terminfo"));
    let sh = Shared::open(&dir.join("shared"), true);
    let total = p.exhaustive.unwrap_or(if tier == Tier::Quick { p.quick } else { p.thorough });
    let total = std::env::var("MON_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or(total);
    let cap = std::env::var("MON_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == Tier::Quick { 150 } else { 3000 });
    let workers = std::env::var("MON_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(p.workers);
    let n = workers.min(total.max(1) as usize);
    let mut s = Summary::default();
    let mut kids: Vec<Option<std::process::Child>> = (0..n).map(|k| Some(spawn_worker(p, seed, tier, &dir, k, k as u64, n as u64, total, cap, false))).collect();
    let mut last: Vec<(u64, u64, Instant)> = (0..n).map(|_| (0, 0, Instant::now())).collect();
    let mut suspects: Vec<(u64, String, bool)> = Vec::new(); // case, what happened, certain
    while kids.iter().any(|k| k.is_some()) {
        std::thread::sleep(Duration::from_millis(30));
        for k in 0..n {
            let c = match kids[k].as_mut() { Some(c) => c, None => continue };
            if let Ok(Some(st)) = c.try_wait() {
                kids[k] = None;
                let cur = sh.cur(k).load(SeqCst);
                if st.code() == Some(0) { continue; }
                if st.code() == Some(1) || st.code() == Some(2) { sh.stop().store(1, SeqCst); continue; }
                let how = match died_by(&st) { Some(sig) => format!("process killed by signal {}", sig), None => format!("process exited with {:?}", st.code()) };
                let certain = matches!(died_by(&st), Some(libc::SIGSEGV) | Some(libc::SIGABRT) | Some(libc::SIGBUS) | Some(libc::SIGILL)) || st.code() == Some(66);
                let err = std::fs::read_to_string(dir.join(format!("err-{}", k))).unwrap_or_default();
                sh.stop().store(1, SeqCst);
                if cur == 0 && st.code() == Some(66) { s.violations.push(Viol{idx: 0, sig: "crash".into(), msg: format!("{} after the last case\n{}", how, clip(&err, 3000)), trace: String::new()}); }
                else if cur == 0 { s.broken.push(format!("worker {} died outside a case: {}\n{}", k, how, clip(&err, 2000))); }
                else { suspects.push((cur - 1, format!("{}\n{}", how, clip(&err, 3000)), certain)); }
                continue;
            }
            let now = (sh.cur(k).load(SeqCst), sh.done(k).load(SeqCst));
            if (now.0, now.1) != (last[k].0, last[k].1) { last[k] = (now.0, now.1, Instant::now()); continue; }
            if last[k].2.elapsed().as_secs() >= p.hang_s && now.0 != 0 {
                let a = threads_of(c.id());
                std::thread::sleep(Duration::from_secs(2));
                let b = threads_of(c.id());
                if (sh.cur(k).load(SeqCst), sh.done(k).load(SeqCst)) != now { continue; }
                let stalled = a.2 && b.2 && a.0 == b.0;
                let _ = c.kill();
                let _ = c.wait();
                kids[k] = None;
                sh.stop().store(1, SeqCst);
                suspects.push((now.0 - 1, format!("no progress for {} s ({}); threads {}", p.hang_s + 2,
                    if stalled { "every thread asleep" } else { "busy" }, b.1), stalled));
            }
        }
    }
    if let Ok(rd) = std::fs::read_dir(&dir) {
        let mut names: Vec<_> = rd.flatten().map(|e| e.path()).filter(|p| p.file_name().map_or(false, |n| n.to_string_lossy().starts_with("out-"))).collect();
        names.sort();
        for f in names { read_results(&f, &mut s); }
    }
    // Deaths and hangs: run the case again on its own.
    for (idx, what, certain) in suspects.into_iter().take(2) {
        let mut again = None;
        for _ in 0..3 {
            let mut c = spawn_worker(p, seed, tier, &dir, 0, idx, 1, idx + 1, 10_000, true);
            match wait_single(&mut c, Duration::from_secs(p.hang_s)) {
                Waited::Exit(st) if st.code() == Some(0) => (),
                Waited::Exit(st) if st.code() == Some(1) => {
                    let mut t = Summary::default();
                    read_results(&dir.join("single-0"), &mut t);
                    if let Some(v) = t.violations.pop() { again = Some(v.msg + "\n" + &v.trace); }
                }
                Waited::Exit(st) => {
                    let err = std::fs::read_to_string(dir.join("err-0-single")).unwrap_or_default();
                    again = Some(match died_by(&st) { Some(sig) => format!("process killed by signal {}\n{}", sig, clip(&err, 3000)), None => format!("process exited with {:?}\n{}", st.code(), clip(&err, 3000)) });
                }
                Waited::Hung(d, _) => again = Some(format!("the case never finishes; threads {}", d)),
            }
            if again.is_some() { break; }
        }
        match again {
            Some(m) => s.violations.push(Viol{idx, sig: "crash".into(), msg: format!("{} (first seen: {})", m, what), trace: String::new()}),
            None if certain => s.violations.push(Viol{idx, sig: "crash".into(), msg: format!("{} (seen once, not in 3 repetitions)", what), trace: String::new()}),
            None => s.broken.push(format!("case {}: {} and could not be reproduced", idx, what)),
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    s
}

pub fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

/// Known findings of a property: (signature, description)
pub fn known(id: &str) -> Vec<(String, String)> {
    let mut v = Vec::new();
    if let Ok(t) = std::fs::read_to_string(verif_dir().join("known-findings.txt")) {
        for l in t.lines() {
            if let Some(r) = l.strip_prefix("known: ") {
                let f: Vec<&str> = r.splitn(3, " | ").collect();
                if f.len() == 3 && f[0] == format!("property={}", id) { v.push((f[1].to_string(), f[2].to_string())); }
            }
        }
    }
    v
}

pub fn check(p: &Prop, seed: u64, tier: Tier) -> i32 {
    let t0 = Instant::now();
    let s = run_all(p, seed, tier);
    let mut code = 0;
    let mut missing: Vec<&str> = Vec::new();
    for k in p.need { if s.counters.get(*k).copied().unwrap_or(0) == 0 { missing.push(k); } }
    if let Some(n) = p.exhaustive { if s.violations.is_empty() && s.evals < n { missing.push("complete enumeration"); } }
    let wall = t0.elapsed().as_secs_f64();
    let vd = verif_dir();
    let _ = std::fs::create_dir_all(vd.join("evidence"));
    // evidence
    let mut j = String::new();
    let _ = write!(j, "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":{},\"coverage\":{{", jstr(p.id), jstr(if tier == Tier::Quick { "quick" } else { "thorough" }), seed, jstr(p.level));
    let _ = write!(j, "\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"exhaustive\":{},", s.evals, s.hashes.len(), jstr(p.rule), p.exhaustive.is_some());
    let _ = write!(j, "\"distinct_observed_states\":{},\"observed\":{{", s.states.len());
    for (i, (k, v)) in s.counters.iter().enumerate() { let _ = write!(j, "{}{}:{}", if i > 0 { "," } else { "" }, jstr(k), v); }
    j.push_str("},\"samples\":[");
    for (i, x) in s.samples.iter().take(4).enumerate() { let _ = write!(j, "{}{}", if i > 0 { "," } else { "" }, jstr(x)); }
    let _ = write!(j, "],\"not_judged\":{}}},\"assumptions\":[", s.broken.len());
    for (i, x) in p.assumptions.iter().enumerate() { let _ = write!(j, "{}{}", if i > 0 { "," } else { "" }, jstr(x)); }
    let _ = write!(j, "],\"wall_s\":{:.3},\"violations\":{}}}\n", wall, s.violations.len());
    let _ = std::fs::write(vd.join("evidence").join(format!("{}.json", p.id)), j);

    println!("{}: {} cases ({} distinct), {} observed states, {:.1} s", p.id, s.evals, s.hashes.len(), s.states.len(), wall);
    for (k, v) in &s.counters { println!("    {:<40} {}", k, v); }
    let mut viols: Vec<&Viol> = s.violations.iter().collect();
    viols.sort_by_key(|v| v.idx);
    let kn = known(p.id);
    for (_, d) in &kn { println!("KNOWN-FINDING: property={} {}", p.id, d); }
    viols.retain(|v| !kn.iter().any(|(sig, _)| *sig == v.sig));
    if let Some(v) = viols.first() {
        let rp = vd.join("evidence").join(format!("replay-{}.txt", p.id));
        let _ = std::fs::write(&rp, format!("property {}\nseed {}\ntier {}\ncase {}\nsignature {}\nreplay: /verif/check replay {}\n\n{}\n\ntrace:\n{}\n", p.id, seed,
            if tier == Tier::Quick { "quick" } else { "thorough" }, v.idx, v.sig, rp.display(), v.msg, v.trace));
        println!("case {} (seed {}): {}", v.idx, seed, clip(&v.msg, 3000));
        let tr: Vec<&str> = v.trace.lines().collect();
        for t in tr.iter().rev().take(25).rev() { println!("    {}", clip(t, 300)); }
        println!("VIOLATION property={} replay={}", p.id, rp.display());
        code = 1;
    }
    if code == 0 {
        // A few cases the harness could not judge are no verdict on the rest.
        let grave = s.broken.len() as u64 * 20 > s.evals;
        for b in s.broken.iter().take(3) { println!("{}: {}", if grave { "INCONCLUSIVE" } else { "    not judged" }, b); if grave { code = 2; } }
        if !missing.is_empty() { println!("INCONCLUSIVE: nothing observed of: {}", missing.join(", ")); code = 2; }
        if s.evals == 0 { println!("INCONCLUSIVE: no case ran"); code = 2; }
    }
    if code == 0 { println!("{}: held on everything explored", p.id); }
    let _ = std::io::stdout().flush();
    code
}

/// Runs one case in this process, verbosely.
pub fn replay(p: &Prop, seed: u64, tier: Tier, idx: u64) -> i32 {
    install_panic_hook();
    let dir = scratch();
    crate::ti::write_all(&dir.join("terminfo"));
    crate::ti::use_dir(&dir.join("terminfo"));
    let pty = make_pty();
    let save = unsafe { libc::fcntl(1, libc::F_DUPFD_CLOEXEC, 220) };
    stdio_to_pty(pty);
    let mut ctx = new_ctx(p, seed, tier, idx, pty);
    let out = run_case(p, &mut ctx);
    unsafe { libc::dup2(save, 1); }
    let _ = std::fs::remove_dir_all(&dir);
    for t in &ctx.trace { println!("  {}", t); }
    for (k, v) in &ctx.counters { println!("    {:<40} {}", k, v); }
    match out {
        Outcome::Held => { println!("held"); 0 }
        Outcome::Violated(f) => { println!("VIOLATED [{}]: {}", f.sig, f.msg); 1 }
        Outcome::Broken(m) => { println!("BROKEN: {}", m); 2 }
    }
}

/// Is this what a memory or race error looks like?
fn sanitizer_report(msg: &str) -> bool {
    ["ERROR: AddressSanitizer", "WARNING: ThreadSanitizer", "ERROR: ThreadSanitizer", "unsafe precondition(s) violated", "killed by signal 11", "killed by signal 7", "killed by signal 4\n", "process exited with Some(66)", "exited with status 66"].iter().any(|p| msg.contains(p))
}

/// Runs the workloads of other properties in this (instrumented) executable; only its reports count.
/// Prints one line per workload for the script that puts the evidence together.
pub fn sanitize(ps: &[Prop], label: &str, list: &str, seed: u64, tier: Tier) -> i32 {
    std::env::set_var("MON_KEEP", "1");
    let mut code = 0;
    for item in list.split(',') {
        let (id, n) = item.split_once(':').expect("id:cases");
        let p = ps.iter().find(|p| p.id == id).expect("property");
        let t0 = Instant::now();
        std::env::set_var("MON_CASES", n);
        std::env::set_var("MON_CAP", if tier == Tier::Quick { "60" } else { "900" });
        let one = Prop{exhaustive: None, hang_s: 120, ..*p};
        let s = run_all(&one, seed, tier);
        let mut left = s.counters.get("cases left to their own check").copied().unwrap_or(0);
        for v in &s.violations {
            if !sanitizer_report(&v.msg) { left += 1; println!("    ({} case {}: {})", id, v.idx, clip(&v.msg, 200)); continue; }
            if code == 0 {
                let vd = verif_dir();
                let _ = std::fs::create_dir_all(vd.join("evidence"));
                let rp = vd.join("evidence").join(format!("replay-{}.txt", label));
                let _ = std::fs::write(&rp, format!("property {}\nworkload {}\nseed {}\ntier {}\ncase {}\n\n{}\n\ntrace:\n{}\n", label, id, seed,
                    if tier == Tier::Quick { "quick" } else { "thorough" }, v.idx, v.msg, v.trace));
                println!("workload {} case {} (seed {}): {}", id, v.idx, seed, clip(&v.msg, 4000));
                println!("VIOLATION property={} replay={}", label, rp.display());
            }
            code = 1;
        }
        println!("SAN {} {} {} {} {} {:.1}", id, s.evals, s.hashes.len(), s.states.len(), left + s.broken.len() as u64, t0.elapsed().as_secs_f64());
        for b in s.broken.iter().take(1) { println!("    ({} not judged: {})", id, clip(b, 300)); }
        if code != 0 { break; }
    }
    let _ = std::io::stdout().flush();
    code
}
