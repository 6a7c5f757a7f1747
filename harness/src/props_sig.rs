//! G01, G02: signals.

use crate::dev::*;
use crate::interpose::{self as ip, Act, Kind};
use crate::props_conc::{pause, Bad};
use crate::props_input::*;
use crate::props_prep::default_dispositions;
use crate::props_screen::{drain_signals, pick_term, rand_config};
use crate::step;
use crate::run::{CaseResult, Ctx, Fail};
use crate::util::*;
use crate::{ensure, fail, ok};
use libc::c_int;
use mortal::{Event, Key, PrepareConfig, Signal, SignalSet, Size};
use std::collections::{BTreeMap, VecDeque};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

const ALL: [(c_int, Signal); 5] = [(libc::SIGCONT, Signal::Continue), (libc::SIGWINCH, Signal::Resize), (libc::SIGINT, Signal::Interrupt),
    (libc::SIGTSTP, Signal::Suspend), (libc::SIGQUIT, Signal::Quit)];

static HANDLED: AtomicU64 = AtomicU64::new(0);
extern "C" fn own(_: c_int) { HANDLED.fetch_add(1, SeqCst); }

fn rand_set(r: &mut Rng) -> SignalSet {
    let mut s = SignalSet::new();
    match r.below(4) { 0 => (), 1 => s = SignalSet::all(), _ => for (_, x) in ALL { if r.chance(2) { s.insert(x); } } }
    s
}

fn cur_mask() -> Vec<c_int> {
    unsafe {
        let mut m: libc::sigset_t = std::mem::zeroed();
        libc::pthread_sigmask(libc::SIG_BLOCK, std::ptr::null(), &mut m);
        (1..65).filter(|&s| libc::sigismember(&m, s) == 1).collect()
    }
}

/// What was read, by kind
#[derive(Default)]
struct Got { sig: BTreeMap<i32, u64>, sizes: Vec<Size>, text: Vec<u8>, bad: Option<String>, nones: u64, events: u64 }

impl Got {
    fn put(&mut self, e: Event, raw: &[u8]) {
        self.events += 1;
        match e {
            Event::Signal(s) => match ALL.iter().find(|x| x.1 == s) {
                Some(x) => *self.sig.entry(x.0).or_insert(0) += 1,
                None => self.bad = Some(format!("a signal that does not exist here: {:?}", s)),
            },
            Event::Resize(s) => { *self.sig.entry(-libc::SIGWINCH).or_insert(0) += 1; self.sizes.push(s); }
            Event::Key(Key::Char(c)) if c.is_ascii() => self.text.push(c as u8),
            Event::Raw(n) => self.text.extend(&raw[..n]),
            e => self.bad = Some(format!("{:?}", e)),
        }
    }
}

/// Waits a moment for another thread
fn spin() {
    thread_local! { static N: std::cell::Cell<u32> = const { std::cell::Cell::new(0) }; }
    N.with(|n| { n.set(n.get().wrapping_add(1)); if n.get() % 512 == 0 { std::thread::yield_now() } else { std::hint::spin_loop() } });
}

/// Different signals handled by several threads at the same instant, read by one Terminal, or two at a time:
/// each is reported, once.
fn racing(ctx: &mut Ctx, r: &mut Rng) -> CaseResult {
    let term = pick_term(r);
    let cfg = PrepareConfig{report_signals: SignalSet::all(), block_signals: true, enable_control_flow: false, enable_mouse: false, ..PrepareConfig::default()};
    default_dispositions();
    ctx.set_term(term);
    ctx.pty.reset(24, 80);
    let a = crate::props_screen::open(ctx)?;
    let b = crate::props_screen::open(ctx)?;
    let pa = ok!(a.prepare(cfg), "prepare");
    let pb = ok!(b.prepare(cfg), "prepare");
    virtual_input(ctx.pty.slot, VecDeque::new(), true);
    // the kernel discards a pending SIGTSTP for a SIGCONT and vice versa
    let not = *r.pick(&[libc::SIGCONT, libc::SIGTSTP]);
    let mut pool: Vec<c_int> = ALL.iter().map(|x| x.0).filter(|&x| x != not).collect();
    let raisers = r.range(1, 4);
    let both = r.chance(2);
    let during = both || r.chance(2);
    let rounds = 60;
    let plan: Vec<Vec<(c_int, u32)>> = (0..rounds).map(|_| { r.shuffle(&mut pool); pool[..raisers].iter().map(|&s| (s, r.below(40) as u32 * r.below(3) as u32)).collect() }).collect();
    ctx.note(format!("TERM={} {} threads raise signals at once, {} read {}", term, raisers, if both { "two Terminals" } else { "one Terminal" }, if during { "meanwhile" } else { "afterwards" }));
    let round = AtomicU64::new(0);
    let raised = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let total = Mutex::new(Got::default());
    let (fence, idle) = (AtomicU64::new(0), AtomicU64::new(0));
    let bad = Bad::default();
    let take = |t: &mortal::Terminal, total: &Mutex<Got>| -> Result<bool, Fail> {
        match ok!(t.read_event(ZERO), "read_event") { Some(e) => { total.lock().unwrap().put(e, &[]); Ok(true) } None => Ok(false) }
    };
    let res: CaseResult = std::thread::scope(|sc| {
        for k in 0..raisers {
            let (plan, round, raised, stop) = (&plan, &round, &raised, &stop);
            sc.spawn(move || {
                for n in 0..rounds {
                    while round.load(SeqCst) <= n as u64 { if stop.load(SeqCst) { return; } spin(); }
                    for _ in 0..plan[n][k].1 { std::hint::spin_loop(); }
                    unsafe { libc::raise(plan[n][k].0); }
                    raised.fetch_add(1, SeqCst);
                }
            });
        }
        if both {
            let (b, total, stop, bad, raised, fence, idle, round, take) = (&b, &total, &stop, &bad, &raised, &fence, &idle, &round, &take);
            sc.spawn(move || while !stop.load(SeqCst) {
                let n = round.load(SeqCst);
                let all = raised.load(SeqCst) == n * raisers as u64;
                match take(b, total) {
                    Ok(true) => (),
                    // nothing is left of the round that is asked about
                    Ok(false) => { let f = fence.load(SeqCst); if all && f == n { idle.store(f, SeqCst); } spin(); }
                    Err(e) => { bad.put(Err(e)); return; }
                }
            });
        }
        let res = (|| -> CaseResult {
            for n in 0..rounds as u64 {
                *total.lock().unwrap() = Got::default();
                round.store(n + 1, SeqCst);
                let t0 = Instant::now();
                while raised.load(SeqCst) < (n + 1) * raisers as u64 {
                    if during { take(&a, &total)?; } else { spin(); }
                    ensure!(t0.elapsed() < Duration::from_secs(30), "harness: signals not raised");
                }
                while take(&a, &total)? { ensure!(t0.elapsed() < Duration::from_secs(30), "reading never ends"); }
                if both {
                    fence.store(n + 1, SeqCst);
                    while idle.load(SeqCst) <= n && !bad.any() { ensure!(t0.elapsed() < Duration::from_secs(30), "the other reader's reading never ends"); spin(); }
                    if bad.any() { break; }
                }
                let got = total.lock().unwrap();
                for (x, _) in ALL {
                    let sent = plan[n as usize].iter().filter(|p| p.0 == x).count() as u64;
                    let seen = got.sig.get(&x).copied().unwrap_or(0) + got.sig.get(&-x).copied().unwrap_or(0);
                    ensure!(sent == seen, "of {:?} raised by {} threads at once, {} was received {} times and reported {} times", plan[n as usize].iter().map(|p| signame(p.0)).collect::<Vec<_>>(), raisers, signame(x), sent, seen);
                }
                if let Some(b) = &got.bad { fail!("unexpected event {}", b); }
                ctx.count("signals raced", raisers as u64);
            }
            Ok(())
        })();
        stop.store(true, SeqCst);
        res
    });
    bad.take()?;
    res?;
    ip::lock().dev[ctx.pty.slot].vin = None;
    ok!(b.restore(pb), "restore");
    ok!(a.restore(pa), "restore");
    default_dispositions();
    let h = ctx.trace_hash();
    ctx.distinct(h);
    Ok(())
}

pub fn g01(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng.fork();
    if ctx.idx % 16 == 7 { return racing(ctx, &mut r); }
    let screen = r.chance(3);
    let term = pick_term(&mut r);
    let set = rand_set(&mut r);
    default_dispositions();
    // Signals that were not asked for go where they went before
    for s in [libc::SIGINT, libc::SIGTSTP, libc::SIGQUIT, libc::SIGCONT, libc::SIGWINCH] { set_disposition(s, own as extern "C" fn(c_int) as usize, 0, &[]); }
    let cfg = PrepareConfig{report_signals: set, block_signals: true, enable_control_flow: false, enable_mouse: false, ..rand_config(&mut r)};
    let mut io = open_io(ctx, &mut r, term, screen, Some(cfg))?;
    let slot = ctx.pty.slot;
    let real = r.chance(2);
    rough_reads(&mut r, slot);
    let threads = if r.chance(4) { r.range(2, 3) } else { 1 };
    let nested = !screen && r.chance(6);
    let mut set = set;
    let mut inner = None;
    if nested {
        // Of nested preparations, the innermost decides
        set = set | rand_set(&mut r);
        let c2 = PrepareConfig{report_signals: set, ..cfg};
        if let Io::T(t, _) = &io { inner = Some(ok!(t.prepare(c2), "nested prepare")); }
        ctx.note(format!("nested {:?}", set));
    }
    let caught = |s: Signal| s == Signal::Continue || s == Signal::Resize || set.contains(s);
    let before = cur_mask();
    let mut order = 0u64;
    let rounds = r.range(1, 5);
    for round in 0..rounds {
        let size = (r.range(2, 40), r.range(2, 120));
        ctx.pty.set_size(size.0, size.1);
        let mut raises: BTreeMap<c_int, u64> = BTreeMap::new();
        let mut planned: Vec<(Kind, u32, c_int)> = Vec::new();
        let own0 = HANDLED.load(SeqCst);
        let mut own_want = 0u64;
        let text: Vec<u8> = (0..r.below(6) * r.below(3)).map(|_| b'a' + r.below(26) as u8).collect();
        let mut chunks: VecDeque<Vec<u8>> = text.chunks(r.range(1, 4)).map(|c| c.to_vec()).collect();
        if real {
            ip::lock().dev[slot].vin = None;
            ctx.pty.type_in(&text);
            for _ in 0..2000 { if ctx.pty.pending() >= text.len() { break; } std::thread::sleep(Duration::from_micros(200)); }
        } else {
            if r.chance(3) { chunks.push_front(Vec::new()); }
            virtual_input(slot, chunks, true);
        }
        // The kernel discards a pending SIGTSTP for a SIGCONT and vice versa
        let not = *r.pick(&[libc::SIGCONT, libc::SIGTSTP]);
        let some: Vec<(c_int, Signal)> = ALL.iter().copied().filter(|x| x.0 != not).collect();
        // Arrived already
        for _ in 0..r.below(6) {
            let (n, s) = *r.pick(&ALL);
            unsafe { libc::raise(n); }
            ctx.note(format!("round {}: raise {}", round, signame(n)));
            if caught(s) { *raises.entry(n).or_insert(0) += 1; } else { own_want += 1; }
        }
        let early: Vec<c_int> = raises.keys().copied().collect();
        // During the reading calls
        for _ in 0..r.below(5) {
            let (n, _) = *r.pick(&some);
            let k = *r.pick(&[Kind::Wait, Kind::Wait, Kind::Read, Kind::MaskPre, Kind::MaskPost, Kind::TcSet, Kind::TcGet, Kind::Winsize, Kind::Write]);
            let at = r.below(6) as u32;
            let mut g = ip::lock();
            g.dev[slot].counts.remove(&k);
            g.dev[slot].acts.entry((k, at)).or_default().push(Act::Raise(n));
            planned.push((k, at, n));
        }
        
        if !early.is_empty() && r.chance(3) {
            // Something is there to be read
            let w = ok!(io.wait(r.chance(2), ZERO), "wait_event");
            ensure!(w, "wait_event(0) returned false with {} received and not read", signame(early[0]));
            ctx.count("waits with a signal pending", 1);
        }
        let async_plan: Vec<(c_int, u32)> = if r.chance(3) { (0..r.range(1, 12)).map(|_| (r.pick(&some).0, r.below(400) as u32)).collect() } else { Vec::new() };
        let to_process = r.chance(2);
        ctx.note(format!("round {}: {} typed, planned {:?}, {} readers, from another thread {:?}{}", round, text.len(), planned, threads, async_plan, if to_process { " to the process" } else { "" }));
        let me = ip::tid() as c_int;
        let total = Mutex::new(Got::default());
        let bad = Bad::default();
        let done = AtomicBool::new(async_plan.is_empty());
        std::thread::scope(|sc| {
            // Joined for good: one of them may still be about to handle a signal to the process
            let mut threads_left = Vec::new();
            if !async_plan.is_empty() {
                let (plan, done) = (&async_plan, &done);
                threads_left.push(sc.spawn(move || {
                    for &(n, us) in plan {
                        let t = Instant::now();
                        while t.elapsed() < Duration::from_micros(us as u64) { std::hint::spin_loop(); }
                        unsafe {
                            if to_process { libc::syscall(libc::SYS_kill, libc::getpid(), n); }
                            else { libc::syscall(libc::SYS_tgkill, libc::getpid(), me, n); }
                        }
                    }
                    done.store(true, SeqCst);
                }));
            }
            let io = Mutex::new(&mut io);
            // read_raw needs &mut: only a single reader uses it
            if threads == 1 {
                let io: &mut Io = io.into_inner().unwrap();
                ip::WATCH_MASK.with(|w| w.set(true));
                let res = read_all(io, &mut r, &done, &total, slot);
                ip::WATCH_MASK.with(|w| w.set(false));
                bad.put(res);
            } else {
                let io: &Io = io.into_inner().unwrap();
                for _ in 0..threads - 1 {
                    let (done, total, bad) = (&done, &total, &bad);
                    let mut tr = r.fork();
                    threads_left.push(sc.spawn(move || { bad.put(read_shared(io, &mut tr, done, total, bad, slot)); }));
                }
                let mut tr = r.fork();
                bad.put(read_shared(io, &mut tr, &done, &total, &bad, slot));
            }
            for h in threads_left { let _ = h.join(); }
        });
        bad.take()?;
        // Only one thread is left: the rest
        ip::WATCH_MASK.with(|w| w.set(true));
        let res = read_all(&mut io, &mut r, &done, &total, slot);
        ip::WATCH_MASK.with(|w| w.set(false));
        res?;
        let got = total.into_inner().unwrap();
        // Which of the planned ones were raised?
        let left: Vec<(Kind, u32, Vec<Act>)> = ip::lock().dev[slot].acts.drain().map(|((k, n), v)| (k, n, v)).collect();
        let mut unraised: Vec<(Kind, u32, c_int)> = Vec::new();
        for (k, n, v) in left { for a in v { if let Act::Raise(s) = a { unraised.push((k, n, s)); } } }
        for p in &planned {
            if let Some(i) = unraised.iter().position(|u| u == p) { unraised.remove(i); continue; }
            if caught(ALL.iter().find(|x| x.0 == p.2).unwrap().1) { *raises.entry(p.2).or_insert(0) += 1; } else { own_want += 1; }
            ctx.count("signals raised at a system call", 1);
            order = combine(order, p.0 as u64 * 64 + p.1 as u64 * 4096 + p.2 as u64);
        }
        let mut lossy_own = false;
        for &(n, _) in &async_plan {
            if caught(ALL.iter().find(|x| x.0 == n).unwrap().1) { *raises.entry(n).or_insert(0) += 1; } else { lossy_own = true; own_want += 1; }
            ctx.count("signals raised from another thread", 1);
        }
        if let Some(b) = got.bad { fail!("unexpected event {}", b); }
        for (n, s) in ALL {
            let sent = raises.get(&n).copied().unwrap_or(0);
            let seen = got.sig.get(&n).copied().unwrap_or(0);
            let resized = if n == libc::SIGWINCH { got.sig.get(&-n).copied().unwrap_or(0) } else { 0 };
            let want = if n == libc::SIGWINCH { true } else { set.contains(s) };
            let what = if n == libc::SIGWINCH { resized + seen } else { seen };
            if want {
                ensure!(sent == 0 || what >= 1, "{} was received {} times and never reported (requested {:?})", signame(n), sent, set);
                ensure!(what <= sent, "{} was received {} times and reported {} times", signame(n), sent, what);
                if sent > 0 { ctx.count("signals reported", what); }
            } else {
                ensure!(what == 0, "{} was reported though {} (requested {:?}, received {})", signame(n), if sent == 0 { "it was never received" } else { "it was not asked for" }, set, sent);
                if sent > 0 { ctx.count("unrequested signals not reported", 1); }
            }
            if n == libc::SIGWINCH { ensure!(seen == 0, "a window-size change was returned as Signal(Resize) instead of Resize"); }
        }
        for z in &got.sizes { ensure!((z.lines, z.columns) == size, "Resize event with size {:?}, the terminal has {:?}", z, size); }
        ctx.count("resize events compared", got.sizes.len() as u64);
        if threads == 1 {
            ensure!(got.text == text, "typed {:?}, read {:?}", String::from_utf8_lossy(&text), String::from_utf8_lossy(&got.text));
        } else {
            let (mut a, mut b) = (got.text.clone(), text.clone());
            a.sort(); b.sort();
            ensure!(a == b, "typed {:?}, read {:?}", String::from_utf8_lossy(&text), String::from_utf8_lossy(&got.text));
        }
        let own_now = HANDLED.load(SeqCst) - own0;
        ensure!(own_now <= own_want && (own_now == own_want || lossy_own || own_want > own_now && raised_while_blocked(&planned, &set)),
            "{} signals that were not asked for were raised, the program's own handler saw {}", own_want, own_now);
        ctx.count("signals raised", raises.values().sum());
        if raises.len() > 1 { ctx.count("rounds with several signals", 1); }
        let m = cur_mask();
        ensure!(m == before, "the thread's signal mask was {:?} before reading and is {:?}", before, m);
        order = combine(order, got.events << 8 | got.nones);
        ctx.state(combine(raises.len() as u64 | (real as u64) << 4 | (threads as u64) << 5 | (screen as u64) << 8 | (text.len().min(3) as u64) << 9, got.sig.iter().fold(0, |a, (k, v)| combine(a, (*k as u64) << 8 | v))));
    }
    ip::lock().dev[slot].vin = None;
    if let (Io::T(t, _), Some(s)) = (&io, inner) { ok!(t.restore(s), "restore"); }
    io.done()?;
    default_dispositions();
    let h = combine(ctx.trace_hash(), order);
    ctx.distinct(h);
    ctx.sample_trace();
    Ok(())
}

/// Repeats of one blocked signal merge
fn raised_while_blocked(planned: &[(Kind, u32, c_int)], set: &SignalSet) -> bool {
    planned.iter().filter(|p| ALL.iter().any(|x| x.0 == p.2 && x.1 != Signal::Continue && x.1 != Signal::Resize && !set.contains(x.1))).count() > 1
}

/// Reads until nothing is left.
fn read_all(io: &mut Io, r: &mut Rng, done: &AtomicBool, total: &Mutex<Got>, slot: usize) -> CaseResult {
    let mut nothing = 0;
    let t0 = Instant::now();
    let mut buf = [0u8; 40];
    while nothing < 8 {
        ensure!(t0.elapsed() < Duration::from_secs(20), "reading never ends: {} events", total.lock().unwrap().events);
        let guard = r.chance(3);
        let t = if r.chance(3) { Some(Duration::from_micros(r.below(800) as u64)) } else { ZERO };
        let fin = done.load(SeqCst) && ip::lock().dev[slot].vin.as_ref().map_or(true, |v| v.arrivals.is_empty());
        let e = match r.below(8) {
            0 => { ok!(io.wait(guard, t), "wait_event"); continue; }
            1 | 2 => { let n = r.range(1, 40); ok!(io.raw(guard, &mut buf[..n], t), "read_raw") }
            _ => ok!(io.ev(guard, t), "read_event"),
        };
        match e {
            // A read from the real device may find nothing
            Some(Event::Raw(0)) | None => { total.lock().unwrap().nones += 1; if fin { nothing += 1; } }
            Some(e) => { nothing = 0; total.lock().unwrap().put(e, &buf); }
        }
    }
    Ok(())
}

fn read_shared(io: &Io, r: &mut Rng, done: &AtomicBool, total: &Mutex<Got>, bad: &Bad, slot: usize) -> CaseResult {
    let mut nothing = 0;
    let t0 = Instant::now();
    while nothing < 8 && !bad.any() {
        ensure!(t0.elapsed() < Duration::from_secs(20), "reading never ends: {} events", total.lock().unwrap().events);
        let t = if r.chance(3) { Some(Duration::from_micros(r.below(800) as u64)) } else { ZERO };
        let fin = done.load(SeqCst) && ip::lock().dev[slot].vin.as_ref().map_or(true, |v| v.arrivals.is_empty());
        pause(r);
        if r.chance(8) { ok!(io.wait(r.chance(2), t), "wait_event"); continue; }
        match ok!(io.ev(r.chance(2), t), "read_event") {
            Some(e) => { nothing = 0; total.lock().unwrap().put(e, &[]); }
            None => { total.lock().unwrap().nones += 1; if fin { nothing += 1; } }
        }
    }
    Ok(())
}

// ---- G02 ---------------------------------------------------------------------------------------------------

#[derive(Copy, Clone, Debug, PartialEq)]
enum Call { Wait, Event, Raw }

/// (state, pending signals) of a thread of this process
fn thread_state(tid: u64) -> (char, u64) {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/status", tid)).unwrap_or_default();
    let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(k)).map(|x| x.trim().to_string()).unwrap_or_default();
    let pend = u64::from_str_radix(&get("SigPnd:"), 16).unwrap_or(0) | u64::from_str_radix(&get("ShdPnd:"), 16).unwrap_or(0);
    (get("State:").chars().next().unwrap_or('?'), pend)
}

extern "C" fn nothing(_: c_int) {}

/// A call that blocks on a clock which only waiting advances, with a signal raised at any of its instructions before:
/// it returns at once.
fn stepped(ctx: &mut Ctx, r: &mut Rng) -> CaseResult {
    let screen = r.chance(3);
    let term = pick_term(r);
    default_dispositions();
    drain_signals(ctx)?;
    let set = if r.chance(3) { rand_set(r) } else { SignalSet::all() };
    let cfg = PrepareConfig{report_signals: set, block_signals: true, enable_control_flow: false, enable_mouse: false, ..rand_config(r)};
    let mut io = open_io(ctx, r, term, screen, Some(cfg))?;
    let slot = ctx.pty.slot;
    let caught: Vec<(c_int, Signal)> = ALL.iter().copied().filter(|&(_, s)| s == Signal::Continue || s == Signal::Resize || set.contains(s)).collect();
    let call = *r.pick(&[Call::Wait, Call::Event, Call::Event, Call::Raw]);
    let guard = r.chance(2);
    let timeout = Some(Duration::from_secs(60));
    ip::lock().dev[slot].vin = Some(ip::VirtIn{clock: Some(ip::VirtClock::default()), ..ip::VirtIn::default()});
    ctx.note(format!("{:?}({:?}) guard {}, signals at its instructions", call, timeout, guard));
    let mut instructions = 0;
    for k in 0..40 {
        let (sig, s) = *r.pick(&caught);
        let plan = if k < 2 { Vec::new() } else { step::plan(r, instructions, &[sig]) };
        let t0 = ip::ahead();
        let mut raw = [0u8; 40];
        let (res, st) = step::run(&plan, || -> std::io::Result<(bool, Option<Event>)> {
            Ok(match call {
                Call::Wait => (io.wait(guard, timeout)?, None),
                Call::Event => (true, io.ev(guard, timeout)?),
                Call::Raw => (true, io.raw(guard, &mut raw, timeout)?),
            })
        });
        let (there, mut e) = ok!(res, "waiting");
        let waited = ip::ahead() - t0;
        if k < 2 {
            instructions = st.instructions;
            ensure!(e.is_none() && waited > 0, "{:?}({:?}) without anything returned {:?} after {} us", call, timeout, e, waited);
            continue;
        }
        let inj = match st.injected.first() { Some(i) => *i, None => continue };
        let what = format!("{:?}({:?}) with {} at instruction {} of {}", call, timeout, signame(sig), inj.at, instructions);
        let before = inj.ahead == t0;
        ctx.state(inj.place);
        ctx.count(if before { "woken by a signal at an instruction" } else { "signals at an instruction after waiting" }, 1);
        if before {
            ensure!(waited == 0, "{}, before it waited: it slept for {} us", what, waited);
            ensure!(there, "{}: returned false", what);
        }
        let reported = s == Signal::Resize || set.contains(s);
        if e.is_none() && (call == Call::Wait || !before || reported) { e = ok!(io.ev(guard, ZERO), "read_event"); }
        let want = if s == Signal::Resize { Some(Event::Resize(Size{lines: 24, columns: 80})) } else if reported { Some(Event::Signal(s)) } else { None };
        ensure!(e == want, "{}: read {:?}, expected {:?}", what, e, want);
        let e = ok!(io.ev(guard, ZERO), "read_event");
        ensure!(e.is_none(), "{}: after {:?} also {:?} was read", what, want, e);
    }
    ip::lock().dev[slot].vin = None;
    ip::back_to_now();
    io.done()?;
    default_dispositions();
    let h = ctx.trace_hash();
    ctx.distinct(h);
    Ok(())
}

pub fn g02(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng.fork();
    if ctx.idx % 8 == 5 && !cfg!(feature = "san") { return stepped(ctx, &mut r); }
    let screen = r.chance(3);
    let term = pick_term(&mut r);
    default_dispositions();
    let set = if r.chance(3) { rand_set(&mut r) } else { SignalSet::all() };
    let cfg = PrepareConfig{report_signals: set, block_signals: true, enable_control_flow: false, enable_mouse: false, ..rand_config(&mut r)};
    let mut io = open_io(ctx, &mut r, term, screen, Some(cfg))?;
    let (pty, slot) = (ctx.pty, ctx.pty.slot);
    set_disposition(libc::SIGUSR1, nothing as extern "C" fn(c_int) as usize, if r.chance(2) { libc::SA_RESTART } else { 0 }, &[]);
    let me = ip::tid();
    for _ in 0..6 {
        let caught: Vec<(c_int, Signal)> = ALL.iter().copied().filter(|&(_, s)| s == Signal::Continue || s == Signal::Resize || set.contains(s)).collect();
        let (sig, s) = *r.pick(&caught);
        let reported = s == Signal::Resize || set.contains(s);
        let call = *r.pick(&[Call::Wait, Call::Event, Call::Event, Call::Raw]);
        let guard = r.chance(3);
        let timeout = *r.pick(&[None, None, Some(Duration::from_secs(60)), Some(Duration::MAX)]);
        let size = (r.range(2, 40), r.range(2, 120));
        pty.set_size(size.0, size.1);
        // When
        let mut at = None;
        let mut delay = None;
        let mut noise = 0;
        match r.below(5) {
            0 | 1 => {
                let mut k = *r.pick(&[Kind::Wait, Kind::Wait, Kind::MaskPre, Kind::MaskPost]);
                if cfg!(feature = "san") { k = Kind::Wait; }
                let mut n = 0;
                if k == Kind::Wait && r.chance(3) {
                    // Waits interrupted by something else before
                    noise = r.range(1, 3) as u32;
                    n = noise;
                }
                at = Some((k, n));
            }
            2 => delay = Some(r.below(60) as u64),
            3 => delay = Some(r.below(500) as u64),
            _ => delay = Some(r.below(3000) as u64),
        }
        {
            let mut g = ip::lock();
            let d = &mut g.dev[slot];
            d.counts.clear();
            d.acts.clear();
            for i in 0..noise { d.acts.insert((Kind::Wait, i), vec![Act::Raise(libc::SIGUSR1), Act::Errno(libc::EINTR)]); }
            if let Some(k) = at { d.acts.entry(k).or_default().push(Act::Raise(sig)); }
        }
        ctx.note(format!("{:?}({:?}) {} at {:?} delay {:?} noise {}", call, timeout, signame(sig), at, delay, noise));
        let mask0 = cur_mask();
        let over = AtomicBool::new(false);
        let go = AtomicBool::new(false);
        let rescued = Mutex::new(None::<String>);
        let mut raw = [0u8; 40];
        let res: Result<Option<Event>, Fail> = std::thread::scope(|sc| {
            let (over, go, rescued) = (&over, &go, &rescued);
            sc.spawn(move || {
                while !go.load(SeqCst) { std::hint::spin_loop(); }
                let t0 = Instant::now();
                if let Some(d) = delay {
                    while t0.elapsed() < Duration::from_micros(d) { std::hint::spin_loop(); }
                    unsafe { libc::syscall(libc::SYS_tgkill, libc::getpid(), me as c_int, sig); }
                }
                // A reader that keeps sleeping with the signal behind it has missed it
                let mut asleep = 0;
                let mut last = Instant::now();
                loop {
                    if over.load(SeqCst) { return; }
                    std::thread::sleep(Duration::from_micros(if asleep == 0 { 200 } else { 20_000 }));
                    if over.load(SeqCst) { return; }
                    let raised = at.map_or(true, |k| !ip::lock().dev[slot].acts.contains_key(&k));
                    let (st, pend) = thread_state(me);
                    let sleeping = st == 'S' && pend & 1 << (sig - 1) == 0 && ip::WAITING.load(SeqCst) > 0;
                    // (or cannot be woken because the signal stays blocked)
                    let blocked = st == 'S' && ip::WAITING.load(SeqCst) > 0;
                    if raised && (sleeping || blocked) {
                        if asleep == 0 { last = Instant::now(); }
                        asleep += 1;
                        if asleep >= 30 && last.elapsed() > Duration::from_millis(600) {
                            *rescued.lock().unwrap() = Some(format!("the reader was still asleep {:?} after {} was received (state {}, pending {:x})", t0.elapsed(), signame(sig), st, pend));
                            break;
                        }
                    } else { asleep = 0; }
                    if t0.elapsed() > Duration::from_secs(15) {
                        *rescued.lock().unwrap() = Some(format!("busy for {:?}", t0.elapsed()));
                        break;
                    }
                }
                while !over.load(SeqCst) {
                    pty.type_in(b"r");
                    std::thread::sleep(Duration::from_millis(50));
                }
            });
            ip::WATCH_MASK.with(|w| w.set(true));
            go.store(true, SeqCst);
            let res = (|| Ok(match call {
                Call::Wait => { ensure!(ok!(io.wait(guard, timeout), "wait_event"), "wait_event returned false without a timeout"); None }
                Call::Event => ok!(io.ev(guard, timeout), "read_event"),
                Call::Raw => ok!(io.raw(guard, &mut raw, timeout), "read_raw"),
            }))();
            over.store(true, SeqCst);
            ip::WATCH_MASK.with(|w| w.set(false));
            res
        });
        if let Some(x) = rescued.into_inner().unwrap() { fail!("{:?}({:?}) with {} arriving at {:?} (delay {:?} us): {}", call, timeout, signame(sig), at, delay, x); }
        let mut e = res?;
        ctx.count("blocked calls woken", 1);
        ctx.count(if at.is_some() { "woken by a signal at a system call" } else { "woken by a signal at a random instant" }, 1);
        if let Some(k) = at { ensure!(!ip::lock().dev[slot].acts.contains_key(&k), "{:?}({:?}) returned {:?} before anything happened", call, timeout, e); }
        if call == Call::Wait || reported && e.is_none() {
            // What woke it is there to be read
            e = ok!(io.ev(guard, SEC), "read_event");
        }
        let want = if s == Signal::Resize { Some(Event::Resize(Size{lines: size.0, columns: size.1})) } else if reported { Some(Event::Signal(s)) } else { None };
        ensure!(e == want, "{:?}({:?}) woken by {}: read {:?}, expected {:?}", call, timeout, signame(sig), e, want);
        let m = cur_mask();
        ensure!(m == mask0, "{:?}({:?}): the thread's signal mask was {:?} and is {:?}", call, timeout, mask0, m);
        let e = ok!(io.ev(guard, ZERO), "read_event");
        ensure!(e.is_none(), "{} was received once, and after {:?} also {:?} was read", signame(sig), want, e);
        ctx.state(combine(call as u64 | (guard as u64) << 2 | (sig as u64) << 3 | (screen as u64) << 9, at.map_or(delay.unwrap_or(0) / 100 + 100, |(k, n)| k as u64 * 8 + n as u64)));
    }
    ip::lock().dev[slot].acts.clear();
    io.done()?;
    default_dispositions();
    let h = ctx.trace_hash();
    ctx.distinct(h);
    ctx.sample_trace();
    Ok(())
}
