//! T04, T05, S07: threads sharing a Terminal or a Screen.

use crate::caps::*;
use crate::interpose as ip;
use crate::props_screen::{open, start};
use crate::run::{CaseResult, Ctx, Fail, Planned, EXPECT_PANIC};
use crate::util::*;
use crate::vt::{Attr, Vt};
use crate::{ensure, fail, ok};
use mortal::{term_write, term_writeln, Color, CursorMode, Event, Key, PrepareConfig, Screen, Size, Style, Terminal};
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering::SeqCst};
use std::sync::{Barrier, Mutex, TryLockError};
use std::time::{Duration, Instant};

/// Collects the first failure of any thread
#[derive(Default)]
pub struct Bad(Mutex<Option<Fail>>);
impl Bad {
    pub fn put(&self, r: CaseResult) {
        if let Err(e) = r { self.0.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert(e); }
    }
    pub fn any(&self) -> bool { self.0.lock().unwrap_or_else(|e| e.into_inner()).is_some() }
    pub fn take(self) -> CaseResult {
        match self.0.into_inner().unwrap_or_else(|e| e.into_inner()) { Some(f) => Err(f), None => Ok(()) }
    }
}

/// Runs `f` in this thread, expecting it to panic on purpose.
pub fn planned_panic<F: FnOnce()>(f: F) -> bool {
    EXPECT_PANIC.with(|e| e.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    EXPECT_PANIC.with(|e| e.set(false));
    match r { Err(p) => p.downcast_ref::<Planned>().is_some() || std::panic::resume_unwind(p), Ok(()) => false }
}

pub fn pause(r: &mut Rng) {
    match r.below(8) {
        0 => std::thread::yield_now(),
        1 => for _ in 0..r.below(3000) { std::hint::spin_loop(); },
        2 => std::thread::sleep(Duration::from_micros(r.below(60) as u64)),
        _ => (),
    }
}

fn jitter(r: &mut Rng, slot: usize, shorts: bool) {
    let mut g = ip::lock();
    let p = &mut g.dev[slot].wplan;
    p.delay_pct = *r.pick(&[0, 20, 60]);
    p.delay_us = 80;
    if shorts {
        p.short_pct = *r.pick(&[0, 0, 10, 60]);
        p.eintr_pct = *r.pick(&[0, 0, 10]);
    }
    p.rng = Some(r.fork());
}

// ---- T04 ---------------------------------------------------------------------------------------------------

type Look = (Option<Color>, Option<Color>, Style);
const PLAIN: Look = (None, None, Style::empty());

#[derive(Clone, Copy, Debug, PartialEq)]
enum How { Direct, DirectFmt, DirectStyled, Guard, GuardFlush, TryGuard, Macro, MacroLn, Char }

struct Unit { how: How, segs: Vec<(String, Look)> }

fn payload(r: &mut Rng, t: usize) -> String {
    let n = match r.below(14) { 0 => 0, 1..=7 => r.range(1, 30), 8..=10 => r.range(100, 900), 11 => r.range(8150, 8230), 12 => r.range(1000, 8000), _ => r.range(9000, 20000) };
    let mut s = ((b'a' + t as u8) as char).to_string().repeat(n);
    // over several lines
    if n > 0 && r.chance(3) { for _ in 0..r.range(1, 4) { let p = r.below(n); s.replace_range(p..p + 1, "\n"); } }
    s
}

fn look(r: &mut Rng) -> Look { (rand_color(r), rand_color(r), rand_style(r)) }

fn unit(r: &mut Rng, t: usize, k: usize) -> Unit {
    let how = *r.pick(&[How::Direct, How::DirectFmt, How::DirectStyled, How::Guard, How::Guard, How::Guard, How::GuardFlush, How::TryGuard, How::Macro, How::MacroLn, How::Char]);
    let head = format!("{{{}:{}:", t, k);
    let segs = match how {
        How::Char => vec![(((b'A' + t as u8) as char).to_string(), PLAIN)],
        How::Direct | How::DirectFmt => vec![(head + &payload(r, t) + "}", PLAIN)],
        How::DirectStyled => { let l = look(r); vec![(head + &payload(r, t) + "}", l)] }
        How::Macro | How::MacroLn => {
            let l = look(r);
            let mut v = vec![(head, PLAIN), (payload(r, t), l), ("}".into(), PLAIN)];
            if how == How::MacroLn { v.push(("\n".into(), PLAIN)); }
            v
        }
        _ => {
            let mut v = vec![(head, look(r))];
            for _ in 0..r.range(0, 5) { v.push((payload(r, t), look(r))); }
            v.push(("}".into(), look(r)));
            v
        }
    };
    Unit{how, segs}
}

fn put(term: &Terminal, u: &Unit, r: &mut Rng) -> CaseResult {
    match u.how {
        How::Char => ok!(term.write_char(u.segs[0].0.chars().next().unwrap()), "write_char"),
        How::Direct => ok!(term.write_str(&u.segs[0].0), "write_str"),
        How::DirectFmt => {
            let (a, b) = u.segs[0].0.split_at(u.segs[0].0.len() / 2);
            ok!(write!(term, "{}{}{}", a, "", b), "write!")
        }
        How::DirectStyled => { let (t, l) = &u.segs[0]; ok!(term.write_styled(l.0, l.1, l.2, t), "write_styled") }
        How::Macro => ok!(term_write!(term, (: u.segs[0].0) [fg=u.segs[1].1.0] [bg=u.segs[1].1.1] [style=u.segs[1].1.2] (: u.segs[1].0) [reset] "}"), "term_write!"),
        How::MacroLn => ok!(term_writeln!(term, (: u.segs[0].0) [fg=u.segs[1].1.0] [bg=u.segs[1].1.1] [style=u.segs[1].1.2] (: u.segs[1].0) [reset] "}"), "term_writeln!"),
        How::Guard | How::GuardFlush | How::TryGuard => {
            let mut g = if u.how == How::TryGuard {
                loop {
                    match term.try_lock_write() {
                        Ok(g) => break g,
                        Err(TryLockError::WouldBlock) => { std::thread::yield_now(); }
                        Err(TryLockError::Poisoned(_)) => fail!("write lock poisoned"),
                    }
                }
            } else { term.lock_write().map_err(|_| "write lock poisoned")? };
            for (t, l) in &u.segs {
                match r.below(3) {
                    0 => { ok!(g.write_styled(l.0, l.1, l.2, t), "write_styled"); continue; }
                    1 => ok!(g.set_theme(mortal::Theme::new(l.0, l.1, l.2)), "set_theme"),
                    _ => { ok!(g.set_style(l.2), "set_style"); ok!(g.set_fg(l.0), "set_fg"); ok!(g.set_bg(l.1), "set_bg"); }
                }
                if t.len() < 4 && r.chance(2) { for c in t.chars() { ok!(g.write_char(c), "write_char"); } }
                else { ok!(g.write_str(t), "write_str"); }
                if u.how == How::GuardFlush { ok!(g.flush(), "flush"); }
                pause(r);
            }
            ok!(g.clear_attributes(), "clear_attributes");
        }
    }
    Ok(())
}

pub fn t04(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng.fork();
    let name = *r.pick(&["xterm", "xterm-256color", "linux", "screen", "tmux"]);
    ctx.set_term(name);
    ctx.pty.reset(24, 80);
    let caps = caps_cached(name);
    let term = open(ctx)?;
    jitter(&mut r, ctx.pty.slot, true);
    let n = r.range(2, 6);
    let plan: Vec<Vec<Unit>> = (0..n).map(|t| { let m = r.range(1, 12); (0..m).map(|k| unit(&mut r, t, k)).collect() }).collect();
    // somebody else, who uses the terminal without writing text
    let extra = r.below(4);
    let bad = Bad::default();
    let start = Barrier::new(n + 1);
    let left = AtomicU32::new(n as u32);
    std::thread::scope(|s| {
        for (t, units) in plan.iter().enumerate() {
            let (term, bad, start, left) = (&term, &bad, &start, &left);
            let mut r = r.fork();
            let _ = t;
            s.spawn(move || {
                start.wait();
                for u in units {
                    pause(&mut r);
                    bad.put(put(term, u, &mut r));
                }
                left.fetch_sub(1, SeqCst);
            });
        }
        start.wait();
        let mut k = 0;
        while left.load(SeqCst) > 0 {
            match extra {
                0 => { let _ = term.size(); }
                1 => if k < 40 {
                    let c = PrepareConfig{enable_mouse: true, enable_keypad: true, ..PrepareConfig::default()};
                    bad.put((|| { let st = ok!(term.prepare(c), "prepare"); std::thread::yield_now(); ok!(term.restore(st), "restore"); Ok(()) })());
                    k += 1;
                },
                2 => { if let Ok(mut g) = term.try_lock_write() { let _ = g.flush(); } }
                _ => (),
            }
            std::thread::sleep(Duration::from_micros(100));
        }
    });
    bad.take()?;
    drop(term);
    // What was sent
    let recs = std::mem::take(&mut ip::lock().dev[ctx.pty.slot].recs);
    let out = ip::take_out(ctx.pty.slot);
    let mut vt = caps.vt(3, 200);
    let mut seen: Vec<(u8, Attr, usize)> = Vec::new();
    for (i, &b) in out.iter().enumerate() {
        let p = vt.printed;
        let open = vt.incomplete();
        vt.feed(&[b]);
        if vt.printed > p { seen.push((b, vt.attr, i)); }
        else if b == b'\n' && !open { seen.push((b, vt.attr, i)); }
        if let Some(a) = vt.anomalies.first() { fail!("output at byte {}: {}", i, a); }
    }
    let around = |at: usize| show_bytes(&out[at.saturating_sub(60)..(at + 60).min(out.len())]);
    let mut next = vec![0usize; n];
    let mut chars = vec![0usize; n];
    let mut order = 0u64;
    let mut i = 0;
    let mut switches = 0;
    let mut last = n;
    while i < seen.len() {
        let (b, _, off) = seen[i];
        let t;
        let k;
        if b.is_ascii_uppercase() {
            t = (b - b'A') as usize;
            ensure!(t < n, "stray {:?} at byte {}: {}", b as char, off, around(off));
            chars[t] += 1;
            k = (0..plan[t].len()).filter(|&k| plan[t][k].how == How::Char).nth(chars[t] - 1);
            ensure!(k.is_some(), "thread {}'s character was sent too often", t);
        } else {
            ensure!(b == b'{', "at byte {} expected the beginning of a unit: {}", off, around(off));
            let h: String = seen[i + 1..].iter().take(8).map(|x| x.0 as char).collect();
            let f: Vec<&str> = h.splitn(3, ':').collect();
            ensure!(f.len() == 3 && f[0].parse::<usize>().is_ok() && f[1].parse::<usize>().is_ok(), "torn unit at byte {}: {}", off, around(off));
            t = f[0].parse().unwrap();
            k = Some(f[1].parse().unwrap());
        }
        let k = k.unwrap();
        ensure!(t < n && k < plan[t].len(), "unit {}:{} was never written", t, k);
        while next[t] < k && plan[t][next[t]].how == How::Char { ensure!(chars[t] > (0..=next[t]).filter(|&j| plan[t][j].how == How::Char).count() - 1, "thread {}: unit {} before character {}", t, k, next[t]); next[t] += 1; }
        ensure!(next[t] == k, "thread {}: unit {} follows where {} was due", t, k, next[t]);
        next[t] += 1;
        for (text, l) in &plan[t][k].segs {
            let want = caps.look(l.0, l.1, l.2);
            for c in text.bytes() {
                let (b, a, off) = match seen.get(i) { Some(x) => *x, None => fail!("unit {}:{} is cut short", t, k) };
                ensure!(b == c, "unit {}:{} ({:?}) is torn at byte {}: found {:?}, expected {:?}: {}", t, k, plan[t][k].how, off, b as char, c as char, around(off));
                ensure!(b == b'\n' || a == want, "unit {}:{} ({:?}) at byte {}: attributes {:?}, expected {:?}: {}", t, k, plan[t][k].how, off, a, want, around(off));
                i += 1;
            }
        }
        order = combine(order, t as u64);
        if last != t { switches += 1; last = t; }
    }
    for t in 0..n {
        while next[t] < plan[t].len() && plan[t][next[t]].how == How::Char && chars[t] > (0..next[t]).filter(|&j| plan[t][j].how == How::Char).count() { next[t] += 1; }
        ensure!(next[t] == plan[t].len(), "thread {}: {} of {} units arrived", t, next[t], plan[t].len());
    }
    let writers: std::collections::HashSet<u64> = recs.iter().map(|r| r.tid).collect();
    ctx.count("units checked", plan.iter().map(|p| p.len() as u64).sum());
    ctx.count("bytes checked", seen.len() as u64);
    ctx.count("changes of writer observed", switches.max(1) - 1);
    ctx.max("max threads that wrote", writers.len() as u64);
    ctx.state(combine(order, n as u64));
    ctx.distinct(combine(order, ctx.idx));
    ctx.note(format!("{} threads, {} units, {} changes of writer, extra {}", n, next.iter().sum::<usize>(), switches, extra));
    if ctx.idx % 53 == 1 { ctx.sample_trace(); }
    Ok(())
}

// ---- T05 ---------------------------------------------------------------------------------------------------

/// A Terminal or a Screen
enum Both { T(Terminal), S(Screen) }

enum RG<'a> { T(mortal::TerminalReadGuard<'a>), S(mortal::ScreenReadGuard<'a>) }
enum WG<'a> { T(mortal::TerminalWriteGuard<'a>), S(mortal::ScreenWriteGuard<'a>) }

/// Locking outcome
enum L<G> { Ok(G), Poisoned(G), Would }

impl Both {
    fn read(&self) -> L<RG<'_>> {
        match self {
            Both::T(t) => match t.lock_read() { Ok(g) => L::Ok(RG::T(g)), Err(e) => L::Poisoned(RG::T(e.into_inner())) },
            Both::S(t) => match t.lock_read() { Ok(g) => L::Ok(RG::S(g)), Err(e) => L::Poisoned(RG::S(e.into_inner())) },
        }
    }
    fn write(&self) -> L<WG<'_>> {
        match self {
            Both::T(t) => match t.lock_write() { Ok(g) => L::Ok(WG::T(g)), Err(e) => L::Poisoned(WG::T(e.into_inner())) },
            Both::S(t) => match t.lock_write() { Ok(g) => L::Ok(WG::S(g)), Err(e) => L::Poisoned(WG::S(e.into_inner())) },
        }
    }
    fn try_read(&self) -> L<RG<'_>> {
        match self {
            Both::T(t) => match t.try_lock_read() { Ok(g) => L::Ok(RG::T(g)), Err(TryLockError::Poisoned(e)) => L::Poisoned(RG::T(e.into_inner())), Err(_) => L::Would },
            Both::S(t) => match t.try_lock_read() { Ok(g) => L::Ok(RG::S(g)), Err(TryLockError::Poisoned(e)) => L::Poisoned(RG::S(e.into_inner())), Err(_) => L::Would },
        }
    }
    fn try_write(&self) -> L<WG<'_>> {
        match self {
            Both::T(t) => match t.try_lock_write() { Ok(g) => L::Ok(WG::T(g)), Err(TryLockError::Poisoned(e)) => L::Poisoned(WG::T(e.into_inner())), Err(_) => L::Would },
            Both::S(t) => match t.try_lock_write() { Ok(g) => L::Ok(WG::S(g)), Err(TryLockError::Poisoned(e)) => L::Poisoned(WG::S(e.into_inner())), Err(_) => L::Would },
        }
    }
    fn direct_write(&self, s: &str) {
        match self { Both::T(t) => { let _ = t.write_str(s); } Both::S(t) => { t.write_at((0, 0), s); let _ = t.refresh(); } }
    }
    fn read_event(&self, t: Option<Duration>) -> std::io::Result<Option<Event>> {
        match self { Both::T(x) => x.read_event(t), Both::S(x) => x.read_event(t) }
    }
    fn wait_event(&self, t: Option<Duration>) -> std::io::Result<bool> {
        match self { Both::T(x) => x.wait_event(t), Both::S(x) => x.wait_event(t) }
    }
    /// something else that needs the write lock
    fn other_write(&self, k: usize) {
        match (self, k % 4) {
            (Both::T(t), 0) => { let _ = t.set_cursor_mode(CursorMode::Normal); }
            (Both::T(t), 1) => { let _ = t.move_to_first_column(); }
            (Both::T(t), 2) => { let _ = t.size(); }
            (Both::T(t), _) => { let _ = t.write_styled(Color::Red, None, Style::BOLD, "s"); }
            (Both::S(t), 0) => { let _ = t.set_cursor_mode(CursorMode::Normal); }
            (Both::S(t), 1) => { t.set_cursor((0, 1)); let _ = t.cursor(); }
            (Both::S(t), 2) => { let _ = t.size(); }
            (Both::S(t), _) => { t.write_styled_at((1, 1), Color::Red, None, Style::BOLD, "s"); let _ = t.refresh(); }
        }
    }
}
impl<'a> RG<'a> {
    fn read_event(&mut self, t: Option<Duration>) -> std::io::Result<Option<Event>> { match self { RG::T(g) => g.read_event(t), RG::S(g) => g.read_event(t) } }
    fn wait_event(&mut self, t: Option<Duration>) -> std::io::Result<bool> { match self { RG::T(g) => g.wait_event(t), RG::S(g) => g.wait_event(t) } }
}
impl<'a> WG<'a> {
    fn write(&mut self, s: &str) { match self { WG::T(g) => { let _ = g.write_str(s); } WG::S(g) => g.write_at((0, 0), s) } }
    fn finish(&mut self) { match self { WG::T(g) => { let _ = g.flush(); } WG::S(g) => { let _ = g.refresh(); } } }
}

fn subject(ctx: &mut Ctx, r: &mut Rng) -> Result<(Both, Option<mortal::PrepareState>), Fail> {
    ctx.set_term("xterm");
    ctx.pty.reset(6, 40);
    let t = open(ctx)?;
    let mut c = PrepareConfig::default();
    c.report_signals.insert(mortal::Signal::Continue);
    if r.chance(2) {
        let st = ok!(t.prepare(c), "prepare");
        Ok((Both::T(t), Some(st)))
    } else { Ok((Both::S(ok!(Screen::with_terminal(t, c), "creating the screen")), None)) }
}

pub fn t05(ctx: &mut Ctx) -> CaseResult {
    crate::props_screen::drain_signals(ctx)?;
    let mut r = ctx.rng.fork();
    let (x, st) = subject(ctx, &mut r)?;
    let what = ctx.idx % 8;
    let name = if matches!(x, Both::T(_)) { "Terminal" } else { "Screen" };
    ctx.note(format!("{} scenario {}", name, what));
    let res = match what {
        0 | 1 => matrix(ctx, &mut r, &x),
        2 => blocked_reader(ctx, &mut r, &x),
        3 => blocked_writer(ctx, &mut r, &x),
        4 | 5 => poison(ctx, &mut r, &x),
        _ => stress(ctx, &mut r, &x),
    };
    let h = ctx.trace_hash();
    ctx.distinct(combine(h, ctx.idx));
    if ctx.idx % 41 < 8 { ctx.sample_trace(); }
    match x {
        Both::T(t) => {
            if let Some(st) = st {
                // the read lock may be poisoned by now
                let mut g = t.lock_read().unwrap_or_else(|e| e.into_inner());
                let mut w = t.lock_write().unwrap_or_else(|e| e.into_inner());
                let _ = g.restore_with_lock(&mut w, st);
            }
        }
        Both::S(s) => drop(s),
    }
    res
}

/// A guard excludes its own kind and nothing else.
fn matrix(ctx: &mut Ctx, r: &mut Rng, x: &Both) -> CaseResult {
    let hold_read = r.chance(2);
    let hold_write = !hold_read || r.chance(3);
    let via_try = r.chance(2);
    ctx.note(format!("holding read {} write {} by {}", hold_read, hold_write, if via_try { "try_lock" } else { "lock" }));
    macro_rules! get { ($l:expr, $what:expr) => { match $l { L::Ok(g) => g, L::Poisoned(_) => fail!("{}: poisoned without a panic", $what), L::Would => fail!("{}: WouldBlock while nobody holds the lock", $what) } } }
    let rg = if hold_read { Some(get!(if via_try { x.try_read() } else { x.read() }, "read lock")) } else { None };
    let wg = if hold_write { Some(get!(if via_try { x.try_write() } else { x.write() }, "write lock")) } else { None };
    let bad = Bad::default();
    let entered = AtomicU32::new(0);
    let k = r.below(4);
    let deadline = Duration::from_secs(20);
    // in this thread and in another
    let probe = |here: bool| -> CaseResult {
        let w = if here { "same thread" } else { "another thread" };
        match x.try_read() {
            L::Would => ensure!(hold_read, "try_lock_read in {}: WouldBlock though no read guard exists", w),
            L::Ok(_) => ensure!(!hold_read, "try_lock_read in {} succeeded while a read guard exists", w),
            L::Poisoned(_) => fail!("try_lock_read in {}: poisoned", w),
        }
        match x.try_write() {
            L::Would => ensure!(hold_write, "try_lock_write in {}: WouldBlock though no write guard exists", w),
            L::Ok(_) => ensure!(!hold_write, "try_lock_write in {} succeeded while a write guard exists", w),
            L::Poisoned(_) => fail!("try_lock_write in {}: poisoned", w),
        }
        Ok(())
    };
    std::thread::scope(|s| {
        bad.put(probe(true));
        bad.put(s.spawn(|| probe(false)).join().unwrap_or(Err("panic".into())));
        // the other kind must not be blocked
        let free = s.spawn(|| -> CaseResult {
            if !hold_write {
                match x.write() { L::Ok(mut g) => { g.write("w"); g.finish(); } _ => fail!("write lock not available") }
                x.direct_write("d");
                x.other_write(k);
            }
            if !hold_read {
                ctx.pty.type_in(b"k");
                ensure!(ok!(x.wait_event(Some(Duration::from_secs(10))), "wait_event"), "no input reported");
                let e = ok!(x.read_event(Some(Duration::from_secs(10))), "read_event");
                ensure!(e == Some(Event::Key(Key::Char('k'))), "read {:?}, typed k", e);
            }
            Ok(())
        });
        let t = Instant::now();
        while !free.is_finished() {
            if t.elapsed() > deadline {
                bad.put(Err(format!("with read guard: {}, write guard: {} held, operations of the other kind did not finish in {:?}", hold_read, hold_write, deadline).into()));
                break;
            }
            std::thread::sleep(Duration::from_micros(200));
        }
        // its own kind must wait
        let entered = &entered;
        let waiter = s.spawn(move || -> CaseResult {
            if hold_read && (!hold_write || k < 2) {
                match k % 2 {
                    0 => { let _g = match x.read() { L::Ok(g) => g, _ => fail!("read lock not available") }; entered.store(1, SeqCst); }
                    _ => { let _ = x.wait_event(Some(Duration::from_millis(0))); entered.store(1, SeqCst); }
                }
            } else {
                match k % 2 {
                    0 => { let _g = match x.write() { L::Ok(g) => g, _ => fail!("write lock not available") }; entered.store(1, SeqCst); }
                    _ => { x.direct_write("later"); entered.store(1, SeqCst); }
                }
            }
            Ok(())
        });
        std::thread::sleep(Duration::from_millis(2));
        if entered.load(SeqCst) != 0 { bad.put(Err(format!("a second {} got in while a guard was held", if hold_read && (!hold_write || k < 2) { "reader" } else { "writer" }).into())); }
        drop(wg);
        drop(rg);
        bad.put(free.join().unwrap_or(Err("panic".into())));
        bad.put(waiter.join().unwrap_or(Err("panic".into())));
        if entered.load(SeqCst) == 0 && !bad.any() { bad.put(Err("the waiting thread never got in".into())); }
    });
    ctx.count("lock combinations probed", 1);
    bad.take()
}

/// Somebody waits for input: writers go on.
fn blocked_reader(ctx: &mut Ctx, r: &mut Rng, x: &Both) -> CaseResult {
    let bad = Bad::default();
    let k = r.below(4);
    let in_guard = r.chance(2);
    let raw = r.chance(3);
    let timeout = if r.chance(2) { None } else { Some(Duration::from_secs(25)) };
    ctx.note(format!("reader waits in {} ({})", if in_guard { "a guard" } else { "a direct call" }, if raw { "wait_event" } else { "read_event" }));
    let before = ip::WAITING.load(SeqCst);
    std::thread::scope(|s| {
        let h = s.spawn(|| -> CaseResult {
            if raw {
                let ok = if in_guard { match x.read() { L::Ok(mut g) => g.wait_event(timeout), _ => fail!("read lock not available") } } else { x.wait_event(timeout) };
                ensure!(ok!(ok, "wait_event"), "wait_event reported nothing");
            }
            let e = if in_guard { match x.read() { L::Ok(mut g) => g.read_event(timeout), _ => fail!("read lock not available") } } else { x.read_event(timeout) };
            let e = ok!(e, "read_event");
            ensure!(e == Some(Event::Key(Key::Char('k'))), "read {:?}, typed k", e);
            Ok(())
        });
        let t = Instant::now();
        while ip::WAITING.load(SeqCst) == before && t.elapsed() < Duration::from_secs(10) && !h.is_finished() { std::thread::yield_now(); }
        let waiting = ip::WAITING.load(SeqCst) > before;
        if waiting { ctx.count("operations done while a reader waited", 1); }
        if waiting {
            let probe = s.spawn(|| -> CaseResult {
                match x.try_read() { L::Would => (), _ => fail!("try_lock_read succeeded while another thread reads") }
                match x.try_write() { L::Ok(mut g) => { g.write("one"); g.finish(); } _ => fail!("try_lock_write failed while another thread only reads") }
                match x.write() { L::Ok(mut g) => { g.write("two"); g.finish(); } _ => fail!("write lock not available") }
                x.direct_write("three");
                x.other_write(k);
                Ok(())
            });
            let t = Instant::now();
            while !probe.is_finished() && t.elapsed() < Duration::from_secs(15) { std::thread::sleep(Duration::from_micros(200)); }
            if !probe.is_finished() { bad.put(Err("writing did not finish while another thread waits for input".into())); }
            else if ip::take_out(ctx.pty.slot).is_empty() { bad.put(Err("nothing was sent while another thread waits for input".into())); }
            ctx.pty.type_in(b"k");
            bad.put(probe.join().unwrap_or(Err("panic".into())));
        } else { ctx.pty.type_in(b"k"); }
        bad.put(h.join().unwrap_or(Err("panic".into())));
    });
    bad.take()
}

/// Somebody holds the write guard: readers go on.
fn blocked_writer(ctx: &mut Ctx, r: &mut Rng, x: &Both) -> CaseResult {
    let bad = Bad::default();
    let done = AtomicBool::new(false);
    let keys = r.range(1, 5);
    std::thread::scope(|s| {
        let g = match x.write() { L::Ok(g) => g, _ => return bad.put(Err("write lock not available".into())) };
        let h = s.spawn(|| -> CaseResult {
            for _ in 0..keys {
                ctx.pty.type_in("é".as_bytes());
                ensure!(ok!(x.wait_event(Some(Duration::from_secs(10))), "wait_event"), "no input reported");
                let e = ok!(x.read_event(Some(Duration::from_secs(10))), "read_event");
                ensure!(e == Some(Event::Key(Key::Char('é'))), "read {:?}, typed é", e);
                match x.read() { L::Ok(mut g) => { let e = ok!(g.read_event(Some(Duration::from_millis(0))), "read_event"); ensure!(e.is_none(), "read {:?}, typed nothing", e); } _ => fail!("read lock not available") }
            }
            done.store(true, SeqCst);
            Ok(())
        });
        let t = Instant::now();
        while !h.is_finished() && t.elapsed() < Duration::from_secs(15) { std::thread::sleep(Duration::from_micros(200)); }
        if !h.is_finished() { bad.put(Err("reading did not finish while another thread holds the write guard".into())); }
        drop(g);
        bad.put(h.join().unwrap_or(Err("panic".into())));
    });
    ctx.count("reads done while a writer held its guard", keys as u64);
    bad.take()
}

/// A panic with a guard held poisons that lock, and only that.
fn poison(ctx: &mut Ctx, r: &mut Rng, x: &Both) -> CaseResult {
    let read = r.chance(2);
    let other_thread = r.chance(2);
    let by_try = r.chance(2);
    let both = r.chance(4);
    ctx.note(format!("panic with {} guard held", if both { "each" } else if read { "the read" } else { "the write" }));
    let go = || {
        assert!(planned_panic(|| {
            let _r = if read || both { Some(x.read()) } else { None };
            let mut _w = if !read || both { Some(x.write()) } else { None };
            if let Some(L::Ok(g)) = _w.as_mut() { g.write("pp"); }
            std::panic::panic_any(Planned);
        }), "harness: no panic");
    };
    if other_thread { std::thread::scope(|s| { s.spawn(go).join().unwrap(); }); } else { go(); }
    ip::take_out(ctx.pty.slot);
    for _ in 0..2 {
        for kind_read in [true, false] {
            let poisoned = both || kind_read == read;
            let name = if kind_read { "read" } else { "write" };
            if kind_read {
                let l = if by_try { x.try_read() } else { x.read() };
                let mut g = match l {
                    L::Ok(g) => { ensure!(!poisoned, "locking {} after a panic with that guard held reported no poisoning", name); g }
                    L::Poisoned(g) => { ensure!(poisoned, "locking {} reports poisoning after a panic with only the other guard held", name); g }
                    L::Would => fail!("locking {} after a panic: WouldBlock", name),
                };
                ctx.pty.type_in(b"k");
                let e = ok!(g.read_event(Some(Duration::from_secs(10))), "read_event");
                ensure!(e == Some(Event::Key(Key::Char('k'))), "the guard after a panic reads {:?}, typed k", e);
            } else {
                let l = if by_try { x.try_write() } else { x.write() };
                let mut g = match l {
                    L::Ok(g) => { ensure!(!poisoned, "locking {} after a panic with that guard held reported no poisoning", name); g }
                    L::Poisoned(g) => { ensure!(poisoned, "locking {} reports poisoning after a panic with only the other guard held", name); g }
                    L::Would => fail!("locking {} after a panic: WouldBlock", name),
                };
                g.write("ab!");
                g.finish();
                drop(g);
                let out = ip::take_out(ctx.pty.slot);
                let first = show_bytes(&out);
                // on a Screen the cells may already show it
                ensure!(first.contains("ab!") || (matches!(x, Both::S(_)) && ctx.counters.contains_key("poisoned write guards used")) , "the guard after a panic sent {:?}", first);
                if poisoned { ctx.count("poisoned write guards used", 1); }
                if let Both::S(_) = x { ctx.count("poisoned write guards used", 0); }
            }
        }
        if read && !both { x.direct_write("d"); } else if !both {
            ctx.pty.type_in(b"k");
            let e = ok!(x.read_event(Some(Duration::from_secs(10))), "read_event");
            ensure!(e == Some(Event::Key(Key::Char('k'))), "read {:?}, typed k", e);
        }
    }
    ctx.count("panics with a guard held", 1);
    Ok(())
}

/// Random threads respecting the lock order always finish; guards of one kind never coexist.
fn stress(ctx: &mut Ctx, r: &mut Rng, x: &Both) -> CaseResult {
    jitter(r, ctx.pty.slot, false);
    let n = r.range(3, 7);
    let bad = Bad::default();
    let (in_r, in_w) = (AtomicU32::new(0), AtomicU32::new(0));
    let prepared = AtomicU32::new(0);
    let barrier = Barrier::new(n);
    let ops = r.range(10, 60);
    let counts = Mutex::new((0u64, 0u64, 0u64, 0u64, 0u64));
    let order = Mutex::new(0u64);
    std::thread::scope(|s| {
        for t in 0..n {
            let mut r = r.fork();
            let prepared = &prepared;
            let (bad, in_r, in_w, barrier, counts, order, pty) = (&bad, &in_r, &in_w, &barrier, &counts, &order, ctx.pty);
            s.spawn(move || {
                barrier.wait();
                let run = || -> CaseResult {
                    for _ in 0..ops {
                        pause(&mut r);
                        let z = Some(Duration::from_micros(*r.pick(&[0u64, 0, 300, 1500])));
                        // Preparing and restoring, which one thread does
                        if let (0, Both::T(term)) = (t, x) {
                            if r.chance(3) {
                                let mut c = PrepareConfig::default();
                                c.report_signals.insert(mortal::Signal::Continue);
                                c.enable_mouse = r.chance(2);
                                let st = if r.chance(3) { ok!(term.lock_read().map_err(|_| "poisoned")?.prepare(c), "prepare") } else { ok!(term.prepare(c), "prepare") };
                                pause(&mut r);
                                if r.chance(2) { ok!(term.read_event(z), "read_event"); }
                                if r.chance(3) { ok!(term.lock_read().map_err(|_| "poisoned")?.restore(st), "restore") } else { ok!(term.restore(st), "restore") }
                                prepared.fetch_add(1, SeqCst);
                                continue;
                            }
                        }
                        let (want_r, want_w) = match r.below(12) {
                            0 | 1 => (true, false),
                            2 | 3 => (false, true),
                            4 | 5 => (true, true),
                            6 => { ok!(x.read_event(z), "read_event"); counts.lock().unwrap().2 += 1; continue; }
                            7 => { ok!(x.wait_event(z), "wait_event"); continue; }
                            8 => { x.direct_write("dd"); continue; }
                            9 => { let k = r.below(4); x.other_write(k); continue; }
                            10 => { pty.type_in(b"xy"); continue; }
                            _ => { unsafe { libc::raise(if r.chance(2) { libc::SIGWINCH } else { libc::SIGCONT }); } counts.lock().unwrap().3 += 1; continue; }
                        };
                        let by_try = r.chance(3);
                        let rg = if want_r {
                            match if by_try { x.try_read() } else { x.read() } {
                                L::Ok(g) => { ensure!(in_r.fetch_add(1, SeqCst) == 0, "two read guards exist at once"); Some(g) }
                                L::Would if by_try => { counts.lock().unwrap().4 += 1; None }
                                _ => fail!("read lock poisoned"),
                            }
                        } else { None };
                        let wg = if want_w {
                            match if by_try { x.try_write() } else { x.write() } {
                                L::Ok(g) => { ensure!(in_w.fetch_add(1, SeqCst) == 0, "two write guards exist at once"); Some(g) }
                                L::Would if by_try => { counts.lock().unwrap().4 += 1; None }
                                _ => fail!("write lock poisoned"),
                            }
                        } else { None };
                        let mut rg = rg;
                        let mut wg = wg;
                        if let Some(g) = wg.as_mut() { g.write("ww"); pause(&mut r); if r.chance(3) { g.finish(); } }
                        // Reading needs the write lock to handle some signals.
                        if wg.is_none() { if let Some(g) = rg.as_mut() { ok!(g.read_event(z), "read_event"); if r.chance(3) { ok!(g.wait_event(z), "wait_event"); } } }
                        pause(&mut r);
                        let mut c = counts.lock().unwrap();
                        if rg.is_some() { c.0 += 1; }
                        if wg.is_some() { c.1 += 1; }
                        drop(c);
                        if rg.is_some() || wg.is_some() { let mut o = order.lock().unwrap(); *o = combine(*o, (t * 4) as u64 + rg.is_some() as u64 * 2 + wg.is_some() as u64); }
                        if wg.is_some() { in_w.fetch_sub(1, SeqCst); }
                        drop(wg);
                        if rg.is_some() { in_r.fetch_sub(1, SeqCst); }
                        drop(rg);
                    }
                    Ok(())
                };
                let mut run = run;
                let res = run();
                bad.put(res);
            });
        }
    });
    let c = *counts.lock().unwrap();
    ctx.count("read guards held in stress", c.0);
    ctx.count("write guards held in stress", c.1);
    ctx.count("signals raised in stress", c.3);
    ctx.count("preparations in stress", prepared.load(SeqCst) as u64);
    ctx.count("try_lock refused in stress", c.4);
    let o = *order.lock().unwrap();
    ctx.state(o);
    bad.take()
}

// ---- S07 ---------------------------------------------------------------------------------------------------

/// Threads appending to one text: it must consist of whole pieces, each once, every thread's in order.
fn s07_text(ctx: &mut Ctx) -> CaseResult {
    crate::props_screen::drain_signals(ctx)?;
    let mut r = ctx.rng.fork();
    let term = *r.pick(&["xterm", "xterm-256color", "linux", "screen", "tmux"]);
    let n = r.range(2, 5);
    let rounds = r.range(2, 14);
    let cols = r.range(5, 40);
    // (thread's calls, whether within one guard): pieces of one character each
    #[derive(Clone)]
    enum How { Str, Fmt, Styled(Look), Char, Guard(Vec<(Look, usize)>) }
    let mut plans: Vec<Vec<(How, usize)>> = (0..n).map(|_| (0..rounds).map(|_| {
        let how = match r.below(6) { 0 | 1 => How::Str, 2 => How::Fmt, 3 => How::Styled(look(&mut r)), 4 => How::Char,
            _ => How::Guard((0..r.range(1, 4)).map(|_| (if r.chance(2) { look(&mut r) } else { PLAIN }, r.range(1, 9))).collect()) };
        let len = if let How::Char = how { 1 } else { r.range(2, 14) };
        (how, len)
    }).collect()).collect();
    let total: usize = plans.iter().flatten().map(|(h, l)| if let How::Guard(v) = h { v.iter().map(|x| x.1).sum() } else { *l }).sum();
    let lines = total / cols + 2;
    // every piece has a character of its own
    let mut names: Vec<Vec<Vec<char>>> = Vec::new();
    let mut next = 0x4000u32 - 0x3c00;
    let mut seen: Vec<(char, usize, usize, usize, usize, Look)> = Vec::new(); // char, thread, call, piece, length, look
    for t in 0..n {
        let mut v = Vec::new();
        for (k, (h, l)) in plans[t].iter().enumerate() {
            let m = if let How::Guard(g) = h { g.len() } else { 1 };
            let mut c = Vec::new();
            for i in 0..m {
                let ch = loop { next += 1; let c = char::from_u32(next).unwrap(); if crate::model_screen::class(c) == crate::model_screen::Class::Print(1) { break c; } };
                let (len, lk) = match h { How::Guard(g) => (g[i].1, g[i].0), How::Styled(lk) => (*l, *lk), _ => (*l, PLAIN) };
                seen.push((ch, t, k, i, len, lk));
                c.push(ch);
            }
            v.push(c);
        }
        names.push(v);
    }
    let (screen, mut scr) = start(ctx, term, lines, cols, PrepareConfig::default())?;
    { let mut g = ip::lock(); g.dev[ctx.pty.slot].wplan = Default::default(); g.dev[ctx.pty.slot].recs.clear(); }
    jitter(&mut r, ctx.pty.slot, true);
    let bad = Bad::default();
    let barrier = Barrier::new(n + 1);
    let left = AtomicU32::new(n as u32);
    let resize = r.chance(3);
    std::thread::scope(|s| {
        for t in 0..n {
            let mut r = r.fork();
            let plan = std::mem::take(&mut plans[t]);
            let (screen, bad, barrier, left, names) = (&screen, &bad, &barrier, &left, &names);
            s.spawn(move || {
                barrier.wait();
                let mut run = || -> CaseResult {
                    for (k, (how, len)) in plan.iter().enumerate() {
                        if r.chance(2) { pause(&mut r); }
                        let rep = |i: usize, n: usize| names[t][k][i].to_string().repeat(n);
                        match how {
                            How::Str => screen.write_str(&rep(0, *len)),
                            How::Fmt => { let _ = write!(screen, "{}{}", rep(0, 1), rep(0, *len - 1)); }
                            How::Styled(lk) => screen.write_styled(lk.0, lk.1, lk.2, &rep(0, *len)),
                            How::Char => screen.write_char(names[t][k][0]),
                            How::Guard(v) => {
                                let mut g = screen.lock_write().map_err(|_| "write lock poisoned")?;
                                for (i, (lk, len)) in v.iter().enumerate() {
                                    g.set_theme(mortal::Theme::new(lk.0, lk.1, lk.2));
                                    for _ in 0..*len { if r.chance(6) { pause(&mut r); } g.write_char(names[t][k][i]); }
                                    g.clear_attributes();
                                }
                            }
                        }
                        if r.chance(6) { ok!(screen.refresh(), "refresh"); }
                    }
                    Ok(())
                };
                bad.put(run());
                left.fetch_sub(1, SeqCst);
            });
        }
        barrier.wait();
        let mut r = r.fork();
        while left.load(SeqCst) > 0 {
            match r.below(5) {
                0 => screen.clear_attributes(),
                1 => { let c = screen.cursor(); if c.line >= lines { bad.put(Err(format!("the cursor is at {:?}", c).into())); } }
                2 => if resize { unsafe { libc::raise(libc::SIGWINCH); } },
                3 => bad.put((|| { ok!(screen.read_event(Some(Duration::from_millis(0))), "read_event"); Ok(()) })()),
                _ => bad.put((|| { ok!(screen.refresh(), "refresh"); Ok(()) })()),
            }
            std::thread::sleep(Duration::from_micros(30));
        }
    });
    bad.take()?;
    ok!(screen.refresh(), "final refresh");
    let recs = std::mem::take(&mut ip::lock().dev[ctx.pty.slot].recs);
    let out = ip::take_out(ctx.pty.slot);
    let caps = scr.caps;
    // the pieces shown; the text ends at the first blank
    let pieces = |vt: &Vt| -> Result<Vec<usize>, Fail> {
        let mut v: Vec<usize> = Vec::new();
        let mut i = 0;
        while i < lines * cols && vt.cells[i].text != " " {
            let ch = vt.cells[i].text.chars().next().unwrap_or(' ');
            let p = match seen.iter().position(|s| s.0 == ch) { Some(p) => p, None => fail!("the display shows {:?} at cell {}, which nobody drew", ch, i) };
            let (_, t, k, m, len, lk) = seen[p];
            let want = caps.look(lk.0, lk.1, lk.2);
            for j in i..i + len {
                let c = vt.cells.get(j);
                ensure!(c.map_or(false, |c| c.text.chars().eq([ch])), "piece {:?} of {} characters shown at cell {} is torn: cell {} shows {:?}", ch, len, i, j, c);
                ensure!(c.map_or(false, |c| c.attr == want), "piece {:?} drawn with {:?} shows {:?} at cell {}", ch, lk, c, j);
            }
            // after what precedes it in its thread, and directly so within a guard
            let before = v.iter().rev().find(|q| seen[**q].1 == t).copied();
            ensure!(p == 0 || seen[p - 1].1 != t || before == Some(p - 1), "piece {:?}, number {} of call {} of thread {}, follows {:?} of that thread", ch, m, k, t, before.map(|q| &seen[q]));
            ensure!(m == 0 || v.last() == Some(&(p - 1)), "piece {:?} does not directly follow the one before it in the same guard, but {:?}", ch, v.last().map(|q| &seen[*q]));
            v.push(p);
            i += len;
        }
        for c in &vt.cells[i..] { ensure!(c.text == " ", "the display shows {:?} after the end of the text at cell {}", c, i); }
        if let Some(&p) = v.last() {
            // all of a guard's
            ensure!(seen.get(p + 1).map_or(true, |q| q.1 != seen[p].1 || q.2 != seen[p].2), "only a part of what a guard drew is shown, up to {:?}", seen[p]);
        }
        Ok(v)
    };
    let mut pos = 0;
    let mut order = 0;
    let mut checks = 0;
    for (i, rec) in recs.iter().enumerate() {
        ensure!(rec.off == pos, "harness: records out of step");
        scr.vt.feed(&out[pos..pos + rec.len]);
        pos += rec.len;
        if let Some(a) = scr.vt.anomalies.first() { fail!("output at byte {}: {}", pos, a); }
        if recs.get(i + 1).map_or(false, |n| n.tid != rec.tid) && (rec.len > 0 || rec.errno != 0) {
            checks += 1;
            order = combine(order, rec.tid);
            pieces(&scr.vt)?;
        }
    }
    scr.vt.feed(&out[pos..]);
    let v = pieces(&scr.vt)?;
    ensure!(v.len() == seen.len(), "{} pieces were drawn and {} are shown", seen.len(), v.len());
    let want = (total / cols, total % cols);
    let c = screen.cursor();
    ensure!((c.line, c.column) == want, "after {} characters the cursor is at {:?}", total, c);
    for p in &v { order = combine(order, *p as u64); }
    ctx.count("pieces of shared text checked", v.len() as u64);
    ctx.count("displays checked between threads", checks);
    ctx.state(order);
    ctx.distinct(combine(order, ctx.idx));
    ctx.note(format!("{} threads appending {} pieces, {} displays checked", n, seen.len(), checks));
    if ctx.idx % 53 == 1 { ctx.sample_trace(); }
    drop(screen);
    Ok(())
}

pub fn s07(ctx: &mut Ctx) -> CaseResult {
    if ctx.idx % 4 == 3 { return s07_text(ctx); }
    crate::props_screen::drain_signals(ctx)?;
    let mut r = ctx.rng.fork();
    let term = *r.pick(&["xterm", "xterm-256color", "linux", "screen", "tmux"]);
    let n = r.range(2, 5);
    // two shared lines, and one line for each thread
    let (lines, cols) = (n + 2, r.range(6, 24));
    let cfg = PrepareConfig::default();
    let (screen, mut scr) = start(ctx, term, lines, cols, cfg)?;
    { let mut g = ip::lock(); g.dev[ctx.pty.slot].wplan = Default::default(); g.dev[ctx.pty.slot].recs.clear(); }
    jitter(&mut r, ctx.pty.slot, true);
    let rounds = r.range(2, 14);
    let resize = r.chance(3);
    let bad = Bad::default();
    let barrier = Barrier::new(n + 1);
    let left = AtomicU32::new(n as u32);
    // the last (own, shared) drawing of every thread
    let lasts: Vec<Mutex<(Option<(char, Look)>, Option<(char, Look)>)>> = (0..n).map(|_| Mutex::new((None, None))).collect();
    let in_guard = AtomicU32::new(0);
    let counts = Mutex::new((0u64, 0u64, 0u64));
    // what was drawn on the shared lines, in an order consistent with the write lock when drawn through guards
    std::thread::scope(|s| {
        for t in 0..n {
            let mut r = r.fork();
            let (screen, bad, barrier, left, lasts, in_guard, counts) = (&screen, &bad, &barrier, &left, &lasts, &in_guard, &counts);
            s.spawn(move || {
                barrier.wait();
                let mut run = || -> CaseResult {
                    for k in 0..rounds {
                        pause(&mut r);
                        // a character of its own for every thread and round
                        let ch = char::from_u32(0x400 + (t * 20 + k) as u32).unwrap();
                        let lk = look(&mut r);
                        let own: String = ch.to_string().repeat(cols);
                        let all: String = ch.to_string().repeat(cols * 2);
                        match r.below(7) {
                            // one call
                            0 => { screen.write_styled_at((2 + t, 0), lk.0, lk.1, lk.2, &own); lasts[t].lock().unwrap().0 = Some((ch, lk)); counts.lock().unwrap().1 += 1; }
                            1 => { screen.write_styled_at((0, 0), lk.0, lk.1, lk.2, &all); lasts[t].lock().unwrap().1 = Some((ch, lk)); counts.lock().unwrap().1 += 1; }
                            2 => { screen.write_at((2 + t, 0), &own); lasts[t].lock().unwrap().0 = Some((ch, PLAIN)); counts.lock().unwrap().1 += 1; }
                            3 => { ok!(screen.refresh(), "refresh"); counts.lock().unwrap().2 += 1; }
                            // a guard with many calls
                            _ => {
                                let mut g = screen.lock_write().map_err(|_| "write lock poisoned")?;
                                ensure!(in_guard.fetch_add(1, SeqCst) == 0, "two write guards exist at once");
                                ensure!(g.size() == Size{lines, columns: cols}, "size() is {:?}", g.size());
                                let shared = r.chance(2);
                                let mut cells: Vec<(usize, usize)> = if shared { (0..2 * cols).map(|i| (i / cols, i % cols)).collect() } else { (0..cols).map(|i| (2 + t, i)).collect() };
                                r.shuffle(&mut cells);
                                g.set_theme(mortal::Theme::new(lk.0, lk.1, lk.2));
                                for (i, &(l, c)) in cells.iter().enumerate() {
                                    g.set_cursor((l, c));
                                    if i % 5 == 0 { pause(&mut r); }
                                    let at = g.cursor();
                                    ensure!((at.line, at.column) == (l, c), "the cursor set to ({},{}) in a guard is at ({},{})", l, c, at.line, at.column);
                                    g.write_char(ch);
                                }
                                g.clear_attributes();
                                if shared { lasts[t].lock().unwrap().1 = Some((ch, lk)); } else { lasts[t].lock().unwrap().0 = Some((ch, lk)); }
                                if r.chance(4) { ok!(g.refresh(), "refresh"); }
                                in_guard.fetch_sub(1, SeqCst);
                                drop(g);
                                counts.lock().unwrap().0 += 1;
                            }
                        }
                    }
                    Ok(())
                };
                bad.put(run());
                left.fetch_sub(1, SeqCst);
            });
        }
        barrier.wait();
        // meanwhile: cursor, modes, sizes, refreshes, reads
        let mut r = r.fork();
        while left.load(SeqCst) > 0 {
            match r.below(7) {
                0 => screen.set_cursor((r.below(lines), r.below(cols))),
                1 => bad.put((|| { ok!(screen.set_cursor_mode(CursorMode::Normal), "set_cursor_mode"); Ok(()) })()),
                2 => bad.put((|| { ok!(screen.refresh(), "refresh"); Ok(()) })()),
                3 => if screen.size() != (Size{lines, columns: cols}) { bad.put(Err(format!("size() is {:?}", screen.size()).into())); },
                4 => { if let Ok(g) = screen.try_lock_write() { drop(g); } }
                5 => if resize { unsafe { libc::raise(libc::SIGWINCH); } },
                _ => bad.put((|| { ok!(screen.read_event(Some(Duration::from_millis(0))), "read_event"); Ok(()) })()),
            }
            std::thread::sleep(Duration::from_micros(30));
        }
    });
    bad.take()?;
    ok!(screen.refresh(), "final refresh");
    let recs = std::mem::take(&mut ip::lock().dev[ctx.pty.slot].recs);
    let out = ip::take_out(ctx.pty.slot);
    // Replay; whenever one thread's run of writes ends, the lines must be whole.
    let mut order = 0u64;
    let mut checks = 0u64;
    let mut pos = 0;
    let caps = scr.caps;
    let uniform = |vt: &Vt, from: usize, to: usize| -> Result<Option<(char, Attr)>, Fail> {
        let a = &vt.cells[from * cols];
        for i in from * cols..to * cols {
            let b = &vt.cells[i];
            ensure!(b.text == a.text && b.attr == a.attr, "lines {}..{} show parts of different drawings: {:?} at ({},{}) and {:?} at ({},0)", from, to, b, i / cols, i % cols, a, from);
        }
        Ok(a.text.chars().next().map(|c| (c, a.attr)))
    };
    for (i, rec) in recs.iter().enumerate() {
        ensure!(rec.off == pos, "harness: records out of step");
        scr.vt.feed(&out[pos..pos + rec.len]);
        pos += rec.len;
        if let Some(a) = scr.vt.anomalies.first() { fail!("output at byte {}: {}", pos, a); }
        if recs.get(i + 1).map_or(true, |n| n.tid != rec.tid) && (rec.len > 0 || rec.errno != 0) {
            checks += 1;
            order = combine(order, rec.tid);
            uniform(&scr.vt, 0, 2)?;
            for t in 0..n { uniform(&scr.vt, 2 + t, 3 + t)?; }
        }
    }
    scr.vt.feed(&out[pos..]);
    // the end: every thread's last drawing
    let shared = uniform(&scr.vt, 0, 2)?.unwrap();
    let mut cands = Vec::new();
    for t in 0..n {
        let l = *lasts[t].lock().unwrap();
        let (own, sh) = l;
        let (c, lk) = own.unwrap_or((' ', PLAIN));
        let got = uniform(&scr.vt, 2 + t, 3 + t)?.unwrap();
        ensure!(got == (c, caps.look(lk.0, lk.1, lk.2)), "line {} shows {:?}; the last drawing of thread {} was {:?}", 2 + t, got, t, (c, lk));
        if let Some((c, lk)) = sh { cands.push((c, caps.look(lk.0, lk.1, lk.2))); }
    }
    if cands.is_empty() { cands.push((' ', Attr::default())); }
    ensure!(cands.contains(&shared), "the shared lines show {:?}, which is no thread's last drawing: {:?}", shared, cands);
    let c = *counts.lock().unwrap();
    ctx.count("guards checked", c.0);
    ctx.count("direct drawing calls checked", c.1);
    ctx.count("displays checked between threads", checks);
    ctx.state(order);
    ctx.distinct(combine(order, ctx.idx));
    ctx.note(format!("{} threads, {} rounds, {} displays checked", n, rounds, checks));
    if ctx.idx % 53 == 1 { ctx.sample_trace(); }
    drop(screen);
    Ok(())
}
