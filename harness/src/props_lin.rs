//! T09: concurrent calls act as if made one after another.

use crate::dev::*;
use crate::interpose as ip;
use crate::model_screen::Model;
use crate::caps::{rand_color, rand_style};
use crate::props_err::{on_terminal, on_terminal_guard, WOPS};
use crate::props_input::{rough_reads, token, virtual_input, ZERO};
use crate::props_prep::default_dispositions;
use crate::props_screen::{self, drain_signals, on_guard, on_screen, open, pick_term, rand_config, Op, Profile};
use crate::props_term::any_term;
use crate::run::{CaseResult, Ctx, Fail};
use crate::step;
use crate::util::*;
use crate::{ensure, fail, ok};
use libc::c_int;
use mortal::unix::TerminalExt;
use mortal::{CursorMode, Event, PrepareConfig, PrepareState, Screen, SignalSet, Terminal};
use std::collections::{BTreeMap, VecDeque};
use std::sync::Mutex;

#[derive(Clone, Debug)]
enum Unit {
    Out(usize, u64),
    Guard(Vec<(usize, u64)>),
    Size, Name,
    Event(bool), Raw(usize), Wait,
    Prepare(PrepareConfig), Restore,
    Draw(Op),
    DrawGuard(Vec<Op>),
    Refresh,
    Mode(CursorMode),
    Cursor,
    Events(usize),
    Resize(usize, usize),
}

struct Obj { master: c_int, t: Vec<Terminal>, s: Option<Screen>, states: Mutex<Vec<PrepareState>>, base: Vec<PrepareState> }

fn bad(e: impl std::fmt::Debug) -> String { format!("{:?}", e) }

impl Obj {
    /// The window is given another size; one instant for the threads
    fn resize(&self, l: usize, c: usize) {
        let _p = step::pause();
        let w = libc::winsize{ws_row: l as u16, ws_col: c as u16, ws_xpixel: 0, ws_ypixel: 0};
        unsafe { libc::ioctl(self.master, libc::TIOCSWINSZ, &w); libc::raise(libc::SIGWINCH); }
    }
    /// The `who`th thread's object
    fn term(&self, who: usize) -> &Terminal { &self.t[who.min(self.t.len() - 1)] }
    fn perform(&self, who: usize, u: &Unit) -> String {
        if let Unit::Resize(l, c) = u { self.resize(*l, *c); return String::new(); }
        if let Some(s) = &self.s {
            return match u {
                Unit::Draw(o) => { on_screen(s, o); String::new() }
                Unit::DrawGuard(v) => {
                    let mut g = s.lock_write().unwrap();
                    for o in v { on_guard(&mut g, o); }
                    format!("{:?} {:?}", g.size(), g.cursor())
                }
                Unit::Refresh => bad(s.refresh()),
                Unit::Mode(m) => bad(s.set_cursor_mode(*m)),
                Unit::Cursor => bad(s.cursor()),
                Unit::Size => bad(s.size()),
                Unit::Name => s.name().into(),
                Unit::Event(guard) => bad(if *guard { s.lock_read().unwrap().read_event(ZERO) } else { s.read_event(ZERO) }),
                Unit::Events(n) => { let mut g = s.lock_read().unwrap(); (0..*n).map(|_| bad(g.read_event(ZERO))).collect::<Vec<_>>().join(" ") }
                Unit::Raw(n) => { let mut b = [0; 20]; let e = s.lock_read().unwrap().read_raw(&mut b[..*n], ZERO); format!("{:?} {:?}", e, b) }
                Unit::Wait => bad(s.wait_event(ZERO)),
                _ => String::new(),
            };
        }
        let t = self.term(who);
        match u {
            Unit::Out(o, s) => bad(on_terminal(t, *o, *s, 0)),
            Unit::Guard(v) => {
                let mut g = t.lock_write().unwrap();
                let mut r: Vec<_> = v.iter().map(|&(o, s)| on_terminal_guard(&mut g, o, s, 0)).collect();
                r.push(g.flush());
                bad(r)
            }
            Unit::Size => bad(t.size()),
            Unit::Name => t.name().into(),
            Unit::Event(guard) => bad(if *guard { t.lock_read().unwrap().read_event(ZERO) } else { t.read_event(ZERO) }),
            Unit::Events(n) => { let mut g = t.lock_read().unwrap(); (0..*n).map(|_| bad(g.read_event(ZERO))).collect::<Vec<_>>().join(" ") }
            Unit::Raw(n) => { let mut b = [0; 20]; let e = t.lock_read().unwrap().read_raw(&mut b[..*n], ZERO); format!("{:?} {:?}", e, b) }
            Unit::Wait => bad(t.wait_event(ZERO)),
            Unit::Prepare(c) => match t.prepare(*c) { Ok(s) => { self.states.lock().unwrap().push(s); "prepared".into() } Err(e) => bad(e) },
            Unit::Restore => { let s = self.states.lock().unwrap().pop(); match s { Some(s) => bad(t.restore(s)), None => "nothing".into() } }
            _ => String::new(),
        }
    }
}

/// A case: what is there, and what the threads do
struct Plan { term: &'static str, screen: bool, two: bool, size: (usize, usize), cfg: PrepareConfig, before: Vec<Op>, units: [Vec<Unit>; 2], typed: Vec<u8>, sigs: Vec<c_int>, resized: Option<(usize, usize)>, rough: Rng }

fn make(r: &mut Rng, windows: bool) -> Plan {
    let screen = windows || r.chance(2);
    let term = if screen { pick_term(r) } else { any_term(r) };
    let two = !screen && r.chance(3);
    let size = (r.range(1, 4), r.range(2, 12));
    let cfg = PrepareConfig{report_signals: SignalSet::all(), enable_mouse: false, ..rand_config(r)};
    let p = Profile{wide: 10, marks: 10, controls: 5, layout: 10, oob: 5, sparse: true, resize: 0};
    let m = Model::new(size.0, size.1);
    let op = |r: &mut Rng| {
        if r.chance(2) { return props_screen::op(r, &p, &m); }
        let s = r.pick(&["ab", "c", "漢", "xyz\n", "e\u{301}", "tuvwxyz"]).to_string();
        let (l, c) = (r.below(m.lines), r.below(m.cols));
        let (f, b, st) = (rand_color(r), rand_color(r), rand_style(r));
        match r.below(16) {
            0 => Op::Char('q'), 1 => Op::Str(s), 2 => Op::At(l, c, s), 3 => Op::Styled(f, b, st, s), 4 => Op::StyledAt(l, c, f, b, st, s), 5 => Op::Fmt(s),
            6 => Op::Cursor(l, c), 7 => Op::NextLine(c), 8 => Op::Clear, 9 => Op::Fg(f), 10 => Op::Bg(b), 11 => Op::Add(st), 12 => Op::Remove(st), 13 => Op::Set(st),
            14 => Op::Theme(f, b, st), _ => Op::ClearAttr,
        }
    };
    let before = (0..r.below(4)).map(|_| op(r)).collect();
    let reads = r.chance(2);
    let preparing = if screen || two { 2 } else if reads { r.below(4) } else { r.below(3) };
    let unit = |r: &mut Rng, reads: bool| -> Unit {
        let x = r.below(if reads { 16 } else { 10 });
        match x {
            0 => Unit::Size,
            1 => if screen { Unit::Cursor } else { Unit::Name },
            2 if screen && r.chance(2) => Unit::Mode(*r.pick(&[CursorMode::Normal, CursorMode::Invisible])),
            3 if screen => Unit::Refresh,
            2..=7 if screen => Unit::Draw(op(r)),
            8 | 9 if screen => Unit::DrawGuard((0..r.range(1, 3)).map(|_| op(r)).collect()),
            2..=6 => Unit::Out(r.below(WOPS), r.next()),
            7..=9 => Unit::Guard((0..r.range(1, 3)).map(|_| (r.below(WOPS), r.next())).collect()),
            10..=12 => Unit::Event(r.chance(2)),
            13 => Unit::Raw(r.range(1, 8)),
            14 => Unit::Wait,
            // nothing makes several reads from two Terminals one
            _ if two => Unit::Event(true),
            _ => Unit::Events(r.range(1, 3)),
        }
    };
    let mut units: [Vec<Unit>; 2] = [Vec::new(), Vec::new()];
    for k in 0..2 {
        // one thread at most prepares and restores
        if k == 0 && preparing < 2 {
            let c = PrepareConfig{enable_mouse: r.chance(2), ..rand_config(r)};
            units[0].push(Unit::Prepare(c));
            if r.chance(2) { units[0].push(Unit::Restore); }
            continue;
        }
        for _ in 0..r.range(1, 2) { units[k].push(unit(r, reads)); }
    }
    if windows {
        for k in 0..2 {
            units[k].clear();
            for i in 0..r.range(2, 4) {
                units[k].push(match r.below(if i == 0 { 3 } else { 6 }) { 0..=2 => Unit::Resize(r.range(1, 5), r.range(2, 14)), 3 => Unit::Events(r.range(1, 2)), 4 => Unit::Draw(op(r)), _ => Unit::Event(r.chance(2)) });
                if matches!(units[k].last(), Some(Unit::Resize(..))) { units[k].push(Unit::Event(r.chance(3))); }
            }
        }
    }
    if r.chance(2) { units.swap(0, 1); }
    let caps = crate::caps::caps_cached(term);
    // two Terminals do not share what they read or send
    let typed = if reads && !two { (0..r.range(0, 4)).flat_map(|_| token(r, caps, false)).collect() } else { Vec::new() };
    let mut sigs = Vec::new();
    if reads { for _ in 0..r.below(3) { sigs.push(*r.pick(&[libc::SIGINT, libc::SIGQUIT, libc::SIGWINCH, libc::SIGTSTP])); } }
    let resized = if sigs.contains(&libc::SIGWINCH) && r.chance(2) { Some((r.range(1, 5), r.range(2, 14))) } else { None };
    Plan{term, screen, two, size, cfg, before, units, typed, sigs, resized, rough: r.fork()}
}

#[derive(PartialEq, Clone, Debug)]
struct Seen { results: [Vec<String>; 2], out: Vec<u8>, display: u64, tio: (u32, u32, u32, u32, Vec<u8>), left: Vec<String>, size: (usize, usize) }

/// How it is performed: in this order of threads, or with these switches
enum Way<'a> { Order(&'a [usize]), Turns([&'a [(u64, c_int)]; 2]), Count(usize, &'a mut Vec<u64>) }

fn perform(ctx: &mut Ctx, p: &Plan, way: Way) -> Result<(Seen, [step::Stepped; 2]), Fail> {
    let slot = ctx.pty.slot;
    default_dispositions();
    ctx.set_term(p.term);
    ctx.pty.reset(p.size.0, p.size.1);
    let mut o = Obj{master: ctx.pty.master, t: Vec::new(), s: None, states: Mutex::new(Vec::new()), base: Vec::new()};
    let t = open(ctx)?;
    if p.screen {
        let s = ok!(Screen::with_terminal(t, p.cfg), "creating a Screen");
        for x in &p.before { on_screen(&s, x); }
        ok!(s.refresh(), "refresh");
        for x in p.before.iter().rev() { on_screen(&s, x); }
        o.s = Some(s);
    } else {
        o.base.push(ok!(t.prepare(p.cfg), "prepare"));
        o.t.push(t);
        if p.two {
            let t = open(ctx)?;
            o.base.push(ok!(t.prepare(p.cfg), "prepare"));
            o.t.push(t);
        }
    }
    let mut seen = Seen{results: [Vec::new(), Vec::new()], out: Vec::new(), display: 0, tio: tio_key(&ctx.pty.tio()), left: Vec::new(), size: (0, 0)};
    let mut vt = crate::caps::caps_cached(p.term).vt(p.size.0, p.size.1);
    if p.screen { vt.feed(&ip::take_out(slot)); } else { ip::take_out(slot); }
    virtual_input(slot, VecDeque::from([p.typed.clone()]), true);
    rough_reads(&mut p.rough.clone(), slot);
    {
        // interruptions at random would come to another thread in another order
        let d = &mut ip::lock().dev[slot];
        d.rplan.eintr_pct = 0;
        d.wait_eintr_pct = 0;
        d.rplan.short_pct = if d.rplan.short_pct > 0 { 100 } else { 0 };
        d.rplan.short_max = 1;
    }
    if let Some((l, c)) = p.resized { ctx.pty.set_size(l, c); }
    for &s in &p.sigs { unsafe { libc::raise(s); } }
    let mut st = [step::Stepped::default(), step::Stepped::default()];
    let all = |o: &Obj, k: usize| -> Vec<String> { p.units[k].iter().map(|u| o.perform(k, u)).collect() };
    match way {
        Way::Order(v) => { let mut n = [0, 0]; for &k in v { let x = o.perform(k, &p.units[k][n[k]]); seen.results[k].push(x); n[k] += 1; } }
        Way::Count(k, ends) => {
            let (v, s) = step::run(&[], || p.units[k].iter().map(|u| { let x = o.perform(k, u); ends.push(step::so_far()); x }).collect());
            seen.results[k] = v;
            st[k] = s;
        }
        Way::Turns(plans) => {
            step::turns_start();
            let (o, all) = (&o, &all);
            let (mut a, mut b) = (None, None);
            std::thread::scope(|sc| {
                let h = sc.spawn(move || {
                    struct End;
                    impl Drop for End { fn drop(&mut self) { step::turns_end(1); } }
                    let _end = End;
                    step::turns_begin(1);
                    step::run(plans[1], || all(o, 1))
                });
                step::turns_begin(0);
                struct End;
                impl Drop for End { fn drop(&mut self) { step::turns_end(0); } }
                let end = End;
                a = Some(step::run(plans[0], || all(o, 0)));
                drop(end);
                b = h.join().ok();
            });
            let (Some(a), Some(b)) = (a, b) else { fail!("a thread panicked") };
            seen.results = [a.0, b.0];
            st = [a.1, b.1];
        }
    }
    // what is left of the input and signals
    let mut drain = |f: &dyn Fn() -> std::io::Result<Option<Event>>| -> CaseResult {
        let mut n = 0;
        for _ in 0..200 {
            match f() { Ok(Some(e)) => { n = 0; seen.left.push(bad(e)); } Ok(None) => n += 1, Err(e) => { n = 0; seen.left.push(bad(e)); } }
            if n == 4 { return Ok(()); }
        }
        fail!("reading never ends")
    };
    if let Some(s) = &o.s {
        drain(&|| s.read_event(ZERO))?;
        ok!(s.refresh(), "refresh");
        let sz = s.size();
        // a resize does not stay unread
        if (sz.lines, sz.columns) != (vt.lines, vt.cols) {
            let out = ip::take_out(slot);
            vt = crate::caps::caps_cached(p.term).vt(sz.lines, sz.columns);
            vt.feed(&out);
        } else { vt.feed(&ip::take_out(slot)); }
        seen.display = vt.hash();
        seen.left.push(format!("{:?} {:?}", s.cursor(), sz));
        seen.size = (sz.lines, sz.columns);
    } else {
        let t = &o.t[0];
        drain(&|| t.read_event(ZERO))?;
        seen.out = ip::take_out(slot);
        if p.two { seen.out.clear(); }
        seen.tio = tio_key(&ctx.pty.tio());
        seen.left.push(format!("{:?}", t.size()));
    }
    ip::lock().dev[slot].vin = None;
    ip::lock().dev[slot].rplan.short_pct = 0;
    let mut states = o.states.into_inner().unwrap_or_else(|e| e.into_inner());
    while let Some(s) = states.pop() { ok!(o.t[0].restore(s), "restore"); }
    while let Some(s) = o.base.pop() { ok!(o.t[o.base.len()].restore(s), "restore"); }
    default_dispositions();
    Ok((seen, st))
}

fn orders(a: usize, b: usize) -> Vec<Vec<usize>> {
    if a == 0 { return vec![vec![1; b]]; }
    if b == 0 { return vec![vec![0; a]]; }
    let mut v: Vec<Vec<usize>> = Vec::new();
    for (k, rest) in [(0, orders(a - 1, b)), (1, orders(a, b - 1))] { for r in rest { let mut x = vec![k]; x.extend(r); v.push(x); } }
    v
}

pub fn t09(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng.fork();
    let windows = ctx.idx % 8 == 3;
    let p = make(&mut r, windows);
    drain_signals(ctx)?;
    ctx.note(format!("TERM={} {} {}x{} {:?}", p.term, if p.screen { "Screen" } else if p.two { "two Terminals" } else { "Terminal" }, p.size.0, p.size.1, p.cfg));
    if p.screen { ctx.note(format!("drawn before {:?}", p.before)); }
    ctx.note(format!("typed {} signals {:?} size then {:?}", show_bytes(&p.typed), p.sigs.iter().map(|&s| signame(s)).collect::<Vec<_>>(), p.resized));
    for k in 0..2 { ctx.note(format!("thread {}: {:?}", k, p.units[k])); }
    let mut serial: Vec<(Vec<usize>, Seen)> = Vec::new();
    if !windows { for o in orders(p.units[0].len(), p.units[1].len()) {
        let s = perform(ctx, &p, Way::Order(&o))?.0;
        serial.push((o, s));
    } }
    let mut n = [0u64; 2];
    let mut ends = [Vec::with_capacity(8), Vec::with_capacity(8)];
    for k in 0..2 { n[k] = perform(ctx, &p, Way::Count(k, &mut ends[k]))?.1[k].instructions; }
    ensure!(n[0] > 0 && n[1] > 0, "harness: no instruction was stepped");
    let distinct_results = serial.iter().any(|s| s.1 != serial[0].1);
    let mut met: BTreeMap<usize, u64> = BTreeMap::new();
    for _ in 0..(200_000 / (n[0] + n[1])).clamp(if windows { 12 } else { 4 }, 40) {
        // within any of the calls, however many instructions it takes
        let plan = |r: &mut Rng, k: usize, m: usize| -> Vec<(u64, c_int)> {
            let mut v: Vec<u64> = (0..m).map(|_| { let u = r.below(ends[k].len()); let from = if u == 0 { 0 } else { ends[k][u - 1] }; from + r.next() % (ends[k][u] - from).max(1) }).collect();
            v.sort();
            v.into_iter().map(|x| (x, step::SWITCH)).collect()
        };
        let m = *r.pick(&[(1, 0), (1, 0), (1, 1), (2, 1), (2, 2), (3, 3)]);
        let plans = [plan(&mut r, 0, m.0), plan(&mut r, 1, m.1)];
        // a thread that is never stopped does not need to be stepped
        let (seen, st) = perform(ctx, &p, Way::Turns([&plans[0], if plans[1].is_empty() { step::NEVER } else { &plans[1] }]))?;
        let (switches, blocked, released) = step::turns_taken();
        ctx.count("switches at an instruction", switches as u64);
        ctx.count("switches to a thread that went on", (switches - blocked.min(switches)) as u64);
        ctx.count("switches as soon as a lock was released", released as u64);
        for s in &st { for i in &s.injected { ctx.state(i.place); } }
        if windows {
            let sz = ctx.pty.size();
            ensure!(seen.size == sz, "two threads that took turns at instructions {:?} of {} and {:?} of {}: the window is {:?} and every event has been read, but the Screen is {:?}: {}",
                plans[0].iter().map(|p| p.0).collect::<Vec<_>>(), n[0], plans[1].iter().map(|p| p.0).collect::<Vec<_>>(), n[1], sz, seen.size, show(&seen));
            ctx.count("Screens resized by two threads", 1);
            ctx.count("schedules compared", 1);
            continue;
        }
        match serial.iter().position(|s| s.1 == seen) {
            Some(i) => *met.entry(i).or_insert(0) += 1,
            None => {
                let at = |k: usize| plans[k].iter().map(|p| p.0).collect::<Vec<_>>();
                ctx.note(format!("seen: {}", show(&seen)));
                for (o, s) in &serial { ctx.note(format!("order {:?}: {}", o, show(s))); }
                fail!("two threads that took turns at instructions {:?} of {} and {:?} of {}: neither order of their calls gives what was seen: {}", at(0), n[0], at(1), n[1], differs(&seen, &serial.iter().map(|s| &s.1).collect::<Vec<_>>()));
            }
        }
        ctx.count("schedules compared", 1);
        if distinct_results { ctx.count("schedules with results of their own", 1); }
        ctx.count(if p.screen { "Screens compared" } else if p.two { "two Terminals compared" } else { "Terminals compared" }, 1);
    }
    ctx.count("sequential orders met", met.len() as u64);
    let h = ctx.trace_hash();
    ctx.distinct(h);
    ctx.sample_trace();
    Ok(())
}

fn show(s: &Seen) -> String { clip(&format!("{:?} sent {} display {:x} left {:?}", s.results, show_bytes(&s.out), s.display, s.left), 900) }

fn differs(s: &Seen, all: &[&Seen]) -> String {
    if all.iter().all(|o| o.results != s.results) { return format!("results {:?}", s.results); }
    let same: Vec<&&Seen> = all.iter().filter(|o| o.results == s.results).collect();
    if same.iter().all(|o| o.out != s.out) { return format!("sent {}", clip(&show_bytes(&s.out), 400)); }
    if same.iter().all(|o| o.display != s.display) { return "another display".into(); }
    if same.iter().all(|o| o.tio != s.tio) { return "other line settings".into(); }
    format!("left {:?}", s.left)
}
