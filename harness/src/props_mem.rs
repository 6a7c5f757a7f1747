//! R04: what a Terminal or Screen holds does not grow with use, and nothing of it remains.

use crate::interpose::{self as ip};
use crate::mem::{self, lib};
use crate::model_screen::Model;
use crate::props_err::{on_terminal, on_terminal_guard, WOPS};
use crate::props_input::{rand_char, token, virtual_input, ZERO};
use crate::props_prep::default_dispositions;
use crate::props_screen::{drain_signals, on_guard, on_screen, op, open, pick_term, rand_config, Op, Profile};
use crate::props_term::any_term;
use crate::run::{CaseResult, Ctx};
use crate::util::*;
use crate::{ensure, fail, ok};
use libc::c_int;
use mortal::unix::TerminalExt;
use mortal::{PrepareConfig, Screen, Terminal};
use std::collections::VecDeque;
use std::io;

#[derive(Debug, Clone)]
enum How { Events, Raw(usize), Mixed(usize), Guard }

#[derive(Debug, Clone)]
enum Step {
    Direct(usize, u64, usize),
    Guard(Vec<(usize, u64, usize)>),
    Prepare(PrepareConfig, Vec<Step>),
    PrepareLocked(PrepareConfig, Vec<Step>),
    Input(Vec<Vec<u8>>, How),
    Signals(Vec<c_int>),
    Size,
    Failing(u32, c_int, Box<Step>),
    // on a Screen
    Draw(Vec<Op>, bool),
    Refresh,
    Resize(Vec<(usize, usize)>),
}

fn input(r: &mut Rng, caps: &crate::caps::Caps) -> Vec<Vec<u8>> {
    let n = *r.pick(&[1, 1, 3, 10, 60]);
    (0..n).map(|_| match r.below(8) {
        0 => (0..r.range(1, 40)).map(|_| r.next() as u8).collect(),
        1 => { let mut v = b"\x1b[<".to_vec(); v.extend(std::iter::repeat(b'7').take(r.below(300))); v.push(b'M'); v }
        2 => "x".repeat(r.range(100, 300)).into_bytes(),
        3 => rand_char(r).to_string().into_bytes(),
        _ => token(r, caps, true),
    }).collect()
}

fn how(r: &mut Rng) -> How { match r.below(4) { 0 => How::Events, 1 => How::Raw(*r.pick(&[1, 2, 5, 128, 300])), 2 => How::Mixed(r.range(1, 60)), _ => How::Guard } }

fn steps(r: &mut Rng, caps: &crate::caps::Caps, screen: Option<&Model>, depth: usize, max: usize) -> Vec<Step> {
    let p = Profile{wide: 15, marks: 10, controls: 10, layout: 10, oob: 10, sparse: false, resize: 0};
    (0..r.range(1, max)).map(|_| one(r, caps, screen, depth, &p)).collect()
}

fn one(r: &mut Rng, caps: &crate::caps::Caps, screen: Option<&Model>, depth: usize, p: &Profile) -> Step {
    let len = |r: &mut Rng| *r.pick(&[0, 0, 0, 1, 100, 5000, 20_000]);
    match r.below(12) {
        0 | 1 => Step::Input(input(r, caps), how(r)),
        2 => Step::Signals((0..r.range(1, 3)).map(|_| *r.pick(&[libc::SIGWINCH, libc::SIGCONT])).collect()),
        3 => Step::Size,
        4 => Step::Failing(r.below(6) as u32, *r.pick(&[libc::EIO, libc::ENOSPC]), Box::new(one(r, caps, screen, depth, p))),
        5 => if let Some(m) = screen { Step::Resize((0..r.range(1, 3)).map(|_| (r.range(1, m.lines * 2), r.range(1, m.cols * 2))).chain([(m.lines, m.cols)]).collect()) }
             else if depth < 3 && r.chance(2) { Step::Prepare(rand_config(r), steps(r, caps, None, depth + 1, 4)) }
             else if depth < 3 { Step::PrepareLocked(rand_config(r), steps(r, caps, None, depth + 1, 4)) } else { Step::Size },
        6 if screen.is_some() => Step::Refresh,
        _ => match screen {
            Some(m) => { let k = r.range(1, 12); Step::Draw((0..k).map(|_| op(r, p, m)).collect(), r.chance(2)) }
            None => {
                if r.chance(2) { Step::Direct(r.below(WOPS), r.next(), len(r)) }
                else { let k = r.range(1, 12); Step::Guard((0..k).map(|_| (r.below(WOPS), r.next(), len(r))).collect()) }
            }
        },
    }
}

enum Obj { T(Terminal), S(Screen) }

macro_rules! both { ($o:expr, $t:ident => $e:expr) => { match $o { Obj::T($t) => $e, Obj::S($t) => $e } } }

/// Reads until there is nothing more.
fn drain(o: &mut Obj, slot: usize, chunks: &[Vec<u8>], h: &How) -> CaseResult {
    if !chunks.is_empty() { virtual_input(slot, chunks.iter().cloned().collect::<VecDeque<_>>(), true); }
    let mut buf = vec![0u8; 512];
    let mut nothing = 0;
    for k in 0..200_000usize {
        let left = { let g = ip::lock(); g.dev[slot].vin.as_ref().map_or(0, |v| v.queue.len() + v.arrivals.len()) };
        let got = lib(|| match h {
            How::Events => both!(o, t => t.read_event(ZERO)).map_or(true, |e| e.is_some()),
            How::Guard => both!(o, t => { let mut g = match t.lock_read() { Ok(g) => g, Err(_) => return false }; let _ = g.wait_event(ZERO); g.read_event(ZERO) }).map_or(true, |e| e.is_some()),
            How::Raw(n) => both!(o, t => t.read_raw(&mut buf[..*n], ZERO)).map_or(true, |e| e.is_some()),
            How::Mixed(n) => if k % 3 == 0 { both!(o, t => t.read_raw(&mut buf[..*n], ZERO)).map_or(true, |e| e.is_some()) }
                else { let _ = both!(o, t => t.wait_event(ZERO)); both!(o, t => t.read_event(ZERO)).map_or(true, |e| e.is_some()) },
        });
        if got { nothing = 0; continue; }
        if left > 0 {
            // the next piece arrives
            let mut g = ip::lock();
            if let Some(v) = g.dev[slot].vin.as_mut() { if let Some(c) = v.arrivals.pop_front() { v.queue.extend(c); } }
            continue;
        }
        nothing += 1;
        if nothing >= 3 { return Ok(()); }
    }
    fail!("there is no end to the input")
}

/// Performs a step; whether it succeeds does not matter here.
fn perform(ctx: &mut Ctx, o: &mut Obj, s: &Step) -> CaseResult {
    let slot = ctx.pty.slot;
    match s {
        Step::Direct(op, seed, big) => if let Obj::T(t) = o { lib(|| { let _ = on_terminal(t, *op, *seed, *big); }); },
        Step::Guard(v) => if let Obj::T(t) = o { lib(|| {
            if let Ok(mut g) = t.lock_write() { for (op, seed, big) in v { let _ = on_terminal_guard(&mut g, *op, *seed, *big); } }
        }); },
        Step::Prepare(c, inner) => {
            let st = match o { Obj::T(t) => lib(|| t.prepare(*c).ok()), _ => return Ok(()) };
            let r = st.is_some();
            if r { for s in inner { perform(ctx, o, s)?; } }
            if let (Obj::T(t), Some(st)) = (&*o, st) { lib(|| { let _ = t.restore(st); }); }
        }
        Step::PrepareLocked(c, inner) => {
            let st = match o { Obj::T(t) => lib(|| { let mut r = t.lock_read().ok()?; let mut w = t.lock_write().ok()?; r.prepare_with_lock(&mut w, *c).ok() }), _ => return Ok(()) };
            if st.is_some() { for s in inner { perform(ctx, o, s)?; } }
            if let (Obj::T(t), Some(st)) = (&*o, st) { lib(|| { if let (Ok(mut r), Ok(mut w)) = (t.lock_read(), t.lock_write()) { let _ = r.restore_with_lock(&mut w, st); } }); }
        }
        Step::Input(chunks, h) => drain(o, slot, chunks, h)?,
        Step::Signals(v) => {
            let live = match o { Obj::S(_) => true, Obj::T(_) => crate::dev::disposition(libc::SIGCONT).handler > 1 };
            if live { for &s in v { unsafe { libc::raise(s); } } }
            drain(o, slot, &[], &How::Events)?;
        }
        Step::Size => lib(|| match o { Obj::T(t) => { let _ = t.size(); let _ = t.name().len(); } Obj::S(t) => { let _ = t.size(); let _ = t.cursor(); } }),
        Step::Failing(n, e, inner) => {
            { let mut g = ip::lock(); g.fault_count = 0; g.fault = Some((*n, *e)); }
            let r = perform(ctx, o, inner);
            let hit = { let mut g = ip::lock(); g.fault = None; g.fault_hit.take() };
            if hit.is_some() { ctx.count("device errors injected", 1); }
            r?;
        }
        Step::Draw(v, guard) => if let Obj::S(s) = o { lib(|| {
            if *guard { if let Ok(mut g) = s.lock_write() { for x in v { on_guard(&mut g, x); } } } else { for x in v { on_screen(s, x); } }
        }); },
        Step::Refresh => if let Obj::S(s) = o { lib(|| { let _ = s.refresh(); }); },
        Step::Resize(v) => {
            for &(l, c) in v {
                ctx.pty.set_size(l, c);
                unsafe { libc::raise(libc::SIGWINCH); }
                drain(o, slot, &[], &How::Events)?;
                if let Obj::S(s) = o { lib(|| { let _ = s.refresh(); }); }
            }
        }
    }
    Ok(())
}

fn round(ctx: &mut Ctx, o: &mut Obj, v: &[Step]) -> CaseResult {
    match o {
        Obj::T(t) => { lib(|| { let _ = t.clear_attributes(); }); }
        Obj::S(s) => { lib(|| { s.clear_attributes(); s.set_cursor((0, 0)); s.clear_screen(); let _ = s.refresh(); }); }
    }
    for s in v { perform(ctx, o, s)?; }
    // nothing is left to send or to read
    drain(o, ctx.pty.slot, &[], &How::Events)?;
    match o {
        Obj::T(t) => { lib(|| { let _ = t.write_str("."); }); }
        Obj::S(s) => { lib(|| { let _ = s.refresh(); }); }
    }
    let mut g = ip::lock();
    let d = &mut g.dev[ctx.pty.slot];
    d.out.clear();
    d.recs.clear();
    d.waits.clear();
    Ok(())
}

fn create(ctx: &Ctx, screen: bool, cfg: PrepareConfig) -> io::Result<Obj> {
    let path = &ctx.pty.path;
    lib(|| {
        let t = <Terminal as mortal::unix::OpenTerminalExt>::from_path(path)?;
        Ok(if screen { Obj::S(Screen::with_terminal(t, cfg)?) } else { Obj::T(t) })
    })
}

fn repeated(ctx: &mut Ctx, r: &mut Rng) -> CaseResult {
    let screen = r.chance(2);
    let name = if screen { pick_term(r) } else { any_term(r) };
    let (lines, cols) = (r.range(1, 8), r.range(2, 30));
    let cfg = rand_config(r);
    ctx.set_term(name);
    ctx.pty.reset(lines, cols);
    default_dispositions();
    let caps = crate::caps::caps_cached(name);
    let m = Model::new(lines, cols);
    let v = steps(r, caps, if screen { Some(&m) } else { None }, 0, 10);
    ctx.note(format!("{} TERM={} {}x{} {:?} {:?}", if screen { "Screen" } else { "Terminal" }, name, lines, cols, cfg, v));
    // what is set up once for all
    lib(|| drop(create(ctx, screen, cfg)));
    let before = mem::live();
    let mut o = ok!(create(ctx, screen, cfg), "creating it");
    for _ in 0..4 { round(ctx, &mut o, &v)?; }
    let mut held = mem::live();
    let a0 = mem::allocations();
    let n = 16;
    let mut grown = Vec::new();
    for k in [n, 2 * n, 4 * n] {
        for _ in 0..k { round(ctx, &mut o, &v)?; }
        ctx.count("rounds repeated", k as u64);
        let now = mem::live();
        if now <= held { break; }
        grown.push(now - held);
        held = now;
    }
    ctx.count("allocations followed", mem::allocations() - a0);
    ctx.max("max bytes held", (held - before) as u64);
    ensure!(grown.len() < 3, "the {} holds more and more memory for the same use again and again: in {}, {} and {} rounds it grew by {:?} bytes",
        if screen { "Screen" } else { "Terminal" }, n, 2 * n, 4 * n, grown);
    lib(|| drop(o));
    drain_signals(ctx)?;
    let after = mem::live();
    ensure!(after == before, "{} bytes are still held after the {} was dropped", after - before, if screen { "Screen" } else { "Terminal" });
    ctx.count(if screen { "screens followed" } else { "terminals followed" }, 1);
    ctx.count("drops with nothing left", 1);
    Ok(())
}

/// However much goes through one guard, little is held at a time
fn stream(ctx: &mut Ctx, r: &mut Rng) -> CaseResult {
    let name = *r.pick(&["xterm", "linux", "vt100", "screen"]);
    ctx.set_term(name);
    ctx.pty.reset(24, 80);
    let t = open(ctx)?;
    let each = *r.pick(&[1, 50, 1000, 9000]);
    let total = 3_000_000;
    let text = "m".repeat(each);
    let styled = r.chance(3);
    ctx.note(format!("{} bytes through one guard, {} at a time{}, TERM={}", total, each, if styled { ", styled" } else { "" }, name));
    let slot = ctx.pty.slot;
    let base = mem::live();
    mem::start_peak();
    let mut sent = 0;
    let mut g = match lib(|| t.lock_write()) { Ok(g) => g, Err(_) => fail!("poisoned") };
    let mut k = 0u64;
    while sent < total / if each == 1 { 10 } else { 1 } {
        ok!(lib(|| if styled { g.write_styled(mortal::Color::Red, None, mortal::Style::BOLD, &text) } else { g.write_str(&text) }), "writing");
        sent += each;
        k += 1;
        if k % 1000 == 0 { let mut l = ip::lock(); l.dev[slot].out.clear(); l.dev[slot].recs.clear(); }
    }
    let peak = mem::peak() - base;
    ctx.max("max bytes held while streaming", peak.max(0) as u64);
    ensure!(peak < 200_000, "of {} bytes written through one guard, {} at a time, {} were held at once", sent, each, peak);
    lib(|| drop(g));
    ctx.count("bytes streamed", sent as u64);
    lib(|| drop(t));
    Ok(())
}

/// Creating it fails at each of its calls in turn
fn failed(ctx: &mut Ctx, r: &mut Rng) -> CaseResult {
    let screen = r.chance(2);
    let name = if r.chance(6) { "no-such-terminal" } else if screen { pick_term(r) } else { any_term(r) };
    let cfg = rand_config(r);
    ctx.set_term(name);
    ctx.pty.reset(6, 40);
    default_dispositions();
    ctx.note(format!("{} fails to start, TERM={} {:?}", if screen { "Screen" } else { "Terminal" }, name, cfg));
    lib(|| drop(create(ctx, screen, cfg)));
    let before = mem::live();
    for n in 0..60 {
        { let mut g = ip::lock(); g.fault_count = 0; g.fault_hit = None; g.fault = Some((n, *r.pick(&[libc::EIO, libc::ENXIO, libc::EACCES]))); }
        lib(|| drop(create(ctx, screen, cfg)));
        let hit = { let mut g = ip::lock(); g.fault = None; g.fault_hit.take() };
        ctx.pty.set_tio(&ctx.pty.tio0);
        default_dispositions();
        let now = mem::live();
        ensure!(now == before, "{} bytes are still held after {} failed at call {} ({:?})", now - before, if screen { "creating a Screen" } else { "opening a Terminal" }, n, hit);
        ctx.count("failed creations followed", 1);
        if hit.is_none() { break; }
    }
    drain_signals(ctx)
}

pub fn r04(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng.fork();
    drain_signals(ctx)?;
    let res = match ctx.idx % 16 {
        0 => stream(ctx, &mut r),
        1..=3 => failed(ctx, &mut r),
        _ => repeated(ctx, &mut r),
    };
    default_dispositions();
    let h = ctx.trace_hash();
    ctx.distinct(h);
    if ctx.idx % 211 == 1 { ctx.sample_trace(); }
    res
}
