//! T07: an error of the device, or a capability that cannot be made use of, is reported by the operation that met it.

use crate::interpose::{self as ip, Kind};
use crate::props_input::{virtual_input, ZERO};
use crate::props_prep::{default_dispositions, rand_dispositions, rand_tio, snap};
use crate::props_screen::{drain_signals, open, rand_config, pick_term};
use crate::props_term::any_term;
use crate::run::{CaseResult, Ctx, Fail};
use crate::util::*;
use crate::{ensure, fail, ok};
use libc::c_int;
use mortal::unix::{OpenTerminalExt, TerminalExt};
use mortal::{term_write, term_writeln, Color, CursorMode, Event, Screen, Style, Terminal, Theme};
use std::collections::VecDeque;
use std::io;
use std::sync::OnceLock;
use std::time::Duration;

/// The next failure: of which call, and how
type Fault = Option<(u32, c_int)>;

fn arm(f: Fault) {
    let mut g = ip::lock();
    g.fault = f;
    g.fault_count = 0;
    g.fault_hit = None;
    g.fault_waits = true;
    drop(g);
    ip::WATCH_SIGACT.with(|w| w.set(true));
}

/// Calls made on the device since, and which of them failed
fn disarm() -> (u32, Option<Kind>) {
    ip::WATCH_SIGACT.with(|w| w.set(false));
    let mut g = ip::lock();
    g.fault = None;
    g.fault_waits = false;
    (g.fault_count, g.fault_hit.take())
}

/// The same calls for a Terminal and its guard
macro_rules! wop { ($x:expr, $op:expr, $r:expr, $big:expr) => {{
    let x = $x;
    let r: &mut Rng = $r;
    let big: usize = $big;
    let color = |r: &mut Rng| *r.pick(&[None, Some(Color::Red), Some(Color::Blue)]);
    let style = |r: &mut Rng| { let mut s = Style::empty(); for f in [Style::BOLD, Style::ITALIC, Style::REVERSE, Style::UNDERLINE] { if r.chance(2) { s |= f; } } s };
    let text = |r: &mut Rng| { let n = if big > 0 { big } else { r.below(30) }; "t".repeat(n) };
    match $op {
        0 => x.clear_screen(),
        1 => x.clear_to_line_end(),
        2 => x.clear_to_screen_end(),
        3 => { let n = *r.pick(&[1, 2, 50]); x.move_up(n) }
        4 => { let n = *r.pick(&[1, 2, 50]); x.move_down(n) }
        5 => { let n = *r.pick(&[1, 2, 50]); x.move_left(n) }
        6 => { let n = *r.pick(&[1, 2, 50]); x.move_right(n) }
        7 => x.move_to_first_column(),
        8 => { let m = *r.pick(&[CursorMode::Normal, CursorMode::Invisible, CursorMode::Overwrite]); x.set_cursor_mode(m) }
        9 => { let s = style(r); x.add_style(s) }
        10 => { let s = style(r); x.remove_style(s) }
        11 => { let s = style(r); x.set_style(s) }
        12 => { let (f, b, s) = (color(r), color(r), style(r)); x.set_theme(Theme::new(f, b, s)) }
        13 => { let c = color(r); x.set_fg(c) }
        14 => { let c = color(r); x.set_bg(c) }
        15 => x.clear_attributes(),
        16 => match r.below(4) { 0 => x.bold(), 1 => x.italic(), 2 => x.underline(), _ => x.reverse() },
        17 | 18 => { let (f, b, s, t) = (color(r), color(r), style(r), text(r)); x.write_styled(f, b, s, &t) }
        19 => { let c = *r.pick(&['a', 'é', '漢']); x.write_char(c) }
        20 => { let t = text(r); x.write_str(&t) }
        21 => { let t = text(r); x.write_fmt(format_args!("{}-{}", t, 17)) }
        22 => { let t = text(r); term_write!(x, [bold] [red] "[" ("{}", t) [reset] ("{} {}", t, 1)) }
        _ => { let t = text(r); term_writeln!(x, ("{}", t) [reverse] [blue] [#green] ("{}", t)) }
    }
}} }
pub fn on_terminal(t: &Terminal, op: usize, seed: u64, big: usize) -> io::Result<()> { wop!(t, op, &mut Rng::new(seed), big) }
pub fn on_terminal_guard(g: &mut mortal::TerminalWriteGuard, op: usize, seed: u64, big: usize) -> io::Result<()> { wop!(g, op, &mut Rng::new(seed), big) }
pub const WOPS: usize = 24;
const OPNAMES: [&str; WOPS] = ["clear_screen", "clear_to_line_end", "clear_to_screen_end", "move_up", "move_down", "move_left", "move_right",
    "move_to_first_column", "set_cursor_mode", "add_style", "remove_style", "set_style", "set_theme", "set_fg", "set_bg", "clear_attributes",
    "bold/italic/underline/reverse", "write_styled", "write_styled", "write_char", "write_str", "write_fmt", "term_write!", "term_writeln!"];

/// How much a write guard takes before it first writes to the device, if it does
fn capacity(ctx: &Ctx) -> Option<usize> {
    static CAP: OnceLock<Option<usize>> = OnceLock::new();
    *CAP.get_or_init(|| {
        ctx.set_term("xterm");
        ctx.pty.reset(24, 80);
        let t = open(ctx).ok()?;
        let mut g = t.lock_write().ok()?;
        let from = ip::lock().dev[ctx.pty.slot].recs.len();
        for n in 0..70_000 {
            g.write_str("x").ok()?;
            if ip::lock().dev[ctx.pty.slot].recs.len() > from { return Some(n); }
        }
        None
    })
}

/// From now on the device may take only a part of each write
fn split(slot: usize, seed: Option<u64>) {
    let mut g = ip::lock();
    let p = &mut g.dev[slot].wplan;
    match seed { Some(x) => { p.short_pct = 70; p.rng = Some(Rng::new(x)); } None => p.short_pct = 0 }
}

fn rand_split(r: &mut Rng) -> Option<u64> { if r.chance(2) { Some(r.next()) } else { None } }

struct Out { res: io::Result<()>, calls: u32, hit: Option<Kind> }

fn fresh(ctx: &mut Ctx, term: &str) -> Result<Terminal, Fail> {
    ctx.set_term(term);
    ctx.pty.reset(6, 40);
    open(ctx)
}

fn errno(r: &mut Rng) -> c_int { *r.pick(&[libc::EIO, libc::ENOSPC, libc::ENXIO, libc::EINVAL]) }

/// The error this operation must have returned
fn reported(ctx: &mut Ctx, what: &str, o: &Out, e: c_int) -> CaseResult {
    let k = match o.hit { Some(k) => k, None => return Ok(()) };
    match &o.res {
        Ok(()) => fail!("{}: {:?} failed with {}, but it returned Ok", what, k, io::Error::from_raw_os_error(e)),
        Err(x) => ensure!(x.raw_os_error() == Some(e), "{}: {:?} failed with {}, but it returned {:?}", what, k, io::Error::from_raw_os_error(e), x),
    }
    ctx.count("errors reported", 1);
    match k {
        Kind::Write => ctx.count("write errors", 1),
        Kind::Read => ctx.count("read errors", 1),
        Kind::Wait => ctx.count("wait errors", 1),
        Kind::Winsize => ctx.count("size errors", 1),
        Kind::TcGet | Kind::TcSet => ctx.count("line settings errors", 1),
        Kind::SigAct => ctx.count("handler errors", 1),
        _ => ctx.count("open errors", 1),
    }
    Ok(())
}

/// A call on a write guard that has buffered so much that it needs `room` more to have to write
fn guard_op(ctx: &mut Ctx, term: &str, mut r: Rng, op: usize, big: usize, fill: usize, parts: Option<u64>, fault: Fault) -> Result<Out, Fail> {
    let t = fresh(ctx, term)?;
    let mut g = t.lock_write().map_err(|_| "poisoned")?;
    if r.chance(2) { ok!(g.set_theme(Theme::new(Color::Green, *r.pick(&[None, Some(Color::Red)]), *r.pick(&[Style::empty(), Style::BOLD, Style::ITALIC | Style::UNDERLINE]))), "set_theme"); }
    ok!(g.flush(), "flush");
    ok!(g.write_str(&"f".repeat(fill)), "write_str");
    split(ctx.pty.slot, parts);
    arm(fault);
    let res = if op == WOPS { g.flush() } else { wop!(&mut g, op, &mut r, big) };
    let (calls, hit) = disarm();
    split(ctx.pty.slot, None);
    drop(g);
    Ok(Out{res, calls, hit})
}

fn direct_op(ctx: &mut Ctx, term: &str, mut r: Rng, op: usize, big: usize, parts: Option<u64>, fault: Fault) -> Result<Out, Fail> {
    let t = fresh(ctx, term)?;
    if r.chance(2) { ok!(t.set_theme(Theme::new(Color::Green, *r.pick(&[None, Some(Color::Red)]), *r.pick(&[Style::empty(), Style::BOLD, Style::ITALIC | Style::UNDERLINE]))), "set_theme"); }
    split(ctx.pty.slot, parts);
    arm(fault);
    let res = wop!(&t, op, &mut r, big);
    let (calls, hit) = disarm();
    split(ctx.pty.slot, None);
    Ok(Out{res, calls, hit})
}

fn writes(ctx: &mut Ctx, r: &mut Rng) -> CaseResult {
    let cap = capacity(ctx);
    let term = any_term(r);
    let op = r.below(WOPS + 1);
    let fork = r.fork();
    let name = OPNAMES.get(op).copied().unwrap_or("flush");
    let big = if r.chance(3) { r.range(8000, 30_000) } else { 0 };
    let e = errno(r);
    for _ in 0..6 {
        let fill = match cap { Some(c) => c - r.below(40.min(c)), None => r.below(4000) };
        let parts = rand_split(r);
        let what = format!("TERM={} {} (random text of {}) on a write guard that holds {} bytes{}", term, name, big, fill, if parts.is_some() { ", written in parts" } else { "" });
        ctx.note(what.clone());
        let o = guard_op(ctx, term, fork.clone(), op, big, fill, parts, None)?;
        for k in 0..o.calls.min(6) {
            let f = guard_op(ctx, term, fork.clone(), op, big, fill, parts, Some((k, e)))?;
            ensure!(f.hit.is_some(), "harness: the failing call {} of {} was not made", k, o.calls);
            reported(ctx, &what, &f, e)?;
        }
        if big > 0 && op < WOPS {
            // What a call on the Terminal itself writes before it lets go of the lock
            let o = guard_op(ctx, term, fork.clone(), op, big, 0, parts, None)?;
            for k in 0..o.calls.min(4) {
                let f = direct_op(ctx, term, fork.clone(), op, big, parts, Some((k, e)))?;
                reported(ctx, &format!("TERM={} Terminal: {} (random text of {})", term, name, big), &f, e)?;
            }
        }
    }
    Ok(())
}

/// prepare and restore, with or without guards, the device failing at each call in turn
fn prepares(ctx: &mut Ctx, r: &mut Rng) -> CaseResult {
    let term = any_term(r);
    let (cfg, inner) = (rand_config(r), rand_config(r));
    let nested = r.chance(3);
    let restore = r.chance(2);
    let guards = r.chance(2);
    let e = errno(r);
    let fork = r.fork();
    let what = format!("TERM={} {} {}{}({:?})", term, if nested { "nested" } else { "" }, if restore { "restore" } else { "prepare" }, if guards { " with guards " } else { "" }, if nested { inner } else { cfg });
    ctx.note(what.clone());
    let fill = if guards && r.chance(2) { capacity(ctx).map_or(0, |c| c - r.below(30)) } else { 0 };
    let parts = if fill > 0 { rand_split(r) } else { None };
    for k in 0..60 {
        let mut r = fork.clone();
        ctx.set_term(term);
        ctx.pty.reset(6, 40);
        let t0 = rand_tio(&mut r, &ctx.pty.tio0);
        ctx.pty.set_tio(&t0);
        default_dispositions();
        rand_dispositions(&mut r);
        let mut vt = crate::caps::caps_cached(term).vt(6, 40);
        let t = open(ctx)?;
        let first = snap(ctx, &mut vt);
        let outer = if nested { Some(ok!(t.prepare(cfg), "prepare")) } else { None };
        let mine = if nested { inner } else { cfg };
        let before = snap(ctx, &mut vt);
        let state = if restore { Some(ok!(t.prepare(mine), "prepare")) } else { None };
        let mut made = None;
        let res;
        let hit: Option<Kind>;
        if guards {
            let mut rd = t.lock_read().map_err(|_| "poisoned")?;
            let mut wr = t.lock_write().map_err(|_| "poisoned")?;
            ok!(wr.write_str(&"f".repeat(fill)), "write_str");
            split(ctx.pty.slot, parts);
            arm(Some((k, e)));
            res = match state { Some(s) => rd.restore_with_lock(&mut wr, s), None => rd.prepare_with_lock(&mut wr, mine).map(|s| made = Some(s)) };
            hit = disarm().1;
            split(ctx.pty.slot, None);
        } else {
            arm(Some((k, e)));
            res = match state { Some(s) => t.restore(s), None => t.prepare(mine).map(|s| made = Some(s)) };
            hit = disarm().1;
        }
        let o = Out{res, calls: 0, hit};
        reported(ctx, &format!("{} (call {})", what, k), &o, e)?;
        let after = snap(ctx, &mut vt);
        let undone = match hit {
            // The rest is undone or restored all the same; output that is still held has by now been written.
            Some(Kind::Write) | Some(Kind::TcGet) => true,
            Some(Kind::TcSet) | Some(Kind::SigAct) => !restore,
            Some(_) => !restore,
            None => restore && o.res.is_ok(),
        };
        if undone && fill == 0 {
            before.same(&after, &format!("{} (call {} failed: {:?}): state afterwards", what, k, hit), true)?;
            ctx.count("states compared", 1);
        }
        if let Some(s) = made { ok!(t.restore(s), "restore"); }
        if let Some(s) = outer {
            ok!(t.restore(s), "restore");
            if hit.map_or(true, |h| matches!(h, Kind::Write | Kind::TcGet) || !restore) && fill == 0 {
                let last = snap(ctx, &mut vt);
                first.same(&last, &format!("{} (call {} failed: {:?}): after restoring the outer state too", what, k, hit), true)?;
            }
        }
        drop(t);
        default_dispositions();
        if hit.is_none() { return Ok(()); }
    }
    fail!("{}: more than 60 calls on the device", what)
}

/// A read or wait during which the device fails; no input is lost.
fn reads(ctx: &mut Ctx, r: &mut Rng) -> CaseResult {
    let screen = r.chance(2);
    let term = if screen { pick_term(r) } else { any_term(r) };
    let mut cfg = rand_config(r);
    cfg.enable_mouse = false;
    let input: String = (0..r.range(0, 12)).map(|_| *r.pick(&['a', 'b', 'é', '漢', '😀', 'z'])).collect();
    let op = r.below(if screen { 3 } else { 4 });
    let taken = r.below(4);
    let later = r.chance(3);
    let slow = r.chance(2);
    let sigs: Vec<c_int> = (0..r.below(3)).map(|_| *r.pick(&[libc::SIGWINCH, libc::SIGCONT])).collect();
    let guard = r.chance(2);
    let wait = if later { Some(Duration::from_secs(60)) } else { ZERO };
    let e = errno(r);
    let what = format!("TERM={} {} {} with {:?} typed{}, {} events read before, signals {:?}, {:?}", term, if screen { "Screen" } else { "Terminal" },
        ["read_event", "wait_event", "read_raw", "size"][op], input, if later { " (arriving meanwhile)" } else { "" }, taken, sigs, cfg);
    ctx.note(what.clone());
    let slot = ctx.pty.slot;
    default_dispositions();
    for k in 0..40 {
        let t = fresh(ctx, term)?;
        let (mut state, mut scr, mut term) = (None, None, None);
        if screen { scr = Some(ok!(Screen::with_terminal(t, cfg), "creating a Screen")); } else { state = Some(ok!(t.prepare(cfg), "prepare")); term = Some(t); }
        virtual_input(slot, VecDeque::from([input.as_bytes().to_vec()]), !later);
        if slow {
            let mut g = ip::lock();
            let p = &mut g.dev[slot].rplan;
            p.short_pct = 100;
            p.short_max = 1;
            p.rng = Some(Rng::new(1));
        }
        let mut got: Vec<u8> = Vec::new();
        let mut take = |ev: Option<Event>, buf: &[u8]| match ev {
            Some(Event::Key(mortal::Key::Char(c))) => got.extend(c.encode_utf8(&mut [0; 4]).bytes()),
            Some(Event::Raw(n)) => got.extend(&buf[..n]),
            _ => (),
        };
        if !later { for _ in 0..taken {
            let ev = match (&term, &scr) { (Some(t), _) => t.read_event(ZERO), (_, Some(s)) => s.read_event(ZERO), _ => Ok(None) };
            take(ok!(ev, "read_event"), &[]);
        } }
        for &s in &sigs { unsafe { libc::raise(s); } }
        let mut buf = [0u8; 7];
        let mut ev = None;
        arm(Some((k, e)));
        let res: io::Result<()> = match (&mut term, &mut scr) {
            (Some(t), _) => if guard && op < 3 {
                let mut g = t.lock_read().map_err(|_| "poisoned")?;
                match op { 0 => g.read_event(wait).map(|x| ev = x), 1 => g.wait_event(wait).map(|_| ()), _ => g.read_raw(&mut buf, wait).map(|x| ev = x) }
            } else {
                match op { 0 => t.read_event(wait).map(|x| ev = x), 1 => t.wait_event(wait).map(|_| ()), 2 => t.read_raw(&mut buf, wait).map(|x| ev = x),
                    _ => if guard { t.lock_write().map_err(|_| "poisoned")?.size().map(|_| ()) } else { t.size().map(|_| ()) } }
            },
            (_, Some(s)) => if guard {
                let mut g = s.lock_read().map_err(|_| "poisoned")?;
                match op { 0 => g.read_event(wait).map(|x| ev = x), 1 => g.wait_event(wait).map(|_| ()), _ => g.read_raw(&mut buf, wait).map(|x| ev = x) }
            } else {
                match op { 0 => s.read_event(wait).map(|x| ev = x), 1 => s.wait_event(wait).map(|_| ()), _ => s.read_raw(&mut buf, wait).map(|x| ev = x) }
            },
            _ => Ok(()),
        };
        let (_, hit) = disarm();
        take(ev, &buf);
        reported(ctx, &format!("{} (call {})", what, k), &Out{res, calls: 0, hit}, e)?;
        // All of the input, once
        { let mut g = ip::lock(); let v = g.dev[slot].vin.as_mut().unwrap(); while let Some(c) = v.arrivals.pop_front() { v.queue.extend(c); } }
        for _ in 0..200 {
            let ev = match (&mut term, &mut scr) {
                (Some(t), _) => if op == 2 { t.read_raw(&mut buf, ZERO) } else { t.read_event(ZERO) },
                (_, Some(s)) => if op == 2 { s.read_raw(&mut buf, ZERO) } else { s.read_event(ZERO) },
                _ => Ok(None)
            };
            take(ok!(ev, "reading what is left"), &buf);
            let more = match (&term, &scr) { (Some(t), _) => t.wait_event(ZERO), (_, Some(s)) => s.wait_event(ZERO), _ => Ok(false) };
            if !ok!(more, "wait_event") { break; }
        }
        ensure!(got == input.as_bytes(), "{} (call {} failed: {:?}): {:?} was read altogether", what, k, hit, show_bytes(&got));
        ctx.count("inputs compared", 1);
        drop(scr);
        if let (Some(t), Some(s)) = (&term, state) { ok!(t.restore(s), "restore"); }
        default_dispositions();
        if hit.is_none() { return Ok(()); }
    }
    Ok(())
}

/// Creating and refreshing a Screen, and opening a Terminal
fn screens(ctx: &mut Ctx, r: &mut Rng) -> CaseResult {
    let term = pick_term(r);
    let cfg = rand_config(r);
    let e = errno(r);
    default_dispositions();
    match r.below(3) {
        0 => {
            let what = format!("TERM={} Screen::with_terminal({:?})", term, cfg);
            ctx.note(what.clone());
            for k in 0..40 {
                let t = fresh(ctx, term)?;
                arm(Some((k, e)));
                let res = Screen::with_terminal(t, cfg);
                let (_, hit) = disarm();
                let o = Out{res: res.map(|_| ()), calls: 0, hit};
                // Its output may be held until the lock is released
                if hit != Some(Kind::Write) || o.res.is_err() {
                    // hit while the creation was being undone for another reason
                    if !matches!(&o.res, Err(x) if x.raw_os_error().is_none()) { reported(ctx, &format!("{} (call {})", what, k), &o, e)?; }
                }
                default_dispositions();
                if hit.is_none() { break; }
            }
        }
        1 => {
            let guard = r.chance(2);
            let (l, c) = *r.pick(&[(3, 20), (40, 200), (24, 80)]);
            let fork = r.fork();
            let parts = rand_split(r);
            let what = format!("TERM={} {}x{} {}refresh{}", term, l, c, if guard { "guard " } else { "" }, if parts.is_some() { " written in parts" } else { "" });
            ctx.note(what.clone());
            for k in 0..40 {
                let mut r = fork.clone();
                ctx.set_term(term);
                ctx.pty.reset(l, c);
                let t = open(ctx)?;
                let s = ok!(Screen::with_terminal(t, cfg), "creating a Screen");
                let draw = |r: &mut Rng, g: &mut mortal::ScreenWriteGuard| for line in 0..l {
                    for _ in 0..r.below(6) { g.set_cursor((line, r.below(c))); g.write_styled(*r.pick(&[None, Some(Color::Red)]), *r.pick(&[None, Some(Color::Blue)]), *r.pick(&[Style::BOLD, Style::empty()]), &"w".repeat(r.below(c))); }
                };
                let (calls, hit, res);
                if guard {
                    let mut g = s.lock_write().map_err(|_| "poisoned")?;
                    draw(&mut r, &mut g);
                    split(ctx.pty.slot, parts);
                    arm(Some((k, e)));
                    res = g.refresh();
                    (calls, hit) = disarm();
                } else {
                    // drawn through the Screen, as a guard would refresh
                    for line in 0..l { s.set_cursor((line, 0)); for _ in 0..r.below(4) { s.write_styled(*r.pick(&[None, Some(Color::Red)]), *r.pick(&[None, Some(Color::Blue)]), *r.pick(&[Style::BOLD, Style::empty()]), &"w".repeat(r.below(c))); } }
                    split(ctx.pty.slot, parts);
                    arm(Some((k, e)));
                    res = s.refresh();
                    (calls, hit) = disarm();
                }
                split(ctx.pty.slot, None);
                reported(ctx, &format!("{} (call {})", what, k), &Out{res, calls, hit}, e)?;
                drop(s);
                default_dispositions();
                if hit.is_none() { break; }
            }
        }
        _ => {
            ctx.set_term(term);
            ctx.pty.reset(6, 40);
            ctx.note(format!("TERM={} from_path", term));
            for k in 0..20 {
                arm(Some((k, e)));
                let res = Terminal::from_path(&ctx.pty.path);
                let (_, hit) = disarm();
                reported(ctx, &format!("TERM={} from_path (call {})", term, k), &Out{res: res.map(|_| ()), calls: 0, hit}, e)?;
                if hit.is_none() { break; }
            }
        }
    }
    Ok(())
}

/// On two terminal types that differ in one capability: in one of them it cannot be expanded.
/// An operation that uses it there fails.
fn broken(ctx: &mut Ctx, r: &mut Rng) -> CaseResult {
    let (whole, bad, cap) = *r.pick(crate::ti::pairs());
    let kind = r.below(8);
    let op = r.below(WOPS);
    let fork = r.fork();
    let cfg = rand_config(r);
    default_dispositions();
    let mut out: Vec<(io::Result<()>, Vec<u8>)> = Vec::new();
    let slot = ctx.pty.slot;
    let what = format!("capability {} {}", cap, match kind { 0 => format!("prepare({:?})", cfg), 1 => format!("restore after {:?}", cfg), 2 => "Screen refresh".into(), 3 => "Screen::with_terminal".into(), _ => OPNAMES[op].into() });
    ctx.note(what.clone());
    for term in [whole, bad] {
        let mut r = fork.clone();
        let t = fresh(ctx, term)?;
        // what the operation itself put out
        let x: Result<(io::Result<()>, Vec<u8>), io::Error> = (|| {
            match kind {
                0 => { ip::take_out(slot); let s = match t.prepare(cfg) { Ok(s) => s, Err(e) => return Ok((Err(e), Vec::new())) }; let o = ip::take_out(slot); let _ = t.restore(s); Ok((Ok(()), o)) }
                1 => { let s = t.prepare(cfg)?; ip::take_out(slot); let res = t.restore(s); Ok((res, ip::take_out(slot))) }
                2 | 3 => {
                    let s = match Screen::with_terminal(t, cfg) { Ok(s) => s, Err(e) => return if kind == 3 { Ok((Err(e), Vec::new())) } else { Err(e) } };
                    let mut o = if kind == 3 { ip::take_out(slot) } else { Vec::new() };
                    let mut res = Ok(());
                    if kind == 2 {
                        let fill = r.chance(2);
                        if fill { s.write_styled(Color::Red, Color::Blue, Style::BOLD, "before"); s.refresh()?; }
                        // so that the refresh clears first
                        if r.chance(3) { ctx.pty.set_size(5, 30); unsafe { libc::raise(libc::SIGWINCH); } s.read_event(ZERO)?; }
                        ip::take_out(slot);
                        for _ in 0..r.range(1, 3) { s.set_cursor((r.below(6), r.below(40))); s.write_styled(*r.pick(&[None, Some(Color::Red)]), *r.pick(&[None, Some(Color::Blue)]), *r.pick(&[Style::BOLD, Style::empty(), Style::ITALIC, Style::UNDERLINE, Style::REVERSE]), "text"); }
                        if r.chance(4) { s.set_cursor((0, 0)); }
                        let mut g = s.lock_write().unwrap();
                        res = g.refresh();
                        if res.is_ok() { o = ip::take_out(slot); }
                        drop(g);
                    }
                    drop(s);
                    Ok((res, o))
                }
                _ => {
                    let mut g = t.lock_write().unwrap();
                    if r.chance(2) { g.set_theme(Theme::new(*r.pick(&[None, Some(Color::Green)]), *r.pick(&[None, Some(Color::Red)]), *r.pick(&[Style::empty(), Style::BOLD, Style::ITALIC, Style::UNDERLINE | Style::REVERSE, Style::ITALIC | Style::UNDERLINE])))?; }
                    g.flush()?;
                    ip::take_out(slot);
                    let res = wop!(&mut g, op, &mut r, 0);
                    let _ = g.flush();
                    Ok((res, ip::take_out(slot)))
                }
            }
        })();
        match x {
            Ok(x) => out.push(x),
            // not even this far
            Err(e) => { ensure!(term == bad, "{}: with all capabilities in order: {}", what, e); default_dispositions(); return Ok(()); }
        }
    }
    default_dispositions();
    let uses = out[0].1.windows(crate::ti::MARK.len()).any(|w| w == crate::ti::MARK);
    // not supported by this type at all, as going up by more than one without cuu
    if out[0].0.is_err() { ctx.count("unsupported operations", 1); return Ok(()); }
    if uses {
        ensure!(out[1].0.is_err(), "{} uses it, cannot expand it, but returned Ok (TERM={})", what, bad);
        ctx.count("unusable capabilities reported", 1);
    }
    Ok(())
}

pub fn t07(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng.fork();
    drain_signals(ctx)?;
    let res = match r.below(10) {
        0..=2 => writes(ctx, &mut r),
        3 | 4 => prepares(ctx, &mut r),
        5 | 6 => reads(ctx, &mut r),
        7 => screens(ctx, &mut r),
        _ => { let mut res = Ok(()); for _ in 0..12 { res = broken(ctx, &mut r); if res.is_err() { break; } } res }
    };
    disarm();
    default_dispositions();
    res?;
    let h = ctx.trace_hash();
    ctx.distinct(h);
    if ctx.idx % 97 == 3 { ctx.sample_trace(); }
    Ok(())
}
