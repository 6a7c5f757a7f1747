//! P01-P03, S06: the state of the device, the signal handlers and the terminal's modes.

use crate::caps::*;
use crate::dev::*;
use crate::interpose::{self as ip, Kind};
use crate::props_conc::planned_panic;
use crate::props_screen::{rand_config, rand_size, rough_writes};
use crate::props_screen::pick_term;
use crate::props_term::any_term;
use crate::run::{CaseResult, Ctx, Fail, Planned};
use crate::util::*;
use crate::vt::{Attr, Modes, Vt};
use crate::{ensure, fail, ok};
use libc::{c_int, termios};
use mortal::unix::{OpenTerminalExt, TerminalExt};
use mortal::{Color, CursorMode, Event, Key, PrepareConfig, PrepareState, Screen, Signal, SignalSet, Style, Terminal};
use std::time::Duration;

const ZERO: Option<Duration> = Some(Duration::from_millis(0));
const SEC: Option<Duration> = Some(Duration::from_secs(1));

extern "C" fn dummy1(_: c_int) {}
extern "C" fn dummy2(_: c_int) {}

/// A random but valid line setting
pub fn rand_tio(r: &mut Rng, base: &termios) -> termios {
    let mut t = *base;
    let flip = |r: &mut Rng, v: &mut u32, bits: &[u32]| for &b in bits { match r.below(3) { 0 => *v |= b, 1 => *v &= !b, _ => () } };
    flip(r, &mut t.c_iflag, &[libc::IGNBRK, libc::BRKINT, libc::IGNPAR, libc::PARMRK, libc::INPCK, libc::ISTRIP, libc::INLCR, libc::IGNCR, libc::ICRNL, libc::IXON, libc::IXANY, libc::IXOFF, libc::IMAXBEL, libc::IUTF8]);
    flip(r, &mut t.c_oflag, &[libc::OPOST, libc::ONLCR, libc::OCRNL, libc::ONOCR, libc::ONLRET]);
    flip(r, &mut t.c_lflag, &[libc::ISIG, libc::ICANON, libc::ECHO, libc::ECHOE, libc::ECHOK, libc::ECHONL, libc::NOFLSH, libc::TOSTOP, libc::IEXTEN, libc::ECHOCTL, libc::ECHOKE]);
    flip(r, &mut t.c_cflag, &[libc::CSTOPB, libc::HUPCL]);
    for i in 0..17 { if r.chance(3) { t.c_cc[i] = r.below(256) as u8; } }
    t
}

pub fn rand_dispositions(r: &mut Rng) {
    for s in [libc::SIGCONT, libc::SIGWINCH, libc::SIGINT, libc::SIGTSTP, libc::SIGQUIT, libc::SIGUSR1, libc::SIGTTOU, libc::SIGTTIN, libc::SIGALRM, libc::SIGCHLD, libc::SIGUSR2] {
        let h = *r.pick(&[libc::SIG_DFL, libc::SIG_DFL, libc::SIG_IGN, dummy1 as extern "C" fn(c_int) as usize, dummy2 as extern "C" fn(c_int) as usize]);
        let f = if h > 1 { *r.pick(&[0, libc::SA_RESTART, libc::SA_NODEFER, libc::SA_RESTART | libc::SA_SIGINFO]) } else { 0 };
        let m: &[c_int] = if h > 1 { *r.pick(&[&[][..], &[libc::SIGUSR1][..], &[libc::SIGINT, libc::SIGALRM][..]]) } else { &[] };
        set_disposition(s, h, f, m);
    }
}

pub fn default_dispositions() {
    for s in [libc::SIGCONT, libc::SIGWINCH, libc::SIGINT, libc::SIGTSTP, libc::SIGQUIT, libc::SIGUSR1, libc::SIGTTOU, libc::SIGTTIN, libc::SIGALRM, libc::SIGCHLD, libc::SIGUSR2] {
        set_disposition(s, libc::SIG_DFL, 0, &[]);
    }
}

/// What the kernel and the terminal say
#[derive(Clone)]
pub struct Snap { tio: termios, disp: Vec<(c_int, Disp)>, pub modes: Modes, attr: Attr, region: (usize, usize) }

pub fn snap(ctx: &Ctx, vt: &mut Vt) -> Snap {
    let out = ip::take_out(ctx.pty.slot);
    vt.feed(&out);
    Snap{tio: ctx.pty.tio(), disp: all_dispositions(), modes: vt.modes.clone(), attr: vt.attr, region: vt.region()}
}

impl Snap {
    fn tio_same(&self, o: &termios, what: &str) -> CaseResult {
        ensure!(tio_key(&self.tio) == tio_key(o), "{}: line settings are\n  {}\nexpected\n  {}", what, show_tio(o), show_tio(&self.tio));
        Ok(())
    }
    fn disp_same(&self, o: &[(c_int, Disp)], what: &str) -> CaseResult {
        for ((s, a), (_, b)) in self.disp.iter().zip(o) { ensure!(a == b, "{}: handler of signal {} {} is {:?}, expected {:?}", what, s, signame(*s), b, a); }
        Ok(())
    }
    pub fn same(&self, o: &Snap, what: &str, input_only: bool) -> CaseResult {
        self.tio_same(&o.tio, what)?;
        self.disp_same(&o.disp, what)?;
        if input_only { ensure!(self.modes.input_modes() == o.modes.input_modes(), "{}: terminal modes are {:?}, expected {:?}", what, o.modes, self.modes); }
        else {
            self.modes_same(o, what)?;
        }
        Ok(())
    }
    fn modes_same(&self, o: &Snap, what: &str) -> CaseResult {
        ensure!(self.modes == o.modes, "{}: terminal modes are {:?}, expected {:?}", what, o.modes, self.modes);
        ensure!(self.attr == o.attr, "{}: text attributes are {:?}, expected {:?}", what, o.attr, self.attr);
        ensure!(self.region == o.region, "{}: the scrolling region is {:?}, expected {:?}", what, o.region, self.region);
        Ok(())
    }
}

/// Opens the monitored terminal by one of the public ways.
pub fn any_open(ctx: &mut Ctx, r: &mut Rng) -> Result<Terminal, Fail> {
    match r.below(4) {
        0 => { ctx.note("Terminal::new".into()); Ok(ok!(Terminal::new(), "Terminal::new")) }
        _ => Ok(ok!(Terminal::from_path(&ctx.pty.path), "from_path")),
    }
}

fn setup(ctx: &mut Ctx, r: &mut Rng, term: &'static str) -> Vt {
    ctx.set_term(term);
    let (l, c) = rand_size(r);
    ctx.pty.reset(l, c);
    let t = if r.chance(4) { ctx.pty.tio0 } else { rand_tio(r, &ctx.pty.tio0) };
    ctx.pty.set_tio(&t);
    default_dispositions();
    if !r.chance(4) { rand_dispositions(r); }
    rough_writes(r, ctx.pty.slot);
    caps_cached(term).vt(l, c)
}

/// Line settings demanded by a configuration, applied to these
pub fn prepared(base: &termios, c: &PrepareConfig) -> termios {
    let mut t = *base;
    t.c_lflag &= !(libc::ICANON | libc::ECHO);
    t.c_iflag &= !(libc::ICRNL | libc::INLCR);
    t.c_cc[libc::VMIN] = 0;
    t.c_cc[libc::VTIME] = 0;
    if c.block_signals { t.c_lflag &= !libc::ISIG } else { t.c_lflag |= libc::ISIG }
    if c.enable_control_flow { t.c_iflag |= libc::IXON } else { t.c_iflag &= !libc::IXON }
    t
}

/// Modes that should be on: mouse, motion, keypad
fn modes_on(stack: &[PrepareConfig], caps: &Caps) -> (bool, bool, bool) {
    let mouse = caps.xterm && stack.iter().any(|c| c.enable_mouse);
    let motion = caps.xterm && stack.iter().any(|c| c.enable_mouse && c.always_track_motion);
    (mouse, motion, caps.smkx.is_some() && stack.iter().any(|c| c.enable_keypad))
}

fn check_modes(vt: &Vt, base: &Modes, on: (bool, bool, bool), caps: &Caps, what: &str) -> CaseResult {
    let m = &vt.modes;
    ensure!((m.m1002, m.m1006, m.m1000) == (on.0 || base.m1002, on.0 || base.m1006, base.m1000), "{}: mouse reporting 1000 {} 1002 {} 1006 {}, expected {}", what, m.m1000, m.m1002, m.m1006, on.0);
    ensure!(m.m1003 == (on.1 || base.m1003), "{}: motion reporting is {}, expected {}", what, m.m1003, on.1 || base.m1003);
    let mut v = Vt::new(1, 4, false);
    v.modes = base.clone();
    if on.2 { v.feed(caps.smkx.as_ref().unwrap()); }
    ensure!((m.app_cursor, m.app_keypad) == (v.modes.app_cursor, v.modes.app_keypad), "{}: keypad modes are ({}, {}), expected ({}, {})", what, m.app_cursor, m.app_keypad, v.modes.app_cursor, v.modes.app_keypad);
    ensure!(m.alt == base.alt && m.hidden == base.hidden, "{}: other modes changed: {:?} from {:?}", what, m, base);
    Ok(())
}

const ALL: [(c_int, Signal); 5] = [(libc::SIGCONT, Signal::Continue), (libc::SIGWINCH, Signal::Resize), (libc::SIGINT, Signal::Interrupt), (libc::SIGTSTP, Signal::Suspend), (libc::SIGQUIT, Signal::Quit)];

fn wants(c: &PrepareConfig, sig: Signal) -> bool {
    matches!(sig, Signal::Continue | Signal::Resize) || c.report_signals.contains(sig)
}

/// Signals intercepted by this stack of configurations
fn intercepted(stack: &[PrepareConfig]) -> Vec<(c_int, Signal)> {
    ALL.iter().copied().filter(|&(_, s)| stack.iter().any(|c| wants(c, s))).collect()
}

/// Raises a signal that is surely caught and reads: reported exactly as the top configuration says.
fn check_report(ctx: &mut Ctx, t: &Terminal, top: SignalSet, sig: (c_int, Signal), size: (usize, usize), what: &str) -> CaseResult {
    // once more: the handler stays
    for again in ["", " again"] {
        unsafe { libc::raise(sig.0); }
        let e = ok!(t.read_event(ZERO), "read_event");
        let want = if sig.1 == Signal::Resize { Some(Event::Resize(mortal::Size{lines: size.0, columns: size.1})) }
            else if top.contains(sig.1) { Some(Event::Signal(sig.1)) } else { None };
        ensure!(e == want, "{}: {} raised{}, the next read returned {:?}, expected {:?}", what, signame(sig.0), again, e, want);
        ctx.count("signals raised and read", 1);
        let e = ok!(t.read_event(ZERO), "read_event");
        ensure!(e.is_none(), "{}: {} reported twice: {:?}", what, signame(sig.0), e);
    }
    Ok(())
}

fn check_intercept(base: &Snap, stack: &[PrepareConfig], what: &str, exact: bool) -> CaseResult {
    let now = all_dispositions();
    let on = intercepted(stack);
    for ((s, a), (_, b)) in base.disp.iter().zip(&now) {
        if on.iter().any(|x| x.0 == *s) {
            ensure!(b.handler > 1 && b.handler != a.handler, "{}: {} is not intercepted: {:?}", what, signame(*s), b);
        } else if exact || !ALL.iter().any(|x| x.0 == *s) {
            ensure!(a == b, "{}: handler of signal {} {} changed from {:?} to {:?}", what, s, signame(*s), a, b);
        }
    }
    Ok(())
}

fn do_prepare(t: &Terminal, r: &mut Rng, c: PrepareConfig) -> Result<PrepareState, Fail> {
    Ok(match r.below(3) {
        0 => ok!(t.prepare(c), "prepare"),
        1 => ok!(t.lock_read().map_err(|_| "poisoned")?.prepare(c), "prepare"),
        _ => {
            let mut g = t.lock_read().map_err(|_| "poisoned")?;
            let mut w = t.lock_write().map_err(|_| "poisoned")?;
            ok!(g.prepare_with_lock(&mut w, c), "prepare_with_lock")
        }
    })
}
fn do_restore(t: &Terminal, r: &mut Rng, s: PrepareState) -> CaseResult {
    match r.below(3) {
        0 => ok!(t.restore(s), "restore"),
        1 => ok!(t.lock_read().map_err(|_| "poisoned")?.restore(s), "restore"),
        _ => {
            let mut g = t.lock_read().map_err(|_| "poisoned")?;
            let mut w = t.lock_write().map_err(|_| "poisoned")?;
            ok!(g.restore_with_lock(&mut w, s), "restore_with_lock")
        }
    }
    Ok(())
}

fn size_of(vt: &Vt) -> (usize, usize) { (vt.lines, vt.cols) }

// ---- P01 ---------------------------------------------------------------------------------------------------

pub fn p01(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng.fork();
    let term = any_term(&mut r);
    let mut vt = setup(ctx, &mut r, term);
    let caps = caps_cached(term);
    let cfg = rand_config(&mut r);
    let mut t = any_open(ctx, &mut r)?;
    let before = snap(ctx, &mut vt);
    ctx.note(format!("TERM={} {:?} on {}", term, cfg, show_tio(&before.tio)));
    // something unsent may be around
    if r.chance(3) { ok!(t.write_str("text"), "write_str"); }
    let st = do_prepare(&t, &mut r, cfg)?;
    let out = ip::take_out(ctx.pty.slot);
    vt.feed(&out);
    let now = ctx.pty.tio();
    let want = prepared(&before.tio, &cfg);
    ensure!(tio_key(&now) == tio_key(&want), "after prepare line settings are\n  {}\nexpected\n  {}\nbefore\n  {}", show_tio(&now), show_tio(&want), show_tio(&before.tio));
    check_intercept(&before, &[cfg], "after prepare", true)?;
    check_modes(&vt, &before.modes, modes_on(&[cfg], caps), caps, "after prepare")?;
    if let Some(a) = vt.anomalies.first() { fail!("preparing: {}", a); }
    let mut on = intercepted(&[cfg]);
    r.shuffle(&mut on);
    for s in on { check_report(ctx, &t, cfg.report_signals, s, size_of(&vt), "after prepare")?; }
    // resuming has not changed anything either
    let now = ctx.pty.tio();
    ensure!(tio_key(&now) == tio_key(&want), "after reading signals line settings are\n  {}\nexpected\n  {}", show_tio(&now), show_tio(&want));
    // reads do not block in the driver: with nothing typed a read returns at once
    let fl = unsafe { libc::fcntl(ctx.pty.slave, libc::F_GETFL) };
    let mut b = [0u8; 4];
    let n = unsafe { libc::syscall(libc::SYS_read, ctx.pty.slave, b.as_mut_ptr(), 4usize) };
    ensure!(n == 0, "a device read with nothing typed returned {} (flags {:o})", n, fl);
    // what is typed arrives at once and unchanged
    if caps.keys.iter().all(|(s, _)| !s.starts_with(b"x")) && now.c_iflag & (libc::ISTRIP | libc::IXANY | libc::IGNBRK) == 0 {
        let special = |b: u8| (0..17).any(|i| i != libc::VMIN && i != libc::VTIME && now.c_cc[i] == b);
        if !special(b'x') && !special(b'\r') && now.c_iflag & libc::IGNCR == 0 {
            ctx.pty.type_in(b"x\r");
            let mut b = [0u8; 8];
            let e = ok!(t.read_raw(&mut b, ZERO), "read_raw");
            ensure!(e == Some(Event::Raw(2)) && &b[..2] == b"x\r", "x and Enter typed, raw read gave {:?} {:?}", e, &b[..2]);
            ctx.count("typed input read", 1);
        }
    }
    ctx.count("preparations compared", 1);
    if modes_on(&[cfg], caps).0 { ctx.count("preparations with mouse", 1); }
    if modes_on(&[cfg], caps).2 { ctx.count("preparations with keypad", 1); }
    let h = ctx.trace_hash();
    ctx.distinct(h);
    ctx.state(hash_str(&show_tio(&now)));
    if ctx.idx % 97 == 3 { ctx.sample_trace(); }
    ok!(t.restore(st), "restore");
    drop(t);
    default_dispositions();
    Ok(())
}

// ---- P02 ---------------------------------------------------------------------------------------------------

pub fn p02(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng.fork();
    let term = if r.chance(2) { *r.pick(&["xterm", "xterm-256color"]) } else { any_term(&mut r) };
    let mut vt = setup(ctx, &mut r, term);
    let caps = caps_cached(term);
    let t = any_open(ctx, &mut r)?;
    // Modes that somebody else has turned on, and that nothing here asks for, stay as they are
    let (no_mouse, no_keypad) = (r.chance(4), r.chance(4));
    if no_mouse { vt.modes.m1000 = r.chance(2); vt.modes.m1002 = r.chance(2); vt.modes.m1003 = r.chance(2); vt.modes.m1006 = r.chance(2); ctx.count("cases with foreign mouse modes", 1); }
    if no_keypad { vt.modes.app_cursor = r.chance(2); vt.modes.app_keypad = r.chance(2); ctx.count("cases with foreign keypad modes", 1); }
    let mut stack: Vec<(Snap, PrepareState, PrepareConfig)> = Vec::new();
    let steps = r.range(3, 24);
    let original = snap(ctx, &mut vt);
    ctx.note(format!("TERM={}", term));
    for step in 0..=steps {
        let last = step == steps;
        // what was typed before, and not read, stays there
        let ahead = !stack.is_empty() && r.chance(3) && plain(&ctx.pty.tio(), b'k');
        if ahead {
            ctx.note("typed ahead: k".into());
            ctx.pty.type_in(b"k");
            ensure!(ok!(t.wait_event(SEC), "wait_event"), "typed k, wait_event reports nothing");
        }
        let depth = stack.len();
        if !last && stack.len() < 5 && (stack.is_empty() || r.chance(2)) {
            let mut c = rand_config(&mut r);
            if no_mouse { c.enable_mouse = false; }
            if no_keypad { c.enable_keypad = false; }
            let s = snap(ctx, &mut vt);
            ctx.note(format!("prepare {:?}", c));
            let st = do_prepare(&t, &mut r, c)?;
            stack.push((s, st, c));
            ctx.max("max nesting", stack.len() as u64);
        } else {
            let mut n = if last { stack.len() } else { 1 };
            while n > 0 {
                n -= 1;
                let (s, st, _) = match stack.pop() { Some(x) => x, None => break };
                ctx.note(format!("restore to depth {}", stack.len()));
                do_restore(&t, &mut r, st)?;
                let now = snap(ctx, &mut vt);
                s.same(&now, &format!("after restoring to depth {}", stack.len()), true)?;
                ctx.count("restores compared", 1);
                if !stack.is_empty() { ctx.count("nested restores compared", 1); }
            }
        }
        if ahead {
            if stack.is_empty() {
                let own = ctx.pty.tio();
                let mut raw = own;
                raw.c_lflag &= !(libc::ICANON | libc::ISIG);
                ctx.pty.set_tio(&raw);
                let n = ctx.pty.pending();
                unsafe { libc::tcflush(ctx.pty.slave, libc::TCIFLUSH); }
                ctx.pty.set_tio(&own);
                ensure!(n == 1, "k was typed before restoring to depth 0; now {} bytes of input are there", n);
            } else {
                let e = ok!(t.read_event(ZERO), "read_event");
                ensure!(e == Some(Event::Key(Key::Char('k'))), "k was typed at depth {}; at depth {}, {:?} was read", depth, stack.len(), e);
            }
            ctx.count("input typed ahead", 1);
        }
        // in between
        for _ in 0..r.below(4) {
            match r.below(4) {
                0 => { ok!(t.write_str("between"), "write_str"); }
                1 => {
                    let sigs = ctx.pty.tio();
                    if stack.is_empty() || sigs.c_iflag & libc::ISTRIP != 0 { continue; }
                    if !plain(&sigs, b'k') { continue; }
                    ctx.pty.type_in(b"k");
                    let e = ok!(t.read_event(ZERO), "read_event");
                    ensure!(e == Some(Event::Key(Key::Char('k'))), "typed k, read {:?}", e);
                }
                _ => {
                    let cfgs: Vec<PrepareConfig> = stack.iter().map(|x| x.2).collect();
                    if let Some(top) = cfgs.last() {
                        let on = intercepted(&cfgs);
                        let s = *r.pick(&on);
                        ctx.note(format!("raise {}", signame(s.0)));
                        check_report(ctx, &t, top.report_signals, s, size_of(&vt), &format!("at depth {}", cfgs.len()))?;
                        if s.0 == libc::SIGCONT { ctx.count("resumes", 1); }
                    }
                }
            }
        }
        // the top configuration is in force
        let out = ip::take_out(ctx.pty.slot);
        vt.feed(&out);
        let cfgs: Vec<PrepareConfig> = stack.iter().map(|x| x.2).collect();
        if let Some(top) = cfgs.last() {
            let now = ctx.pty.tio();
            let want = prepared(&original.tio, top);
            ensure!(tio_key(&now) == tio_key(&want), "at depth {} line settings are\n  {}\nexpected\n  {}", cfgs.len(), show_tio(&now), show_tio(&want));
            check_intercept(&original, &cfgs, &format!("at depth {}", cfgs.len()), false)?;
            check_modes(&vt, &original.modes, modes_on(&cfgs, caps), caps, &format!("at depth {}", cfgs.len()))?;
        }
    }
    let now = snap(ctx, &mut vt);
    original.same(&now, "after the last restore", true)?;
    // nothing is reported any more
    let h = ctx.trace_hash();
    ctx.distinct(h);
    if ctx.idx % 97 == 3 { ctx.sample_trace(); }
    drop(t);
    default_dispositions();
    Ok(())
}

/// Whether this byte is taken as it is
fn plain(t: &termios, b: u8) -> bool {
    (b < 128 || t.c_iflag & libc::ISTRIP == 0) && (0..17).all(|i| i == libc::VMIN || i == libc::VTIME || t.c_cc[i] != b)
}

// ---- P03 ---------------------------------------------------------------------------------------------------

enum Subj { T(Terminal, Vec<(Snap, PrepareState)>), S(Screen, Snap) }

pub fn p03(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng.fork();
    let term = match r.below(3) { 0 => *r.pick(&["xterm", "xterm-256color"]), 1 => pick_term(&mut r), _ => any_term(&mut r) };
    let screen_ok = SCREEN_TERMS.contains(&term) || crate::ti::names().contains(&term);
    let mut vt = setup(ctx, &mut r, term);
    let caps = caps_cached(term);
    let t = any_open(ctx, &mut r)?;
    ctx.note(format!("TERM={}", term));
    if r.chance(5) { return unprepared(ctx, &mut r, t, vt); }
    let mut cfgs: Vec<PrepareConfig> = Vec::new();
    let mut subj = if screen_ok && r.chance(3) {
        let c = rand_config(&mut r);
        ctx.note(format!("Screen {:?}", c));
        let s = snap(ctx, &mut vt);
        cfgs.push(c);
        Subj::S(ok!(Screen::with_terminal(t, c), "creating the screen"), s)
    } else {
        let mut v = Vec::new();
        for _ in 0..r.range(1, 3) {
            let c = rand_config(&mut r);
            ctx.note(format!("prepare {:?}", c));
            let s = snap(ctx, &mut vt);
            let st = do_prepare(&t, &mut r, c)?;
            cfgs.push(c);
            v.push((s, st));
        }
        Subj::T(t, v)
    };
    for _ in 0..r.range(1, 5) {
        if cfgs.is_empty() { break; }
        // part of a character has been typed
        let half = { let t = ctx.pty.tio(); r.chance(4) && plain(&t, 0xc3) };
        if half {
            ctx.pty.type_in(b"\xc3");
            let e = match &subj { Subj::T(t, _) => t.read_event(SEC), Subj::S(s, _) => s.read_event(SEC) };
            ensure!(ok!(e, "read_event").is_none(), "half a character was typed, and an event read");
        }
        // suspended; another program
        let out = ip::take_out(ctx.pty.slot);
        vt.feed(&out);
        let other = rand_tio(&mut r, &ctx.pty.tio0);
        ctx.pty.set_tio(&other);
        let other = ctx.pty.tio();
        let m = vt.modes.clone();
        // Another program leaves the input modes off
        if r.chance(2) { vt.modes = Modes{alt: m.alt, hidden: m.hidden, ..Modes::default()}; }
        unsafe { libc::raise(libc::SIGCONT); }
        ctx.note(format!("suspended; other program: {}; resumed", show_tio(&other)));
        let top = *cfgs.last().unwrap();
        let want = if top.report_signals.contains(Signal::Continue) { Some(Event::Signal(Signal::Continue)) } else { None };
        let how = if half { r.range(1, 3) } else { r.below(4) };
        let mut buf = [0u8; 32];
        if how == 3 {
            let b = match &subj { Subj::T(t, _) => t.wait_event(ZERO), Subj::S(s, _) => s.wait_event(ZERO) };
            ensure!(ok!(b, "wait_event"), "wait_event reports nothing after SIGCONT");
        }
        let e = match (&mut subj, how) {
            (Subj::T(t, _), 0) => t.read_raw(&mut buf, ZERO),
            (Subj::T(t, _), 1) => t.lock_read().map_err(|_| "poisoned")?.read_event(ZERO),
            (Subj::T(t, _), _) => t.read_event(ZERO),
            (Subj::S(s, _), 0) => s.read_raw(&mut buf, ZERO),
            (Subj::S(s, _), 1) => s.lock_read().map_err(|_| "poisoned")?.read_event(ZERO),
            (Subj::S(s, _), _) => s.read_event(ZERO),
        };
        let e = ok!(e, "reading after SIGCONT");
        ensure!(e == want, "SIGCONT raised, the next read returned {:?}, expected {:?}", e, want);
        let out = ip::take_out(ctx.pty.slot);
        vt.feed(&out);
        let now = ctx.pty.tio();
        let tw = prepared(&other, &top);
        ensure!(tio_key(&now) == tio_key(&tw), "after resuming and reading, line settings are\n  {}\nexpected\n  {}\nleft by the other program\n  {}", show_tio(&now), show_tio(&tw), show_tio(&other));
        check_modes(&vt, &Modes{alt: m.alt, hidden: m.hidden, ..Modes::default()}, modes_on(&cfgs, caps), caps, "after resuming and reading")?;
        ctx.count("resumes compared", 1);
        if half {
            // if the rest of it cannot be typed any more, what there is of it is read
            if plain(&now, 0xa9) {
                ctx.pty.type_in(b"\xa9");
                let e = match &subj { Subj::T(t, _) => t.read_event(SEC), Subj::S(s, _) => s.read_event(SEC) };
                let e = ok!(e, "read_event");
                ensure!(e == Some(Event::Key(Key::Char('é'))), "the second half of é was typed after resuming, and {:?} read", e);
            } else {
                let e = match &mut subj { Subj::T(t, _) => t.read_raw(&mut buf, ZERO), Subj::S(s, _) => s.read_raw(&mut buf, ZERO) };
                let e = ok!(e, "read_raw");
                ensure!(e == Some(Event::Raw(1)) && buf[0] == 0xc3, "half a character was typed before resuming, {:?} read", e);
            }
            ctx.count("resumes within a character", 1);
        }
        // and still reports what it did
        if let Subj::T(t, _) = &subj {
            let s = *r.pick(&intercepted(&cfgs));
            check_report(ctx, t, top.report_signals, s, size_of(&vt), "after resuming")?;
            let out = ip::take_out(ctx.pty.slot);
            vt.feed(&out);
        }
        if let Subj::T(t, v) = &mut subj {
            if r.chance(3) {
                let (s, st) = v.pop().unwrap();
                cfgs.pop();
                do_restore(t, &mut r, st)?;
                let now = snap(ctx, &mut vt);
                s.same(&now, "after resuming and restoring", true)?;
                ctx.note("restore".into());
                ctx.count("restores after resuming compared", 1);
            }
        }
    }
    match subj {
        Subj::T(t, mut v) => {
            while let Some((s, st)) = v.pop() {
                do_restore(&t, &mut r, st)?;
                let now = snap(ctx, &mut vt);
                s.same(&now, "after resuming and restoring", true)?;
                ctx.count("restores after resuming compared", 1);
            }
        }
        Subj::S(s, before) => {
            drop(s);
            let now = snap(ctx, &mut vt);
            before.same(&now, "after resuming and dropping the screen", false)?;
            ctx.count("restores after resuming compared", 1);
        }
    }
    let h = ctx.trace_hash();
    ctx.distinct(h);
    if ctx.idx % 97 == 3 { ctx.sample_trace(); }
    default_dispositions();
    Ok(())
}

/// SIGCONT seen by the library when no configuration is in force
fn unprepared(ctx: &mut Ctx, r: &mut Rng, t: Terminal, mut vt: Vt) -> CaseResult {
    let n = r.range(1, 3);
    let mut sts = Vec::new();
    let before = snap(ctx, &mut vt);
    for _ in 0..n { let c = rand_config(r); sts.push(do_prepare(&t, r, c)?); }
    unsafe { libc::raise(libc::SIGCONT); }
    while let Some(st) = sts.pop() { do_restore(&t, r, st)?; }
    let now = snap(ctx, &mut vt);
    before.same(&now, "after restoring", true)?;
    let e = ok!(t.read_event(ZERO), "read_event");
    ensure!(e.is_none(), "with nothing prepared SIGCONT was reported: {:?}", e);
    let now = snap(ctx, &mut vt);
    before.same(&now, "after resuming with nothing prepared", true)?;
    ctx.count("resumes with nothing prepared", 1);
    let h = ctx.trace_hash();
    ctx.distinct(combine(h, ctx.idx));
    drop(t);
    default_dispositions();
    Ok(())
}

// ---- S06 ---------------------------------------------------------------------------------------------------

/// Says whether output may have been held back.
fn draw(ctx: &mut Ctx, s: &Screen, r: &mut Rng) -> Result<bool, Fail> {
    let mut held = false;
    for _ in 0..r.below(6) {
        match r.below(8) {
            0 => s.write_at((r.below(4), r.below(8)), "text"),
            1 => { s.set_fg(Color::Green); s.add_style(Style::BOLD); s.write_str("more text"); }
            2 => ok!(s.refresh(), "refresh"),
            3 => { let m = *r.pick(&[CursorMode::Invisible, CursorMode::Overwrite, CursorMode::Normal]); ok!(s.set_cursor_mode(m), "set_cursor_mode") }
            4 => { let mut g = s.lock_write().map_err(|_| "poisoned")?; g.write_styled(Color::Red, Color::Blue, Style::REVERSE | Style::UNDERLINE, "styled"); }
            5 => { unsafe { libc::raise(*r.pick(&[libc::SIGWINCH, libc::SIGCONT])); } if r.chance(2) { ok!(s.read_event(ZERO), "read_event"); } }
            6 => {
                // a refresh that fails on the device somewhere
                let z = s.size();
                // of one write or of several
                let big = r.chance(2);
                for l in 0..z.lines { for c in (0..z.columns).step_by(3) { s.write_styled_at((l, c), rand_color(r), rand_color(r), rand_style(r), &format!("{}{}", *r.pick(&["a", "bc", "def"]), "\u{301}".repeat(if big { 60 } else { 0 }))); } }
                let pct = *r.pick(&[30, 60, 100]);
                { let f = r.fork(); let mut g = ip::lock(); let w = &mut g.dev[ctx.pty.slot].wplan; w.err_pct = pct; w.rng.get_or_insert(f); }
                let res = s.refresh();
                ip::lock().dev[ctx.pty.slot].wplan.err_pct = 0;
                ctx.note(format!("refresh with the device failing: {:?}", res.is_ok()));
                held |= res.is_err();
                if res.is_err() { ctx.count("refreshes failed before the drop", 1); }
            }
            _ => { s.set_cursor((r.below(5), r.below(9))); }
        }
    }
    Ok(held)
}

pub fn s06(ctx: &mut Ctx) -> CaseResult {
    crate::props_screen::drain_signals(ctx)?;
    let mut r = ctx.rng.fork();
    let term = pick_term(&mut r);
    if r.chance(3) { return failed_creation(ctx, &mut r); }
    let mut vt = setup(ctx, &mut r, term);
    let cfg = rand_config(&mut r);
    let t = any_open(ctx, &mut r)?;
    ctx.note(format!("TERM={} {:?}", term, cfg));
    // the device may not know its size, or have none
    if r.chance(16) {
        let (l, c) = *r.pick(&[(0, 0), (0, vt.cols), (vt.lines, 0)]);
        ctx.pty.set_size(l, c);
        ctx.note(format!("of size {}x{}", l, c));
        ctx.count("screens without cells", 1);
    }
    let before = snap(ctx, &mut vt);
    let s = ok!(Screen::with_terminal(t, cfg), "creating the screen");
    let slot = ctx.pty.slot;
    { let o = ip::take_out(slot); vt.feed(&o); }
    ensure!(vt.modes.alt == caps_cached(term).smcup.as_ref().map_or(false, |s| { let mut v = Vt::new(2, 4, false); v.feed(s); v.modes.alt }), "the alternate screen is {} after creating the Screen", vt.modes.alt);
    let held = draw(ctx, &s, &mut r)?;
    let way = r.below(8);
    ctx.note(format!("dropped by way {}", way));
    match way {
        0 | 1 => drop(s),
        // a panic in the same thread, guards held
        2 | 3 | 4 => {
            let (rd, wr) = match way { 2 => (true, false), 3 => (false, true), _ => (true, true) };
            let by_unwind = r.chance(2);
            let mut keep = Some(s);
            assert!(planned_panic(|| {
                let owned;
                let s = if by_unwind { owned = keep.take(); owned.as_ref().unwrap() } else { keep.as_ref().unwrap() };
                let _g = if rd { s.lock_read().ok() } else { None };
                let mut w = if wr { s.lock_write().ok() } else { None };
                if let Some(w) = w.as_mut() { w.write_styled_at((0, 0), Color::Red, None, Style::BOLD, "half"); w.set_fg(Color::Red); }
                std::panic::panic_any(Planned);
            }), "harness: no panic");
            drop(keep);
            ctx.count("panics with guards held", 1);
        }
        // a panic in another thread
        5 => {
            let (rd, wr) = *r.pick(&[(true, false), (false, true), (true, true)]);
            let s2 = &s;
            std::thread::scope(|sc| { sc.spawn(move || assert!(planned_panic(|| {
                let _g = if rd { s2.lock_read().ok() } else { None };
                let _w = if wr { s2.lock_write().ok() } else { None };
                std::panic::panic_any(Planned);
            }), "harness: no panic")).join().unwrap(); });
            drop(s);
            ctx.count("panics with guards held", 1);
        }
        // the device fails once meanwhile: the rest is put back all the same
        6 => {
            let (k, e) = (r.below(10) as u32, *r.pick(&[libc::EAGAIN, libc::EIO]));
            { let mut g = ip::lock(); g.fault = Some((k, e)); g.fault_count = 0; g.fault_hit = None; }
            ip::WATCH_SIGACT.with(|w| w.set(true));
            drop(s);
            ip::WATCH_SIGACT.with(|w| w.set(false));
            let hit = { let mut g = ip::lock(); g.fault = None; g.fault_hit.take() };
            ctx.note(format!("device error at call {}: {:?}", k, hit));
            // what one error holds back goes out with what follows
            let lost_nothing = !(held && hit == Some(Kind::Write)) && ip::lock().dev[slot].recs.last().map_or(true, |w| w.errno == 0 || w.errno == libc::EINTR);
            let after = snap(ctx, &mut vt);
            if let Some(a) = vt.anomalies.first() { fail!("{}", a); }
            let what = format!("after dropping the Screen with an error at call {} ({:?})", k, hit);
            if hit != Some(Kind::TcSet) { before.tio_same(&after.tio, &what)?; }
            if hit != Some(Kind::SigAct) { before.disp_same(&after.disp, &what)?; }
            if lost_nothing { before.modes_same(&after, &what)?; }
            if hit.is_some() { ctx.count("drops with a device error", 1); }
            default_dispositions();
            let h = ctx.trace_hash();
            ctx.distinct(h);
            return Ok(());
        }
        // while a panic of something else unwinds
        _ => {
            let mut keep = Some(s);
            assert!(planned_panic(|| { let _s = keep.take(); std::panic::panic_any(Planned); }), "harness: no panic");
            ctx.count("drops while unwinding", 1);
        }
    }
    let after = snap(ctx, &mut vt);
    if let Some(a) = vt.anomalies.first() { fail!("{}", a); }
    before.same(&after, "after dropping the Screen", false)?;
    ctx.count("drops compared", 1);
    let h = ctx.trace_hash();
    ctx.distinct(h);
    if ctx.idx % 97 == 3 { ctx.sample_trace(); }
    default_dispositions();
    Ok(())
}

/// Creating a Screen fails at every possible system call in turn.
fn failed_creation(ctx: &mut Ctx, r: &mut Rng) -> CaseResult {
    let term = if r.chance(5) { *r.pick(&["ansi", "dumb", "vt52", "sun", "cygwin", "pcansi"]) } else if r.chance(6) { *r.pick(&crate::ti::LACKING) } else { pick_term(r) };
    let cfg = rand_config(r);
    let e = *r.pick(&[libc::EIO, libc::EINVAL, libc::ENOSPC, libc::EAGAIN]);
    ctx.note(format!("TERM={} {:?}: creation fails with {}", term, cfg, e));
    let fork = r.fork();
    for k in 0..40u32 {
        let mut r = fork.clone();
        let mut vt = setup(ctx, &mut r, term);
        ip::lock().dev[ctx.pty.slot].wplan = Default::default();
        let t = ok!(Terminal::from_path(&ctx.pty.path), "from_path");
        let before = snap(ctx, &mut vt);
        { let mut g = ip::lock(); g.fault = Some((k, e)); g.fault_count = 0; g.fault_hit = None; }
        ip::WATCH_SIGACT.with(|w| w.set(true));
        let res = Screen::with_terminal(t, cfg);
        let hit = { let mut g = ip::lock(); g.fault = None; g.fault_hit.take() };
        ip::WATCH_SIGACT.with(|w| w.set(false));
        match res {
            Ok(s) => {
                drop(s);
                let after = snap(ctx, &mut vt);
                // a failure that creation survived was one of output
                before.same(&after, &format!("device error at {:?} (call {}); after dropping the Screen", hit, k), false)?;
                if hit.is_none() { break; }
            }
            Err(x) => {
                // the fault came too late and hit the cleaning up instead
                if hit.is_some() && x.raw_os_error() != Some(e) { break; }
                let after = snap(ctx, &mut vt);
                before.same(&after, &format!("creation failed with {} ({:?}, call {})", x, hit, k), false)?;
                ctx.count("failed creations compared", 1);
                match hit {
                    Some(Kind::SigAct) => ctx.count("failures installing handlers", 1),
                    Some(Kind::TcSet) => ctx.count("failures changing line settings", 1),
                    Some(Kind::Write) => ctx.count("failures writing", 1),
                    Some(_) => ctx.count("other failures", 1),
                    None => { ctx.count("unsupported terminal types refused", 1); break }
                }
            }
        }
    }
    let h = ctx.trace_hash();
    ctx.distinct(h);
    default_dispositions();
    Ok(())
}
