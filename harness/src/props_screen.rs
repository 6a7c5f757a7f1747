//! S01-S05: what a Screen shows.

use crate::caps::*;
use crate::interpose as ip;
use crate::model_screen::*;
use crate::run::{CaseResult, Ctx, Tier};
use crate::util::*;
use crate::vt::Vt;
use crate::{ensure, fail, ok};
use mortal::unix::{OpenTerminalExt, TerminalExt};
use mortal::{Color, Cursor, CursorMode, Event, PrepareConfig, Screen, Size, Style, Terminal, Theme};
use std::time::Duration;

#[derive(Clone, Debug)]
pub enum Op {
    Char(char),
    Str(String),
    At(usize, usize, String),
    Styled(Option<Color>, Option<Color>, Style, String),
    StyledAt(usize, usize, Option<Color>, Option<Color>, Style, String),
    Fmt(String),
    Cursor(usize, usize),
    NextLine(usize),
    Clear,
    Fg(Option<Color>),
    Bg(Option<Color>),
    Add(Style),
    Remove(Style),
    Set(Style),
    Theme(Option<Color>, Option<Color>, Style),
    ClearAttr,
    Bold, Italic, Underline, Reverse,
}

macro_rules! apply {
    ($t:expr, $op:expr) => {
        match $op {
            Op::Char(c) => $t.write_char(*c),
            Op::Str(s) => $t.write_str(s),
            Op::At(l, c, s) => $t.write_at((*l, *c), s),
            Op::Styled(f, b, st, s) => $t.write_styled(*f, *b, *st, s),
            Op::StyledAt(l, c, f, b, st, s) => $t.write_styled_at((*l, *c), *f, *b, *st, s),
            Op::Fmt(s) => { let _ = write!($t, "{}", s); }
            Op::Cursor(l, c) => $t.set_cursor((*l, *c)),
            Op::NextLine(c) => $t.next_line(*c),
            Op::Clear => $t.clear_screen(),
            Op::Fg(c) => $t.set_fg(*c),
            Op::Bg(c) => $t.set_bg(*c),
            Op::Add(s) => $t.add_style(*s),
            Op::Remove(s) => $t.remove_style(*s),
            Op::Set(s) => $t.set_style(*s),
            Op::Theme(f, b, s) => $t.set_theme(Theme::new(*f, *b, *s)),
            Op::ClearAttr => $t.clear_attributes(),
            Op::Bold => $t.bold(),
            Op::Italic => $t.italic(),
            Op::Underline => $t.underline(),
            Op::Reverse => $t.reverse(),
        }
    }
}

pub fn on_screen(s: &Screen, op: &Op) { apply!(s, op); }
pub fn on_guard(s: &mut mortal::ScreenWriteGuard, op: &Op) { apply!(s, op); }

pub fn model_apply(m: &mut Model, op: &Op) {
    match op {
        Op::Char(c) => { m.write_char(*c); }
        Op::Str(s) | Op::Fmt(s) => m.write_str(s),
        Op::At(l, c, s) => m.write_at(*l, *c, s),
        Op::Styled(f, b, st, s) => m.write_styled(*f, *b, *st, s),
        Op::StyledAt(l, c, f, b, st, s) => m.write_styled_at(*l, *c, *f, *b, *st, s),
        Op::Cursor(l, c) => { m.line = *l; m.col = *c; }
        Op::NextLine(c) => { m.line += 1; m.col = *c; }
        Op::Clear => m.clear_screen(),
        Op::Fg(c) => m.fg = *c,
        Op::Bg(c) => m.bg = *c,
        Op::Add(s) => m.style |= *s,
        Op::Remove(s) => m.style -= *s,
        Op::Set(s) => m.style = *s,
        Op::Theme(f, b, s) => { m.fg = *f; m.bg = *b; m.style = *s; }
        Op::ClearAttr => m.clear_attributes(),
        Op::Bold => m.style |= Style::BOLD,
        Op::Italic => m.style |= Style::ITALIC,
        Op::Underline => m.style |= Style::UNDERLINE,
        Op::Reverse => m.style |= Style::REVERSE,
    }
}

/// What kind of text and positions a property wants
#[derive(Copy, Clone)]
pub struct Profile {
    pub wide: u32,
    pub marks: u32,
    pub controls: u32,
    pub layout: u32,
    pub oob: u32,
    pub sparse: bool,
    pub resize: u32,
}

const NARROW: &[char] = &['é', '─', 'λ', 'ж', 'ß', '│', '░', 'א', '\u{a0}', 'ª'];
const WIDE: &[char] = &['漢', '字', '한', '😀', 'Ａ', 'あ', '、', '\u{2329}', '\u{20000}'];
const MARKS: &[char] = &['\u{301}', '\u{302}', '\u{308}', '\u{20d7}', '\u{fe0f}', '\u{e31}', '\u{591}', '\u{1d165}', '\u{304}'];
const SPACING_MARKS: &[char] = &['\u{93e}', '\u{903}', '\u{bc6}', '\u{1d165}', '\u{16ff0}'];
const INVISIBLE: &[char] = &['\u{200b}', '\u{200d}', '\u{ad}', '\u{feff}', '\u{202e}', '\u{2028}', '\u{e0001}', '\u{1160}', '\u{61c}', '\u{2060}'];

/// Any mark of no width
fn any_mark(r: &mut Rng) -> char {
    const RANGES: &[(u32, u32)] = &[(0x300, 0x36f), (0x483, 0x489), (0x591, 0x5c7), (0x610, 0x61a), (0x64b, 0x65f), (0x900, 0xdff), (0xe31, 0xe4e), (0xf18, 0xfbc), (0x1037, 0x109d),
        (0x135d, 0x135f), (0x1712, 0x1773), (0x17b4, 0x17dd), (0x180b, 0x180f), (0x1ab0, 0x1aff), (0x1dc0, 0x1dff), (0x20d0, 0x20f0), (0x302a, 0x302d), (0x3099, 0x309a), (0xa66f, 0xa69f),
        (0xfb1e, 0xfb1e), (0xfe00, 0xfe0f), (0xfe20, 0xfe2f), (0x101fd, 0x10376), (0x11000, 0x11fff), (0x16af0, 0x16b36), (0x1d165, 0x1d1ad), (0x1e000, 0x1e02a), (0x1e8d0, 0x1e94a), (0xe0100, 0xe01ef)];
    for _ in 0..50 {
        let &(a, b) = r.pick(RANGES);
        let c = char::from_u32(a + r.below((b - a + 1) as usize) as u32).unwrap();
        if class(c) == Class::Mark { return c; }
    }
    MARKS[0]
}

/// Any character of the given width
fn any_char(r: &mut Rng, width: usize) -> char {
    for _ in 0..50 {
        let c = char::from_u32(if r.chance(2) { r.below(0x30000) } else { r.below(0x110000) } as u32);
        if let Some(c) = c { if class(c) == Class::Print(width) { return c; } }
    }
    if width == 2 { '漢' } else { 'é' }
}

pub fn text(r: &mut Rng, p: &Profile, max: usize, narrow_screen: bool) -> String {
    let n = match r.below(6) { 0 => 0, 1 => 1, 2 | 3 => r.range(1, 4), _ => r.range(1, max.max(1)) };
    let mut s = String::new();
    let mut after_print = false;
    for _ in 0..n {
        let x = r.below(100) as u32;
        if x < p.marks {
            if after_print {
                let k = if r.chance(12) { r.range(5, 30) } else { r.range(1, 3) };
                for _ in 0..k { s.push(if r.chance(8) { any_mark(r) } else { *r.pick(MARKS) }); }
            }
            continue;
        }
        let x = r.below(100) as u32;
        if x < p.wide && !narrow_screen {
            s.push(if r.chance(12) { any_char(r, 2) } else if r.chance(12) { *r.pick(SPACING_MARKS) } else if r.chance(40) { '\u{17d8}' } else { *r.pick(WIDE) });
            // what follows a spacing mark is not of interest, and neither is a mark of its own
            after_print = class(s.chars().last().unwrap()) != Class::Mark;
            if !after_print { s.pop(); }
            continue;
        }
        let x = r.below(100) as u32;
        if x < p.controls {
            after_print = false;
            match r.below(9) {
                0 => s.push_str(r.pick::<&str>(&["\x1b[2J", "\x1b[31m", "\x1b]0;x\x07", "\x1bc", "\x1b[?1049h", "\x1b[10;10H", "\x1b[1000C", "\x1b(0", "\x1b[?25l", "\x1bP1\x1b\\", "\u{9b}31m", "\x1b[5n", "\x0e", "\x1b[?1000h"])),
                1 | 2 => s.push(char::from(r.below(32) as u8)),
                3 => s.push('\x7f'),
                4 | 5 => s.push(char::from_u32(r.range(0x80, 0x9f) as u32).unwrap()),
                6 => s.push(*r.pick(INVISIBLE)),
                _ => {
                    let c = loop { if let Some(c) = char::from_u32(r.below(0x110000) as u32) { break c; } };
                    match class(c) {
                        Class::Mark => (),
                        Class::Print(w) if w > 1 && narrow_screen => (),
                        _ => s.push(c),
                    }
                }
            }
            continue;
        }
        let x = r.below(100) as u32;
        if x < p.layout {
            s.push(*r.pick(&['\t', '\n', '\r']));
            after_print = false;
            continue;
        }
        after_print = true;
        match r.below(12) {
            0 => s.push(' '),
            1 => s.push(if r.chance(4) { any_char(r, 1) } else { *r.pick(NARROW) }),
            _ => s.push((b'!' + r.below(94) as u8) as char),
        }
    }
    s
}

pub fn pos(r: &mut Rng, p: &Profile, m: &Model) -> (usize, usize) {
    if r.pct(p.oob) {
        return match r.below(5) {
            0 => (m.lines, r.below(m.cols)),
            1 => (r.below(m.lines), m.cols),
            2 => (m.lines + r.below(5), m.cols + r.below(5)),
            3 => (1 << 40, r.below(m.cols)),
            _ => (r.below(m.lines), usize::MAX - 1),
        };
    }
    match r.below(8) {
        0 => (m.lines - 1, m.cols - 1),
        1 => (r.below(m.lines), m.cols - 1),
        2 => (r.below(m.lines), 0),
        3 => (r.below(m.lines), m.cols.saturating_sub(2)),
        _ => (r.below(m.lines), r.below(m.cols)),
    }
}

pub fn op(r: &mut Rng, p: &Profile, m: &Model) -> Op {
    let one = m.cols < 2 && r.chance(2);
    let small = if p.sparse { 4 } else { 2 * m.cols + 4 };
    if p.wide > 0 && r.chance(25) {
        // one half of a wide character overwritten by its like: the cheapest change to overlook
        let halves: Vec<usize> = (0..m.cells.len()).filter(|&i| m.cells[i].w == 2).collect();
        if !halves.is_empty() {
            let i = *r.pick(&halves);
            let at = i + r.below(2);
            let c = &m.cells[i];
            let t = if r.chance(3) { "x" } else { " " };
            return Op::StyledAt(at / m.cols, at % m.cols, c.fg, c.bg, c.style, t.to_string());
        }
    }
    match r.below(30) {
        0 | 1 => {
            let mut s = text(r, p, 1, one);
            match s.pop() { Some(c) if class(c) != Class::Mark => Op::Char(c), _ => Op::Char('x') }
        }
        2..=5 => Op::Str(text(r, p, small, one)),
        6..=10 => { let (l, c) = pos(r, p, m); Op::At(l, c, text(r, p, small, one)) }
        11 | 12 => Op::Styled(rand_color(r), rand_color(r), rand_style(r), text(r, p, small, one)),
        13..=15 => { let (l, c) = pos(r, p, m); Op::StyledAt(l, c, rand_color(r), rand_color(r), rand_style(r), text(r, p, small, one)) }
        16 => Op::Fmt(text(r, p, small, one)),
        17..=19 => { let (l, c) = pos(r, p, m); Op::Cursor(l, c) }
        20 => Op::NextLine(if r.pct(p.oob) { m.cols + r.below(3) } else { r.below(m.cols) }),
        21 => if r.chance(3) { Op::Clear } else { Op::ClearAttr },
        22 => Op::Fg(rand_color(r)),
        23 => Op::Bg(rand_color(r)),
        24 => Op::Add(rand_style(r)),
        25 => Op::Remove(rand_style(r)),
        26 => Op::Set(rand_style(r)),
        27 => Op::Theme(rand_color(r), rand_color(r), rand_style(r)),
        28 => match r.below(4) { 0 => Op::Bold, 1 => Op::Italic, 2 => Op::Underline, _ => Op::Reverse },
        _ => Op::ClearAttr,
    }
}

pub fn pick_term(r: &mut Rng) -> &'static str {
    if r.chance(4) { crate::ti::pick(r) }
    else if r.chance(3) { *r.pick(&["xterm", "xterm-256color", "linux", "screen", "tmux"]) } else { *r.pick(SCREEN_TERMS) }
}

pub fn rand_size(r: &mut Rng) -> (usize, usize) {
    if r.chance(150) { return if r.chance(2) { (r.range(200, 300), r.range(1, 3)) } else { (r.range(1, 3), r.range(200, 300)) }; }
    match r.below(14) {
        0 => (1, 1),
        1 => (1, r.range(1, 12)),
        2 => (r.range(1, 8), 1),
        3 => (r.range(1, 6), 2),
        4 => (24, 80),
        5 => (r.range(1, 5), r.range(60, 130)),
        _ => (r.range(1, 7), r.range(2, 18)),
    }
}

pub fn rand_config(r: &mut Rng) -> PrepareConfig {
    let mut c = PrepareConfig::default();
    c.block_signals = r.chance(2);
    c.enable_control_flow = r.chance(2);
    c.enable_keypad = r.chance(2);
    c.enable_mouse = r.chance(2);
    c.always_track_motion = r.chance(2);
    let mut s = mortal::SignalSet::new();
    for sig in [mortal::Signal::Break, mortal::Signal::Continue, mortal::Signal::Interrupt, mortal::Signal::Resize, mortal::Signal::Suspend, mortal::Signal::Quit] {
        if r.chance(2) { s.insert(sig); }
    }
    c.report_signals = s;
    c
}

pub fn rough_writes(r: &mut Rng, slot: usize) {
    if r.chance(2) {
        let mut g = ip::lock();
        let p = &mut g.dev[slot].wplan;
        p.short_pct = *r.pick(&[0, 10, 50, 90]);
        p.eintr_pct = *r.pick(&[0, 5, 30]);
        p.rng = Some(r.fork());
    }
}

pub struct Scr {
    pub vt: Vt,
    pub model: Model,
    pub caps: &'static Caps,
    pub base: crate::vt::Modes,
    pub hidden: bool,
}

impl Scr {
    /// Feeds what was sent and compares the display.
    pub fn check(&mut self, ctx: &mut Ctx, what: &str) -> CaseResult {
        let out = ip::take_out(ctx.pty.slot);
        self.vt.feed(&out);
        self.vt.stale = false;
        ctx.count("bytes replayed", out.len() as u64);
        ctx.count("refreshes compared", 1);
        ctx.count("cells compared", (self.model.lines * self.model.cols) as u64);
        if out.is_empty() { ctx.count("refreshes with nothing to send", 1); }
        ctx.state(self.vt.hash());
        if let Err(e) = self.model.compare(&self.vt, self.caps, true) {
            ctx.note(format!("sent: {}", clip(&show_bytes(&out), 1500)));
            fail!("{}: {} [TERM={}, {}x{}]", what, e, self.caps.name, self.model.lines, self.model.cols);
        }
        let mut m = self.vt.modes.clone();
        m.hidden = self.base.hidden;
        ensure!(m == self.base, "{}: terminal modes changed from {:?} to {:?}", what, self.base, m);
        if self.caps.civis.is_some() && self.caps.cnorm.as_ref().map_or(false, |c| c.windows(3).any(|w| w == b"?25")) {
            ensure!(self.vt.modes.hidden == self.hidden, "{}: cursor hidden is {}, expected {}", what, self.vt.modes.hidden, self.hidden);
        }
        ensure!(self.vt.scrolled == 0, "{}: the terminal scrolled", what);
        Ok(())
    }
}

/// Takes what signals earlier cases left unread (a pending resize makes the next read wait for the write lock).
pub fn drain_signals(ctx: &Ctx) -> Result<(), crate::run::Fail> {
    ctx.set_term("xterm");
    ctx.pty.reset(6, 40);
    let t = open(ctx)?;
    for _ in 0..40 {
        // one that is not reported reads as nothing, so a single nothing does not mean there are no more
        ok!(t.read_event(Some(Duration::from_millis(0))), "read_event");
        if !ok!(t.wait_event(Some(Duration::from_millis(0))), "wait_event") { break; }
    }
    Ok(())
}

pub fn open(ctx: &Ctx) -> Result<Terminal, crate::run::Fail> {
    match Terminal::from_path(&ctx.pty.path) { Ok(t) => Ok(t), Err(e) => Err(format!("opening the terminal: {}", e).into()) }
}

/// Creates a Screen; the emulator is brought up to date.
pub fn start(ctx: &mut Ctx, term: &'static str, lines: usize, cols: usize, cfg: PrepareConfig) -> Result<(Screen, Scr), crate::run::Fail> {
    ctx.set_term(term);
    ctx.pty.reset(lines, cols);
    let caps = caps_cached(term);
    ctx.note(format!("TERM={} {}x{} {:?}", term, lines, cols, cfg));
    let mut vt = caps.vt(lines, cols);
    vt.margin = caps.margin;
    vt.scrub = ctx.rng.fork().below(3) as u64;
    // something is on the terminal before
    let mut r = ctx.rng.fork();
    vt.fill(&mut r);
    let (l, c) = (r.below(lines), r.below(cols));
    vt.goto(l, c);
    let mut r2 = ctx.rng.fork();
    rough_writes(&mut r2, ctx.pty.slot);
    let t = open(ctx)?;
    // it has been in use
    if r2.chance(4) {
        ok!(t.set_theme(mortal::Theme::new(rand_color(&mut r2), rand_color(&mut r2), rand_style(&mut r2))), "set_theme");
        if r2.chance(2) { ok!(t.write_str("before"), "write_str"); }
        if r2.chance(4) { ok!(t.set_cursor_mode(mortal::CursorMode::Invisible), "set_cursor_mode"); }
    }
    let s = ok!(Screen::with_terminal(t, cfg), "creating the screen");
    let out = ip::take_out(ctx.pty.slot);
    vt.feed(&out);
    if let Some(a) = vt.anomalies.first() { fail!("creating the screen: {} (sent {})", a, show_bytes(&out)); }
    vt.scrolled = 0;
    let base = vt.modes.clone();
    let hidden = vt.modes.hidden;
    Ok((s, Scr{vt, model: Model::new(lines, cols), caps, base, hidden}))
}

fn cursor_agrees(ctx: &mut Ctx, real: Cursor, m: &Model, op: &str) -> CaseResult {
    ctx.count("cursor positions compared", 1);
    ensure!((real.line, real.column) == (m.line, m.col), "after {}: cursor is ({},{}), expected ({},{})", op, real.line, real.column, m.line, m.col);
    Ok(())
}

pub fn drive(ctx: &mut Ctx, p: Profile) -> CaseResult {
    let mut r = ctx.rng.fork();
    let term = pick_term(&mut r);
    let (lines, cols) = rand_size(&mut r);
    let cfg = rand_config(&mut r);
    let (screen, mut scr) = start(ctx, term, lines, cols, cfg)?;
    let steps = if ctx.tier == Tier::Quick { r.range(4, 40) } else { r.range(4, 120) };
    for _ in 0..steps {
        if r.pct(p.resize) {
            resize_step(ctx, &mut r, &screen, &mut scr)?;
            continue;
        }
        match r.below(20) {
            // direct calls, no refresh
            0..=8 => {
                let o = op(&mut r, &p, &scr.model);
                ctx.note(format!("{:?}", o));
                apply!(screen, &o);
                model_apply(&mut scr.model, &o);
                cursor_agrees(ctx, screen.cursor(), &scr.model, &format!("{:?}", o))?;
            }
            9..=11 => {
                ctx.note("refresh".into());
                ok!(screen.refresh(), "refresh");
                scr.check(ctx, "after refresh")?;
            }
            // a write guard with several calls
            12..=17 => {
                let k = r.range(0, 5);
                ctx.note("{".into());
                {
                    let mut g = match screen.lock_write() { Ok(g) => g, Err(_) => fail!("write lock poisoned") };
                    for _ in 0..k {
                        let o = op(&mut r, &p, &scr.model);
                        ctx.note(format!("{:?}", o));
                        apply!(g, &o);
                        model_apply(&mut scr.model, &o);
                        cursor_agrees(ctx, g.cursor(), &scr.model, &format!("{:?}", o))?;
                        if r.chance(6) {
                            ctx.note("refresh".into());
                            ok!(g.refresh(), "refresh");
                            scr.check(ctx, "after guard refresh")?;
                        }
                    }
                }
                ctx.note("} refresh".into());
                scr.check(ctx, "after dropping the write guard")?;
            }
            18 => {
                let mode = *r.pick(&[CursorMode::Normal, CursorMode::Invisible, CursorMode::Overwrite]);
                ctx.note(format!("{:?}", mode));
                if r.chance(2) { ok!(screen.set_cursor_mode(mode), "set_cursor_mode"); }
                else {
                    let mut g = match screen.lock_write() { Ok(g) => g, Err(_) => fail!("write lock poisoned") };
                    ok!(g.set_cursor_mode(mode), "set_cursor_mode");
                }
                scr.hidden = mode == CursorMode::Invisible;
                let out = ip::take_out(ctx.pty.slot);
                scr.vt.feed(&out);
            }
            _ => {
                ensure!(screen.size() == Size{lines: scr.model.lines, columns: scr.model.cols}, "size() is {:?}, expected {}x{}", screen.size(), scr.model.lines, scr.model.cols);
            }
        }
    }
    if r.chance(20) {
        // the last write guard is dropped by a panic
        ctx.note("{".into());
        let ops: Vec<_> = (0..r.range(0, 4)).map(|_| { let o = op(&mut r, &p, &scr.model); model_apply(&mut scr.model, &o); o }).collect();
        for o in &ops { ctx.note(format!("{:?}", o)); }
        assert!(crate::props_conc::planned_panic(|| {
            let mut g = screen.lock_write().unwrap();
            for o in &ops { apply!(g, o); }
            std::panic::panic_any(crate::run::Planned);
        }), "harness: no panic");
        ctx.note("} panic".into());
        scr.check(ctx, "after a panic has dropped the write guard")?;
        ctx.count("write guards dropped by a panic", 1);
    } else {
        ctx.note("refresh".into());
        ok!(screen.refresh(), "final refresh");
        scr.check(ctx, "after final refresh")?;
    }
    ctx.count("max drawing steps", steps as u64);
    let m = &scr.model;
    let (a, b, c, d, e) = (m.wraps, m.dropped, m.broken_wide, m.marks, m.ignored);
    ctx.count("line wraps", a);
    ctx.count("writes dropped out of bounds", b);
    ctx.count("wide characters broken up", c);
    ctx.count("combining marks placed", d);
    ctx.count("invisible characters ignored", e);
    let inj = ip::lock().dev[ctx.pty.slot].injected;
    ctx.count("short or interrupted writes injected", inj);
    let h = ctx.trace_hash();
    ctx.distinct(h);
    if ctx.idx % 97 == 3 { ctx.sample_trace(); }
    drop(screen);
    Ok(())
}

/// For a while the terminal has no lines or no columns: there is nothing to draw on, and nothing may come of it.
fn resize_to_nothing(ctx: &mut Ctx, r: &mut Rng, screen: &Screen, scr: &mut Scr) -> CaseResult {
    let (l, c) = *r.pick(&[(0, 0), (0, scr.model.cols), (scr.model.lines, 0)]);
    ctx.note(format!("resize to {}x{}", l, c));
    ctx.pty.set_size(l, c);
    unsafe { libc::raise(libc::SIGWINCH); }
    let ev = ok!(screen.read_event(Some(Duration::from_millis(0))), "reading the resize event");
    let want = Size{lines: l, columns: c};
    ensure!(ev == Some(Event::Resize(want)), "resized to {:?}, but the read returned {:?}", want, ev);
    ensure!(screen.size() == want, "after the resize event size() is {:?}, expected {:?}", screen.size(), want);
    let p = Profile{wide: 20, marks: 20, controls: 10, layout: 20, oob: 10, sparse: false, resize: 0};
    let dummy = Model::new(3, 7);
    scr.model.resize(l, c);
    { let cur = screen.cursor(); scr.model.line = cur.line; scr.model.col = cur.column; }
    for _ in 0..r.below(6) {
        if r.chance(4) { ok!(screen.refresh(), "refresh with no cells"); ctx.note("refresh".into()); continue; }
        let o = op(r, &p, &dummy);
        ctx.note(format!("{:?}", o));
        on_screen(screen, &o);
        model_apply(&mut scr.model, &o);
        ensure!((screen.cursor().line, screen.cursor().column) == (scr.model.line, scr.model.col), "with no cells, after {:?} the cursor is at {:?}, expected {:?}", o, screen.cursor(), (scr.model.line, scr.model.col));
    }
    let out = ip::take_out(ctx.pty.slot);
    scr.vt.feed(&out);
    if let Some(a) = scr.vt.anomalies.first() { fail!("the terminal received something it must not: {}", a); }
    ctx.count("resizes to nothing", 1);
    Ok(())
}

fn resize_step(ctx: &mut Ctx, r: &mut Rng, screen: &Screen, scr: &mut Scr) -> CaseResult {
    if r.chance(8) { resize_to_nothing(ctx, r, screen, scr)?; }
    let n = if r.chance(4) { 2 } else { 1 };
    let (mut l, mut c) = (0, 0);
    for _ in 0..n {
        (l, c) = match r.below(6) {
            0 => (scr.model.lines.max(1), scr.model.cols.max(1)),
            1 => (scr.model.lines.max(1), r.range(1, 20)),
            2 => (r.range(1, 9), scr.model.cols.max(1)),
            3 => (scr.model.lines.max(1) + r.below(3), (scr.model.cols + 1).saturating_sub(r.below(3)).max(1)),
            _ => rand_size(r),
        };
        ctx.pty.set_size(l, c);
        unsafe { libc::raise(libc::SIGWINCH); }
        // In between, the program may refresh without having noticed.
        if r.chance(5) {
            ctx.note("refresh (resize not yet read)".into());
            ok!(screen.refresh(), "refresh");
            // what it shows is of no interest, but attributes set remain
            scr.vt.feed(&ip::take_out(ctx.pty.slot));
        }
    }
    ctx.note(format!("resize to {}x{}", l, c));
    let cursor = screen.cursor();
    let ev = match r.below(4) {
        0 => { let mut g = match screen.lock_read() { Ok(g) => g, Err(_) => fail!("read lock poisoned") }; g.read_event(Some(Duration::from_millis(0))) }
        1 => { let mut b = [0u8; 16]; let mut g = match screen.lock_read() { Ok(g) => g, Err(_) => fail!("read lock poisoned") }; g.read_raw(&mut b, Some(Duration::from_millis(0))) }
        _ => screen.read_event(Some(Duration::from_millis(0))),
    };
    let ev = ok!(ev, "reading the resize event");
    let want = Size{lines: l, columns: c};
    ensure!(ev == Some(Event::Resize(want)), "resized to {:?}, but the read returned {:?}", want, ev);
    ensure!(screen.size() == want, "after the resize event size() is {:?}, expected {:?}", screen.size(), want);
    scr.model.resize(l, c);
    ensure!(screen.cursor() == cursor, "the cursor was at {:?} before the resize event, it is at {:?} after it", cursor, screen.cursor());
    let before = scr.vt.modes.clone();
    scr.vt.resize_garbage(l, c, &mut ctx.rng);
    scr.vt.modes = before;
    ctx.count("resizes", 1);
    if r.chance(2) {
        ok!(screen.refresh(), "refresh after resize");
        ctx.note("refresh".into());
        scr.check(ctx, "after resize and refresh")?;
    }
    Ok(())
}

pub fn s01(ctx: &mut Ctx) -> CaseResult {
    let r = &mut ctx.rng;
    let p = Profile{wide: if r.chance(6) { 10 } else { 0 }, marks: if r.chance(6) { 5 } else { 0 }, controls: 0,
        layout: 3, oob: 3, sparse: r.chance(2), resize: 0};
    drive(ctx, p)
}
pub fn s02(ctx: &mut Ctx) -> CaseResult {
    let r = &mut ctx.rng;
    let p = Profile{wide: if r.chance(3) { 15 } else { 0 }, marks: 0, controls: 0, layout: 25, oob: 30, sparse: r.chance(3), resize: 0};
    drive(ctx, p)
}
pub fn s03(ctx: &mut Ctx) -> CaseResult {
    let r = &mut ctx.rng;
    let p = Profile{wide: *r.pick(&[30, 50, 80]), marks: *r.pick(&[0, 10, 25]), controls: 0, layout: 4, oob: 3, sparse: r.chance(2), resize: 0};
    drive(ctx, p)
}
pub fn s04(ctx: &mut Ctx) -> CaseResult {
    let r = &mut ctx.rng;
    let p = Profile{wide: 5, marks: 5, controls: *r.pick(&[30, 60, 90]), layout: 5, oob: 3, sparse: false, resize: 0};
    drive(ctx, p)
}
pub fn s05(ctx: &mut Ctx) -> CaseResult {
    let r = &mut ctx.rng;
    let p = Profile{wide: *r.pick(&[0, 20]), marks: *r.pick(&[0, 5]), controls: 0, layout: 4, oob: 5, sparse: r.chance(2), resize: 25};
    drive(ctx, p)
}

/// What is on the screen that must stay as it is during the next refresh
struct Kept { cells: Vec<MCell>, all: bool }

impl Kept {
    fn look(x: &crate::vt::Cell) -> (&str, usize, crate::vt::Attr) { (&x.text, x.w, x.attr) }

    /// Nothing has been sent since the last refresh
    fn silent(&self, ctx: &mut Ctx, what: &str) -> CaseResult {
        let out = ip::take_out(ctx.pty.slot);
        ensure!(out.is_empty(), "{}: {} was sent before the refresh", what, show_bytes(&out));
        ctx.count("calls that sent nothing", 1);
        Ok(())
    }

    fn refreshed(&mut self, ctx: &mut Ctx, scr: &mut Scr, what: &str) -> CaseResult {
        let out = ip::take_out(ctx.pty.slot);
        let cols = scr.model.cols;
        let (new, old) = (&scr.model.cells, &self.cells);
        let n = new.len();
        let mut free = vec![self.all; n];
        if !self.all {
            for i in 0..n { free[i] = new[i] != old[i] || new[i].loose || new[i].any || old[i].loose || old[i].any; }
            // the rest of a wide character
            loop {
                let mut more = false;
                for m in [old, new] {
                    let mut i = 0;
                    while i < n {
                        let mut e = i + 1;
                        while e < n && e % cols != 0 && m[e].w == 0 { e += 1; }
                        if free[i..e].iter().any(|f| *f) { for k in i..e { more |= !free[k]; free[k] = true; } }
                        i = e;
                    }
                }
                if !more { break; }
            }
        }
        // short stretches may be written again rather than skipped
        let mut again = free.clone();
        for row in (0..n).step_by(cols.max(1)) {
            let mut last: Option<usize> = None;
            for i in row..row + cols { if free[i] { if let Some(l) = last { if i - l <= 8 { for k in l..i { again[k] = true; } } } last = Some(i); } }
        }
        let kept: Vec<(usize, crate::vt::Cell)> = (0..n).filter(|&i| !free[i]).map(|i| (i, scr.vt.cells[i].clone())).collect();
        scr.vt.touched = Some(Vec::new());
        let (mut seqs, mut printed) = (scr.vt.seqs, 0);
        let check = |vt: &Vt, pos: usize| -> CaseResult {
            for (i, c) in &kept {
                let x = &vt.cells[*i];
                ensure!(Kept::look(x) == Kept::look(c), "{}: cell ({},{}) has not changed but shows {:?} instead of {:?} after byte {} of {}: {}", what, i / cols, i % cols, x, c, pos, out.len(), show_bytes(&out[..pos]));
            }
            Ok(())
        };
        for (k, &b) in out.iter().enumerate() {
            scr.vt.byte(b);
            scr.vt.pos += 1;
            // erasures and the like take effect at the end of a sequence
            if scr.vt.seqs != seqs { seqs = scr.vt.seqs; if matches!(b, b'J' | b'K' | b'X' | b'@' | b'P' | b'L' | b'M' | b'S' | b'T' | b'c' | b'\x0c' | b'h' | b'l') { check(&scr.vt, k + 1)?; ctx.count("moments at which unchanged cells were compared", 1); } }
        }
        let touched = scr.vt.touched.take().unwrap();
        for i in touched {
            printed += 1;
            ensure!(again[i], "{}: cell ({},{}) has not changed but was drawn again: {}", what, i / cols, i % cols, clip(&show_bytes(&out), 600));
        }
        check(&scr.vt, out.len())?;
        let changed = free.iter().filter(|f| **f).count();
        ctx.count("cells drawn", printed);
        ctx.count("cells kept", kept.len() as u64);
        if changed == 0 { ctx.count("refreshes with nothing changed", 1); } else if !self.all { ctx.count("refreshes with something changed", 1); } else { ctx.count("refreshes of everything", 1); }
        ctx.state(scr.vt.hash());
        if let Some(a) = scr.vt.anomalies.first() { fail!("{}: {}", what, a); }
        if let Err(e) = scr.model.compare(&scr.vt, scr.caps, true) { fail!("{}: {} [TERM={}, {}x{}]", what, e, scr.caps.name, scr.model.lines, scr.model.cols); }
        self.cells = scr.model.cells.clone();
        self.all = false;
        Ok(())
    }
}

/// Nothing is sent but by a refresh, and nothing is drawn but what has changed
pub fn s09(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng.fork();
    let p = Profile{wide: *r.pick(&[0, 0, 20, 50]), marks: *r.pick(&[0, 10]), controls: *r.pick(&[0, 10]), layout: 5, oob: 5, sparse: r.chance(2), resize: *r.pick(&[0, 0, 4])};
    let term = pick_term(&mut r);
    let (lines, cols) = rand_size(&mut r);
    let cfg = rand_config(&mut r);
    let (screen, mut scr) = start(ctx, term, lines, cols, cfg)?;
    let mut kept = Kept{cells: scr.model.cells.clone(), all: false};
    for _ in 0..r.range(4, 40) {
        if r.pct(p.resize) {
            let (l, c) = if r.chance(3) { (scr.model.lines, scr.model.cols) } else { rand_size(&mut r) };
            ctx.pty.set_size(l, c);
            unsafe { libc::raise(libc::SIGWINCH); }
            ctx.note(format!("resize to {}x{}", l, c));
            let ev = ok!(screen.read_event(Some(Duration::from_millis(0))), "reading the resize event");
            ensure!(ev == Some(Event::Resize(Size{lines: l, columns: c})), "resized to {}x{}, but the read returned {:?}", l, c, ev);
            scr.model.resize(l, c);
            let cur = screen.cursor();
            (scr.model.line, scr.model.col) = (cur.line, cur.column);
            let before = scr.vt.modes.clone();
            scr.vt.resize_garbage(l, c, &mut ctx.rng);
            scr.vt.modes = before;
            kept.silent(ctx, "after reading a resize event")?;
            kept.all = true;
            continue;
        }
        // the same again may follow what is there
        let again = r.chance(5);
        match r.below(20) {
            0..=8 => {
                let o = op(&mut r, &p, &scr.model);
                ctx.note(format!("{:?}", o));
                let n = if again { 2 } else { 1 };
                for _ in 0..n { apply!(screen, &o); model_apply(&mut scr.model, &o); }
                kept.silent(ctx, "after a direct call")?;
            }
            9..=12 => {
                ctx.note("refresh".into());
                let n = if again { 2 } else { 1 };
                for _ in 0..n { ok!(screen.refresh(), "refresh"); kept.refreshed(ctx, &mut scr, "during a refresh")?; }
            }
            13..=17 => {
                ctx.note("{".into());
                {
                    let mut g = match screen.lock_write() { Ok(g) => g, Err(_) => fail!("write lock poisoned") };
                    for _ in 0..r.below(6) {
                        let o = op(&mut r, &p, &scr.model);
                        ctx.note(format!("{:?}", o));
                        apply!(g, &o);
                        model_apply(&mut scr.model, &o);
                        kept.silent(ctx, "after a call through a guard")?;
                        if r.chance(6) {
                            ctx.note("refresh".into());
                            ok!(g.refresh(), "refresh");
                            kept.refreshed(ctx, &mut scr, "during a refresh through a guard")?;
                        }
                    }
                }
                ctx.note("} refresh".into());
                kept.refreshed(ctx, &mut scr, "during the release of a write guard")?;
            }
            18 => {
                let _ = (screen.size(), screen.cursor(), screen.name());
                ok!(screen.wait_event(Some(Duration::from_millis(0))), "wait_event");
                kept.silent(ctx, "after asking")?;
            }
            _ => {
                // content that comes and goes between two refreshes
                let (m, at) = (scr.model.clone(), screen.cursor());
                let (l, c) = (r.below(m.lines), r.below(m.cols));
                if m.cells.iter().all(|x| x.w == 1 && x.text.chars().count() == 1 && x.text != " " && !x.loose && !x.any) || m.cells[l * m.cols + c].w != 1 { continue; }
                let x = m.cells[l * m.cols + c].clone();
                if x.loose || x.any || (c + 1 == m.cols && l + 1 == m.lines) { continue; }
                ctx.note(format!("({}, {}) overwritten and written again", l, c));
                screen.write_styled_at((l, c), None, None, Style::empty(), "~");
                screen.write_styled_at((l, c), x.fg, x.bg, x.style, &x.text);
                screen.set_cursor(at);
                screen.set_fg(m.fg); screen.set_bg(m.bg); screen.set_style(m.style);
                kept.silent(ctx, "after a direct call")?;
                ctx.count("cells overwritten and written again", 1);
            }
        }
    }
    ctx.note("refresh".into());
    ok!(screen.refresh(), "final refresh");
    kept.refreshed(ctx, &mut scr, "during the last refresh")?;
    let h = ctx.trace_hash();
    ctx.distinct(h);
    if ctx.idx % 97 == 3 { ctx.sample_trace(); }
    drop(screen);
    Ok(())
}

/// Draws much of the screen with changing attributes, so that a refresh takes several writes.
fn fill_op(r: &mut Rng, m: &Model) -> Vec<Op> {
    let mut v = Vec::new();
    for l in 0..m.lines {
        if r.chance(3) { continue; }
        v.push(Op::Cursor(l, 0));
        let mut c = 0;
        while c < m.cols {
            let n = r.range(1, 6).min(m.cols - c);
            let s: String = (0..n).map(|_| (b'!' + r.below(94) as u8) as char).collect();
            let s = if r.chance(12) { s + &"\u{301}".repeat(r.range(1, 40)) } else { s };
            v.push(Op::Styled(rand_color(r), rand_color(r), rand_style(r), s));
            c += n;
        }
    }
    v
}

/// S08: refreshes that fail on the device lose nothing.
pub fn s08(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng.fork();
    let p = Profile{wide: *r.pick(&[0, 15]), marks: *r.pick(&[0, 4]), controls: 0, layout: 3, oob: 3, sparse: false, resize: 0};
    let term = pick_term(&mut r);
    let (lines, cols) = if r.chance(4) { rand_size(&mut r) } else { (r.range(8, 30), r.range(50, 130)) };
    let cfg = rand_config(&mut r);
    let (screen, mut scr) = start(ctx, term, lines, cols, cfg)?;
    let slot = ctx.pty.slot;
    let plan = ip::lock().dev[slot].wplan.rng.is_none();
    if plan { let f = r.fork(); ip::lock().dev[slot].wplan.rng = Some(f); }
    for _ in 0..r.range(2, 7) {
        // some failing refreshes, with drawing in between
        let pct = *r.pick(&[15, 30, 60, 100]);
        for _ in 0..r.range(1, 4) {
            let ops = if r.chance(2) { fill_op(&mut r, &scr.model) } else { (0..r.range(0, 6)).map(|_| op(&mut r, &p, &scr.model)).collect() };
            let guard = r.chance(3);
            ctx.note(format!("{} operations {:.300}", ops.len(), format!("{:?}", ops)));
            let k = r.below(ops.len() + 1);
            for o in &ops[..k] { apply!(screen, o); model_apply(&mut scr.model, o); }
            let bad = !r.chance(5);
            ip::lock().dev[slot].wplan.err_pct = if bad { pct } else { 0 };
            let f0 = ip::lock().dev[slot].failed;
            let res = if guard {
                let mut g = match screen.lock_write() { Ok(g) => g, Err(_) => fail!("write lock poisoned") };
                for o in &ops[k..] { apply!(g, o); model_apply(&mut scr.model, o); }
                g.refresh()
            } else {
                for o in &ops[k..] { apply!(screen, o); model_apply(&mut scr.model, o); }
                screen.refresh()
            };
            ip::lock().dev[slot].wplan.err_pct = 0;
            let failed = ip::lock().dev[slot].failed - f0;
            ctx.note(format!("refresh with {} device errors: {:?}", failed, res.as_ref().err().map(|e| e.to_string())));
            ctx.count("device errors injected", failed);
            if res.is_err() { ctx.count("refreshes that failed", 1); }
            ensure!(failed > 0 || res.is_ok(), "refresh failed with {:?}, but the device reported no error", res);
            if failed == 0 { scr.check(ctx, "after refresh")?; }
            let out = ip::take_out(slot);
            scr.vt.feed(&out);
            if r.chance(8) { scr.vt.stale = res.is_err(); resize_step(ctx, &mut r, &screen, &mut scr)?; }
        }
        ctx.note("refresh".into());
        ok!(screen.refresh(), "refresh with the device working again");
        scr.check(ctx, "after refreshes that failed and one that did not")?;
        if r.chance(5) { resize_step(ctx, &mut r, &screen, &mut scr)?; }
    }
    let h = ctx.trace_hash();
    ctx.distinct(h);
    if ctx.idx % 97 == 3 { ctx.sample_trace(); }
    drop(screen);
    Ok(())
}
