//! T01-T03: what a Terminal sends in line mode.

use crate::caps::*;
use crate::interpose::{self as ip, Act, Kind};
use crate::props_screen::{open, rough_writes};
use crate::run::{CaseResult, Ctx};
use crate::util::*;
use crate::vt::{Attr, Vt};
use crate::{ensure, fail, ok};
use mortal::{Color, CursorMode, Style, Terminal, TerminalWriteGuard, Theme};
use std::collections::BTreeSet;

// ---- T01 ---------------------------------------------------------------------------------------------------

/// Content of one write call, recognisable
fn content(r: &mut Rng, id: usize, len: usize) -> String {
    let mut s = String::with_capacity(len + 4);
    let mut x = mix(id as u64 + 77);
    let multi = r.chance(4);
    while s.len() < len {
        x = mix(x);
        if multi && x % 7 == 0 && s.len() + 3 <= len { s.push(if x & 64 == 0 { 'é' } else { '漢' }); }
        else { s.push((b'!' + (x >> 8) as u8 % 94) as char); }
    }
    while s.len() > len { s.pop(); }
    s
}

struct Item { data: Vec<u8>, full: bool }

/// Positions of the output that can follow these items
fn match_items(items: &[Item], out: &[u8]) -> BTreeSet<usize> {
    let mut at: BTreeSet<usize> = [0].into();
    for it in items {
        let mut next = BTreeSet::new();
        for &p in &at {
            let n = it.data.iter().zip(&out[p..]).take_while(|(a, b)| a == b).count();
            if it.full {
                if n == it.data.len() { next.insert(p + n); }
            } else { next.extend(p..=p + n); }
        }
        at = next;
        if at.is_empty() { break; }
    }
    at
}

/// Could the output be what these items had sent so far, the rest being still to come?
fn match_partial(items: &[Item], out: &[u8]) -> bool {
    let mut at: BTreeSet<usize> = [0].into();
    if out.is_empty() { return true; }
    for it in items {
        let mut next = BTreeSet::new();
        for &p in &at {
            let n = it.data.iter().zip(&out[p..]).take_while(|(a, b)| a == b).count();
            if p + n == out.len() { return true; }
            if it.full {
                if n == it.data.len() { next.insert(p + n); }
            } else { next.extend(p..=p + n); }
        }
        at = next;
        if at.is_empty() { return false; }
    }
    at.contains(&out.len())
}

fn describe_mismatch(items: &[Item], out: &[u8]) -> String {
    let all: Vec<u8> = items.iter().flat_map(|i| i.data.iter().copied()).collect();
    let n = all.iter().zip(out).take_while(|(a, b)| a == b).count();
    let lens: Vec<String> = items.iter().map(|i| format!("{}{}", i.data.len(), if i.full { "" } else { "(Err)" })).collect();
    format!("{} bytes on the device, {} bytes written in calls of [{}]; they agree for {} bytes, then the device has {:?} and the calls have {:?}",
        out.len(), all.len(), clip(&lens.join(", "), 400), n, clip(&show_bytes(&out[n..(n + 24).min(out.len())]), 60), clip(&show_bytes(&all[n..(n + 24).min(all.len())]), 60))
}

fn failures(slot: usize, from: usize) -> (usize, bool) {
    let g = ip::lock();
    let r = &g.dev[slot].recs[from.min(g.dev[slot].recs.len())..];
    let bad = |x: &ip::WriteRec| (x.errno != 0 && x.errno != libc::EINTR) || (x.errno == 0 && x.len == 0 && x.req > 0);
    (r.iter().filter(|x| bad(x)).count(), r.last().map_or(false, bad))
}

pub fn t01(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng.fork();
    ctx.set_term("xterm");
    ctx.pty.reset(24, 80);
    let slot = ctx.pty.slot;
    rough_writes(&mut r, slot);
    let term = if r.chance(3) { ok!(Terminal::new(), "opening the terminal") } else { open(ctx)? };
    let faulty = r.chance(2);
    let mut items: Vec<Item> = Vec::new();
    let mut id = 0;
    let mut out_total = 0;
    let phases = r.range(1, 8);
    let mut pending = false;
    for _ in 0..phases {
        if faulty && r.chance(2) {
            let mut g = ip::lock();
            let base = g.dev[slot].counts.get(&Kind::Write).copied().unwrap_or(0);
            for _ in 0..r.range(1, 3) {
                let n = base + r.below(6) as u32;
                let act = match r.below(8) {
                    0 => Act::Zero,
                    1 => Act::Errno(libc::EAGAIN),
                    2 => Act::Errno(libc::ENOSPC),
                    3 | 4 => Act::Short(r.range(1, 9000)),
                    _ => Act::Errno(libc::EIO),
                };
                g.dev[slot].acts.insert((Kind::Write, n), vec![act]);
            }
        }
        let mode = r.below(4);
        let calls = match r.below(4) { 0 => 1, 1 => r.range(1, 4), 2 => r.range(2, 12), _ => r.range(10, 120) };
        let small = calls > 12;
        let drop_from;
        {
            let mut guard: Option<TerminalWriteGuard> = if mode == 0 { None } else { Some(term.lock_write().map_err(|_| "poisoned")?) };
            for k in 0..calls {
                let len = if small { *r.pick(&[0, 1, 7, 80, 500, 1000]) } else {
                    match r.below(9) {
                        0 => 0, 1 => 1, 2 => r.range(1, 200), 3 => 8190 + r.below(5), 4 => 4090 + r.below(12),
                        5 => r.range(8000, 17000), 6 => 16382 + r.below(5), 7 => r.range(17000, 30000), _ => r.range(200, 8000),
                    }
                };
                id += 1;
                let from = ip::lock().dev[slot].recs.len();
                let kind = r.below(5);
                let (s, res) = match (kind, &mut guard) {
                    (0, g) => {
                        let c = *r.pick(&['a', 'Z', 'é', '漢', '😀']);
                        let res = match g { Some(g) => g.write_char(c), None => term.write_char(c) };
                        (c.to_string(), res)
                    }
                    (1, g) => {
                        let s = content(&mut r, id, len);
                        let cut = (0..=s.len() / 2).rev().find(|&i| s.is_char_boundary(i)).unwrap();
                        let (a, b) = s.split_at(cut);
                        let res = match g { Some(g) => write!(g, "{}{}", a, b), None => write!(term, "{}{}", a, b) };
                        (s, res)
                    }
                    (_, g) => {
                        let s = content(&mut r, id, len);
                        let res = match g { Some(g) => g.write_str(&s), None => term.write_str(&s) };
                        (s, res)
                    }
                };
                let (fails, last_bad) = failures(slot, from);
                ctx.count("write calls", 1);
                ctx.count("bytes written", s.len() as u64);
                ctx.note(format!("{}{} {} bytes -> {}", if guard.is_some() { "guard " } else { "" }, ["char", "fmt", "str", "str", "str"][kind], s.len(),
                    match &res { Ok(()) => "Ok".into(), Err(e) => format!("{}", e) }));
                if res.is_err() {
                    ctx.count("write calls that failed", 1);
                    ensure!(fails > 0, "a write of {} bytes failed ({}) though the device reported no error", s.len(), res.err().unwrap());
                }
                items.push(Item{data: s.into_bytes(), full: res.is_ok()});
                if guard.is_none() {
                    pending = last_bad;
                    sync(ctx, &mut items, pending, &mut out_total, "after a direct write call")?;
                } else if r.chance(12) || (k == calls - 1 && mode == 3) {
                    let from = ip::lock().dev[slot].recs.len();
                    let res = guard.as_mut().unwrap().flush();
                    let (fails, _) = failures(slot, from);
                    ctx.note(format!("flush -> {:?}", res.as_ref().map_err(|e| e.to_string())));
                    ensure!(res.is_ok() || fails > 0, "flush failed ({}) though the device reported no error", res.err().unwrap());
                    pending = res.is_err();
                    sync(ctx, &mut items, pending, &mut out_total, "after a flush")?;
                }
            }
            drop_from = ip::lock().dev[slot].recs.len();
        }
        if mode != 0 {
            let (_, last_bad) = failures(slot, drop_from);
            pending = last_bad;
            ctx.note(format!("guard dropped; device error: {}", last_bad));
            sync(ctx, &mut items, pending, &mut out_total, "after dropping the guard")?;
        }
    }
    // Finally, let it succeed.
    ip::lock().dev[slot].acts.clear();
    let was_pending = pending;
    {
        let mut g = term.lock_write().map_err(|_| "poisoned")?;
        ok!(g.flush(), "flushing to a healthy device");
    }
    sync(ctx, &mut items, false, &mut out_total, "after the final flush")?;
    if was_pending { ctx.count("output delivered after an error", 1); }
    if r.chance(8) {
        let len = *r.pick(&[1, 200, 8000, 8192, 9000, 20_000]);
        let s = content(&mut r, id + 1, len);
        ctx.note(format!("guard {} bytes, dropped by a panic", s.len()));
        let mut res = Ok(());
        assert!(crate::props_conc::planned_panic(|| {
            let mut g = term.lock_write().unwrap();
            res = g.write_str(&s);
            std::panic::panic_any(crate::run::Planned);
        }), "harness: no panic");
        ok!(res, "writing to a healthy device");
        items.push(Item{data: s.into_bytes(), full: true});
        sync(ctx, &mut items, false, &mut out_total, "after a panic has dropped the guard")?;
        ctx.count("guards dropped by a panic", 1);
    }
    let inj = ip::lock().dev[slot].injected;
    ctx.count("short or interrupted writes injected", inj);
    let h = ctx.trace_hash();
    ctx.distinct(h);
    ctx.sample_trace();
    drop(term);
    Ok(())
}

fn sync(ctx: &mut Ctx, items: &mut Vec<Item>, pending: bool, total: &mut usize, what: &str) -> CaseResult {
    let slot = ctx.pty.slot;
    ctx.count("comparisons", 1);
    if pending {
        let out = ip::lock().dev[slot].out.clone();
        ensure!(match_partial(items, &out), "{} with a device error: {}", what, describe_mismatch(items, &out));
        return Ok(());
    }
    let out = ip::take_out(slot);
    *total += out.len();
    ctx.count("bytes on the device", out.len() as u64);
    ensure!(match_items(items, &out).contains(&out.len()), "{}: {}", what, describe_mismatch(items, &out));
    items.clear();
    Ok(())
}

// ---- T02 ---------------------------------------------------------------------------------------------------

#[derive(Debug, Clone)]
enum A {
    Fg(Option<Color>), Bg(Option<Color>), Add(Style), Remove(Style), Set(Style), SetNone, Theme(Option<Color>, Option<Color>, Style),
    Clear, Bold, Italic, Underline, Reverse, Text(String), Ch(char), Fmt(String), Styled(Option<Color>, Option<Color>, Option<Style>, String),
}

macro_rules! attr_op {
    ($t:expr, $op:expr) => {
        match $op {
            A::Fg(c) => $t.set_fg(*c),
            A::Bg(c) => $t.set_bg(*c),
            A::Add(s) => $t.add_style(*s),
            A::Remove(s) => $t.remove_style(*s),
            A::Set(s) => $t.set_style(*s),
            A::SetNone => $t.set_style(None),
            A::Theme(f, b, s) => $t.set_theme(Theme::new(*f, *b, *s)),
            A::Clear => $t.clear_attributes(),
            A::Bold => $t.bold(),
            A::Italic => $t.italic(),
            A::Underline => $t.underline(),
            A::Reverse => $t.reverse(),
            A::Text(s) => $t.write_str(s),
            A::Ch(c) => $t.write_char(*c),
            A::Fmt(s) => write!($t, "{}", s),
            A::Styled(f, b, st, s) => $t.write_styled(*f, *b, *st, s),
        }
    }
}

pub fn any_term(r: &mut Rng) -> &'static str {
    match r.below(14) {
        10..=13 => crate::ti::pick(r),
        0..=3 => *r.pick(&["xterm", "xterm-256color", "linux", "screen", "tmux", "vt100"]),
        4..=7 => *r.pick(SCREEN_TERMS),
        8 => *r.pick(LINE_TERMS),
        _ if r.chance(2) => *r.pick(&crate::ti::LACKING),
        _ => *r.pick(ODD_TERMS),
    }
}

fn letters(r: &mut Rng, max: usize) -> String {
    let n = r.range(0, max);
    (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect()
}

/// Can this terminal type show and take back attributes at all?
fn attrs_usable(c: &Caps) -> bool {
    c.sgr0.is_some() || (c.bold.is_none() && c.italic.is_none() && c.reverse.is_none() && c.underline.is_none() && !c.colors)
}

pub fn t02(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng.fork();
    let name = any_term(&mut r);
    let caps = caps_cached(name);
    if !attrs_usable(caps) { ctx.count("terminal types without a reset skipped", 1); return Ok(()); }
    ctx.set_term(name);
    if r.chance(8) { return failed_text(ctx, &mut r, caps); }
    let (lines, cols) = (60, 40);
    ctx.pty.reset(lines, cols);
    let slot = ctx.pty.slot;
    rough_writes(&mut r, slot);
    ctx.note(format!("TERM={}", name));
    let term = open(ctx)?;
    let mut vt = caps.vt(lines, cols);
    let mut exp = caps.vt(lines, cols);
    let (mut fg, mut bg, mut st) = (None, None, Style::empty());
    let n = r.range(3, 60);
    let mut guard: Option<TerminalWriteGuard> = None;
    let few = r.chance(3);
    let mut used = 0;
    for _ in 0..n {
        if guard.is_none() && r.chance(6) { guard = Some(term.lock_write().map_err(|_| "poisoned")?); }
        else if guard.is_some() && r.chance(6) {
            guard = None;
            let out = ip::take_out(slot);
            vt.feed(&out);
            compare(ctx, &vt, &exp, name)?;
        }
        let mut style = |r: &mut Rng| if few { *r.pick(&[Style::BOLD, Style::ITALIC, Style::UNDERLINE, Style::REVERSE]) } else { rand_style(r) };
        let op = match r.below(18) {
            0 | 1 => A::Fg(rand_color(&mut r)),
            2 | 3 => A::Bg(rand_color(&mut r)),
            4 | 5 => A::Add(style(&mut r)),
            6 | 7 => A::Remove(style(&mut r)),
            8 => A::Set(style(&mut r)),
            9 => A::Theme(rand_color(&mut r), rand_color(&mut r), style(&mut r)),
            10 => match r.below(3) { 0 => A::Clear, 1 => A::SetNone, _ => A::Fg(None) },
            11 => match r.below(4) { 0 => A::Bold, 1 => A::Italic, 2 => A::Underline, _ => A::Reverse },
            12 | 13 => { let s = if r.chance(3) { None } else { Some(rand_style(&mut r)) }; A::Styled(rand_color(&mut r), rand_color(&mut r), s, letters(&mut r, 6)) }
            14 => A::Ch((b'A' + r.below(26) as u8) as char),
            15 => A::Fmt(letters(&mut r, 5)),
            _ => A::Text(if r.chance(10) { "\r\n".into() } else { letters(&mut r, 8) }),
        };
        let res = match guard.as_mut() { Some(g) => attr_op!(g, &op), None => attr_op!(term, &op) };
        ctx.note(format!("{}{:?}", if guard.is_some() { "g." } else { "" }, op));
        ok!(res, "{:?}", op);
        ctx.count("attribute operations", 1);
        let mut show = |exp: &mut Vt, f, b, s, t: &str| {
            exp.attr = caps.look(f, b, s);
            exp.feed(t.as_bytes());
            used += t.len();
        };
        match &op {
            A::Fg(c) => fg = *c,
            A::Bg(c) => bg = *c,
            A::Add(s) => st |= *s,
            A::Remove(s) => st -= *s,
            A::Set(s) => st = *s,
            A::SetNone => st = Style::empty(),
            A::Theme(f, b, s) => { fg = *f; bg = *b; st = *s; }
            A::Clear => { fg = None; bg = None; st = Style::empty(); }
            A::Bold => st |= Style::BOLD,
            A::Italic => st |= Style::ITALIC,
            A::Underline => st |= Style::UNDERLINE,
            A::Reverse => st |= Style::REVERSE,
            A::Text(s) | A::Fmt(s) => show(&mut exp, fg, bg, st, s),
            A::Ch(c) => show(&mut exp, fg, bg, st, &c.to_string()),
            A::Styled(f, b, s, t) => {
                show(&mut exp, *f, *b, s.unwrap_or_default(), t);
                fg = None; bg = None; st = Style::empty();
            }
        }
        if guard.is_none() {
            let out = ip::take_out(slot);
            vt.feed(&out);
            compare(ctx, &vt, &exp, name)?;
        }
    }
    // A last piece of text shows the attributes now in force
    drop(guard);
    ok!(term.write_str("#"), "write_str");
    exp.attr = caps.look(fg, bg, st);
    exp.feed(b"#");
    vt.feed(&ip::take_out(slot));
    compare(ctx, &vt, &exp, name)?;
    ctx.count("characters compared with attributes", used as u64);
    let h = ctx.trace_hash();
    ctx.distinct(h);
    ctx.sample_trace();
    ctx.state(exp.hash());
    Ok(())
}

/// Calls that fail on the device still leave the attributes they should: later text shows exactly those.
fn failed_text(ctx: &mut Ctx, r: &mut Rng, caps: &'static Caps) -> CaseResult {
    let (lines, cols) = (6, 40);
    ctx.pty.reset(lines, cols);
    let slot = ctx.pty.slot;
    rough_writes(r, slot);
    let f = r.fork();
    ip::lock().dev[slot].wplan.rng.get_or_insert(f);
    ctx.note(format!("TERM={} with device errors", caps.name));
    let term = open(ctx)?;
    let mut vt = caps.vt(lines, cols);
    let (mut fg, mut bg, mut st) = (None, None, Style::empty());
    for _ in 0..r.range(1, 5) {
        {
            let mut g = term.lock_write().map_err(|_| "poisoned")?;
            for _ in 0..r.range(1, 6) {
                let text = "t".repeat(*r.pick(&[0, 1, 10, 4000, 8000, 8192, 8193, 20000]));
                let op = match r.below(8) {
                    0 => A::Fg(rand_color(r)),
                    1 => A::Bg(rand_color(r)),
                    2 => A::Add(rand_style(r)),
                    3 => A::Remove(rand_style(r)),
                    4 => A::Theme(rand_color(r), rand_color(r), rand_style(r)),
                    5 => A::Text(text),
                    _ => A::Styled(rand_color(r), rand_color(r), Some(rand_style(r)), text),
                };
                ip::lock().dev[slot].wplan.err_pct = *r.pick(&[0, 50, 100]);
                let direct = r.chance(4);
                let res = if direct { drop(g); let x = attr_op!(term, &op); g = term.lock_write().map_err(|_| "poisoned")?; x } else { attr_op!(g, &op) };
                ip::lock().dev[slot].wplan.err_pct = 0;
                ctx.note(format!("{}{:.60} -> {:?}", if direct { "" } else { "g." }, format!("{:?}", op), res.as_ref().err().map(|e| e.to_string())));
                ctx.count(if res.is_ok() { "attribute operations" } else { "operations failed by the device" }, 1);
                match &op {
                    A::Fg(c) => fg = *c,
                    A::Bg(c) => bg = *c,
                    A::Add(s) => st |= *s,
                    A::Remove(s) => st -= *s,
                    A::Theme(f, b, s) => { fg = *f; bg = *b; st = *s; }
                    A::Styled(..) => { fg = None; bg = None; st = Style::empty(); }
                    _ => (),
                }
            }
            ok!(g.flush(), "flush with the device working again");
            ok!(g.write_str("\r\n#"), "write_str");
        }
        vt.feed(&ip::take_out(slot));
        if let Some(a) = vt.anomalies.first() { fail!("TERM={}: {}", caps.name, a); }
        let c = &vt.cells[vt.line * cols];
        let want = caps.look(fg, bg, st);
        ensure!(c.text == "#" && (want.fg == Some(999) || c.attr == want), "TERM={}: after device errors text shows {:?} with {}, expected \"#\" with {}", caps.name, c.text, show_attr(&c.attr), show_attr(&want));
        ctx.count("text compared after device errors", 1);
    }
    let h = ctx.trace_hash();
    ctx.distinct(h);
    Ok(())
}

fn compare(ctx: &mut Ctx, vt: &Vt, exp: &Vt, name: &str) -> CaseResult {
    ctx.count("display comparisons", 1);
    if let Some(a) = vt.anomalies.first() { fail!("TERM={}: {}", name, a); }
    ensure!((vt.line, vt.col, vt.scrolled) == (exp.line, exp.col, exp.scrolled), "TERM={}: cursor at ({},{}) after {} scrolls, expected ({},{}) after {}",
        name, vt.line, vt.col, vt.scrolled, exp.line, exp.col, exp.scrolled);
    for i in 0..vt.cells.len() {
        let (a, b) = (&vt.cells[i], &exp.cells[i]);
        let any = b.attr.fg == Some(999);
        ensure!(a.text == b.text && (any || a.attr == b.attr), "TERM={}: cell ({},{}) shows {:?} with {}, expected {:?} with {}", name,
            i / vt.cols, i % vt.cols, a.text, show_attr(&a.attr), b.text, show_attr(&b.attr));
    }
    Ok(())
}

fn show_attr(a: &Attr) -> String {
    let mut s = format!("fg {:?} bg {:?}", a.fg, a.bg);
    for (on, n) in [(a.bold, " bold"), (a.italic, " italic"), (a.underline, " underline"), (a.reverse, " reverse")] { if on { s.push_str(n); } }
    s
}

// ---- T03 ---------------------------------------------------------------------------------------------------

#[derive(Debug, Clone, Copy, PartialEq)]
enum M { Up(usize), Down(usize), Left(usize), Right(usize), First, Clear, LineEnd, ScreenEnd, Mode(CursorMode), Size }

macro_rules! move_op {
    ($t:expr, $op:expr) => {
        match $op {
            M::Up(n) => $t.move_up(n),
            M::Down(n) => $t.move_down(n),
            M::Left(n) => $t.move_left(n),
            M::Right(n) => $t.move_right(n),
            M::First => $t.move_to_first_column(),
            M::Clear => $t.clear_screen(),
            M::LineEnd => $t.clear_to_line_end(),
            M::ScreenEnd => $t.clear_to_screen_end(),
            M::Mode(m) => $t.set_cursor_mode(m),
            M::Size => $t.size().map(|_| ()),
        }
    }
}

pub fn t03(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng.fork();
    let name = any_term(&mut r);
    let caps = caps_cached(name);
    ctx.set_term(name);
    let (lines, cols) = (r.range(1, 12), r.range(1, 30));
    ctx.pty.reset(lines, cols);
    let slot = ctx.pty.slot;
    rough_writes(&mut r, slot);
    ctx.note(format!("TERM={} {}x{}", name, lines, cols));
    let term = open(ctx)?;
    let mut vt = caps.vt(lines, cols);
    vt.fill(&mut r);
    let (l, c) = (r.below(lines), r.below(cols));
    vt.goto(l, c);
    let mut exp = vt.clone();
    let mut guard: Option<TerminalWriteGuard> = None;
    let count = |r: &mut Rng| match r.below(12) {
        0 => 0, 1..=3 => 1, 4 | 5 => r.range(2, 5), 6 => r.range(1, 40), 7 => *r.pick(&[lines, cols, lines - 1, cols - 1]),
        8 => *r.pick(&[99, 100, 255, 256, 999, 1000, 32767, 32768, 65535, 65536]),
        9 => *r.pick(&[i32::MAX as usize - 1, i32::MAX as usize, i32::MAX as usize + 1, u32::MAX as usize, u32::MAX as usize + 1, (u32::MAX as usize) + 2]),
        10 => *r.pick(&[usize::MAX, usize::MAX - 1, 1 << 63, (1 << 32) + 1, 1 << 40]),
        _ => r.range(2, 12),
    };
    // attributes belong to the difference the erase functions may make on blank cells; text only is compared there
    let n = r.range(3, 40);
    // Held in a guard, operations follow each other in the buffer; else each is sent by itself.
    let held = r.chance(3);
    let mut hidden = None;
    for _ in 0..n {
        if guard.is_none() && r.chance(if held { 2 } else { 6 }) { guard = Some(term.lock_write().map_err(|_| "poisoned")?); }
        else if guard.is_some() && r.chance(6) {
            guard = None;
            if held { together(ctx, &mut vt, &exp, caps, hidden)?; }
        }
        if r.chance(5) {
            // text, which must not be disturbed
            let room = cols - exp.col;
            let mut s = letters(&mut r, 6);
            s.truncate(room);
            let res = match guard.as_mut() { Some(g) => g.write_str(&s), None => term.write_str(&s) };
            ok!(res, "write_str");
            if exp.pending && exp.line + 1 == lines && !s.is_empty() { ctx.count("scrolls by text", 1); }
            exp.feed(s.as_bytes());
            ctx.note(format!("text {:?}", s));
            continue;
        }
        let op = match r.below(16) {
            0..=2 => M::Up(count(&mut r)),
            3..=5 => M::Down(count(&mut r)),
            6..=8 => M::Left(count(&mut r)),
            9..=11 => M::Right(count(&mut r)),
            12 => M::First,
            13 => if r.chance(3) { M::Clear } else { M::LineEnd },
            14 => if r.chance(2) { M::ScreenEnd } else { M::Size },
            _ => M::Mode(*r.pick(&[CursorMode::Normal, CursorMode::Invisible, CursorMode::Overwrite])),
        };
        // Isolate what this operation sends
        let alone = guard.is_none() || !held || r.chance(12);
        if alone {
            if let Some(g) = guard.as_mut() { ok!(g.flush(), "flush"); }
            if held { together(ctx, &mut vt, &exp, caps, hidden)?; } else { vt.feed(&ip::take_out(slot)); }
        }
        if let M::Size = op {
            let s = match guard.as_ref() { Some(g) => g.size(), None => term.size() };
            let s = ok!(s, "size");
            ensure!((s.lines, s.columns) == (lines, cols), "size is {:?}, the terminal is {}x{}", s, lines, cols);
            continue;
        }
        let res = match guard.as_mut() { Some(g) => move_op!(g, op), None => move_op!(term, op) };
        let out = if alone {
            if let Some(g) = guard.as_mut() { ok!(g.flush(), "flush"); }
            ip::take_out(slot)
        } else { Vec::new() };
        ctx.note(format!("{:?} -> {} {:?}", op, if res.is_ok() { "Ok" } else { "Err" }, show_bytes(&out)));
        ctx.count("operations", 1);
        // (must work, may work)
        let (must, may) = match op {
            M::Up(0) | M::Down(0) | M::Left(0) | M::Right(0) => (true, true),
            M::Up(n) => (caps.cuu, caps.cuu || (n == 1 && caps.cuu1)),
            M::Down(_) => (caps.cud, true),
            M::Left(n) => (caps.cub && (n > 1 || caps.cub1), caps.cub || caps.cub1),
            M::Right(n) => (caps.cuf && (n > 1 || caps.cuf1), caps.cuf || caps.cuf1),
            M::First => (true, true),
            M::Clear => (caps.clear, caps.clear),
            M::LineEnd => (caps.el, caps.el),
            M::ScreenEnd => (caps.ed, caps.ed),
            M::Mode(_) | M::Size => (true, true),
        };
        match &res {
            Ok(()) => ensure!(may, "{:?} on {} reports success, but the terminal type does not have that function (sent {:?})", op, name, show_bytes(&out)),
            Err(e) => {
                ensure!(!must, "{:?} on {} failed though the terminal type has that function: {}", op, name, e);
                ensure!(out.is_empty(), "{:?} on {} failed but sent {:?}", op, name, show_bytes(&out));
                ctx.count("unsupported operations refused", 1);
                continue;
            }
        }
        vt.feed(&out);
        if !alone { ctx.count("operations sent together", 1); }
        let mut zero = false;
        match op {
            M::Up(n) => { zero = n == 0; if n > 0 { exp.up(n) } }
            M::Down(n) => { zero = n == 0; if n > 0 { exp.down(n) } }
            M::Left(n) => { zero = n == 0; if n > 0 { exp.left(n) } }
            M::Right(n) => { zero = n == 0; if n > 0 { exp.right(n) } }
            M::First => { exp.col = 0; exp.pending = false; }
            M::Clear => { wipe(&mut exp, 0, usize::MAX); exp.goto(0, 0); ctx.count("clears", 1); }
            M::LineEnd => { let (a, b) = (exp.line * cols + exp.col, (exp.line + 1) * cols); wipe(&mut exp, a, b); exp.pending = false; ctx.count("clears", 1); }
            M::ScreenEnd => { let a = exp.line * cols + exp.col; wipe(&mut exp, a, usize::MAX); exp.pending = false; ctx.count("clears", 1); }
            M::Mode(m) => {
                match m {
                    CursorMode::Invisible => if caps.civis.is_none() { zero = true; },
                    _ => if caps.cnorm.is_none() { zero = true; },
                }
                let has = |c: &Option<Vec<u8>>| c.as_ref().map_or(false, |c| c.windows(3).any(|w| w == b"?25"));
                if has(&caps.civis) && has(&caps.cnorm) { hidden = Some(m == CursorMode::Invisible); }
                if hidden.is_some() && alone {
                    ensure!(vt.modes.hidden == (m == CursorMode::Invisible), "TERM={}: the cursor is {} after set_cursor_mode({:?})", name, if vt.modes.hidden { "hidden" } else { "visible" }, m);
                    ctx.count("cursor modes compared", 1);
                }
            }
            M::Size => (),
        }
        if zero { ensure!(out.is_empty(), "{:?} on {} does nothing, but sent {:?}", op, name, show_bytes(&out)); }
        if let M::Up(n) | M::Down(n) | M::Left(n) | M::Right(n) = op {
            if n > 1000 { ctx.count("moves by huge counts", 1); }
            if n == 0 { ctx.count("moves by zero", 1); }
        }
        if !alone { continue; }
        compare(ctx, &vt, &exp, name).map_err(|f| crate::run::Fail::from(format!("after {:?} (sent {:?}): {}", op, show_bytes(&out), f.msg)))?;
        // pending state is part of the position
        let mut p = vt.modes.clone();
        p.hidden = false;
        ensure!(p == crate::vt::Modes::default(), "TERM={}: {:?} changed the terminal's modes: {:?}", name, op, vt.modes);
        ctx.state(combine(combine(vt.line as u64, vt.col as u64), hash_str(name)));
    }
    let was_held = guard.is_some();
    drop(guard);
    if was_held && held { together(ctx, &mut vt, &exp, caps, hidden)?; } else { vt.feed(&ip::take_out(slot)); }
    // Nothing is left hidden
    let how = r.below(4);
    ctx.note(format!("dropped by way {}", how));
    match how {
        0 => ok!(term.set_cursor_mode(CursorMode::Invisible), "set_cursor_mode"),
        1 => assert!(crate::props_conc::planned_panic(|| {
            let mut g = term.lock_write().unwrap();
            let _ = g.set_cursor_mode(CursorMode::Invisible);
            std::panic::panic_any(crate::run::Planned)
        }), "harness: no panic"),
        _ => (),
    }
    drop(term);
    let out = ip::take_out(slot);
    vt.feed(&out);
    compare(ctx, &vt, &exp, name).map_err(|f| crate::run::Fail::from(format!("after dropping the Terminal (sent {:?}): {}", show_bytes(&out), f.msg)))?;
    let has = |c: &Option<Vec<u8>>| c.as_ref().map_or(false, |c| c.windows(3).any(|w| w == b"?25"));
    if has(&caps.civis) && has(&caps.cnorm) {
        ensure!(!vt.modes.hidden, "TERM={}: the cursor is hidden after the Terminal was dropped (sent {:?})", name, show_bytes(&out));
        ctx.count("drops compared", 1);
    }
    let h = ctx.trace_hash();
    ctx.distinct(h);
    ctx.sample_trace();
    Ok(())
}

/// Compare the effect of operations that were sent together.
fn together(ctx: &mut Ctx, vt: &mut Vt, exp: &Vt, caps: &Caps, hidden: Option<bool>) -> CaseResult {
    let out = ip::take_out(ctx.pty.slot);
    vt.feed(&out);
    compare(ctx, vt, exp, &caps.name).map_err(|f| crate::run::Fail::from(format!("after operations sent together as {:?}: {}", clip(&show_bytes(&out), 300), f.msg)))?;
    if let Some(h) = hidden { ensure!(vt.modes.hidden == h, "TERM={}: after operations sent together as {:?} the cursor is {}", caps.name, clip(&show_bytes(&out), 300), if vt.modes.hidden { "hidden" } else { "visible" }); }
    Ok(())
}

fn wipe(v: &mut Vt, from: usize, to: usize) {
    let to = to.min(v.cells.len());
    for i in from..to {
        v.cells[i].text = " ".into();
        v.cells[i].w = 1;
        v.cells[i].attr = Attr{fg: Some(999), ..Attr::default()};
    }
}
