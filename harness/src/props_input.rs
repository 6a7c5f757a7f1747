//! I01-I05: what is read back from the bytes that arrived.

use crate::caps::*;
use crate::interpose as ip;
use crate::props_data::d03_key;
use crate::props_screen::{open, pick_term, rand_config};
use crate::props_term::any_term;
use crate::run::{CaseResult, Ctx, Fail};
use crate::util::*;
use crate::{ensure, fail, ok};
use mortal::unix::TerminalExt;
use mortal::{Cursor, Event, Key, ModifierState, MouseButton, MouseEvent, MouseInput, PrepareConfig, PrepareState, Screen, Terminal};
use std::collections::{BTreeSet, VecDeque};
use std::io;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

pub const ZERO: Option<Duration> = Some(Duration::from_millis(0));
/// Longer than any delay by the load of the machine
pub const SEC: Option<Duration> = Some(Duration::from_secs(60));

/// A terminal or screen to read from
pub enum Io { T(Terminal, Option<PrepareState>), S(Screen) }

impl Io {
    pub fn ev(&self, guard: bool, t: Option<Duration>) -> io::Result<Option<Event>> {
        match self {
            Io::T(x, _) => if guard { x.lock_read().unwrap().read_event(t) } else { x.read_event(t) },
            Io::S(x) => if guard { x.lock_read().unwrap().read_event(t) } else { x.read_event(t) },
        }
    }
    pub fn raw(&mut self, guard: bool, b: &mut [u8], t: Option<Duration>) -> io::Result<Option<Event>> {
        match self {
            Io::T(x, _) => if guard { x.lock_read().unwrap().read_raw(b, t) } else { x.read_raw(b, t) },
            Io::S(x) => if guard { x.lock_read().unwrap().read_raw(b, t) } else { x.read_raw(b, t) },
        }
    }
    pub fn wait(&self, guard: bool, t: Option<Duration>) -> io::Result<bool> {
        match self {
            Io::T(x, _) => if guard { x.lock_read().unwrap().wait_event(t) } else { x.wait_event(t) },
            Io::S(x) => if guard { x.lock_read().unwrap().wait_event(t) } else { x.wait_event(t) },
        }
    }
    pub fn is_screen(&self) -> bool { matches!(self, Io::S(_)) }
    pub fn done(mut self) -> CaseResult {
        if let Io::T(t, s) = &mut self { if let Some(s) = s.take() { ok!(t.restore(s), "restore"); } }
        Ok(())
    }
}

/// Opens a Terminal (perhaps prepared) or a Screen of this terminal type.
pub fn open_io(ctx: &mut Ctx, r: &mut Rng, term: &str, screen: bool, prepare: Option<PrepareConfig>) -> Result<Io, Fail> {
    ctx.set_term(term);
    ctx.pty.reset(24, 80);
    let t = if r.chance(4) { ok!(Terminal::new(), "Terminal::new") } else { open(ctx)? };
    Ok(if screen {
        let c = prepare.unwrap_or_else(|| rand_config(r));
        ctx.note(format!("Screen TERM={} {:?}", term, c));
        Io::S(ok!(Screen::with_terminal(t, c), "creating a Screen"))
    } else {
        ctx.note(format!("Terminal TERM={} {:?}", term, prepare));
        let s = match prepare { Some(c) => Some(ok!(t.prepare(c), "prepare")), None => None };
        Io::T(t, s)
    })
}

/// Replaces the device's input by these chunks: the first is there at once.
pub fn virtual_input(slot: usize, mut chunks: VecDeque<Vec<u8>>, first: bool) {
    let mut v = ip::VirtIn::default();
    if first { if let Some(c) = chunks.pop_front() { v.queue.extend(c); } }
    v.arrivals = chunks;
    ip::lock().dev[slot].vin = Some(v);
}

pub fn rough_reads(r: &mut Rng, slot: usize) {
    let mut g = ip::lock();
    let d = &mut g.dev[slot];
    d.rplan.rng = Some(r.fork());
    if r.chance(2) {
        d.rplan.short_pct = *r.pick(&[10, 50, 90]);
        d.rplan.short_max = *r.pick(&[1, 2, 3, 7, 50, 150]);
        d.rplan.eintr_pct = *r.pick(&[0, 10, 30]);
        d.wait_eintr_pct = *r.pick(&[0, 10, 40]);
    }
}

/// (arrived and unread by the library, still to arrive)
fn vin_state(slot: usize) -> (usize, usize) {
    let g = ip::lock();
    let v = g.dev[slot].vin.as_ref().unwrap();
    (v.queue.len(), v.arrivals.len())
}
fn starved(slot: usize) -> bool { ip::lock().dev[slot].vin.as_ref().unwrap().starved }
fn injected(slot: usize) -> u64 { ip::lock().dev[slot].injected }

// ---- reference decoder -------------------------------------------------------------------------------------

/// A well-formed SGR mouse report at the start: parameters, terminator, length
pub fn mouse_report(b: &[u8]) -> Option<(u64, u64, u64, bool, usize)> {
    let t = b.strip_prefix(b"\x1b[<")?;
    let end = t.iter().position(|c| !c.is_ascii_digit() && *c != b';')?;
    let press = match t[end] { b'M' => true, b'm' => false, _ => return None };
    let f: Vec<&str> = std::str::from_utf8(&t[..end]).ok()?.split(';').collect();
    if f.len() != 3 || f.iter().any(|x| x.is_empty()) { return None; }
    let n: Vec<u64> = f.iter().map(|x| x.parse::<u64>()).collect::<Result<_, _>>().ok()?;
    if n[0] > u32::MAX as u64 || n[1] < 1 || n[2] < 1 || n[1] > u32::MAX as u64 || n[2] > u32::MAX as u64 { return None; }
    Some((n[0], n[1], n[2], press, 3 + end + 1))
}

fn mods(b: u64) -> ModifierState {
    let mut m = ModifierState::empty();
    if b & 4 != 0 { m |= ModifierState::SHIFT; }
    if b & 8 != 0 { m |= ModifierState::ALT; }
    if b & 16 != 0 { m |= ModifierState::CTRL; }
    m
}

/// None as input: of no kind this library has a name for
fn mouse_input(b: u64, press: bool) -> Option<MouseInput> {
    let k = b & !28;
    let btn = match k { 0 => MouseButton::Left, 1 => MouseButton::Middle, 2 => MouseButton::Right, _ => MouseButton::Other(3) };
    match k {
        0..=3 => Some(if press { MouseInput::ButtonPressed(btn) } else { MouseInput::ButtonReleased(btn) }),
        32..=35 => Some(MouseInput::Motion),
        64 => Some(MouseInput::WheelUp),
        65 => Some(MouseInput::WheelDown),
        _ => None,
    }
}

/// Whether it may stand for a button without a name of its own
fn no_other_kind(i: MouseInput) -> bool {
    match i {
        MouseInput::Motion | MouseInput::ButtonPressed(MouseButton::Other(_)) | MouseInput::ButtonReleased(MouseButton::Other(_)) => true,
        _ => false,
    }
}

/// What the first event of this input is, and how many bytes of it
fn decode(b: &[u8], caps: &Caps) -> (Event, usize) {
    if caps.xterm {
        if let Some((k, x, y, p, n)) = mouse_report(b) {
            let input = mouse_input(k, p).unwrap_or(MouseInput::Motion);
            return (Event::Mouse(MouseEvent{position: Cursor{line: y as usize - 1, column: x as usize - 1}, input, modifiers: mods(k)}), n);
        }
    }
    let mut best: Option<(&Vec<u8>, Key)> = None;
    for (s, k) in &caps.keys {
        if b.starts_with(s) && best.map_or(true, |x| s.len() > x.0.len()) { best = Some((s, *k)); }
    }
    if let Some((s, k)) = best { return (Event::Key(k), s.len()); }
    let s = match std::str::from_utf8(b) { Ok(s) => s, Err(e) => std::str::from_utf8(&b[..e.valid_up_to()]).unwrap() };
    let c = s.chars().next().expect("harness: decoding invalid text");
    (Event::Key(d03_key(c)), c.len_utf8())
}

// ---- tokens ------------------------------------------------------------------------------------------------

pub fn rand_char(r: &mut Rng) -> char {
    match r.below(10) {
        0..=3 => (b' ' + r.below(95) as u8) as char,
        4 => (r.below(32) as u8) as char,
        5 => '\x7f',
        6 => *r.pick(&['é', 'ß', 'Ω', 'ж', '\u{80}', '\u{7ff}', '\u{a0}']),
        7 => *r.pick(&['漢', '€', '\u{800}', '\u{ffff}', '\u{fffd}', '\u{feff}']),
        8 => *r.pick(&['\u{10000}', '😀', '\u{10ffff}', '\u{1f468}']),
        _ => char::from_u32(r.below(0x110000) as u32).unwrap_or('x'),
    }
}

/// One whole key sequence or character (never '<', which could begin a mouse report)
pub fn token(r: &mut Rng, caps: &Caps, mouse: bool) -> Vec<u8> {
    loop {
        let t = match r.below(10) {
            0..=3 if !caps.keys.is_empty() => r.pick(&caps.keys).0.clone(),
            4 if mouse && caps.xterm => report(r).0,
            5 => match r.below(4) {
                0 => vec![27],
                1 if !caps.keys.is_empty() => { let k = r.pick(&caps.keys).0.clone(); k[..r.below(k.len())].to_vec() }
                2 => b"\x1b[".to_vec(),
                _ => vec![27, b'a' + r.below(26) as u8],
            },
            _ => rand_char(r).to_string().into_bytes(),
        };
        if t.is_empty() { continue; }
        if t.contains(&b'<') && mouse_report(&t).is_none() { continue; }
        return t;
    }
}

/// A well-formed report
fn report(r: &mut Rng) -> (Vec<u8>, MouseEvent, bool) {
    let b = match r.below(4) { 0 => 64 + r.below(2) as u64, 1 => 32 + r.below(4) as u64, _ => r.below(4) as u64 } + 4 * r.below(8) as u64;
    let coord = |r: &mut Rng| -> u64 { match r.below(12) {
        0 => 1, 1 => 223, 2 => 224, 3 => 255, 4 => 256, 5 => 65535, 6 => 65536, 7 => u32::MAX as u64, 8 => 1 + r.next() % u32::MAX as u64, 9 => 1 + r.next() % 100_000,
        _ => 1 + r.next() % 300 } };
    let (x, y) = (coord(r), coord(r));
    let press = r.chance(2);
    let s = format!("\x1b[<{};{};{}{}", b, x, y, if press { 'M' } else { 'm' });
    (s.into_bytes(), MouseEvent{position: Cursor{line: y as usize - 1, column: x as usize - 1}, input: mouse_input(b, press).unwrap(), modifiers: mods(b)}, true)
}

// ---- I01 ---------------------------------------------------------------------------------------------------

pub fn i01(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng.fork();
    let screen = r.chance(3);
    let term = if screen { pick_term(&mut r) } else { any_term(&mut r) };
    let caps = caps_cached(term);
    let cfg = if r.chance(2) { Some(rand_config(&mut r)) } else { None };
    let mut io = open_io(ctx, &mut r, term, screen, cfg)?;
    let slot = ctx.pty.slot;
    rough_reads(&mut r, slot);
    // what is typed, in pieces that arrive one after the other
    let mut chunks: VecDeque<Vec<u8>> = VecDeque::new();
    let n = r.range(1, 8);
    for k in 0..n {
        let m = if k == 0 { *r.pick(&[0, 1, 5, 30, 60, 150, 400]) } else { *r.pick(&[1, 1, 2, 3, 10, 40, 90]) };
        let mut c = Vec::new();
        for _ in 0..m { c.extend(token(&mut r, caps, false)); }
        if !c.is_empty() || k == 0 { chunks.push_back(c); }
    }
    ctx.max("max input piled up", chunks[0].len() as u64);
    let sizes: Vec<usize> = chunks.iter().map(|c| c.len()).collect();
    let all: Vec<u8> = chunks.iter().flatten().copied().collect();
    ctx.note(format!("pieces of {:?} bytes: {}", sizes, clip(&show_bytes(&all), 600)));
    virtual_input(slot, chunks, true);
    let total = sizes.len();
    let mut pos = 0;
    let mut nones = 0;
    loop {
        let popped = total - vin_state(slot).1;
        let arrived: usize = sizes[..popped].iter().sum();
        let more = popped < total;
        if pos == all.len() && !more { nones += 1; if nones > 2 { break; } }
        let guard = r.chance(4);
        let way = r.below(7);
        let t = match way { 0 | 1 => ZERO, 2 if pos < arrived || more => None, 3 if pos < arrived || more => Some(Duration::MAX), 4 => Some(Duration::from_secs(3600)), _ => SEC };
        let waits = t != ZERO;
        let want = if pos < arrived { Some(decode(&all[pos..arrived], caps)) }
            else if waits && more { let e = arrived + sizes[popped]; Some(decode(&all[pos..e], caps)) }
            else { None };
        if r.chance(6) && (t.is_some() || want.is_some()) {
            let w = ok!(io.wait(guard, t), "wait_event");
            ensure!(w == want.is_some(), "wait_event({:?}) returned {} with {} bytes arrived and unread, {} pieces to come", t, w, arrived - pos, total - popped);
            ctx.count("waits compared", 1);
        }
        let e = match io.ev(guard, t) {
            Ok(e) => e,
            Err(_) if starved(slot) => fail!("read_event({:?}) waits for more input with {} bytes arrived and unread: {}", t, arrived - pos, show_bytes(&all[pos..arrived.min(pos + 40)])),
            Err(e) => fail!("read_event({:?}): unexpected error: {}", t, e),
        };
        let got = e;
        ensure!(got == want.map(|w| w.0), "read_event({:?}) at byte {} of {} (arrived {}) returned {:?}, expected {:?}; input from there: {}",
            t, pos, all.len(), arrived, got, want.map(|w| w.0), show_bytes(&all[pos..all.len().min(pos + 40)]));
        if let Some((ev, n)) = want {
            pos += n;
            ctx.count("events compared", 1);
            match ev { Event::Key(Key::Char(_)) => (), Event::Key(Key::Escape) => ctx.count("escapes", 1), Event::Key(Key::Ctrl(_)) => ctx.count("control keys", 1), _ => ctx.count("special keys", 1) }
        }
        // every so often, raw data takes part of it
        if r.chance(400) && pos < all.len() {
            let mut b = [0u8; 64];
            let n = r.below(5);
            if let Some(Event::Raw(k)) = ok!(io.raw(false, &mut b[..n], ZERO), "read_raw") {
                ensure!(all[pos..].starts_with(&b[..k]), "read_raw returned other bytes than those that arrived");
                pos += k;
                if std::str::from_utf8(&all[pos..]).is_err() { break; }
            }
        }
    }
    ctx.count("short or interrupted reads injected", injected(slot));
    ip::lock().dev[slot].vin = None;
    io.done()?;
    let h = ctx.trace_hash();
    ctx.distinct(h);
    ctx.sample_trace();
    Ok(())
}

// ---- I02 ---------------------------------------------------------------------------------------------------

enum Want { Must(MouseEvent, bool), May(Cursor), Key(char) }

pub fn i02(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng.fork();
    let screen = r.chance(3);
    let term = if r.chance(6) { "linux" } else { *r.pick(&["xterm", "xterm-256color", "xterm-color", "xterm-r6", "xterm-vt220"]) };
    let caps = caps_cached(term);
    let cfg = if r.chance(2) { Some(rand_config(&mut r)) } else { None };
    let io = open_io(ctx, &mut r, term, screen, cfg)?;
    let slot = ctx.pty.slot;
    rough_reads(&mut r, slot);
    let mut chunks: VecDeque<Vec<u8>> = VecDeque::new();
    let mut want: Vec<Want> = Vec::new();
    let mut shown = String::new();
    let greek = ['α', 'β', 'γ', 'δ', 'Ω', 'λ'];
    // Only reports that are in order and characters: nothing else is to be read
    let strict = caps.xterm && r.chance(3);
    for _ in 0..r.range(1, 6) {
        let mut c: Vec<u8> = Vec::new();
        for _ in 0..r.range(1, *r.clone().pick(&[2, 5, 30, 60])) {
            match if strict { *r.pick(&[0, 0, 9]) } else { r.below(10) } {
                0..=3 => {
                    let (b, e, k) = report(&mut r);
                    c.extend(b);
                    want.push(Want::Must(e, k));
                    ctx.count("well-formed reports", 1);
                }
                4 => {
                    // buttons without a name of their own here
                    let b = 66 + r.below(150) as u64;
                    let (x, y, p) = (r.range(1, 500), r.range(1, 500), r.chance(2));
                    c.extend(format!("\x1b[<{};{};{}{}", b, x, y, if p { 'M' } else { 'm' }).bytes());
                    want.push(Want::Must(MouseEvent{position: Cursor{line: y - 1, column: x - 1}, input: mouse_input(b, p).unwrap_or(MouseInput::Motion), modifiers: mods(b)}, mouse_input(b, p).is_some()));
                }
                5 | 6 => {
                    let (x, y, b) = (r.range(1, 300), r.range(1, 300), r.below(4));
                    let end = if r.chance(2) { 'M' } else { 'm' };
                    let big = *r.pick(&["4294967296", "4294967297", "9999999999", "18446744073709551616", "18446744073709551617", "99999999999999999999999999999999999999"]);
                    let s = match r.below(18) {
                        14..=17 => {
                            // a report with one character changed, put in or left out
                            let s = format!("\x1b[<{};{};{}{}", b, x, y, end);
                            let odd = [':', '<', '=', '>', '?', ',', '.', '+', '-', ' ', '/', 'x', 'M', 'm', ';', '[', '~', '\'', '"', '!'];
                            loop {
                                let mut v: Vec<char> = s.chars().collect();
                                let p = r.range(1, v.len() - 1);
                                match r.below(3) { 0 => v[p] = *r.pick(&odd), 1 => v.insert(p, *r.pick(&odd)), _ => { v.remove(p); } }
                                let v: String = v.into_iter().collect();
                                if mouse_report(v.as_bytes()).is_some() { continue; }
                                // a parameter left out may stand for zero
                                if let Some((_, x, y, ..)) = mouse_report(v.replace("<;", "<0;").as_bytes()) { want.push(Want::May(Cursor{line: y as usize - 1, column: x as usize - 1})); }
                                break v;
                            }
                        }
                        0 => format!("\x1b[<{};0;{}{}", b, y, end),
                        1 => format!("\x1b[<{};{};0{}", b, x, end),
                        2 => format!("\x1b[<{};0;0{}", b, end),
                        3 => { if let Ok(v) = big.parse::<u64>() { want.push(Want::May(Cursor{line: y - 1, column: v as usize - 1})); } format!("\x1b[<{};{};{}{}", b, big, y, end) }
                        4 => { if let Ok(v) = big.parse::<u64>() { want.push(Want::May(Cursor{line: v as usize - 1, column: x - 1})); } format!("\x1b[<{};{};{}{}", b, x, big, end) }
                        5 => { want.push(Want::May(Cursor{line: y - 1, column: x - 1})); format!("\x1b[<{};{};{}{}", big, x, y, end) }
                        6 => format!("\x1b[<{};{}{}", b, x, end),
                        7 => format!("\x1b[<{};{};{};{}{}", b, x, y, r.below(99), end),
                        8 => format!("\x1b[<{};{};{}{}", b, x, y, *r.pick(&['x', 'R', '~', ' ', ':', '<'])),
                        9 => format!("\x1b[<{};{}x;{}{}", b, x, y, end),
                        10 => format!("\x1b[<{};-{};{}{}", b, x, y, end),
                        11 => { let s = format!("\x1b[<{};{};{}", b, x, y); s[..r.range(1, s.len())].to_string() }
                        12 => format!("\x1b[<{};;{}{}", b, y, end),
                        _ => { let k = r.range(20, 400); format!("\x1b[<{}{}", "9".repeat(k), if r.chance(2) { ";" } else { "" }) }
                    };
                    c.extend(s.bytes());
                    ctx.count("malformed reports", 1);
                    let ch = *r.pick(&greek);
                    c.extend(ch.to_string().bytes());
                    want.push(Want::Key(ch));
                }
                _ => { let ch = *r.pick(&greek); c.extend(ch.to_string().bytes()); want.push(Want::Key(ch)); }
            }
        }
        if shown.len() < 500 { shown.push_str(&show_bytes(&c)); shown.push_str(" | "); }
        chunks.push_back(c);
    }
    ctx.note(clip(&shown, 900));
    let len: usize = chunks.iter().map(|c| c.len()).sum();
    virtual_input(slot, chunks, true);
    let mut got: Vec<Event> = Vec::new();
    let mut calls = 0;
    loop {
        let (q, a) = vin_state(slot);
        calls += 1;
        if calls > 4 * len + 100 { fail!("{} calls did not read {} bytes", calls, len); }
        let e = ok!(io.ev(r.chance(4), if r.chance(2) { ZERO } else { SEC }), "read_event");
        match e {
            Some(Event::Mouse(_)) => got.push(e.unwrap()),
            Some(Event::Key(Key::Char(c))) if greek.contains(&c) => got.push(e.unwrap()),
            Some(Event::Key(k)) => ensure!(!strict, "{:?} was read, but only reports and {:?} were typed", k, greek),
            None => if q == 0 && a == 0 { break; },
            Some(o) => fail!("unexpected event {:?}", o),
        }
    }
    // compare
    let mut it = got.iter().peekable();
    for (i, w) in want.iter().enumerate() {
        match w {
            Want::Key(c) => { let e = it.next(); ensure!(e == Some(&Event::Key(Key::Char(*c))), "item {}: read {:?}, expected the character {:?}", i, e, c); }
            Want::May(p) => if let Some(Event::Mouse(m)) = it.peek() { if m.position == *p { it.next(); } },
            Want::Must(m, known) => {
                if !caps.xterm {
                    ctx.count("reports on other terminal types", 1);
                    continue;
                }
                match it.next() {
                    Some(Event::Mouse(x)) if x.position == m.position && x.modifiers == m.modifiers && (x.input == m.input || (!known && no_other_kind(x.input))) => (),
                    e => fail!("item {}: read {:?}, expected {:?}", i, e, m),
                }
                ctx.count("reports compared", 1);
            }
        }
    }
    ensure!(it.peek().is_none(), "after everything else: {:?}", it.next());
    ctx.count("short or interrupted reads injected", injected(slot));
    ip::lock().dev[slot].vin = None;
    io.done()?;
    let h = ctx.trace_hash();
    ctx.distinct(h);
    ctx.sample_trace();
    Ok(())
}

// ---- I03 ---------------------------------------------------------------------------------------------------

/// Follows the stream: the positions reading may have got to.
struct Follow<'a> { s: &'a [u8], at: BTreeSet<usize>, caps: &'static Caps }

impl<'a> Follow<'a> {
    fn new(s: &'a [u8], caps: &'static Caps) -> Self { Follow{s, at: [0].into(), caps} }
    fn low(&self) -> usize { *self.at.iter().next().unwrap() }
    fn show(&self) -> String {
        let p = self.low();
        format!("at byte {} of {}: {}", p, self.s.len(), show_bytes(&self.s[p..self.s.len().min(p + 30)]))
    }
    fn raw(&mut self, b: &[u8]) -> CaseResult {
        let next: BTreeSet<usize> = self.at.iter().filter(|&&p| self.s[p..].starts_with(b)).map(|&p| p + b.len()).collect();
        ensure!(!next.is_empty(), "raw data {} does not continue the input {}", show_bytes(b), self.show());
        self.at = next;
        Ok(())
    }
    fn event(&mut self, e: &Event) -> CaseResult {
        let mut next = BTreeSet::new();
        for &p in &self.at {
            let t = &self.s[p..];
            match e {
                Event::Key(k) => {
                    for (b, kk) in &self.caps.keys { if kk == k && t.starts_with(b) { next.insert(p + b.len()); } }
                    let n = utf8_len(t);
                    if n > 0 { if let Ok(x) = std::str::from_utf8(&t[..n]) { if d03_key(x.chars().next().unwrap()) == *k { next.insert(p + n); } } }
                }
                Event::Mouse(m) => if let Some((_, x, y, _, n)) = mouse_report(t) {
                    if m.position == (Cursor{line: y as usize - 1, column: x as usize - 1}) { next.insert(p + n); }
                },
                _ => (),
            }
        }
        ensure!(!next.is_empty(), "event {:?} is not what comes next in the input {}", e, self.show());
        self.at = next;
        Ok(())
    }
    /// Input was reported as invalid; only after a raw read ended within a character
    fn skipped(&mut self, e: &io::Error) -> CaseResult {
        let mut next = BTreeSet::new();
        for &p in &self.at {
            let n = self.s[p..].iter().take_while(|&&b| b & 0xc0 == 0x80).count();
            for k in 1..=n { next.insert(p + k); }
        }
        ensure!(!next.is_empty(), "unexpected error {} {}", e, self.show());
        self.at = next;
        Ok(())
    }
}

fn utf8_len(t: &[u8]) -> usize {
    let n = match t.first() { None => 0, Some(b) if *b < 0x80 => 1, Some(b) if *b >= 0xf0 => 4, Some(b) if *b >= 0xe0 => 3, Some(b) if *b >= 0xc0 => 2, _ => 0 };
    if n <= t.len() { n } else { 0 }
}

pub fn i03(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng.fork();
    if r.chance(10) { return i03_threads(ctx, &mut r); }
    let real = r.chance(5);
    let screen = r.chance(3);
    let term = if screen { pick_term(&mut r) } else { any_term(&mut r) };
    let caps = caps_cached(term);
    let cfg = PrepareConfig{block_signals: true, enable_control_flow: false, ..rand_config(&mut r)};
    let prep = if real || r.chance(2) { Some(cfg) } else { None };
    let mut io = open_io(ctx, &mut r, term, screen, prep)?;
    let slot = ctx.pty.slot;
    rough_reads(&mut r, slot);
    // the stream
    let raw_only = r.chance(4);
    let len = *r.pick(&[3, 20, 100, 127, 128, 129, 300, 700, 1500]);
    let len = if real { len.min(1500) } else { len };
    let mut s: Vec<u8> = Vec::new();
    while s.len() < len {
        if raw_only { s.push(r.next() as u8); } else { let t = token(&mut r, caps, true); s.extend(t); }
    }
    if r.chance(8) && !raw_only { let n = r.range(20, 300); s = "漢é😀x".chars().cycle().take(n).collect::<String>().into_bytes(); }
    // its segments
    let mut chunks: VecDeque<Vec<u8>> = VecDeque::new();
    let style = r.below(4);
    let mut p = 0;
    while p < s.len() {
        let n = match style { 0 => 1, 1 => r.range(1, 5), 2 => r.range(1, 200), _ => *r.pick(&[1, 2, 100, 400]) }.min(s.len() - p);
        chunks.push_back(s[p..p + n].to_vec());
        p += n;
    }
    ctx.note(format!("{} bytes in {} pieces{}{}: {}", s.len(), chunks.len(), if raw_only { ", raw" } else { "" }, if real { ", real device" } else { "" }, clip(&show_bytes(&s), 300)));
    ctx.count("pieces", chunks.len() as u64);
    // Signals arriving meanwhile make no difference
    let sigs = (prep.is_some() || screen) && r.chance(3);
    if sigs { ctx.note("signals meanwhile".into()); }
    let arrived_real = AtomicU64::new(0);
    let total = chunks.len();
    let sizes: Vec<usize> = chunks.iter().map(|c| c.len()).collect();
    let stop = AtomicBool::new(false);
    let res = std::thread::scope(|sc| {
        if real {
            let (pty, ch, ar, st) = (ctx.pty, chunks.clone(), &arrived_real, &stop);
            let mut fr = r.fork();
            sc.spawn(move || for c in ch {
                if st.load(SeqCst) { return; }
                pty.type_in(&c);
                ar.fetch_add(c.len() as u64, SeqCst);
                crate::props_conc::pause(&mut fr);
            });
        } else { virtual_input(slot, chunks, r.chance(2)); }
        let out = (|| -> CaseResult {
            let mut f = Follow::new(&s, caps);
            let mut calls = 0u64;
            let mut idle = 0;
            loop {
                calls += 1;
                let done = f.at.contains(&s.len());
                if done { idle += 1; if idle > 3 { break; } }
                let arrived = if real { arrived_real.load(SeqCst) as usize } else {
                    let (_, a) = vin_state(slot);
                    sizes[..total - a].iter().sum()
                };
                let guard = r.chance(4);
                let t = match r.below(5) { 0 | 1 => ZERO, 2 if !done => None, 3 => Some(Duration::from_micros(200)), _ => if real && done { Some(Duration::from_millis(1)) } else { SEC } };
                ensure!(calls < 20 * s.len() as u64 + 1000 || real, "{} calls did not deliver {} bytes; {}", calls, s.len(), f.show());
                if sigs && r.chance(3) {
                    let n = *r.pick(&[libc::SIGWINCH, libc::SIGWINCH, libc::SIGCONT]);
                    if r.chance(3) { unsafe { libc::raise(n); } }
                    else {
                        let (k, at) = (*r.pick(&[ip::Kind::Wait, ip::Kind::Wait, ip::Kind::Read]), r.below(2) as u32);
                        let mut g = ip::lock();
                        g.dev[slot].counts.remove(&k);
                        g.dev[slot].acts.entry((k, at)).or_default().push(ip::Act::Raise(n));
                    }
                    ctx.count("signals during reads", 1);
                }
                match r.below(10) {
                    0 => {
                        let t = if t.is_none() { ZERO } else { t };
                        let w = ok!(io.wait(guard, t), "wait_event");
                        // at least one character is there in full
                        if arrived >= f.at.iter().last().unwrap() + 4 && !raw_only { ensure!(w, "wait_event({:?}) returned false with {} bytes unread; {}", t, arrived - f.low(), f.show()); }
                        ctx.count("waits in between", 1);
                    }
                    x if x < 5 || raw_only => {
                        let n = match r.below(5) { 0 => r.range(1, 3), 1 => r.range(1, 10), 2 => 128, 3 => r.below(2), _ => r.range(1, 300) };
                        let mut b = vec![0xA5u8; n + 8];
                        // with no room at all, waiting has no purpose
                        let t = if n == 0 { ZERO } else { t };
                        match io.raw(guard, &mut b[..n], t) {
                            Ok(Some(Event::Raw(k))) => {
                                ensure!(k <= n, "read_raw into {} bytes returned {}", n, k);
                                ensure!(b[k..].iter().all(|&x| x == 0xA5), "read_raw returned {} of {} bytes but wrote more", k, n);
                                f.raw(&b[..k])?;
                                ctx.count("raw bytes followed", k as u64);
                            }
                            Ok(None) => (),
                            Ok(Some(Event::Resize(_) | Event::Signal(_))) if sigs => (),
                            Ok(Some(e)) => fail!("read_raw returned {:?}", e),
                            Err(_) if !real && starved(slot) => fail!("read_raw waits though there is input; {}", f.show()),
                            Err(e) => fail!("read_raw: {}", e),
                        }
                    }
                    _ => match io.ev(guard, t) {
                        Ok(Some(Event::Resize(_) | Event::Signal(_))) if sigs => (),
                        Ok(Some(e)) => { f.event(&e)?; ctx.count("events followed", 1); }
                        Ok(None) => (),
                        Err(_) if !real && starved(slot) => fail!("read_event waits though there is input; {}", f.show()),
                        Err(e) => f.skipped(&e)?,
                    }
                }
                let st = f.low() as u64 * 4 + raw_only as u64 * 2 + real as u64;
                if st < 4000 { ctx.state(st); }
            }
            ensure!(f.at.contains(&s.len()), "not everything was delivered; {}", f.show());
            Ok(())
        })();
        stop.store(true, SeqCst);
        out
    });
    ip::lock().dev[slot].vin = None;
    res?;
    if real { ctx.count("streams through the kernel", 1); }
    ctx.count("short or interrupted reads injected", injected(slot));
    ip::lock().dev[slot].acts.clear();
    io.done()?;
    if sigs { crate::props_screen::drain_signals(ctx)?; }
    let h = ctx.trace_hash();
    ctx.distinct(h);
    ctx.sample_trace();
    Ok(())
}

// ---- I04 ---------------------------------------------------------------------------------------------------

fn garbage(r: &mut Rng, caps: &Caps) -> Vec<u8> {
    let rnd = |r: &mut Rng, n: usize| -> Vec<u8> { (0..n).map(|_| r.next() as u8).collect() };
    match r.below(16) {
        0 => { let n = r.range(1, 40); rnd(r, n) }
        1 => vec![0xff; r.range(1, 20)],
        2 => vec![0x80 + r.below(64) as u8; r.range(1, 10)],
        3 => vec![0xc0, 0x80],
        4 => vec![0xed, 0xa0 + r.below(32) as u8, 0x80],
        5 => { let c = rand_char(r).to_string().into_bytes(); c[..r.range(1, c.len())].to_vec() }
        6 => vec![0xf0 + r.below(16) as u8, 0x80 + r.below(64) as u8],
        7 => vec![27; r.range(1, 300)],
        8 => { let n = r.range(1, 600); let d = *r.pick(&[b'0', b'9', b';']); let mut v = b"\x1b[<".to_vec(); v.extend(std::iter::repeat(d).take(n)); if r.chance(2) { v.push(*r.pick(&[b'M', b'm', b';', b'x'])); } v }
        9 => { let mut v = b"\x1b[<".to_vec(); for _ in 0..r.range(1, 30) { v.push(*r.pick(b"0123456789;;;Mm<\x1b[")); } v }
        10 => { let mut v = b"\x1b[<".to_vec(); for _ in 0..r.range(0, 5) { v.extend(format!("{};", r.next() >> r.below(64)).bytes()); } v.push(0x80 + r.below(128) as u8); v }
        11 if !caps.keys.is_empty() => { let k = r.pick(&caps.keys).0.clone(); k[..r.range(1, k.len())].to_vec() }
        12 if !caps.keys.is_empty() => { let mut k = r.pick(&caps.keys).0.clone(); let i = r.below(k.len()); k[i] = r.next() as u8; k }
        13 => { let mut v = b"\x1b[".to_vec(); for _ in 0..r.range(1, 200) { v.push(0x20 + r.below(32) as u8); } v }
        14 => vec![0; r.range(1, 200)],
        _ => b"\x1b[<0;0;0M\x1b[<0;1;0m\x1b[<4294967295;4294967295;4294967295M\x1b[<;;M\x1b[<M".to_vec(),
    }
}

pub fn i04(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng.fork();
    let screen = r.chance(3);
    let term = if screen { pick_term(&mut r) } else { any_term(&mut r) };
    let caps = caps_cached(term);
    let cfg = if r.chance(2) { Some(rand_config(&mut r)) } else { None };
    let mut io = open_io(ctx, &mut r, term, screen, cfg)?;
    let slot = ctx.pty.slot;
    rough_reads(&mut r, slot);
    let mut s: Vec<u8> = Vec::new();
    let len = *r.pick(&[5, 50, 200, 1000, 3000]);
    while s.len() < len {
        s.extend(garbage(&mut r, caps));
        if r.chance(3) { s.extend("Ω".bytes()); }
    }
    s.extend("Ω".bytes());
    let want = s.windows(2).filter(|w| w == &"Ω".as_bytes()).count();
    let mut chunks: VecDeque<Vec<u8>> = VecDeque::new();
    let style = r.below(3);
    let mut p = 0;
    while p < s.len() {
        let n = match style { 0 => r.range(1, 4), 1 => r.range(1, 200), _ => s.len() }.min(s.len() - p);
        chunks.push_back(s[p..p + n].to_vec());
        p += n;
    }
    let pieces = chunks.len();
    ctx.note(format!("{} bytes in {} pieces: {}", s.len(), pieces, clip(&show_bytes(&s), 600)));
    virtual_input(slot, chunks, true);
    let bound = 2 * s.len() + 2 * pieces + 64;
    let (mut calls, mut seen, mut errors) = (0, 0, 0);
    let mut quiet = 0;
    while quiet < 3 {
        let (q, a) = vin_state(slot);
        let guard = r.chance(4);
        if r.chance(8) {
            let w = ok!(io.wait(guard, ZERO), "wait_event");
            ensure!(w || q == 0, "wait_event returned false with {} bytes in the driver", q);
        }
        calls += 1;
        ensure!(calls <= bound, "{} read_event calls have not got through {} bytes; {} in the driver, {} pieces to come, {} events, {} errors", calls, s.len(), q, a, seen, errors);
        match io.ev(guard, if r.chance(2) { ZERO } else { SEC }) {
            Ok(Some(Event::Key(Key::Char('Ω')))) => { seen += 1; ctx.count("sentinels read", 1); }
            Ok(Some(Event::Key(_))) => ctx.count("keys read", 1),
            Ok(Some(Event::Mouse(_))) => ctx.count("mouse events read", 1),
            Ok(Some(e)) => fail!("unexpected event {:?}", e),
            Ok(None) => if q == 0 && a == 0 { quiet += 1; },
            Err(_) => { errors += 1; ctx.count("errors reported", 1); }
        }
    }
    ensure!(seen == want, "{} of {} valid characters between garbage were read", seen, want);
    // and it goes on
    { let mut g = ip::lock(); g.dev[slot].vin.as_mut().unwrap().queue.extend("ok".bytes()); }
    for c in ['o', 'k'] {
        let e = ok!(io.ev(false, SEC), "read_event after garbage");
        ensure!(e == Some(Event::Key(Key::Char(c))), "after garbage {:?} is read as {:?}", c, e);
    }
    let mut b = [0u8; 16];
    let e = ok!(io.raw(false, &mut b, ZERO), "read_raw after garbage");
    ensure!(e.is_none(), "after everything was read read_raw returns {:?}", e);
    // hung up in the middle of something: what had arrived is read, and then every read returns
    if r.chance(3) {
        let mut tail = garbage(&mut r, caps);
        if r.chance(2) { tail.extend("Ω".bytes().take(r.range(1, 2))); }
        ctx.note(format!("then {} and hung up", clip(&show_bytes(&tail), 300)));
        { let mut g = ip::lock(); let v = g.dev[slot].vin.as_mut().unwrap(); v.queue.extend(&tail); v.eof = true; }
        let mut quiet = 0;
        let mut calls = 0;
        while quiet < 3 {
            calls += 1;
            ensure!(calls <= 2 * tail.len() + 16, "{} read_event calls after the hang-up have not got through {} bytes", calls, tail.len());
            let q = vin_state(slot).0;
            match io.ev(r.chance(4), if r.chance(2) { ZERO } else { SEC }) { Ok(None) if q == 0 => quiet += 1, Ok(Some(Event::Resize(_))) | Ok(Some(Event::Signal(_))) => fail!("unexpected event after the hang-up"), _ => quiet = 0 }
        }
        let w = ok!(io.wait(false, None), "wait_event after the hang-up");
        ensure!(w, "wait_event without timeout returned false after the hang-up");
        ctx.count("hang-ups", 1);
    }
    ip::lock().dev[slot].vin = None;
    io.done()?;
    let h = ctx.trace_hash();
    ctx.distinct(h);
    ctx.sample_trace();
    Ok(())
}

// ---- I05 ---------------------------------------------------------------------------------------------------

extern "C" fn nothing(_: libc::c_int) {}

#[derive(Copy, Clone, Debug, PartialEq)]
enum Call { Wait, Event, Raw }

impl Io {
    /// Was there something?
    fn call(&mut self, c: Call, guard: bool, t: Option<Duration>) -> io::Result<bool> {
        match c {
            Call::Wait => self.wait(guard, t),
            Call::Event => self.ev(guard, t).map(|e| e.is_some()),
            Call::Raw => { let mut b = [0u8; 64]; self.raw(guard, &mut b, t).map(|e| e.map_or(false, |e| e != Event::Raw(0))) }
        }
    }
    fn drain(&mut self) -> CaseResult {
        let mut b = [0u8; 256];
        while let Some(_) = ok!(self.raw(false, &mut b, ZERO), "read_raw") {}
        Ok(())
    }
}

/// Late beyond any load of the machine
/// A timeout is passed on in microseconds
const EARLY: Duration = Duration::from_micros(3);
const LATE: Duration = Duration::from_secs(4);

pub const HIGH: &str = "descriptor of 1024 or more";

/// The terminal gets a descriptor that does not fit into a set for `select`.
fn high_descriptor(ctx: &mut Ctx, r: &mut Rng) -> CaseResult {
    use mortal::unix::OpenTerminalExt;
    struct Many(Vec<libc::c_int>);
    impl Drop for Many { fn drop(&mut self) { for f in &self.0 { unsafe { libc::syscall(libc::SYS_close, *f); } } } }
    ctx.pty.reset(24, 80);
    ctx.set_term("xterm");
    let top = *r.pick(&[1023, 1023, 1024, 1025, 1100, 2100]);
    let mut many = Many(Vec::new());
    loop {
        let f = unsafe { libc::fcntl(ctx.pty.master, libc::F_DUPFD_CLOEXEC, 3) };
        // no more allowed here
        if f < 0 { return Ok(()); }
        if f >= top { unsafe { libc::syscall(libc::SYS_close, f); } break; }
        many.0.push(f);
    }
    ctx.note(format!("descriptor {}", top));
    let mut t = ok!(Terminal::from_path(&ctx.pty.path), "from_path");
    let st = ok!(t.prepare(PrepareConfig::default()), "prepare");
    let there = r.chance(2);
    if there {
        ctx.pty.type_in(b"x");
        for _ in 0..1000 { if ctx.pty.pending() > 0 { break; } std::thread::sleep(Duration::from_micros(200)); }
    }
    let call = *r.pick(&[Call::Wait, Call::Event, Call::Raw]);
    let d = Some(Duration::from_millis(2));
    let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match call {
        Call::Wait => t.wait_event(d),
        Call::Event => t.read_event(d).map(|e| e.is_some()),
        Call::Raw => t.read_raw(&mut [0; 8], d).map(|e| e.is_some()),
    }));
    match got {
        Ok(g) => {
            let g = ok!(g, "{:?} on descriptor {}", call, top);
            ensure!(g == there, "{:?} on descriptor {} returned {} though input was {}there", call, top, g, if there { "" } else { "not " });
            ok!(t.restore(st), "restore");
        }
        Err(_) => {
            let (m, l) = crate::run::take_panic().unwrap_or_default();
            let f = crate::run::Fail{sig: if top >= 1024 && m.contains("FD_SETSIZE") { HIGH.into() } else { "panic".into() },
                msg: format!("{:?} on a terminal with descriptor {} panicked at {}: {}", call, top, l, m)};
            if !crate::run::known("I05").iter().any(|k| k.0 == f.sig) { return Err(f); }
            ctx.count("known findings met", 1);
        }
    }
    drop(t);
    drop(many);
    ctx.count("great descriptors", 1);
    let h = combine(ctx.idx, top as u64);
    ctx.distinct(h);
    Ok(())
}

/// Waits of seconds to decades, on a clock that passes only while something waits
fn virtual_clock(ctx: &mut Ctx, r: &mut Rng) -> CaseResult {
    let screen = r.chance(3);
    let term = pick_term(r);
    let cfg = PrepareConfig{block_signals: true, enable_control_flow: false, ..rand_config(r)};
    let mut io = open_io(ctx, r, term, screen, Some(cfg))?;
    let slot = ctx.pty.slot;
    const DAY: u64 = 86_400;
    for _ in 0..12 {
        let call = *r.pick(&[Call::Wait, Call::Wait, Call::Event, Call::Raw]);
        let guard = r.chance(3);
        let secs = |r: &mut Rng| match r.below(8) { 0 => 0, 1 => r.range(1, 3) as u64, 2 => r.range(1, 100) as u64, 3 => r.range(1, 100_000) as u64,
            4 => *r.pick(&[24 * DAY, 25 * DAY, 49 * DAY, 50 * DAY]), 5 => i32::MAX as u64 - r.range(1, 100) as u64, _ => r.next() % (1 << r.range(1, 31)) };
        let t = Duration::from_micros(secs(r) * 1_000_000 + r.below(1_000_000) as u64);
        // nothing comes, or something during the wait, or too late
        let us = t.as_micros() as u64;
        let after = match r.below(4) { 0 => None, 1 => Some(us + 10_000 + r.next() % (us + 1)), _ => Some(r.next() % (us + 1)) };
        let timeout = if after.map_or(false, |a| a <= us) && r.chance(4) { *r.pick(&[None, Some(Duration::MAX), Some(Duration::from_secs(1 << 40))]) } else { Some(t) };
        let pct = *r.pick(&[0, 0, 30, 80]);
        let t0 = ip::ahead();
        let mut v = ip::VirtIn::default();
        v.clock = Some(ip::VirtClock{arrivals: after.map(|a| (t0 + a, b"x".to_vec())).into_iter().collect(), eintr_pct: pct, rng: Some(r.fork()), interrupted: 0});
        ip::lock().dev[slot].vin = Some(v);
        ctx.note(format!("{:?}({:?}){} with input after {:?} us, {}% interrupted", call, timeout, if guard { " of a guard" } else { "" }, after, pct));
        let real = Instant::now();
        let got = ok!(io.call(call, guard, timeout), "{:?}({:?})", call, timeout);
        let el = ip::ahead() - t0;
        // the real time that passed counts too
        let slack = 50_000 + (real.elapsed().as_micros() as u64).saturating_sub(el);
        let hits = ip::lock().dev[slot].vin.as_ref().map_or(0, |v| v.clock.as_ref().map_or(0, |c| c.interrupted));
        ctx.count("interruptions of long waits", hits);
        ctx.count("long waits", 1);
        match after.filter(|&a| timeout.is_none() || a <= us) {
            Some(a) => {
                // the rest of the timeout is computed from a clock that also really passes
                if !got && a + slack > us && timeout == Some(t) { ctx.count("arrivals at the end of a wait", 1); }
                else { ensure!(got, "{:?}({:?}) gave up after {} us, but input came after {} us", call, timeout, el, a); ensure!(el <= a + slack, "{:?}({:?}) returned after {} us, but input came after {} us", call, timeout, el, a); }
            }
            None => {
                ensure!(!got, "{:?}({:?}) reports input, but none came in time", call, timeout);
                ensure!(el + 10 + slack - 50_000 >= us, "{:?}({:?}) gave up after {} us", call, timeout, el);
                ensure!(el <= us + slack, "{:?}({:?}) waited for {} us", call, timeout, el);
            }
        }
        // read it
        if let Some(c) = ip::lock().dev[slot].vin.as_mut().unwrap().clock.as_mut() { c.arrivals.clear(); c.eintr_pct = 0; }
        let _ = ok!(io.call(Call::Event, false, Some(Duration::ZERO)), "reading");
    }
    ip::lock().dev[slot].vin = None;
    io.done()?;
    let h = ctx.trace_hash();
    ctx.distinct(h);
    Ok(())
}

pub fn i05(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng.fork();
    if ctx.idx % 4 == 3 {
        let res = virtual_clock(ctx, &mut r);
        ip::back_to_now();
        return res;
    }
    if ctx.idx % 32 == 5 { return high_descriptor(ctx, &mut r); }
    let screen = r.chance(3);
    let term = pick_term(&mut r);
    let cfg = PrepareConfig{block_signals: true, enable_control_flow: false, ..rand_config(&mut r)};
    let mut io = open_io(ctx, &mut r, term, screen, Some(cfg))?;
    let pty = ctx.pty;
    unsafe {
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = nothing as extern "C" fn(libc::c_int) as usize;
        if r.chance(2) { a.sa_flags = libc::SA_RESTART; }
        libc::sigaction(libc::SIGUSR1, &a, std::ptr::null_mut());
    }
    let me = ip::tid();
    for _ in 0..5 {
        let call = *r.pick(&[Call::Wait, Call::Wait, Call::Event, Call::Raw]);
        let guard = r.chance(3);
        let far = *r.pick(&[None, Some(Duration::from_secs(20)), Some(Duration::MAX), Some(Duration::from_secs(u64::MAX)), Some(Duration::from_secs(1 << 40)), Some(Duration::new(i64::MAX as u64, 999_999_999)), Some(Duration::from_secs(i32::MAX as u64 + 1))]);
        let short = *r.pick(&[Duration::ZERO, Duration::from_nanos(1), Duration::from_micros(1), Duration::from_micros(300), Duration::from_micros(999), Duration::from_micros(1001), Duration::from_millis(7), Duration::from_nanos(12_345_678), Duration::from_millis(30)]);
        let scenario = r.below(6);
        ctx.note(format!("scenario {} {:?} far {:?} short {:?}", scenario, call, far, short));
        let mut late: Vec<String> = Vec::new();
        for _attempt in 0..3 {
            let t0 = Instant::now();
            let mut problem: Option<String> = None;
            match scenario {
                // nothing comes
                0 | 1 => {
                    let got = ok!(io.call(call, guard, Some(short)), "{:?}({:?})", call, short);
                    let el = t0.elapsed();
                    ensure!(!got, "{:?}({:?}) reports input though none came", call, short);
                    ensure!(el + EARLY > short, "{:?}({:?}) gave up after {:?}", call, short, el);
                    ctx.count("timeouts waited for", 1);
                    if el > short + LATE { problem = Some(format!("{:?}({:?}) took {:?}", call, short, el)); }
                }
                // something comes during the wait
                2 => {
                    let d = Duration::from_micros(r.range(0, 30_000) as u64);
                    let got = std::thread::scope(|sc| {
                        sc.spawn(move || { std::thread::sleep(d); pty.type_in(b"x"); });
                        io.call(call, guard, far)
                    });
                    let got = ok!(got, "{:?}({:?})", call, far);
                    let el = t0.elapsed();
                    ensure!(got, "{:?}({:?}) reports no input after {:?} though some came after {:?}", call, far, el, d);
                    ctx.count("arrivals during a wait", 1);
                    if el > d + LATE { problem = Some(format!("{:?}({:?}) took {:?} though input came after {:?}", call, far, el, d)); }
                }
                // it is there already
                3 => {
                    pty.type_in(b"x");
                    let t = if r.chance(2) { Some(short) } else { far };
                    // pty input reaches the reader through a kernel worker
                    for _ in 0..1000 { if pty.pending() > 0 { break; } std::thread::sleep(Duration::from_micros(200)); }
                    let t0 = Instant::now();
                    let got = ok!(io.call(call, guard, t), "{:?}({:?})", call, t);
                    ensure!(got, "{:?}({:?}) reports no input though it was there", call, t);
                    ctx.count("input there already", 1);
                    if t0.elapsed() > LATE { problem = Some(format!("{:?}({:?}) took {:?} though input was there", call, t, t0.elapsed())); }
                }
                // read, but not returned yet
                4 => {
                    if r.chance(3) {
                        // what is there is not a character: an error is to be reported at once, and no event is
                        let bad = *r.pick(&[b"x\xff".as_slice(), b"x\x80", b"x\xff\xfe", b"x\xc0\x80", b"x\xe0\x80z", b"x\xf8"]);
                        pty.type_in(bad);
                        for _ in 0..1000 { if pty.pending() >= bad.len() { break; } std::thread::sleep(Duration::from_micros(200)); }
                        let e = ok!(io.ev(guard, SEC), "read_event");
                        ensure!(e == Some(Event::Key(Key::Char('x'))), "'x' was typed, {:?} was read", e);
                        let t = if r.chance(2) { Some(short) } else { far };
                        let t0 = Instant::now();
                        // (waiting for ever here would not be noticed before the case's time has run out)
                        let w = ok!(io.wait(guard, if r.chance(2) { Some(short) } else { Some(Duration::from_secs(2)) }), "wait_event");
                        ensure!(w, "wait_event returned false with {} typed earlier unread", show_bytes(&bad[1..]));
                        match call {
                            Call::Event => { let e = io.ev(guard, t); ensure!(e.is_err(), "read_event({:?}) returned {:?} with {} typed earlier unread", t, e, show_bytes(&bad[1..])); }
                            _ => { let got = ok!(io.call(call, guard, t), "{:?}({:?})", call, t); ensure!(got, "{:?}({:?}) reports no input though {} typed earlier is unread", call, t, show_bytes(&bad[1..])); }
                        }
                        if t0.elapsed() > LATE { problem = Some(format!("{:?}({:?}) took {:?} though input typed earlier was unread", call, t, t0.elapsed())); }
                        // away with the rest
                        let mut b = [0u8; 64];
                        while let Some(_) = ok!(io.raw(false, &mut b, ZERO), "read_raw") {}
                        ctx.count("invalid input buffered", 1);
                    } else {
                    // among them a key that sends an escape sequence
                    let caps = caps_cached(term);
                    let seqs: Vec<&[u8]> = caps.keys.iter().filter(|(s, _)| s.len() > 1 && s[0] == 0x1b && s.iter().all(|&b| b < 128)
                        && caps.keys.iter().all(|(t, _)| t == s || !(t.starts_with(s) || s.starts_with(t)))).map(|(s, _)| &s[..]).collect();
                    let text = if seqs.is_empty() || r.chance(2) { b"xyz".to_vec() } else { ctx.count("escape sequences buffered", 1); [b"x", *r.pick(&seqs), b"z"].concat() };
                    pty.type_in(&text);
                    for _ in 0..1000 { if pty.pending() >= text.len() { break; } std::thread::sleep(Duration::from_micros(200)); }
                    let e = ok!(io.ev(guard, SEC), "read_event");
                    ensure!(e == Some(Event::Key(Key::Char('x'))), "'x' was typed, {:?} was read", e);
                    for _ in 0..2 {
                        let t = if r.chance(2) { Some(short) } else { far };
                        let t0 = Instant::now();
                        let w = ok!(io.wait(guard, t), "wait_event");
                        ensure!(w, "wait_event({:?}) returned false with input typed earlier unread", t);
                        let got = ok!(io.call(call, guard, t), "{:?}({:?})", call, t);
                        ensure!(got, "{:?}({:?}) reports no input though some typed earlier is unread", call, t);
                        if t0.elapsed() > LATE { problem = Some(format!("{:?}({:?}) took {:?} though input typed earlier was unread", call, t, t0.elapsed())); }
                        if call == Call::Raw { break; }
                    }
                    ctx.count("input buffered", 1);
                    }
                }
                // other signals all the time
                _ => {
                    let stop = AtomicBool::new(false);
                    let t = short.max(Duration::from_millis(20)) + Duration::from_millis(r.below(30) as u64);
                    let gap = *r.pick(&[200, 1000, 3000]);
                    let hits = AtomicU64::new(0);
                    let t0 = Instant::now();
                    let got = std::thread::scope(|sc| {
                        let (stop, hits) = (&stop, &hits);
                        sc.spawn(move || {
                            let t1 = Instant::now();
                            while !stop.load(SeqCst) && t1.elapsed() < Duration::from_secs(5) {
                                unsafe { libc::syscall(libc::SYS_tgkill, libc::getpid(), me as libc::c_int, libc::SIGUSR1); }
                                hits.fetch_add(1, SeqCst);
                                std::thread::sleep(Duration::from_micros(gap));
                            }
                        });
                        let g = io.call(call, guard, Some(t));
                        stop.store(true, SeqCst);
                        g
                    });
                    let el = t0.elapsed();
                    let got = ok!(got, "{:?}({:?}) interrupted by signals", call, t);
                    ensure!(!got, "{:?}({:?}) interrupted by unrelated signals reports input", call, t);
                    ensure!(el + EARLY > t, "{:?}({:?}) interrupted by unrelated signals gave up after {:?}", call, t, el);
                    ctx.count("waits interrupted by signals", 1);
                    ctx.count("interrupting signals", hits.load(SeqCst));
                    if el > t + LATE { problem = Some(format!("{:?}({:?}) interrupted by unrelated signals took {:?}", call, t, el)); }
                }
            }
            io.drain()?;
            match problem { None => { late.clear(); break; } Some(p) => late.push(p) }
        }
        if late.len() == 3 { fail!("{} (and so three times in a row)", late[0]); }
    }
    ctx.state((screen as u64) << 8 | 1);
    crate::dev::set_disposition(libc::SIGUSR1, libc::SIG_DFL, 0, &[]);
    io.done()?;
    let h = ctx.trace_hash();
    ctx.distinct(h);
    ctx.sample_trace();
    Ok(())
}

/// Several threads read one stream of characters that are all different.
fn i03_threads(ctx: &mut Ctx, r: &mut Rng) -> CaseResult {
    let real = r.chance(2);
    let term = pick_term(r);
    let cfg = PrepareConfig{block_signals: true, enable_control_flow: false, ..PrepareConfig::default()};
    let screen = r.chance(3);
    let io = open_io(ctx, r, term, screen, Some(cfg))?;
    let slot = ctx.pty.slot;
    rough_reads(r, slot);
    let n = *r.pick(&[5usize, 40, 150, 400]);
    let chars: Vec<char> = (0..n).map(|i| char::from_u32(if i % 5 == 4 { 0x3b1 + i as u32 / 5 } else { 0x4e00 + i as u32 }).unwrap()).collect();
    let s: Vec<u8> = chars.iter().collect::<String>().into_bytes();
    let mut chunks: VecDeque<Vec<u8>> = VecDeque::new();
    let mut p = 0;
    while p < s.len() { let k = r.range(1, 9).min(s.len() - p); chunks.push_back(s[p..p + k].to_vec()); p += k; }
    let threads = r.range(2, 4);
    ctx.note(format!("{} characters in {} pieces for {} threads{}", n, chunks.len(), threads, if real { ", real device" } else { "" }));
    let fed = AtomicBool::new(false);
    let left = AtomicU64::new(n as u64);
    let bad = crate::props_conc::Bad::default();
    let log: std::sync::Mutex<Vec<(usize, char)>> = Default::default();
    std::thread::scope(|sc| {
        if real {
            let (pty, mut fr, fed) = (ctx.pty, r.fork(), &fed);
            sc.spawn(move || { for c in chunks { pty.type_in(&c); crate::props_conc::pause(&mut fr); } fed.store(true, SeqCst); });
        } else { virtual_input(slot, chunks, true); fed.store(true, SeqCst); }
        for k in 0..threads {
            let (io, left, bad, log) = (&io, &left, &bad, &log);
            let mut tr = r.fork();
            sc.spawn(move || {
                let t0 = Instant::now();
                let mut mine: Vec<char> = Vec::new();
                let res = (|| -> CaseResult {
                    while left.load(SeqCst) > 0 && !bad.any() {
                        let t = *tr.pick(&[ZERO, Some(Duration::from_micros(300)), Some(Duration::from_millis(2))]);
                        if tr.chance(6) { ok!(io.wait(tr.chance(2), t), "wait_event"); }
                        match ok!(io.ev(tr.chance(2), t), "read_event") {
                            Some(Event::Key(Key::Char(c))) => { mine.push(c); left.fetch_sub(1, SeqCst); }
                            None => (),
                            e => fail!("unexpected event {:?}", e),
                        }
                        if t0.elapsed() > Duration::from_secs(25) { fail!("{} characters were never read", left.load(SeqCst)); }
                    }
                    Ok(())
                })();
                bad.put(res);
                log.lock().unwrap().extend(mine.into_iter().map(|c| (k, c)));
            });
        }
    });
    ip::lock().dev[slot].vin = None;
    bad.take()?;
    let log = log.into_inner().unwrap();
    let index = |c: char| chars.iter().position(|&x| x == c);
    let mut seen = vec![0; n];
    let mut last = vec![None; threads];
    let mut order = 0u64;
    for (k, c) in log {
        let i = match index(c) { Some(i) => i, None => fail!("{:?} was read and never typed", c) };
        seen[i] += 1;
        ensure!(seen[i] == 1, "{:?} was delivered twice", c);
        ensure!(last[k].map_or(true, |l| l < i), "a thread read {:?} after later input", c);
        last[k] = Some(i);
        order = combine(order, (i * 8 + k) as u64);
    }
    ensure!(seen.iter().all(|&x| x == 1), "{} characters were lost", seen.iter().filter(|&&x| x == 0).count());
    ctx.count("characters read by several threads", n as u64);
    ctx.state(order);
    io.done()?;
    let h = combine(ctx.trace_hash(), order);
    ctx.distinct(h);
    Ok(())
}
