//! Workloads for the interpreter: `mortal-miri STEPS SEED prepare|plain`. Only undefined behaviour, data races
//! and panics count here.

mod standin;

use mortal::sequence::{FindResult, SequenceMap};
use mortal::unix::{OpenTerminalExt, TerminalExt};
use mortal::term_write;
use mortal::{Color, Cursor, CursorMode, Event, PrepareConfig, Signal, SignalSet, Size, Style, Terminal, Theme};
use std::time::Duration;

const ZERO: Option<Duration> = Some(Duration::from_millis(0));
const SIGS: [i32; 5] = [libc::SIGCONT, libc::SIGINT, libc::SIGTSTP, libc::SIGQUIT, libc::SIGINT];

#[derive(Clone)]
struct R(u64);
impl R {
    fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15); let x = (self.0 ^ self.0 >> 30).wrapping_mul(0xbf58476d1ce4e5b9); x ^ x >> 27 }
    fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    fn chance(&mut self, n: usize) -> bool { self.below(n) == 0 }
    fn fork(&mut self) -> R { R(self.next()) }
}

fn input(r: &mut R, n: usize) -> Vec<u8> {
    let mut v = Vec::new();
    while v.len() < n {
        match r.below(9) {
            0 => v.extend(b"\x1bOA"),
            1 => v.extend(b"\x1b[3~"),
            2 => v.extend(format!("\x1b[<{};{};{}{}", r.below(90), r.below(300), r.below(3) * 70000, if r.chance(2) { 'M' } else { 'm' }).bytes()),
            3 => v.extend("é漢😀".bytes()),
            4 => v.push(r.below(256) as u8),
            5 => v.extend(b"\x1b[<99999999999;"),
            6 => v.extend(&"漢".as_bytes()[..2]),
            7 => v.push(27),
            _ => v.push(b'a' + r.below(26) as u8),
        }
    }
    v
}

fn open(r: &mut R) -> Terminal {
    unsafe { std::env::set_var("TERM", ["xterm", "linux", "vt100"][r.below(3)]); }
    standin::device();
    Terminal::new().unwrap()
}

/// Sometimes types something.
fn typing(r: &mut R) {
    if r.chance(2) { let n = r.below(80); standin::feed(&input(r, n)); }
}

fn colour(r: &mut R) -> Option<Color> { [None, Some(Color::Red), Some(Color::Black), Some(Color::White)][r.below(4)] }
fn style(r: &mut R) -> Style { Style::from_bits_truncate(r.next() as u8 as _) }

fn write(t: &Terminal, r: &mut R) {
    let s = ["", "text", "漢字", "a\u{301}", "\x1b[31m", "日本語 text that goes on"][r.below(6)];
    let _ = match r.below(17) {
        0 => t.write_str(s),
        1 => t.write_char(['x', 'é', '漢', '\0'][r.below(4)]),
        2 => t.write_styled(colour(r), colour(r), style(r), s),
        3 => t.set_fg(colour(r)),
        4 => t.set_bg(colour(r)),
        5 => t.add_style(style(r)),
        6 => t.remove_style(style(r)),
        7 => t.set_style(style(r)),
        8 => t.set_theme(Theme::new(colour(r), colour(r), style(r))),
        9 => t.clear_attributes(),
        10 => t.move_right([0, 1, 5, !0][r.below(4)]),
        11 => t.move_up([0, 1, !0][r.below(3)]),
        12 => t.set_cursor_mode([CursorMode::Normal, CursorMode::Invisible, CursorMode::Overwrite][r.below(3)]),
        13 => t.clear_to_line_end(),
        14 => { let n = r.below(9); term_write!(t, [red] [bold] (: s) " " (? n)) },
        15 => { let mut g = t.lock_write().unwrap(); let _ = g.write_str(&"y".repeat(r.below(300))); let _ = g.move_down(r.below(9)); g.flush() }
        _ => { let mut g = t.lock_write().unwrap(); let _ = g.write_styled(colour(r), None, style(r), s); Ok(()) }
    };
}

fn read(t: &Terminal, r: &mut R) -> bool {
    if r.chance(6) { standin::plan(SIGS[r.below(5)]); }
    typing(r);
    let g = r.chance(3);
    match r.below(6) {
        0 => { let _ = if g { t.lock_read().unwrap().wait_event(ZERO) } else { t.wait_event(ZERO) }; true }
        1 | 2 => {
            let mut b = vec![0u8; r.below(40)];
            match t.lock_read().unwrap().read_raw(&mut b, ZERO) {
                Ok(Some(Event::Raw(n))) => { let s: u64 = b[..n].iter().map(|&x| x as u64).sum(); std::hint::black_box(s); n > 0 || b.is_empty() }
                _ => true,
            }
        }
        _ => match if g { t.lock_read().unwrap().read_event(ZERO) } else { t.read_event(ZERO) } {
            Ok(Some(e)) => { std::hint::black_box(format!("{:?}", e)); true }
            _ => r.chance(2),
        },
    }
}

fn config(r: &mut R) -> PrepareConfig {
    let mut s = SignalSet::new();
    for x in [Signal::Continue, Signal::Interrupt, Signal::Suspend, Signal::Quit] { if r.chance(2) { s.insert(x); } }
    PrepareConfig{block_signals: r.chance(2), enable_control_flow: r.chance(2), enable_keypad: r.chance(2), enable_mouse: r.chance(2), always_track_motion: r.chance(2), report_signals: s}
}

fn terminal(r: &mut R, steps: usize, prepare: bool) -> usize {
    let t = open(r);
    let mut n = 0;
    let mut stack = Vec::new();
    for _ in 0..steps {
        match r.below(12) {
            0 if prepare && stack.len() < 3 => { if let Ok(s) = t.prepare(config(r)) { stack.push(s); } }
            1 => { if let Some(s) = stack.pop() { let _ = t.restore(s); } }
            2..=6 => { read(&t, r); }
            _ => write(&t, r),
        }
        n += 1;
        if n % 16 == 0 { standin::drain(); }
    }
    while let Some(s) = stack.pop() { let _ = t.restore(s); }
    n
}

fn threads(r: &mut R, steps: usize, prepare: bool) -> usize {
    let t = open(r);
    let st = if prepare { t.prepare(config(r)).ok() } else { None };
    let k = 2 + r.below(2);
    std::thread::scope(|sc| {
        for i in 0..k {
            let (t, mut r) = (&t, r.fork());
            sc.spawn(move || for j in 0..steps {
                if i == 0 && j % 16 == 0 { standin::drain(); }
                match r.below(8) {
                    0 => { let _ = t.try_lock_read().is_ok(); }
                    1 => { let _ = t.try_lock_write().is_ok(); }
                    2 => { standin::raise_now(SIGS[r.below(5)]); }
                    3 => std::thread::yield_now(),
                    _ if i % 2 == 0 => write(t, &mut r),
                    _ => { read(t, &mut r); }
                }
            });
        }
    });
    if let Some(s) = st { let _ = t.restore(s); }
    k * steps
}

fn data(r: &mut R, steps: usize) -> usize {
    let mut m: SequenceMap<String, u32> = SequenceMap::new();
    let keys = ["", "a", "ab", "abc", "b", "é", "éa", "漢", "\x1b", "\x1b[", "\x1b[A", "\x1b[<"];
    for i in 0..steps {
        let k = keys[r.below(keys.len())];
        match r.below(8) {
            0 | 1 => { m.insert(k.to_string(), i as u32); }
            2 => { m.remove(k); }
            3 => { *m.entry(k.to_string()).or_insert(7) += 1; }
            4 => { if let Some(x) = m.get_mut(k) { *x ^= 1; } }
            5 => match m.find(k) { FindResult::Found(x) | FindResult::Undecided(x) => { std::hint::black_box(x); } _ => () },
            6 => { std::hint::black_box(mortal::util::prefixes(k).count()); }
            _ => {
                let z = Size{lines: 1 + r.below(4), columns: 1 + r.below(4)};
                let mut c = Cursor::first();
                for _ in 0..z.area() { if let Some(n) = c.next(z) { c = n; } }
                std::hint::black_box(c.previous(z));
                for ch in k.chars() { std::hint::black_box((mortal::util::is_ctrl(ch), if mortal::util::is_ctrl(ch) { mortal::util::unctrl_upper(ch) } else { ch })); }
            }
        }
    }
    for (k, v) in m.sequences() { std::hint::black_box((k, v)); }
    steps
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (steps, seed) = (a[1].parse::<usize>().unwrap(), a[2].parse::<u64>().unwrap());
    // (preparing runs into the dependency nix initialising a struct incompletely, which needs validation off)
    let prepare = a[3] == "prepare";
    let mut r = R(seed * 7919 + 13);
    standin::seed(seed);
    let t = terminal(&mut r, steps, prepare);
    let c = threads(&mut r, steps / 2, prepare);
    let d = data(&mut r, steps);
    eprintln!("MIRI {} terminal calls, {} calls by concurrent threads, {} data operations", t, c, d);
}
