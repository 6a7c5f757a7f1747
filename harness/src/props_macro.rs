//! T06: the macros against the calls they document.

use crate::caps::*;
use crate::dev::Pty;
use crate::interpose::{self as ip, Act, Kind};
use crate::run::{CaseResult, Ctx};
use crate::util::*;
use crate::vt::Vt;
use crate::{ensure, ok};
use mortal::unix::OpenTerminalExt;
use mortal::{term_write, term_writeln, Color, PrepareConfig, Screen, ScreenWriteGuard, Style, Terminal, TerminalWriteGuard, Theme};
use std::cell::Cell;
use std::io;

/// Values the expressions of an invocation refer to
#[derive(Clone, Copy, Debug)]
struct V { c: Color, oc: Option<Color>, s: Style, os: Option<Style>, th: Theme, n: i64, t: &'static str, ch: char }

fn vals(r: &mut Rng) -> V {
    let s = |r: &mut Rng| Style::from_bits_truncate(r.below(16) as u8);
    V{c: *r.pick(&COLORS), oc: rand_color(r), s: s(r), os: if r.chance(3) { None } else { Some(s(r)) },
        th: Theme::new(rand_color(r), rand_color(r), s(r)), n: r.next() as i64 % 100000,
        t: *r.pick(&["", "x", "two words", "é漢", "q\"uote", "a\tb"]), ch: *r.pick(&['z', '漢', '\'', 'é'])}
}

macro_rules! seq {
    (term $g:ident [$($e:expr),* $(,)?]) => { { $( $e?; )* Ok(()) } };
    (screen $g:ident [$($e:expr),* $(,)?]) => { { $( let _ = $e; )* } };
}

macro_rules! forms {
    ($v:ident $g:ident ; $( ( $($el:tt)* ) => [ $($call:expr),* $(,)? ] ; )*) => {
        const FORMS: &[&str] = &[ $( stringify!($($el)*) ),* ];
        fn term_macro(k: usize, term: &Terminal, ln: bool, $v: &V) -> io::Result<()> {
            let mut i = 0;
            $( if i == k { return if ln { term_writeln!(term, $($el)*) } else { term_write!(term, $($el)*) }; } i += 1; )*
            unreachable!("{}", i)
        }
        fn tguard_macro(k: usize, term: &mut TerminalWriteGuard, ln: bool, $v: &V) -> io::Result<()> {
            let mut i = 0;
            $( if i == k { return if ln { term_writeln!(term, $($el)*) } else { term_write!(term, $($el)*) }; } i += 1; )*
            unreachable!("{}", i)
        }
        fn screen_macro(k: usize, term: &Screen, ln: bool, $v: &V) {
            let mut i = 0;
            $( if i == k { let r: () = if ln { term_writeln!(term, $($el)*) } else { term_write!(term, $($el)*) }; return r; } i += 1; )*
            unreachable!("{}", i)
        }
        fn sguard_macro(k: usize, term: &mut ScreenWriteGuard, ln: bool, $v: &V) {
            let mut i = 0;
            $( if i == k { let r: () = if ln { term_writeln!(term, $($el)*) } else { term_write!(term, $($el)*) }; return r; } i += 1; )*
            unreachable!("{}", i)
        }
        fn term_calls(k: usize, $g: &mut TerminalWriteGuard, $v: &V) -> io::Result<()> {
            let mut i = 0;
            $( if i == k { return seq!(term $g [$($call),*]); } i += 1; )*
            unreachable!("{}", i)
        }
        fn screen_calls(k: usize, $g: &mut ScreenWriteGuard, $v: &V) {
            let mut i = 0;
            $( if i == k { return seq!(screen $g [$($call),*]); } i += 1; )*
            unreachable!("{}", i)
        }
    }
}

forms! { v g ;
    ([black] "k") => [g.set_fg(Color::Black), g.write_str("k")];
    ([blue] "b") => [g.set_fg(Color::Blue), g.write_str("b")];
    ([cyan] "c") => [g.set_fg(Color::Cyan), g.write_str("c")];
    ([green] "g") => [g.set_fg(Color::Green), g.write_str("g")];
    ([magenta] "m") => [g.set_fg(Color::Magenta), g.write_str("m")];
    ([red] "r") => [g.set_fg(Color::Red), g.write_str("r")];
    ([white] "w") => [g.set_fg(Color::White), g.write_str("w")];
    ([yellow] "y") => [g.set_fg(Color::Yellow), g.write_str("y")];
    ([#black] "K") => [g.set_bg(Color::Black), g.write_str("K")];
    ([#blue] "B") => [g.set_bg(Color::Blue), g.write_str("B")];
    ([#cyan] "C") => [g.set_bg(Color::Cyan), g.write_str("C")];
    ([#green] "G") => [g.set_bg(Color::Green), g.write_str("G")];
    ([#magenta] "M") => [g.set_bg(Color::Magenta), g.write_str("M")];
    ([#red] "R") => [g.set_bg(Color::Red), g.write_str("R")];
    ([#white] "W") => [g.set_bg(Color::White), g.write_str("W")];
    ([#yellow] "Y") => [g.set_bg(Color::Yellow), g.write_str("Y")];
    ([bold] "1") => [g.add_style(Style::BOLD), g.write_str("1")];
    ([italic] "2") => [g.add_style(Style::ITALIC), g.write_str("2")];
    ([reverse] "3") => [g.add_style(Style::REVERSE), g.write_str("3")];
    ([underline] "4") => [g.add_style(Style::UNDERLINE), g.write_str("4")];
    ([!bold] "5") => [g.remove_style(Style::BOLD), g.write_str("5")];
    ([!italic] "6") => [g.remove_style(Style::ITALIC), g.write_str("6")];
    ([!reverse] "7") => [g.remove_style(Style::REVERSE), g.write_str("7")];
    ([!underline] "8") => [g.remove_style(Style::UNDERLINE), g.write_str("8")];
    ([reset] "9") => [g.clear_attributes(), g.write_str("9")];
    ([!fg] "a") => [g.set_fg(None), g.write_str("a")];
    ([!bg] "d") => [g.set_bg(None), g.write_str("d")];
    ([!style] "e") => [g.set_style(None), g.write_str("e")];
    ([fg=v.c] "f") => [g.set_fg(v.c), g.write_str("f")];
    ([fg=v.oc] "h") => [g.set_fg(v.oc), g.write_str("h")];
    ([bg=v.c] "i") => [g.set_bg(v.c), g.write_str("i")];
    ([bg=v.oc] "j") => [g.set_bg(v.oc), g.write_str("j")];
    ([style=v.s] "l") => [g.set_style(v.s), g.write_str("l")];
    ([style=v.os] "n") => [g.set_style(v.os), g.write_str("n")];
    ([style+=v.s] "o") => [g.add_style(v.s), g.write_str("o")];
    ([style-=v.s] "p") => [g.remove_style(v.s), g.write_str("p")];
    ([theme=v.th] "q") => [g.set_theme(v.th), g.write_str("q")];
    ((: v.n)) => [write!(g, "{}", v.n)];
    ((: v.t)) => [write!(g, "{}", v.t)];
    ((? v.t)) => [write!(g, "{:?}", v.t)];
    ((? v.oc)) => [write!(g, "{:?}", v.oc)];
    (("{}-{:>5}", v.t, v.n)) => [write!(g, "{}-{:>5}", v.t, v.n)];
    (("plain")) => [write!(g, "plain")];
    (("{:?}{x}", v.ch, x = v.n)) => [write!(g, "{:?}{}", v.ch, v.n)];
    ("literal") => [g.write_str("literal")];
    ("") => [g.write_str("")];
    ("{}") => [g.write_str("{}")];
    ('c' 12 1.5 true) => [g.write_str("c"), g.write_str("12"), g.write_str("1.5"), g.write_str("true")];
    ([red] [#blue] [bold] "s" [reset] "t") => [g.set_fg(Color::Red), g.set_bg(Color::Blue), g.add_style(Style::BOLD), g.write_str("s"), g.clear_attributes(), g.write_str("t")];
    ("u" [bold] (: v.n) [!bold] "v") => [g.write_str("u"), g.add_style(Style::BOLD), write!(g, "{}", v.n), g.remove_style(Style::BOLD), g.write_str("v")];
    ([theme=v.th] (? v.s) [style-=v.s] [fg=v.oc] ("<{}>", v.ch) [bg=v.c]) =>
        [g.set_theme(v.th), write!(g, "{:?}", v.s), g.remove_style(v.s), g.set_fg(v.oc), write!(g, "<{}>", v.ch), g.set_bg(v.c)];
    ("one" "two" (: 3) "four") => [g.write_str("one"), g.write_str("two"), write!(g, "{}", 3), g.write_str("four")];
    ([italic] [underline] "w" [!italic] "x" [!underline] "y") => [g.add_style(Style::ITALIC), g.add_style(Style::UNDERLINE), g.write_str("w"),
        g.remove_style(Style::ITALIC), g.write_str("x"), g.remove_style(Style::UNDERLINE), g.write_str("y")];
    ([green] [!fg] [#red] [!bg] [reverse] [!style] "z") => [g.set_fg(Color::Green), g.set_fg(None), g.set_bg(Color::Red), g.set_bg(None),
        g.add_style(Style::REVERSE), g.set_style(None), g.write_str("z")];
    ([fg=if v.n % 2 == 0 { Color::Red } else { Color::Green }] (: v.n + 1)) => [g.set_fg(if v.n % 2 == 0 { Color::Red } else { Color::Green }), write!(g, "{}", v.n + 1)];
    ([style=Style::BOLD | Style::UNDERLINE] "A" [style+=Style::ITALIC] "B" [style-=Style::BOLD] "C") =>
        [g.set_style(Style::BOLD | Style::UNDERLINE), g.write_str("A"), g.add_style(Style::ITALIC), g.write_str("B"), g.remove_style(Style::BOLD), g.write_str("C")];
    ((: "é漢") [magenta] (: v.ch) "\r\n" [#white] "D") => [write!(g, "{}", "é漢"), g.set_fg(Color::Magenta), write!(g, "{}", v.ch), g.write_str("\r\n"), g.set_bg(Color::White), g.write_str("D")];
}

fn display(pty: &Pty, vt: &mut Vt) { let o = ip::take_out(pty.slot); vt.feed(&o); }

fn same(a: &Vt, b: &Vt, what: &str) -> CaseResult {
    // a Terminal passes text on as it is: what it makes the terminal do must only be the same
    ensure!(a.anomalies == b.anomalies, "{}: {:?} with the macro, {:?} with the calls", what, a.anomalies, b.anomalies);
    ensure!((a.line, a.col) == (b.line, b.col), "{}: cursor at ({},{}) with the macro, ({},{}) with the calls", what, a.line, a.col, b.line, b.col);
    for i in 0..a.cells.len() {
        ensure!(a.cells[i] == b.cells[i], "{}: cell ({},{}) is {:?} with the macro, {:?} with the calls", what, i / a.cols, i % a.cols, a.cells[i], b.cells[i]);
    }
    ensure!(a.attr == b.attr, "{}: attributes left active are {:?} with the macro, {:?} with the calls", what, a.attr, b.attr);
    Ok(())
}

pub fn t06(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng.fork();
    if r.chance(5) { return errors(ctx, &mut r); }
    let name = *r.pick(&["xterm", "xterm-256color", "linux", "screen"]);
    ctx.set_term(name);
    let (lines, cols) = (r.range(3, 20), r.range(5, 60));
    let caps = caps_cached(name);
    let n = r.range(1, 8);
    let plan: Vec<(usize, V, bool, bool)> = (0..n).map(|i| (if i == 0 { ctx.idx as usize % FORMS.len() } else { r.below(FORMS.len()) }, vals(&mut r), r.chance(4), r.chance(2))).collect();
    let screen = r.chance(2);
    let own_guard = r.chance(2);
    let mut what = String::new();
    for (k, _, ln, _) in &plan { what.push_str(&format!("term_write{}!({}); ", if *ln { "ln" } else { "" }, FORMS[*k].replace('\n', " "))); }
    ctx.note(format!("{} TERM={} {}x{} {}: {}", if screen { "Screen" } else { "Terminal" }, name, lines, cols, if own_guard { "guard" } else { "direct" }, what));
    let mut vts: Vec<Vt> = Vec::new();
    for with_macro in [true, false] {
        ctx.pty.reset(lines, cols);
        let mut vt = caps.vt(lines, cols);
        let t = ok!(Terminal::from_path(&ctx.pty.path), "opening the terminal");
        if screen {
            let s = ok!(Screen::with_terminal(t, PrepareConfig::default()), "creating the screen");
            if own_guard {
                let mut g = s.lock_write().map_err(|_| "poisoned")?;
                for (k, v, ln, _) in &plan {
                    if with_macro { sguard_macro(*k, &mut g, *ln, v); }
                    else { screen_calls(*k, &mut g, v); if *ln { g.write_str("\n"); } }
                }
            } else {
                for (k, v, ln, _) in &plan {
                    if with_macro { screen_macro(*k, &s, *ln, v); }
                    else {
                        let mut g = s.lock_write().map_err(|_| "poisoned")?;
                        screen_calls(*k, &mut g, v);
                        if *ln { g.write_str("\n"); }
                    }
                    // The guard an invocation borrows refreshes the screen when it is dropped
                    let before = vt.hash();
                    display(ctx.pty, &mut vt);
                    if vt.hash() != before { ctx.count("invocations that changed the display", 1); }
                }
            }
            display(ctx.pty, &mut vt);
            let cur = s.cursor();
            vt.feed(&[]);
            ctx.note(format!("cursor {:?}", cur));
            vts.push(vt);
            drop(s);
        } else {
            if own_guard {
                let mut g = t.lock_write().map_err(|_| "poisoned")?;
                for (k, v, ln, _) in &plan {
                    let res = if with_macro { tguard_macro(*k, &mut g, *ln, v) }
                        else { term_calls(*k, &mut g, v).and_then(|_| if *ln { g.write_str("\n") } else { Ok(()) }) };
                    ok!(res, "{}", FORMS[*k]);
                }
            } else {
                for (k, v, ln, _) in &plan {
                    let res = if with_macro { term_macro(*k, &t, *ln, v) } else {
                        let mut g = t.lock_write().map_err(|_| "poisoned")?;
                        let r = term_calls(*k, &mut g, v);
                        r.and_then(|_| if *ln { g.write_str("\n") } else { Ok(()) })
                    };
                    ok!(res, "{}", FORMS[*k]);
                    display(ctx.pty, &mut vt);
                }
            }
            display(ctx.pty, &mut vt);
            vts.push(vt);
            drop(t);
        }
    }
    let (b, a) = (vts.pop().unwrap(), vts.pop().unwrap());
    same(&a, &b, &what)?;
    ctx.count("displays compared", 1);
    ctx.count("invocations", n as u64);
    let kinds: Vec<usize> = plan.iter().map(|p| p.0).collect();
    for k in kinds { ctx.state(k as u64 * 4 + screen as u64 * 2 + own_guard as u64); }
    ctx.state(a.hash());
    let h = ctx.trace_hash();
    ctx.distinct(h);
    ctx.sample_trace();
    Ok(())
}

/// Device errors: the chain stops at the first element that fails.
fn errors(ctx: &mut Ctx, r: &mut Rng) -> CaseResult {
    // Either the device fails, or the terminal type has a capability that cannot be used
    let unusable = match r.below(6) { 0 => Some(("xterm-broken-bold", 3)), 1 => Some(("xterm-broken-setaf", 4)), _ => None };
    ctx.set_term(unusable.map_or("xterm", |u| u.0));
    ctx.pty.reset(24, 80);
    let t = ok!(Terminal::from_path(&ctx.pty.path), "opening the terminal");
    let e = *r.pick(&[libc::EIO, libc::ENOSPC, libc::EAGAIN]);
    let at = r.below(6) as u32;
    let slot = ctx.pty.slot;
    let evals = Cell::new(0u32);
    // element i evaluates text(i)
    let lens: Vec<usize> = (0..6).map(|_| *r.pick(&[10, 3000, 9000, 9000, 20000])).collect();
    let text = |i: usize| { assert_eq!(evals.get(), i as u32, "harness: elements evaluated out of order"); evals.set(i as u32 + 1); ((b'a' + i as u8) as char).to_string().repeat(lens[i]) };
    let own = r.chance(2);
    let style = |i: usize| { assert_eq!(evals.get(), i as u32, "harness: elements evaluated out of order"); evals.set(i as u32 + 1); Style::BOLD };
    if unusable.is_none() { ip::lock().dev[slot].acts.insert((Kind::Write, at), vec![Act::Errno(e)]); }
    ctx.note(format!("{}, element lengths {:?}, {}", match unusable { Some(u) => format!("TERM={}", u.0), None => format!("device error {} at write {}", e, at) }, lens, if own { "guard" } else { "direct" }));
    let newline = r.chance(2);
    macro_rules! go { ($t:expr) => {
        if newline { term_writeln!($t, (: text(0)) (? text(1)) [style=style(2)] ("{}{}", text(3), 1) [fg=Color::Red] (: text(4)) [bg=Color::Blue] (: text(5))) }
        else { term_write!($t, (: text(0)) (? text(1)) [style=style(2)] ("{}{}", text(3), 1) [fg=Color::Red] (: text(4)) [bg=Color::Blue] (: text(5))) }
    } }
    let hit_before;
    let res;
    let evaluated;
    let tail;
    if own {
        let mut g = t.lock_write().map_err(|_| "poisoned")?;
        res = go!(&mut *(&mut g));
        evaluated = evals.get();
        hit_before = !ip::lock().dev[slot].acts.contains_key(&(Kind::Write, at));
        ip::lock().dev[slot].acts.clear();
        ok!(g.flush(), "flush");
        tail = ip::take_out(slot);
    } else {
        res = go!(t);
        evaluated = evals.get();
        // dropping the borrowed guard flushes; an error there is not the macro's
        hit_before = !ip::lock().dev[slot].acts.contains_key(&(Kind::Write, at));
        ip::lock().dev[slot].acts.clear();
        ok!(t.write_str(""), "write_str");
        tail = ip::take_out(slot);
    }
    let out: String = { let mut v = String::new(); let mut esc = false; for &b in &tail { if b == 0x1b { esc = true; } else if esc { if b.is_ascii_alphabetic() { esc = false; } } else { v.push(b as char); } } v };
    let mut want = vec![];
    for i in 0..6usize {
        want.push(match i { 1 => format!("\"{}\"", "b".repeat(lens[1])), 2 => String::new(), 3 => format!("{}1", "d".repeat(lens[3])), _ => ((b'a' + i as u8) as char).to_string().repeat(lens[i]) });
    }
    match res {
        Ok(()) => {
            if let Some((term, _)) = unusable { crate::fail!("the macro succeeded with TERM={}", term); }
            ensure!(evaluated == 6, "the macro succeeded but evaluated {} of 6 elements", evaluated);
            let w = want.concat() + if newline { "\n" } else { "" };
            ensure!(out == w, "the macro succeeded but the text sent has {} characters, expected {}", out.len(), w.len());
            ctx.count("chains completed", 1);
        }
        Err(x) => {
            if let Some((term, k)) = unusable {
                // at the attribute, or at the text that would show it
                ensure!(evaluated == k || evaluated == k + 1, "TERM={}: {} elements were evaluated, of which {} come before the one that fails", term, evaluated, k);
                ctx.count("chains stopped by an unusable capability", 1);
            } else {
                ensure!(hit_before, "the macro failed though the device did not: {}", x);
                ensure!(x.raw_os_error() == Some(e), "the macro returned {:?}; the device's error was {}", x, e);
            }
            // everything before the failing element, and at most a prefix of that
            let k = evaluated as usize;
            ensure!(k >= 1, "the macro failed without evaluating anything");
            let full = want[..k - 1].concat();
            let most = want[..k].concat();
            // the failing element may also be an attribute after it, which sends no text
            let out = if unusable.is_some() { &out[..out.len().min(most.len())] } else { &out[..] };
            ensure!(out.len() >= full.len() && most.starts_with(&out), "after the error at element {} the text sent has {} characters; elements before it have {}, with it {}", k, out.len(), full.len(), most.len());
            ensure!(!out.contains('\n'), "a newline was sent after the error");
            ctx.count("chains stopped by an error", 1);
            if k < 6 { ctx.count("elements not evaluated after an error", (6 - k) as u64); }
        }
    }
    let h = ctx.trace_hash();
    ctx.distinct(h);
    drop(t);
    Ok(())
}
