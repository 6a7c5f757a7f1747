//! T08: a terminal works on the devices it was opened on, and says what they say.

use crate::dev::{show_tio, tio_key, Pty};
use crate::interpose as ip;
use crate::props_input::{virtual_input, ZERO};
use crate::props_prep::{default_dispositions, prepared, rand_tio};
use crate::props_screen::{drain_signals, rand_config};
use crate::run::{CaseResult, Ctx, Fail};
use crate::util::*;
use crate::{ensure, fail, ok};
use libc::c_int;
use mortal::unix::OpenTerminalExt;
use mortal::{Event, Key, PrepareState, Screen, Size, Terminal};
use std::collections::VecDeque;
use std::sync::OnceLock;

struct Extra { b: Pty, c: Pty, stderr: c_int }

/// Two more devices, for standard output and standard error
fn extra() -> &'static Extra {
    static E: OnceLock<Extra> = OnceLock::new();
    E.get_or_init(|| Extra{b: Pty::open(1), c: Pty::open(2), stderr: unsafe { libc::fcntl(2, libc::F_DUPFD_CLOEXEC, 220) }})
}

/// Standard input, output and error on three devices while this lives
struct Streams(c_int);
impl Streams {
    fn new(a: &Pty, o: &Pty, e: &Pty) -> Streams {
        unsafe { libc::dup2(a.slave, 0); libc::dup2(o.slave, 1); libc::dup2(e.slave, 2); }
        Streams(a.slave)
    }
}
impl Drop for Streams {
    fn drop(&mut self) { unsafe { libc::dup2(self.0, 0); libc::dup2(self.0, 1); libc::dup2(extra().stderr, 2); } }
}

enum Obj { T(Terminal, Option<PrepareState>), S(Screen) }
struct One { obj: Obj, how: String, inp: usize, out: usize, name: String, size: (usize, usize) }

impl One {
    fn prepared(&self) -> bool { !matches!(self.obj, Obj::T(_, None)) }
    fn size(&self, guard: bool) -> Result<Size, Fail> {
        Ok(match &self.obj {
            Obj::T(t, _) => if guard { let g = t.lock_write().map_err(|_| "poisoned")?; ok!(g.size(), "size") } else { ok!(t.size(), "size") },
            Obj::S(s) => if guard { let g = s.lock_write().map_err(|_| "poisoned")?; g.size() } else { s.size() },
        })
    }
    fn event(&self) -> std::io::Result<Option<Event>> { match &self.obj { Obj::T(t, _) => t.read_event(ZERO), Obj::S(s) => s.read_event(ZERO) } }
    fn wait(&self) -> std::io::Result<bool> { match &self.obj { Obj::T(t, _) => t.wait_event(ZERO), Obj::S(s) => s.wait_event(ZERO) } }
}

const N: usize = 3;

/// What each device was sent since
fn sent() -> Vec<Vec<u8>> { (0..N).map(ip::take_out).collect() }

fn only(sent: &[Vec<u8>], dev: usize, what: &str) -> CaseResult {
    for (i, s) in sent.iter().enumerate() {
        ensure!(i == dev || s.is_empty(), "{}: device {} was sent {:?}, it should all go to device {}", what, i, clip(&show_bytes(s), 100), dev);
    }
    Ok(())
}

fn has(b: &[u8], s: &str) -> bool { b.windows(s.len().max(1)).any(|w| w == s.as_bytes()) }

pub fn t08(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng.fork();
    default_dispositions();
    drain_signals(ctx)?;
    let ex = extra();
    let ptys: [&Pty; N] = [ctx.pty, &ex.b, &ex.c];
    let mut dims = [(0usize, 0usize); N];
    for (p, d) in ptys.iter().zip(dims.iter_mut()) {
        *d = (r.range(1, 60), r.range(2, 200));
        p.reset(d.0, d.1);
        let t = rand_tio(&mut r, &p.tio0);
        p.set_tio(&t);
    }
    let tios: Vec<_> = ptys.iter().map(|p| p.tio()).collect();
    let streams = Streams::new(ptys[0], ptys[1], ptys[2]);
    let res = run(ctx, &mut r, &ptys, &mut dims, &tios);
    drop(streams);
    for p in &ptys { p.reset(6, 40); }
    ctx.set_term("xterm");
    default_dispositions();
    let h = ctx.trace_hash();
    ctx.distinct(h);
    if ctx.idx % 311 == 1 { ctx.sample_trace(); }
    res
}

fn run(ctx: &mut Ctx, r: &mut Rng, ptys: &[&Pty; N], dims: &mut [(usize, usize); N], tios: &[libc::termios]) -> CaseResult {
    let mut all: Vec<One> = Vec::new();
    // the settings that each device should have
    let mut cur = tios.to_vec();
    let mut letter = 0u32;
    for step in 0..r.range(6, 30) {
        if all.is_empty() || (all.len() < 3 && r.chance(6)) {
            if r.chance(5) { undescribed(ctx, r, ptys)?; }
            let name = *r.pick(&["xterm", "xterm-debian", "linux", "screen", "vt220", "Eterm-color", "xterm-256color", "rxvt"]);
            ctx.set_term(name);
            let kind = r.below(5);
            let (inp, out) = match kind { 0 => (0, 1), 1 => (0, 2), k => (k - 2, k - 2) };
            // at most one on each device that is prepared, and no screen of enormous size
            let screen = dims[out].0 * dims[out].1 <= 20_000 && !all.iter().any(|o| o.inp == inp && o.prepared()) && r.chance(3);
            let cfg = rand_config(r);
            let how = format!("{} {}", if screen { "Screen" } else { "Terminal" }, match kind { 0 => "on standard output".to_string(), 1 => "on standard error".to_string(), k => format!("on device {}", k - 2) });
            ctx.note(format!("{}, TERM={}", how, name));
            let obj = if screen {
                Obj::S(match kind {
                    0 => ok!(Screen::new(cfg), "Screen::new"),
                    1 => ok!(Screen::stderr(cfg), "Screen::stderr"),
                    k => ok!(Screen::with_terminal(ok!(Terminal::from_path(&ptys[k - 2].path), "from_path"), cfg), "Screen::with_terminal"),
                })
            } else {
                Obj::T(match kind {
                    0 => ok!(Terminal::new(), "Terminal::new"),
                    1 => ok!(Terminal::stderr(), "Terminal::stderr"),
                    k => ok!(Terminal::from_path(&ptys[k - 2].path), "from_path"),
                }, None)
            };
            let s = sent();
            only(&s, out, &format!("opening {}", how))?;
            if screen { cur[inp] = prepared(&tios[inp], &cfg); }
            settings(ptys, &cur, &format!("opening {}", how))?;
            all.push(One{obj, how, inp, out, name: name.to_string(), size: dims[out]});
            // what the environment says later makes no difference
            ctx.set_term(*r.pick(&["xterm", "dumb", "no-such-terminal"]));
            ctx.count("terminals opened", 1);
            continue;
        }
        let i = r.below(all.len());
        let others_prepared = all.iter().enumerate().any(|(j, o)| j != i && o.inp == all[i].inp && o.prepared());
        match r.below(9) {
            0 => {
                let d = r.below(N);
                let mut len = |usual: usize| match r.below(4) { 0 => *r.pick(&[255, 256, 257, 1000, 1024, 4096, 32767, 32768, 65535]), _ => r.range(2, usual) };
                dims[d] = (len(60), len(200));
                ptys[d].set_size(dims[d].0, dims[d].1);
                ctx.note(format!("device {} becomes {}x{}", d, dims[d].0, dims[d].1));
            }
            1 | 2 => {
                let guard = r.chance(2);
                let o = &all[i];
                let got = o.size(guard)?;
                let want = if let Obj::S(_) = o.obj { o.size } else { dims[o.out] };
                ctx.note(format!("size of {}: {}x{}", o.how, got.lines, got.columns));
                ensure!((got.lines, got.columns) == want, "{} says its size is {}x{}, it is {}x{}", o.how, got.lines, got.columns, want.0, want.1);
                ctx.count("sizes compared", 1);
            }
            3 => {
                let o = &all[i];
                let got = match &o.obj { Obj::T(t, _) => t.name().to_string(), Obj::S(s) => s.name().to_string() };
                ensure!(got == o.name, "{} was opened with TERM={}, its name is {:?}", o.how, o.name, got);
                ctx.count("names compared", 1);
            }
            4 | 5 => {
                let text = format!("text{}x", step);
                let o = &all[i];
                match &o.obj {
                    Obj::T(t, _) => if r.chance(2) { ok!(t.write_str(&text), "write_str"); } else { let mut g = t.lock_write().map_err(|_| "poisoned")?; ok!(g.write_str(&text), "write_str"); },
                    Obj::S(s) => if o.size.1 >= 8 { s.clear_screen(); ok!(s.refresh(), "refresh"); sent(); s.write_at((0, 0), &text); ok!(s.refresh(), "refresh"); } else { continue; },
                }
                let s = sent();
                only(&s, o.out, &format!("writing to {}", o.how))?;
                ensure!(has(&s[o.out], &text), "{:?} was written to {}, device {} was sent {:?}", text, o.how, o.out, clip(&show_bytes(&s[o.out]), 200));
                ctx.count("writes followed", 1);
            }
            6 | 7 => {
                // each device has different input
                let o = &all[i];
                let mut chars = Vec::new();
                for d in 0..N {
                    let c = char::from(b'a' + (letter % 26) as u8);
                    letter += 1;
                    let there = d != o.inp || r.chance(2);
                    chars.push(if there { Some(c) } else { None });
                    virtual_input(d, VecDeque::from(vec![if there { vec![c as u8] } else { vec![] }]), true);
                }
                let w = ok!(o.wait(), "wait_event");
                ensure!(w == chars[o.inp].is_some(), "{}: there is {} input on device {}, wait_event says {}", o.how, if chars[o.inp].is_some() { "some" } else { "no" }, o.inp, w);
                let e = ok!(o.event(), "read_event");
                ensure!(e == chars[o.inp].map(|c| Event::Key(Key::Char(c))), "{}: input {:?} on device {}, {:?} on all devices, read {:?}", o.how, chars[o.inp], o.inp, chars, e);
                for d in 0..N {
                    let mut g = ip::lock();
                    let left = g.dev[d].vin.as_ref().map_or(0, |v| v.queue.len());
                    g.dev[d].vin = None;
                    ensure!(left == (d != o.inp && chars[d].is_some()) as usize, "{}: {} bytes left on device {}", o.how, left, d);
                }
                ctx.count("inputs followed", 1);
            }
            _ => {
                if r.chance(3) {
                    let o = all.swap_remove(i);
                    let how = o.how.clone();
                    ctx.note(format!("{} is dropped", how));
                    let (inp, out) = (o.inp, o.out);
                    if o.prepared() { cur[inp] = tios[inp]; }
                    match o.obj {
                        Obj::T(t, st) => { if let Some(s) = st { ok!(t.restore(s), "restore"); } }
                        Obj::S(s) => drop(s),
                    }
                    let s = sent();
                    only(&s, out, &format!("dropping {}", how))?;
                    settings(ptys, &cur, &format!("after dropping {}", how))?;
                    ctx.count("drops followed", 1);
                } else {
                    let inp = all[i].inp;
                    let now = match &mut all[i].obj {
                        Obj::S(_) => continue,
                        Obj::T(t, st) => match st.take() {
                            Some(s) => { ok!(t.restore(s), "restore"); cur[inp] = tios[inp]; false }
                            None if others_prepared => continue,
                            None => {
                                let cfg = rand_config(r);
                                *st = Some(ok!(t.prepare(cfg), "prepare"));
                                cur[inp] = prepared(&tios[inp], &cfg);
                                true
                            }
                        }
                    };
                    let s = sent();
                    only(&s, all[i].out, &format!("preparing or restoring {}", all[i].how))?;
                    settings(ptys, &cur, &format!("{} {}", if now { "preparing" } else { "restoring" }, all[i].how))?;
                    ctx.note(format!("{} is {}", all[i].how, if now { "prepared" } else { "restored" }));
                    let n = all.iter().filter(|o| o.prepared()).count();
                    if n > 1 { ctx.count("steps with several prepared", 1); }
                    ctx.count("preparations followed", 1);
                }
            }
        }
    }
    while let Some(o) = all.pop() {
        if o.prepared() { cur[o.inp] = tios[o.inp]; }
        let One{obj, how, ..} = o;
        match obj {
            Obj::T(t, st) => if let Some(s) = st { ok!(t.restore(s), "restore"); },
            Obj::S(s) => drop(s),
        }
        settings(ptys, &cur, &format!("at the end, {} gone", how))?;
    }
    Ok(())
}

/// A type that there is no readable description of is not taken for another one.
fn undescribed(ctx: &mut Ctx, r: &mut Rng, ptys: &[&Pty; N]) -> CaseResult {
    let name = if r.chance(2) { *r.pick(&crate::ti::DAMAGED) } else { *r.pick(&["", "no-such-terminal", "xterm-nothing", "Xterm", "xterm ", "XTERM-256COLOR"]) };
    ctx.set_term(name);
    if name.is_empty() && r.chance(2) { std::env::remove_var("TERM"); }
    let before: Vec<_> = ptys.iter().map(|p| tio_key(&p.tio())).collect();
    let kind = r.below(6);
    let res = match kind {
        0 => Terminal::new().map(|_| ()),
        1 => Terminal::stderr().map(|_| ()),
        2 => Screen::new(rand_config(r)).map(|_| ()),
        3 => Screen::stderr(rand_config(r)).map(|_| ()),
        _ => Terminal::from_path(&ptys[r.below(N)].path).map(|_| ()),
    };
    let out = sent();
    ctx.note(format!("opening with TERM={:?}: {:?}", name, res.as_ref().map_err(|e| e.to_string())));
    ensure!(res.is_err(), "a terminal was opened with TERM={:?}, of which there is no description", name);
    for (i, s) in out.iter().enumerate() { ensure!(s.is_empty(), "opening with TERM={:?} failed but sent {:?} to device {}", name, clip(&show_bytes(s), 100), i); }
    for (i, (p, b)) in ptys.iter().zip(&before).enumerate() { ensure!(tio_key(&p.tio()) == *b, "opening with TERM={:?} failed but changed the settings of device {}", name, i); }
    ctx.count("types without description refused", 1);
    Ok(())
}

/// Each device has the settings that the Terminal prepared on it asks for, or its own
fn settings(ptys: &[&Pty; N], want: &[libc::termios], what: &str) -> CaseResult {
    for (i, (p, w)) in ptys.iter().zip(want).enumerate() {
        let now = p.tio();
        if tio_key(&now) != tio_key(w) { fail!("{}: settings of device {} are {}, expected {}", what, i, show_tio(&now), show_tio(w)); }
    }
    Ok(())
}
