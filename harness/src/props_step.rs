//! G03: a signal handled at any instruction of any operation disturbs nothing.

use crate::dev::*;
use crate::interpose as ip;
use crate::model_screen::Model;
use crate::props_err::{on_terminal, on_terminal_guard, WOPS};
use crate::props_input::{open_io, token, virtual_input, ZERO};
use crate::props_prep::{default_dispositions, rand_tio, snap, Snap};
use crate::props_screen::{self, drain_signals, on_guard, on_screen, open, pick_term, rand_config, Op, Profile};
use crate::props_term::any_term;
use crate::run::{CaseResult, Ctx, Fail};
use crate::step::{self, Stepped};
use crate::util::*;
use crate::{ensure, fail, ok};
use libc::c_int;
use mortal::{Event, Screen, Signal, SignalSet};
use std::collections::{BTreeMap, VecDeque};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::Duration;

const ALL: [(c_int, Signal); 5] = [(libc::SIGCONT, Signal::Continue), (libc::SIGWINCH, Signal::Resize), (libc::SIGINT, Signal::Interrupt),
    (libc::SIGTSTP, Signal::Suspend), (libc::SIGQUIT, Signal::Quit)];

static OWN: [AtomicU64; 65] = [const { AtomicU64::new(0) }; 65];
extern "C" fn own(s: c_int) { OWN[s as usize].fetch_add(1, SeqCst); }

#[derive(Copy, Clone, Debug, PartialEq)]
enum Kind { Output, Guard, Screen, Events, Raw, Prepare, Restore, Create, Drop }
const KINDS: [Kind; 9] = [Kind::Output, Kind::Guard, Kind::Screen, Kind::Events, Kind::Raw, Kind::Prepare, Kind::Restore, Kind::Create, Kind::Drop];

/// What can be seen of one performance
struct Seen {
    out: Vec<u8>,
    results: String,
    /// what was read, signals apart
    read: Vec<String>,
    bytes: Vec<u8>,
    reported: BTreeMap<c_int, u64>,
    own: BTreeMap<c_int, u64>,
    state: Option<Snap>,
    mask: Vec<c_int>,
    st: Stepped,
}

fn note_event(e: Event, buf: &[u8], s: &mut Seen) {
    match e {
        Event::Signal(x) => if let Some(a) = ALL.iter().find(|a| a.1 == x) { *s.reported.entry(a.0).or_insert(0) += 1 },
        Event::Resize(_) => *s.reported.entry(libc::SIGWINCH).or_insert(0) += 1,
        Event::Raw(n) => s.bytes.extend(&buf[..n]),
        e => s.read.push(format!("{:?}", e)),
    }
}

fn own_counts() -> BTreeMap<c_int, u64> { ALL.iter().map(|x| (x.0, OWN[x.0 as usize].swap(0, SeqCst))).filter(|x| x.1 > 0).collect() }

fn own_handlers() { for (s, _) in ALL { set_disposition(s, own as extern "C" fn(c_int) as usize, 0, &[]); } }

/// Performs the operation made from this seed, with signals raised at these instructions.
fn perform(ctx: &mut Ctx, kind: Kind, mut r: Rng, plan: &[(u64, c_int)], note: bool) -> Result<Seen, Fail> {
    let slot = ctx.pty.slot;
    let mut seen = Seen{out: Vec::new(), results: String::new(), read: Vec::new(), bytes: Vec::new(), reported: BTreeMap::new(), own: BTreeMap::new(), state: None, mask: Vec::new(), st: Stepped::default()};
    default_dispositions();
    let all = mortal::PrepareConfig{report_signals: SignalSet::all(), enable_mouse: false, ..rand_config(&mut r)};
    match kind {
        Kind::Output | Kind::Guard => {
            let t = any_term(&mut r);
            let ops: Vec<(usize, u64)> = (0..r.range(1, 4)).map(|_| (r.below(WOPS), r.next())).collect();
            let big = if r.chance(8) { r.range(100, 9000) } else { 0 };
            ctx.set_term(t);
            ctx.pty.reset(6, 40);
            own_handlers();
            let term = open(ctx)?;
            let st = ok!(term.prepare(all), "prepare");
            ip::take_out(slot);
            props_screen::rough_writes(&mut r, slot);
            if note { ctx.note(format!("TERM={} {:?} {:?} {}", t, kind, ops, big)); }
            let (res, s) = if kind == Kind::Output {
                step::run(plan, || ops.iter().map(|&(o, s)| on_terminal(&term, o, s, big)).collect::<Vec<_>>())
            } else {
                step::run(plan, || {
                    let mut g = term.lock_write().unwrap();
                    let mut v: Vec<_> = ops.iter().map(|&(o, s)| on_terminal_guard(&mut g, o, s, big)).collect();
                    v.push(g.flush());
                    v
                })
            };
            seen.st = s;
            seen.results = format!("{:?}", res);
            seen.out = ip::take_out(slot);
            seen.mask = cur_mask();
            for _ in 0..30 {
                match ok!(term.read_event(ZERO), "read_event") { Some(e) => note_event(e, &[], &mut seen), None => if !ok!(term.wait_event(ZERO), "wait_event") { break; } }
            }
            ok!(term.restore(st), "restore");
        }
        Kind::Screen => {
            let t = pick_term(&mut r);
            let (l, c) = (r.range(1, 4), r.range(2, 12));
            let p = Profile{wide: 20, marks: 20, controls: 5, layout: 10, oob: 5, sparse: true, resize: 0};
            let m = Model::new(l, c);
            let before: Vec<Op> = (0..r.below(6)).map(|_| props_screen::op(&mut r, &p, &m)).collect();
            let ops: Vec<Op> = (0..r.range(1, 4)).map(|_| props_screen::op(&mut r, &p, &m)).collect();
            let guard = r.chance(2);
            let refresh = !r.chance(4);
            ctx.set_term(t);
            ctx.pty.reset(l, c);
            own_handlers();
            let term = open(ctx)?;
            let scr = ok!(Screen::with_terminal(term, all), "creating a Screen");
            for o in &before { on_screen(&scr, o); }
            if r.chance(2) { ok!(scr.refresh(), "refresh"); }
            ip::take_out(slot);
            if note { ctx.note(format!("TERM={} {}x{} {:?}: {:?} {:?} refresh {} guard {}", t, l, c, kind, before, ops, refresh, guard)); }
            let (res, s) = step::run(plan, || if guard {
                let mut g = scr.lock_write().unwrap();
                for o in &ops { on_guard(&mut g, o); }
                if refresh { g.refresh() } else { Ok(()) }
            } else {
                for o in &ops { on_screen(&scr, o); }
                if refresh { scr.refresh() } else { Ok(()) }
            });
            seen.st = s;
            seen.mask = cur_mask();
            seen.results = format!("{:?} {:?} {:?}", res, scr.size(), scr.cursor());
            ok!(scr.refresh(), "refresh");
            seen.out = ip::take_out(slot);
            for _ in 0..30 {
                match ok!(scr.read_event(ZERO), "read_event") { Some(e) => note_event(e, &[], &mut seen), None => if !ok!(scr.wait_event(ZERO), "wait_event") { break; } }
            }
        }
        Kind::Events | Kind::Raw => {
            let t = any_term(&mut r);
            let screen = r.chance(4);
            let t = if screen { pick_term(&mut r) } else { t };
            let caps = crate::caps::caps_cached(t);
            own_handlers();
            let mut io = open_io(ctx, &mut r, t, screen, Some(all))?;
            let chunks: VecDeque<Vec<u8>> = (0..r.range(1, 2)).map(|_| (0..r.range(0, 4)).flat_map(|_| token(&mut r, caps, false)).collect()).collect();
            let typed = chunks.clone();
            virtual_input(slot, chunks, true);
            crate::props_input::rough_reads(&mut r, slot);
            let guard = r.chance(2);
            let wait = r.chance(4);
            let calls = r.range(1, 4);
            let n = r.range(1, 20);
            let mut buf = [0u8; 40];
            let tio = ctx.pty.tio();
            if note { ctx.note(format!("{:?} typed {:?}, {} calls, guard {} buffer {} wait {}", kind, typed, calls, guard, n, wait)); }
            ip::take_out(slot);
            let (res, s) = step::run(plan, || -> std::io::Result<Vec<(Option<Event>, Vec<u8>)>> {
                let mut v = Vec::new();
                for _ in 0..calls {
                    if wait { io.wait(guard, ZERO)?; }
                    let e = if kind == Kind::Raw { io.raw(guard, &mut buf[..n], ZERO)? } else { io.ev(guard, ZERO)? };
                    v.push((e, buf.to_vec()));
                }
                Ok(v)
            });
            seen.st = s;
            seen.mask = cur_mask();
            for (e, b) in ok!(res, "reading") { if let Some(e) = e { note_event(e, &b, &mut seen); } }
            // the rest, what is yet to arrive included
            let mut nothing = 0;
            while nothing < 6 {
                let e = if kind == Kind::Raw { ok!(io.raw(guard, &mut buf[..n], Some(Duration::from_micros(10))), "read_raw") } else { ok!(io.ev(guard, Some(Duration::from_micros(10))), "read_event") };
                match e { Some(Event::Raw(0)) | None => nothing += 1, Some(e) => { nothing = 0; note_event(e, &buf, &mut seen); } }
            }
            ensure!(tio_key(&tio) == tio_key(&ctx.pty.tio()), "{:?}: line settings changed", kind);
            ip::lock().dev[slot].vin = None;
            io.done()?;
        }
        Kind::Prepare | Kind::Restore | Kind::Create | Kind::Drop => {
            let screens = matches!(kind, Kind::Create | Kind::Drop);
            let t = if screens { pick_term(&mut r) } else { any_term(&mut r) };
            let caps = crate::caps::caps_cached(t);
            let mut vt = caps.vt(6, 40);
            ctx.set_term(t);
            ctx.pty.reset(6, 40);
            let t0 = rand_tio(&mut r, &ctx.pty.tio0);
            ctx.pty.set_tio(&t0);
            own_handlers();
            let mut cfg = rand_config(&mut r);
            let mut all = all;
            cfg.enable_mouse = r.chance(2);
            all.enable_mouse = r.chance(2);
            let nested = r.chance(3);
            let term = open(ctx)?;
            let outer = if nested { Some(ok!(term.prepare(all), "prepare")) } else { None };
            if note { ctx.note(format!("TERM={} {:?} {:?} {}", t, kind, cfg, if nested { format!("within {:?}", all) } else { String::new() })); }
            if screens {
                // one Terminal for the state, one for the Screen
                let t2 = open(ctx)?;
                if kind == Kind::Create {
                    let (scr, s) = step::run(plan, || Screen::with_terminal(t2, cfg));
                    let scr = ok!(scr, "creating a Screen");
                    seen.st = s;
                    seen.mask = cur_mask();
                    seen.state = Some(snap(ctx, &mut vt));
                    for _ in 0..30 {
                        match ok!(scr.read_event(ZERO), "read_event") { Some(e) => note_event(e, &[], &mut seen), None => if !ok!(scr.wait_event(ZERO), "wait_event") { break; } }
                    }
                } else {
                    let scr = ok!(Screen::with_terminal(t2, cfg), "creating a Screen");
                    ok!(scr.refresh(), "refresh");
                    let (_, s) = step::run(plan, || drop(scr));
                    seen.st = s;
                    seen.mask = cur_mask();
                    seen.state = Some(snap(ctx, &mut vt));
                }
            } else if kind == Kind::Prepare {
                let (st, s) = step::run(plan, || term.prepare(cfg));
                let st = ok!(st, "prepare");
                seen.st = s;
                seen.mask = cur_mask();
                seen.state = Some(snap(ctx, &mut vt));
                for _ in 0..30 {
                    match ok!(term.read_event(ZERO), "read_event") { Some(e) => note_event(e, &[], &mut seen), None => if !ok!(term.wait_event(ZERO), "wait_event") { break; } }
                }
                ok!(term.restore(st), "restore");
            } else {
                let st = ok!(term.prepare(cfg), "prepare");
                let (res, s) = step::run(plan, || term.restore(st));
                ok!(res, "restore");
                seen.st = s;
                seen.mask = cur_mask();
                seen.state = Some(snap(ctx, &mut vt));
            }
            if let Some(o) = outer { ok!(term.restore(o), "restore"); }
            drop(term);
            seen.own = own_counts();
            // left unread
            default_dispositions();
            drain_signals(ctx)?;
            seen.results = format!("{:?}", cfg.report_signals);
        }
    }
    if seen.own.is_empty() { seen.own = own_counts(); }
    default_dispositions();
    Ok(seen)
}

fn cur_mask() -> Vec<c_int> {
    unsafe {
        let mut m: libc::sigset_t = std::mem::zeroed();
        libc::pthread_sigmask(libc::SIG_BLOCK, std::ptr::null(), &mut m);
        (1..65).filter(|&s| libc::sigismember(&m, s) == 1).collect()
    }
}

pub fn g03(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng.fork();
    let kind = KINDS[(ctx.idx % KINDS.len() as u64) as usize];
    let fork = r.fork();
    drain_signals(ctx)?;
    // once to have everything loaded
    perform(ctx, kind, fork.clone(), &[(0, 0)], true)?;
    let base = perform(ctx, kind, fork.clone(), &[], false)?;
    let n = base.st.instructions;
    ensure!(n > 0, "harness: no instruction was stepped");
    ctx.count("instructions stepped", n);
    ctx.max("max instructions of an operation", n);
    // SIGCONT makes the next read prepare the terminal again, so it is left to P03 where modes are compared
    let modes = matches!(kind, Kind::Prepare | Kind::Restore | Kind::Create | Kind::Drop);
    let rounds = (400_000 / n.max(1)).clamp(4, 24);
    for _ in 0..rounds {
        let not = *r.pick(&[libc::SIGCONT, libc::SIGTSTP]);
        let mut pool: Vec<c_int> = ALL.iter().map(|x| x.0).filter(|&x| x != not && !(modes && x == libc::SIGCONT)).collect();
        r.shuffle(&mut pool);
        pool.truncate(*r.pick(&[1, 1, 2, 3, 4]));
        let plan = step::plan(&mut r, n, &pool);
        let what = format!("{:?} with {:?} at instructions {:?} of {}", kind, plan.iter().map(|p| signame(p.1)).collect::<Vec<_>>(), plan.iter().map(|p| p.0).collect::<Vec<_>>(), n);
        let got = perform(ctx, kind, fork.clone(), &plan, false)?;
        ctx.count("signals at an instruction", got.st.injected.len() as u64);
        for i in &got.st.injected { ctx.state(i.place); }
        ensure!(!got.st.allocated, "{}: the handler allocated memory", what);
        if let Some(k) = got.st.errno_at { fail!("{}: the handler changed errno at instruction {}", what, k); }
        ensure!(got.results == base.results, "{}: returned {}, otherwise {}", what, got.results, base.results);
        ensure!(got.mask == base.mask, "{}: the thread's signal mask is {:?}, otherwise {:?}", what, got.mask, base.mask);
        if kind == Kind::Screen || kind == Kind::Output || kind == Kind::Guard {
            ensure!(got.out == base.out, "{}: sent\n  {}, otherwise\n  {}", what, clip(&show_bytes(&got.out), 700), clip(&show_bytes(&base.out), 700));
            ctx.count(if kind == Kind::Screen { "screens compared" } else { "outputs compared" }, 1);
        }
        if kind == Kind::Events || kind == Kind::Raw {
            ensure!(got.read == base.read, "{}: read {:?}, otherwise {:?}", what, got.read, base.read);
            ensure!(got.bytes == base.bytes, "{}: read {}, otherwise {}", what, show_bytes(&got.bytes), show_bytes(&base.bytes));
            ctx.count("inputs compared", 1);
        }
        if let (Some(a), Some(b)) = (&base.state, &got.state) {
            a.same(b, &what, false)?;
            ctx.count("states compared", 1);
        }
        for (s, _) in ALL {
            let sent = got.st.injected.iter().filter(|i| i.sig == s).count() as u64;
            let (rep, own) = (got.reported.get(&s).copied().unwrap_or(0), got.own.get(&s).copied().unwrap_or(0));
            ensure!(rep + own <= sent, "{}: {} was raised {} times, reported {} times and handled by the program {} times", what, signame(s), sent, rep, own);
            if !modes { ensure!(rep == sent, "{}: {} was raised {} times and reported {} times", what, signame(s), sent, rep); }
            ctx.count("signals reported", rep);
            ctx.count("signals handled by the program", own);
        }
    }
    let h = ctx.trace_hash();
    ctx.distinct(h);
    ctx.sample_trace();
    Ok(())
}
