//! R01: descriptors.

use crate::dev::*;
use crate::interpose as ip;
use crate::props_conc::planned_panic;
use crate::props_input::ZERO;
use crate::props_prep::default_dispositions;
use crate::props_screen::rand_config;
use crate::props_term::any_term;
use crate::run::{CaseResult, Ctx, Planned};
use crate::util::*;
use crate::{ensure, fail};
use libc::c_int;
use mortal::unix::OpenTerminalExt;
use mortal::{Screen, Terminal};
use std::io;

enum Obj { T(Terminal), S(Screen) }

impl Obj {
    fn touch(&mut self, r: &mut Rng, slot: usize) {
        // Whether this succeeds does not matter here
        match self {
            Obj::T(t) => match r.below(6) {
                0 => { let _ = t.write_str("text"); }
                1 => { let _ = t.read_event(ZERO); }
                2 => { let _ = t.size(); }
                3 => { if let Ok(s) = t.prepare(rand_config(r)) { let _ = t.restore(s); } }
                4 => { let _ = t.set_cursor_mode(mortal::CursorMode::Overwrite); }
                _ => {
                    { let e = *r.pick(&[libc::EIO, libc::ENOSPC]); let mut g = ip::lock(); let n = g.fault_count; g.fault = Some((n, e)); }
                    let _ = t.write_str(&"x".repeat(r.below(9000)));
                    ip::lock().fault = None;
                }
            },
            Obj::S(s) => match r.below(4) {
                0 => { s.write_str("text"); let _ = s.refresh(); }
                1 => { let _ = s.read_event(ZERO); }
                2 => { if let Ok(mut g) = s.lock_write() { g.write_str("x"); } }
                _ => { unsafe { libc::raise(*r.pick(&[libc::SIGWINCH, libc::SIGCONT])); } let _ = s.read_event(ZERO); }
            },
        }
        let mut g = ip::lock();
        g.dev[slot].out.clear();
        g.dev[slot].recs.clear();
    }
    fn panic_inside(self, r: &mut Rng) {
        let how = r.below(3);
        assert!(planned_panic(move || {
            let o = self;
            match &o {
                Obj::T(t) => { let _r = if how != 1 { t.lock_read().ok() } else { None }; let _w = if how != 0 { t.lock_write().ok() } else { None }; std::panic::panic_any(Planned) }
                Obj::S(t) => { let _r = if how != 1 { t.lock_read().ok() } else { None }; let _w = if how != 0 { t.lock_write().ok() } else { None }; std::panic::panic_any(Planned) }
            }
        }), "harness: no panic");
    }
}

fn fds() -> Vec<(c_int, String)> { open_fds() }

/// Status flags (shared with every other holder of the open file) and descriptor flags
fn flags(of: &[(c_int, String)]) -> Vec<(c_int, c_int, c_int)> {
    of.iter().map(|x| unsafe { (x.0, libc::fcntl(x.0, libc::F_GETFL), libc::fcntl(x.0, libc::F_GETFD)) }).collect()
}

fn diff(a: &[(c_int, String)], b: &[(c_int, String)]) -> (Vec<(c_int, String)>, Vec<(c_int, String)>) {
    (b.iter().filter(|x| !a.contains(x)).cloned().collect(), a.iter().filter(|x| !b.contains(x)).cloned().collect())
}

fn dup_to(from: c_int, to: c_int) { unsafe { libc::dup2(from, to); } }

/// Standard error is the device while this lives.
struct Stderr(c_int);
impl Stderr {
    fn new(slave: c_int) -> Stderr { unsafe { let s = libc::fcntl(2, libc::F_DUPFD_CLOEXEC, 230); libc::dup2(slave, 2); Stderr(s) } }
}
impl Drop for Stderr { fn drop(&mut self) { dup_to(self.0, 2); unsafe { libc::syscall(libc::SYS_close, self.0); } } }

pub fn r01(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng.fork();
    default_dispositions();
    ctx.pty.reset(24, 80);
    let slot = ctx.pty.slot;
    if r.chance(25) { return together(ctx, &mut r); }
    let dir = std::env::temp_dir();
    let file = dir.join(format!("mon-fd-{}", std::process::id()));
    let err = Stderr::new(ctx.pty.slave);
    let (e0, o0) = { let g = ip::lock(); (g.close_ebadf, g.opens) };
    let base = fds();
    let mut now = base.clone();
    let mut had = flags(&base);
    // objects and the descriptor each owns
    let mut live: Vec<(Obj, Option<(c_int, String)>)> = Vec::new();
    let mut decoys: Vec<(c_int, String)> = Vec::new();
    let res = (|| -> CaseResult {
        for _ in 0..r.range(3, 14) {
            let damaged = *r.pick(&crate::ti::DAMAGED);
            let term = if r.chance(4) { *r.pick(&["", "no-such-terminal", "xterm-nothing", "/", "\u{e9}", damaged, damaged]) } else { any_term(&mut r) };
            let fault = if r.chance(3) { Some((r.below(14) as u32, *r.pick(&[libc::EIO, libc::EINVAL, libc::EMFILE, libc::EAGAIN]))) } else { None };
            if term.is_empty() && r.chance(2) { std::env::remove_var("TERM"); } else { ctx.set_term(term); }
            let mut what;
            // how many descriptors this may add or must take away
            let mut gain: Option<Option<String>> = None; // path opened, if it was
            let mut lose: Option<(c_int, String)> = None;
            let arm = |on: bool| {
                let mut g = ip::lock();
                g.fault = if on { fault } else { None };
                g.fault_count = 0;
                ip::WATCH_SIGACT.with(|w| w.set(on));
            };
            match r.below(13) {
                0 | 1 | 2 => {
                    let path = match r.below(9) {
                        0 => "/nonexistent/tty".to_string(),
                        1 => "/tmp".to_string(),
                        2 => "/dev/null".to_string(),
                        3 => { std::fs::write(&file, b"").expect("harness: file"); file.to_string_lossy().into_owned() }
                        4 => "".to_string(),
                        5 => "a\0b".to_string(),
                        _ => ctx.pty.path.clone(),
                    };
                    what = format!("TERM={:?} from_path({:?}) fault {:?}", term, path, fault);
                    arm(true);
                    let t = Terminal::from_path(&path);
                    arm(false);
                    match t {
                        Ok(t) => { gain = Some(Some(path)); live.push((Obj::T(t), None)); ctx.count("terminals opened by path", 1); }
                        Err(e) => { what += &format!(": {}", e); ctx.count("failed opens", 1); }
                    }
                }
                3 => {
                    let e = r.chance(2);
                    what = format!("TERM={:?} Terminal::{}() fault {:?}", term, if e { "stderr" } else { "new" }, fault);
                    arm(true);
                    let t = if e { Terminal::stderr() } else { Terminal::new() };
                    arm(false);
                    match t { Ok(t) => { live.push((Obj::T(t), None)); ctx.count("terminals on standard streams", 1); } Err(e) => { what += &format!(": {}", e); ctx.count("failed opens", 1); } }
                }
                4 => {
                    let e = r.chance(2);
                    let c = rand_config(&mut r);
                    what = format!("TERM={:?} Screen::{}() fault {:?}", term, if e { "stderr" } else { "new" }, fault);
                    if live.iter().any(|o| matches!(o.0, Obj::S(_))) { continue; }
                    arm(true);
                    let t = if e { Screen::stderr(c) } else { Screen::new(c) };
                    arm(false);
                    match t { Ok(t) => { live.push((Obj::S(t), None)); ctx.count("screens on standard streams", 1); } Err(e) => { what += &format!(": {}", e); ctx.count("failed screens", 1); } }
                }
                5 => {
                    let c = rand_config(&mut r);
                    what = format!("TERM={:?} Screen::from_path", term);
                    if live.iter().any(|o| matches!(o.0, Obj::S(_))) { continue; }
                    arm(true);
                    let t = Terminal::from_path(&ctx.pty.path).and_then(|t| Screen::with_terminal(t, c));
                    arm(false);
                    match t { Ok(t) => { gain = Some(Some(ctx.pty.path.clone())); live.push((Obj::S(t), None)); } Err(e) => { what += &format!(" fault {:?}: {}", fault, e); ctx.count("failed screens", 1); } }
                }
                6 | 7 if !live.is_empty() => {
                    // A Screen on one of them, or not
                    let i = r.below(live.len());
                    if live.iter().any(|o| matches!(o.0, Obj::S(_))) { continue; }
                    let (o, fd) = live.swap_remove(i);
                    let t = match o { Obj::T(t) => t, Obj::S(_) => continue };
                    what = format!("Screen::with_terminal(descriptor {:?}) fault {:?}", fd, fault);
                    let c = rand_config(&mut r);
                    arm(true);
                    let s = Screen::with_terminal(t, c);
                    arm(false);
                    match s {
                        Ok(s) => { live.push((Obj::S(s), fd)); ctx.count("screens started", 1); }
                        Err(e) => { what += &format!(": {}", e); lose = fd; ctx.count("failed screens", 1); }
                    }
                }
                8 | 9 if !live.is_empty() => {
                    let i = r.below(live.len());
                    let (mut o, fd) = live.swap_remove(i);
                    let how = r.below(5);
                    what = format!("drop of descriptor {:?} in way {}", fd, how);
                    match how {
                        0 => { arm(true); drop(o); arm(false); }
                        1 => { o.panic_inside(&mut r); }
                        2 => { assert!(planned_panic(move || { let _o = o; std::panic::panic_any(Planned); }), "harness: no panic"); }
                        3 => { o.touch(&mut r, slot); std::thread::scope(|sc| { sc.spawn(move || drop(o)).join().unwrap(); }); }
                        _ => drop(o),
                    }
                    lose = fd;
                    ctx.count("drops", 1);
                }
                10 => {
                    // Others get the numbers that are free now
                    what = "decoy".to_string();
                    let f = std::fs::File::open("/dev/zero").expect("harness: decoy");
                    use std::os::fd::IntoRawFd;
                    let n = f.into_raw_fd();
                    decoys.push((n, "/dev/zero".to_string()));
                    now.push((n, "/dev/zero".to_string()));
                    ctx.count("decoys", 1);
                }
                _ if !live.is_empty() => {
                    let i = r.below(live.len());
                    what = format!("use of descriptor {:?}", live[i].1);
                    live[i].0.touch(&mut r, slot);
                }
                _ => continue,
            }
            ctx.note(what.clone());
            let after = fds();
            let (more, less) = diff(&now, &after);
            // none is put into another mode
            let f = flags(&after);
            for x in &f {
                match had.iter().find(|y| y.0 == x.0 && now.contains(after.iter().find(|a| a.0 == x.0).unwrap())) {
                    Some(y) => ensure!(x == y, "{}: flags of descriptor {} were {:#o}, {} and are {:#o}, {}", what, x.0, y.1, y.2, x.1, x.2),
                    None => {
                        ensure!(x.2 & libc::FD_CLOEXEC != 0, "{}: the new descriptor {:?} is inherited by programs that are started", what, more);
                        ensure!(x.1 & libc::O_NONBLOCK == 0, "{}: the new descriptor {:?} does not block", what, more);
                    }
                }
            }
            ctx.count("descriptor flags compared", f.len() as u64);
            had = f;
            match &gain {
                Some(Some(p)) => {
                    ensure!(more.len() == 1, "{}: succeeded, new descriptors {:?}", what, more);
                    let target = std::fs::canonicalize(p).map(|p| p.to_string_lossy().into_owned()).unwrap_or_default();
                    ensure!(more[0].1 == target, "{}: succeeded, the new descriptor is {:?}", what, more);
                    live.last_mut().unwrap().1 = Some(more[0].clone());
                    now.push(more[0].clone());
                }
                _ => ensure!(more.is_empty(), "{}: left descriptors open: {:?}", what, more),
            }
            match lose {
                Some(fd) => {
                    ensure!(less == [fd.clone()], "{}: closed {:?}", what, less);
                    now.retain(|x| *x != fd);
                }
                None => ensure!(less.is_empty(), "{}: closed descriptors {:?}", what, less),
            }
            let e = ip::lock().close_ebadf;
            ensure!(e == e0, "{}: closed a descriptor that was not open", what);
            ctx.count("descriptor tables compared", 1);
            ctx.state(combine(live.len() as u64 * 16 + decoys.len() as u64, hash_str(&format!("{:?}", now.iter().map(|x| x.0).collect::<Vec<_>>()))));
        }
        Ok(())
    })();
    // drop everything
    { let mut g = ip::lock(); g.fault = None; }
    ip::WATCH_SIGACT.with(|w| w.set(false));
    live.clear();
    let after = fds();
    for (n, _) in &decoys { unsafe { libc::syscall(libc::SYS_close, *n); } }
    let _ = std::fs::remove_file(&file);
    drop(err);
    default_dispositions();
    res?;
    let want: Vec<(c_int, String)> = { let mut v = base.clone(); v.extend(decoys); v.sort(); v };
    ensure!(after == want, "after dropping everything the open descriptors are {:?}, expected {:?}", after, want);
    let g = ip::lock();
    ensure!(g.close_ebadf == e0, "a descriptor that was not open was closed");
    ctx.count("device opens", g.opens - o0);
    drop(g);
    let h = ctx.trace_hash();
    ctx.distinct(h);
    ctx.sample_trace();
    Ok(())
}

/// Several threads open and drop their own.
fn together(ctx: &mut Ctx, r: &mut Rng) -> CaseResult {
    ctx.set_term("xterm");
    let base = fds();
    let e0 = ip::lock().close_ebadf;
    let bad = crate::props_conc::Bad::default();
    std::thread::scope(|sc| {
        for k in 0..r.range(2, 5) {
            let (mut tr, bad, path) = (r.fork(), &bad, &ctx.pty.path);
            sc.spawn(move || bad.put((|| -> CaseResult {
                for _ in 0..20 {
                    if k == 0 {
                        // A bystander whose file must stay its own
                        use std::io::Read;
                        let mut f = std::fs::File::open("/dev/zero").map_err(|e| format!("harness: {}", e))?;
                        crate::props_conc::pause(&mut tr);
                        let mut b = [1u8; 8];
                        match f.read(&mut b) { Ok(8) if b == [0; 8] => (), x => fail!("another thread's file is gone: {:?} {:?}", x, b) }
                    } else {
                        let t: io::Result<Terminal> = Terminal::from_path(if tr.chance(4) { "/tmp" } else { path });
                        crate::props_conc::pause(&mut tr);
                        if let Ok(t) = t { if let Err(e) = t.write_str("x") { fail!("a terminal another thread knows nothing of fails: {}", e); } }
                    }
                }
                Ok(())
            })()));
        }
    });
    bad.take()?;
    let after = fds();
    ensure!(after == base, "open descriptors before {:?}, after {:?}", base, after);
    ensure!(ip::lock().close_ebadf == e0, "a descriptor that was not open was closed");
    ctx.count("concurrent opens and drops", 20);
    let h = combine(ctx.idx, 77);
    ctx.distinct(h);
    Ok(())
}
