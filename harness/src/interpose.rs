//! System-call boundary monitor.
//!
//! The executable defines the libc entry points below itself, so that every call the library (or std)
//! makes goes through here. Calls on descriptors that do not refer to a monitored terminal device pass
//! straight through. For monitored devices each call is counted, may be perturbed by the case's plan
//! (short counts, errors, delays, signals, arrivals) and is logged.

use crate::util::Rng;
use libc::{c_char, c_int, c_void, fd_set, mode_t, pollfd, sigset_t, size_t, ssize_t, timespec, timeval};
use std::collections::{HashMap, VecDeque};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Mutex, MutexGuard};
use std::time::Instant;

pub const MAXDEV: usize = 4;

#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind { Write, Read, Wait, Winsize, TcGet, TcSet, SigAct, Open, Close, MaskPre, MaskPost }

#[derive(Clone, Debug)]
pub enum Act {
    /// Fail with this errno
    Errno(i32),
    /// Transfer at most this many bytes
    Short(usize),
    /// Raise a signal in the calling thread, then go on
    Raise(i32),
    /// Make these bytes available as input, then go on
    Feed(Vec<u8>),
    /// Sleep, then go on
    DelayUs(u64),
    /// Return 0 bytes
    Zero,
}

#[derive(Clone, Debug)]
pub struct WriteRec { pub tid: u64, pub off: usize, pub len: usize, pub req: usize, pub errno: i32 }

#[derive(Clone, Debug)]
pub struct WaitRec { pub timeout_us: Option<i64>, pub ret: i32, pub errno: i32 }

#[derive(Default)]
pub struct WPlan {
    pub short_pct: u32,
    pub eintr_pct: u32,
    pub err_pct: u32,
    pub delay_pct: u32,
    pub delay_us: u64,
    pub rng: Option<Rng>,
}

#[derive(Default)]
pub struct RPlan { pub short_pct: u32, pub short_max: usize, pub eintr_pct: u32, pub rng: Option<Rng> }

/// Virtual input: what a reader can get without the kernel.
#[derive(Default)]
pub struct VirtIn {
    pub queue: VecDeque<u8>,
    /// Chunks that arrive one by one each time a wait finds the queue empty
    pub arrivals: VecDeque<Vec<u8>>,
    /// Set when a wait without timeout found nothing, now or scheduled
    pub starved: bool,
    /// the terminal is hung up: end of file
    pub eof: bool,
    pub total_read: usize,
    /// What arrives when, on a clock that only waiting advances
    pub clock: Option<VirtClock>,
}

#[derive(Default)]
pub struct VirtClock {
    /// (virtual microsecond, what)
    pub arrivals: VecDeque<(u64, Vec<u8>)>,
    pub eintr_pct: u32,
    pub rng: Option<Rng>,
    pub interrupted: u64,
}

thread_local! { static AHEAD: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }

/// How far this thread's clock is ahead of the system's, in microseconds
pub fn ahead() -> u64 { AHEAD.with(|a| a.get()) }
pub fn back_to_now() { AHEAD.with(|a| a.set(0)); }
fn advance(us: u64) { AHEAD.with(|a| a.set(a.get() + us)); }

/// The monotonic clock includes time waited virtually.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, t: *mut timespec) -> c_int {
    static REAL: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let mut f = REAL.load(SeqCst);
    let _pause = crate::step::pause();
    if f == 0 {
        f = libc::dlsym(libc::RTLD_NEXT, c"clock_gettime".as_ptr()) as usize;
        REAL.store(f, SeqCst);
    }
    let ret = if f == 0 { libc::syscall(libc::SYS_clock_gettime, id, t) as c_int }
        else { std::mem::transmute::<usize, unsafe extern "C" fn(libc::clockid_t, *mut timespec) -> c_int>(f)(id, t) };
    if ret == 0 && id == libc::CLOCK_MONOTONIC {
        let us = AHEAD.try_with(|a| a.get()).unwrap_or(0);
        if us > 0 {
            (*t).tv_sec += (us / 1_000_000) as i64;
            (*t).tv_nsec += (us % 1_000_000) as i64 * 1000;
            if (*t).tv_nsec >= 1_000_000_000 { (*t).tv_nsec -= 1_000_000_000; (*t).tv_sec += 1; }
        }
    }
    ret
}

#[derive(Default)]
pub struct Dev {
    pub out: Vec<u8>,
    pub recs: Vec<WriteRec>,
    pub wplan: WPlan,
    /// writes failed by the plan
    pub failed: u64,
    pub rplan: RPlan,
    pub vin: Option<VirtIn>,
    pub waits: Vec<WaitRec>,
    pub acts: HashMap<(Kind, u32), Vec<Act>>,
    pub counts: HashMap<Kind, u32>,
    pub injected: u64,
    pub pass_writes: bool,
    pub master: c_int,
    /// EINTR percentage for waits (returned without a signal)
    pub wait_eintr_pct: u32,
    pub log: Vec<(Kind, i64, i32)>,
    pub keep_log: bool,
}

pub struct Global {
    pub dev: [Dev; MAXDEV],
    /// fail the nth monitored fallible call (0-based) with errno
    pub fault: Option<(u32, i32)>,
    pub fault_count: u32,
    pub fault_hit: Option<Kind>,
    /// waits count, too
    pub fault_waits: bool,
    pub close_ebadf: u64,
    pub opens: u64,
}

static ACTIVE: AtomicBool = AtomicBool::new(false);
static RDEV: [AtomicU64; MAXDEV] = [AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0)];
static OPS: AtomicUsize = AtomicUsize::new(0);
pub static WAITING: AtomicU32 = AtomicU32::new(0);
static G: Mutex<Option<Box<Global>>> = Mutex::new(None);

pub fn ops() -> usize { OPS.load(SeqCst) }

pub struct Lock(MutexGuard<'static, Option<Box<Global>>>);
impl std::ops::Deref for Lock { type Target = Global; fn deref(&self) -> &Global { self.0.as_ref().unwrap() } }
impl std::ops::DerefMut for Lock { fn deref_mut(&mut self) -> &mut Global { self.0.as_mut().unwrap() } }

pub fn lock() -> Lock {
    let mut g = G.lock().unwrap_or_else(|e| e.into_inner());
    if g.is_none() {
        *g = Some(Box::new(Global{
            dev: Default::default(), fault: None, fault_count: 0, fault_hit: None, fault_waits: false,
            close_ebadf: 0, opens: 0,
        }));
    }
    Lock(g)
}

pub fn register(i: usize, rdev: u64, master: c_int) {
    let mut g = lock();
    g.dev[i] = Dev{master, ..Dev::default()};
    RDEV[i].store(rdev, SeqCst);
    ACTIVE.store(true, SeqCst);
}

pub fn set_active(on: bool) { ACTIVE.store(on, SeqCst); }

/// Forgets everything recorded and planned for device `i`.
pub fn reset(i: usize) {
    let mut g = lock();
    let master = g.dev[i].master;
    g.dev[i] = Dev{master, ..Dev::default()};
    g.fault = None;
    g.fault_count = 0;
    g.fault_hit = None;
    g.fault_waits = false;
}

pub fn take_out(i: usize) -> Vec<u8> {
    let mut g = lock();
    g.dev[i].recs.clear();
    std::mem::take(&mut g.dev[i].out)
}

fn errno_ptr() -> *mut c_int { unsafe { libc::__errno_location() } }
fn set_errno(e: c_int) { unsafe { *errno_ptr() = e } }
fn get_errno() -> c_int { unsafe { *errno_ptr() } }

fn dev_of(fd: c_int) -> Option<usize> {
    if !ACTIVE.load(SeqCst) || fd < 0 { return None; }
    let saved = get_errno();
    let mut st: libc::stat = unsafe { std::mem::zeroed() };
    let r = unsafe { libc::fstat(fd, &mut st) };
    set_errno(saved);
    if r != 0 || st.st_mode & libc::S_IFMT != libc::S_IFCHR { return None; }
    for i in 0..MAXDEV {
        if RDEV[i].load(SeqCst) == st.st_rdev && st.st_rdev != 0 { return Some(i); }
    }
    None
}

thread_local! { static TID: u64 = unsafe { libc::syscall(libc::SYS_gettid) as u64 }; }
pub fn tid() -> u64 { TID.with(|t| *t) }

/// What to do after consulting the plan for one call.
enum Go { On, Fail(c_int), Short(usize), Zero }

fn consult(i: usize, kind: Kind) -> Go {
    let mut go = Go::On;
    let mut later: Vec<Act> = Vec::new();
    let master;
    {
        let mut g = lock();
        OPS.fetch_add(1, SeqCst);
        let fc = g.fault_count;
        if !matches!(kind, Kind::Close | Kind::MaskPre | Kind::MaskPost) && (kind != Kind::Wait || g.fault_waits) {
            g.fault_count += 1;
            if let Some((n, e)) = g.fault {
                if n == fc {
                    g.fault_hit = Some(kind);
                    g.dev[i].injected += 1;
                    return Go::Fail(e);
                }
            }
        }
        let d = &mut g.dev[i];
        master = d.master;
        let c = d.counts.entry(kind).or_insert(0);
        let n = *c;
        *c += 1;
        if let Some(v) = d.acts.remove(&(kind, n)) {
            d.injected += v.len() as u64;
            for a in v {
                match a {
                    Act::Errno(e) => go = Go::Fail(e),
                    Act::Short(n) => go = Go::Short(n),
                    Act::Zero => go = Go::Zero,
                    Act::Feed(b) if d.vin.is_some() => d.vin.as_mut().unwrap().queue.extend(b),
                    other => later.push(other),
                }
            }
        }
    }
    for a in later {
        match a {
            Act::Raise(s) => unsafe { libc::raise(s); },
            Act::Feed(b) => raw_write_all(master, &b),
            Act::DelayUs(u) => std::thread::sleep(std::time::Duration::from_micros(u)),
            _ => (),
        }
    }
    go
}

pub fn raw_write_all(fd: c_int, mut b: &[u8]) {
    while !b.is_empty() {
        let n = unsafe { libc::syscall(libc::SYS_write, fd, b.as_ptr(), b.len()) };
        if n <= 0 {
            if n < 0 && get_errno() == libc::EINTR { continue; }
            return;
        }
        b = &b[n as usize..];
    }
}

fn jitter(i: usize) {
    let (hit, us, x) = {
        let mut g = lock();
        let p = &mut g.dev[i].wplan;
        if p.delay_pct == 0 { return; }
        let (pct, us) = (p.delay_pct, p.delay_us);
        match p.rng.as_mut() {
            Some(r) => (r.pct(pct), us, r.next()),
            None => return,
        }
    };
    if hit {
        match x % 3 {
            0 => std::thread::yield_now(),
            1 => for _ in 0..(x >> 8) % 4000 { std::hint::spin_loop(); },
            _ => std::thread::sleep(std::time::Duration::from_micros((x >> 8) % us.max(1))),
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    let _pause = (crate::mem::pause(), crate::step::pause());
    let i = match dev_of(fd) { Some(i) => i, None => return libc::syscall(libc::SYS_write, fd, buf, n) as ssize_t };
    jitter(i);
    let go = consult(i, Kind::Write);
    let data = std::slice::from_raw_parts(buf as *const u8, n);
    let ret = {
        let mut g = lock();
        let d = &mut g.dev[i];
        let mut len = n;
        let mut err = 0;
        match go {
            Go::Fail(e) => err = e,
            Go::Short(k) => len = k.min(n),
            Go::Zero => len = 0,
            Go::On => {
                let (s, e) = (d.wplan.short_pct, d.wplan.eintr_pct);
                let x = d.wplan.err_pct;
                if s + e + x > 0 {
                    if let Some(r) = d.wplan.rng.as_mut() {
                        if r.pct(x) { err = *r.pick(&[libc::EIO, libc::EAGAIN, libc::ENOSPC, libc::EBADF]); d.failed += 1; }
                        else if r.pct(e) { err = libc::EINTR; d.injected += 1; }
                        else if n > 1 && r.pct(s) { len = r.range(1, n - 1); d.injected += 1; }
                    }
                }
            }
        }
        let off = d.out.len();
        let rec = WriteRec{tid: tid(), off, len: if err != 0 { 0 } else { len }, req: n, errno: err};
        d.recs.push(rec);
        if err != 0 { set_errno(err); -1 }
        else {
            d.out.extend_from_slice(&data[..len]);
            len as isize
        }
    };
    let pass = ret > 0 && lock().dev[i].pass_writes;
    if pass { raw_write_all(fd, &data[..ret as usize]); }
    let saved = get_errno();
    jitter(i);
    set_errno(saved);
    ret
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    let _pause = (crate::mem::pause(), crate::step::pause());
    if dev_of(fd).is_none() { return libc::syscall(libc::SYS_writev, fd, iov, cnt) as ssize_t; }
    for k in 0..cnt as usize {
        let v = &*iov.add(k);
        if v.iov_len > 0 { return write(fd, v.iov_base, v.iov_len); }
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if dev_of(fd).is_none() { return libc::syscall(libc::SYS_readv, fd, iov, cnt) as ssize_t; }
    for k in 0..cnt as usize {
        let v = &*iov.add(k);
        if v.iov_len > 0 { return read(fd, v.iov_base, v.iov_len); }
    }
    0
}

/// Lets the sanitizer see that the whole of a buffer is given to the kernel.
unsafe fn touch(buf: *mut c_void, n: usize) {
    if cfg!(feature = "san") && n > 0 && n < 1 << 24 {
        let mut tmp = vec![0u8; n];
        std::ptr::copy_nonoverlapping(std::hint::black_box(buf) as *const u8, tmp.as_mut_ptr(), n);
        std::ptr::copy_nonoverlapping(std::hint::black_box(tmp.as_ptr()), buf as *mut u8, n);
    }
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    let _pause = (crate::mem::pause(), crate::step::pause());
    let i = match dev_of(fd) { Some(i) => i, None => return libc::syscall(libc::SYS_read, fd, buf, n) as ssize_t };
    touch(buf, n);
    let go = consult(i, Kind::Read);
    let mut lim = n;
    match go {
        Go::Fail(e) => { set_errno(e); return -1; }
        Go::Zero => return 0,
        Go::Short(k) => lim = k.min(n),
        Go::On => {
            let mut g = lock();
            let d = &mut g.dev[i];
            let (s, e, m) = (d.rplan.short_pct, d.rplan.eintr_pct, d.rplan.short_max);
            if s + e > 0 {
                if let Some(r) = d.rplan.rng.as_mut() {
                    if r.pct(e) { d.injected += 1; set_errno(libc::EINTR); return -1; }
                    if n > 1 && r.pct(s) { lim = r.range(1, m.max(1)).min(n); d.injected += 1; }
                }
            }
        }
    }
    {
        let mut g = lock();
        let d = &mut g.dev[i];
        if let Some(v) = d.vin.as_mut() {
            let k = lim.min(v.queue.len());
            let out = std::slice::from_raw_parts_mut(buf as *mut u8, k);
            for b in out.iter_mut() { *b = v.queue.pop_front().unwrap(); }
            v.total_read += k;
            if d.keep_log { d.log.push((Kind::Read, k as i64, 0)); }
            return k as ssize_t;
        }
    }
    let r = {
        let mut tmp = vec![0u8; if cfg!(feature = "san") { lim } else { 0 }];
        let r = libc::syscall(libc::SYS_read, fd, if cfg!(feature = "san") { tmp.as_mut_ptr() as *mut c_void } else { buf }, lim) as ssize_t;
        if r > 0 && cfg!(feature = "san") { std::ptr::copy_nonoverlapping(tmp.as_ptr(), buf as *mut u8, r as usize); }
        r
    };
    let saved = get_errno();
    {
        let mut g = lock();
        let d = &mut g.dev[i];
        if d.keep_log { d.log.push((Kind::Read, r as i64, saved)); }
    }
    set_errno(saved);
    r
}

/// Decides a virtual wait: Some(ready) or None to ask the kernel.
fn virt_wait(i: usize, timeout_us: Option<i64>) -> Option<Result<bool, c_int>> {
    let mut g = lock();
    let d = &mut g.dev[i];
    let v = d.vin.as_mut()?;
    if let Some(c) = v.clock.as_mut() {
        let now = ahead();
        while c.arrivals.front().map_or(false, |a| a.0 <= now) { v.queue.extend(c.arrivals.pop_front().unwrap().1); }
        if !v.queue.is_empty() { return Some(Ok(true)); }
        let until = timeout_us.map(|t| now.saturating_add(t.max(0) as u64));
        let next = c.arrivals.front().map(|a| a.0);
        let end = match (until, next) { (Some(u), Some(n)) => u.min(n), (Some(u), None) => u, (None, Some(n)) => n, (None, None) => { v.starved = true; return Some(Err(libc::EIO)); } };
        if end > now {
            let pct = c.eintr_pct;
            if let Some(r) = c.rng.as_mut() {
                if r.pct(pct) { advance(r.next() % (end - now)); c.interrupted += 1; return Some(Err(libc::EINTR)); }
            }
            advance(end - now);
        }
        if next == Some(end) { v.queue.extend(c.arrivals.pop_front().unwrap().1); return Some(Ok(true)); }
        return Some(Ok(false));
    }
    if v.queue.is_empty() {
        // A zero timeout is a poll: nothing arrives during it.
        if timeout_us != Some(0) {
            if let Some(c) = v.arrivals.pop_front() { v.queue.extend(c); }
        }
    }
    let ready = !v.queue.is_empty() || v.eof;
    if !ready && timeout_us.is_none() {
        v.starved = true;
        return Some(Err(libc::EIO));
    }
    Some(Ok(ready))
}

fn note_wait(i: usize, timeout_us: Option<i64>, ret: c_int, errno: c_int) {
    let mut g = lock();
    g.dev[i].waits.push(WaitRec{timeout_us, ret, errno});
}

fn wait_eintr(i: usize) -> bool {
    let mut g = lock();
    let d = &mut g.dev[i];
    let p = d.wait_eintr_pct;
    if p == 0 { return false; }
    let hit = match d.rplan.rng.as_mut() { Some(r) => r.pct(p), None => false };
    if hit { d.injected += 1; }
    hit
}

unsafe fn fdset_dev(nfds: c_int, r: *mut fd_set) -> Option<(usize, c_int)> {
    if r.is_null() { return None; }
    for fd in 0..nfds.min(1024) {
        if libc::FD_ISSET(fd, r) {
            if let Some(i) = dev_of(fd) { return Some((i, fd)); }
        }
    }
    None
}

/// Has a signal arrived that is let through while waiting? It is handled now.
unsafe fn interrupted(i: usize, m: *const sigset_t) -> bool {
    if m.is_null() || !lock().dev[i].vin.as_ref().map_or(false, |v| v.clock.is_some()) { return false; }
    #[repr(C)]
    struct SM { p: *const sigset_t, n: usize }
    let ts = timespec{tv_sec: 0, tv_nsec: 0};
    let sm = SM{p: m, n: 8};
    let none = std::ptr::null_mut::<fd_set>();
    libc::syscall(libc::SYS_pselect6, 0, none, none, none, &ts, &sm as *const SM) < 0 && get_errno() == libc::EINTR
}

unsafe fn select_core(i: usize, fd: c_int, r: *mut fd_set, w: *mut fd_set, e: *mut fd_set,
        timeout_us: Option<i64>, m: *const sigset_t, real: &mut dyn FnMut() -> c_int) -> c_int {
    if let Go::Fail(en) = consult(i, Kind::Wait) {
        note_wait(i, timeout_us, -1, en);
        set_errno(en);
        return -1;
    }
    if wait_eintr(i) {
        note_wait(i, timeout_us, -1, libc::EINTR);
        set_errno(libc::EINTR);
        return -1;
    }
    if interrupted(i, m) {
        note_wait(i, timeout_us, -1, libc::EINTR);
        set_errno(libc::EINTR);
        return -1;
    }
    match virt_wait(i, timeout_us) {
        None => {
            WAITING.fetch_add(1, SeqCst);
            let ret = real();
            let saved = get_errno();
            WAITING.fetch_sub(1, SeqCst);
            note_wait(i, timeout_us, ret, if ret < 0 { saved } else { 0 });
            set_errno(saved);
            ret
        }
        Some(Err(en)) => { note_wait(i, timeout_us, -1, en); set_errno(en); -1 }
        Some(Ok(ready)) => {
            for s in [r, w, e] { if !s.is_null() { libc::FD_ZERO(s); } }
            if ready { libc::FD_SET(fd, r); }
            note_wait(i, timeout_us, ready as c_int, 0);
            ready as c_int
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn select(nfds: c_int, r: *mut fd_set, w: *mut fd_set, e: *mut fd_set, t: *mut timeval) -> c_int {
    let _pause = (crate::mem::pause(), crate::step::pause());
    let mut real = || -> c_int {
        // Like the kernel's select: the remaining time is written back.
        libc::syscall(libc::SYS_select, nfds, r, w, e, t) as c_int
    };
    match fdset_dev(nfds, r) {
        None => real(),
        Some((i, fd)) => {
            let us = if t.is_null() { None } else { Some((*t).tv_sec.saturating_mul(1_000_000).saturating_add((*t).tv_usec)) };
            select_core(i, fd, r, w, e, us, std::ptr::null(), &mut real)
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn pselect(nfds: c_int, r: *mut fd_set, w: *mut fd_set, e: *mut fd_set,
        t: *const timespec, m: *const sigset_t) -> c_int {
    let _pause = (crate::mem::pause(), crate::step::pause());
    #[repr(C)]
    struct SM { p: *const sigset_t, n: usize }
    let mut real = || -> c_int {
        let mut ts = if t.is_null() { timespec{tv_sec: 0, tv_nsec: 0} } else { *t };
        let tp = if t.is_null() { std::ptr::null_mut() } else { &mut ts as *mut timespec };
        let sm = SM{p: m, n: 8};
        libc::syscall(libc::SYS_pselect6, nfds, r, w, e, tp, &sm as *const SM) as c_int
    };
    match fdset_dev(nfds, r) {
        None => real(),
        Some((i, fd)) => {
            let us = if t.is_null() { None } else { Some((*t).tv_sec.saturating_mul(1_000_000).saturating_add((*t).tv_nsec / 1000)) };
            select_core(i, fd, r, w, e, us, m, &mut real)
        }
    }
}

unsafe fn poll_core(p: *mut pollfd, n: libc::nfds_t, timeout_us: Option<i64>, m: *const sigset_t, real: &mut dyn FnMut() -> c_int) -> c_int {
    let mut found = None;
    for k in 0..n as usize {
        let pf = &*p.add(k);
        if pf.events & libc::POLLIN != 0 {
            if let Some(i) = dev_of(pf.fd) { found = Some((i, k)); break; }
        }
    }
    let (i, k) = match found { None => return real(), Some(x) => x };
    if let Go::Fail(en) = consult(i, Kind::Wait) {
        note_wait(i, timeout_us, -1, en);
        set_errno(en);
        return -1;
    }
    if wait_eintr(i) {
        note_wait(i, timeout_us, -1, libc::EINTR);
        set_errno(libc::EINTR);
        return -1;
    }
    if interrupted(i, m) {
        note_wait(i, timeout_us, -1, libc::EINTR);
        set_errno(libc::EINTR);
        return -1;
    }
    match virt_wait(i, timeout_us) {
        None => {
            WAITING.fetch_add(1, SeqCst);
            let ret = real();
            let saved = get_errno();
            WAITING.fetch_sub(1, SeqCst);
            note_wait(i, timeout_us, ret, if ret < 0 { saved } else { 0 });
            set_errno(saved);
            ret
        }
        Some(Err(en)) => { set_errno(en); -1 }
        Some(Ok(ready)) => {
            for j in 0..n as usize { (*p.add(j)).revents = 0; }
            if ready { (*p.add(k)).revents = libc::POLLIN; }
            note_wait(i, timeout_us, ready as c_int, 0);
            ready as c_int
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn poll(p: *mut pollfd, n: libc::nfds_t, timeout: c_int) -> c_int {
    let _pause = (crate::mem::pause(), crate::step::pause());
    let us = if timeout < 0 { None } else { Some(timeout as i64 * 1000) };
    poll_core(p, n, us, std::ptr::null(), &mut || libc::syscall(libc::SYS_poll, p, n, timeout) as c_int)
}

#[no_mangle]
pub unsafe extern "C" fn ppoll(p: *mut pollfd, n: libc::nfds_t, t: *const timespec, m: *const sigset_t) -> c_int {
    let _pause = (crate::mem::pause(), crate::step::pause());
    let us = if t.is_null() { None } else { Some((*t).tv_sec.saturating_mul(1_000_000).saturating_add((*t).tv_nsec / 1000)) };
    poll_core(p, n, us, m, &mut || {
        let mut ts = if t.is_null() { timespec{tv_sec: 0, tv_nsec: 0} } else { *t };
        let tp = if t.is_null() { std::ptr::null_mut() } else { &mut ts as *mut timespec };
        libc::syscall(libc::SYS_ppoll, p, n, tp, m, 8usize) as c_int
    })
}

// Signature of the variadic original; the third argument is always passed in a register on this target.
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: libc::c_ulong, arg: *mut c_void) -> c_int {
    let _pause = (crate::mem::pause(), crate::step::pause());
    if req == libc::TIOCGWINSZ {
        if let Some(i) = dev_of(fd) {
            if let Go::Fail(e) = consult(i, Kind::Winsize) { set_errno(e); return -1; }
        }
        touch(arg, std::mem::size_of::<libc::winsize>());
    }
    libc::syscall(libc::SYS_ioctl, fd, req, arg) as c_int
}

macro_rules! next_fn {
    ($name:literal, $ty:ty) => {{
        static PTR: AtomicUsize = AtomicUsize::new(0);
        let mut p = PTR.load(SeqCst);
        if p == 0 {
            p = libc::dlsym(libc::RTLD_NEXT, concat!($name, "\0").as_ptr() as *const c_char) as usize;
            if p == 0 { libc::abort(); }
            PTR.store(p, SeqCst);
        }
        std::mem::transmute::<usize, $ty>(p)
    }};
}

#[no_mangle]
pub unsafe extern "C" fn tcgetattr(fd: c_int, t: *mut libc::termios) -> c_int {
    let _pause = (crate::mem::pause(), crate::step::pause());
    if let Some(i) = dev_of(fd) {
        if let Go::Fail(e) = consult(i, Kind::TcGet) { set_errno(e); return -1; }
    }
    touch(t as *mut c_void, std::mem::size_of::<libc::termios>());
    next_fn!("tcgetattr", unsafe extern "C" fn(c_int, *mut libc::termios) -> c_int)(fd, t)
}

#[no_mangle]
pub unsafe extern "C" fn tcsetattr(fd: c_int, a: c_int, t: *const libc::termios) -> c_int {
    let _pause = (crate::mem::pause(), crate::step::pause());
    if let Some(i) = dev_of(fd) {
        if let Go::Fail(e) = consult(i, Kind::TcSet) { set_errno(e); return -1; }
    }
    next_fn!("tcsetattr", unsafe extern "C" fn(c_int, c_int, *const libc::termios) -> c_int)(fd, a, t)
}

// Thread-local switch: sigaction calls of this thread count as calls on device 0.
thread_local! { pub static WATCH_SIGACT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }

#[cfg(not(feature = "san"))]
#[no_mangle]
pub unsafe extern "C" fn sigaction(s: c_int, a: *const libc::sigaction, o: *mut libc::sigaction) -> c_int {
    let _pause = (crate::mem::pause(), crate::step::pause());
    if WATCH_SIGACT.with(|w| w.get()) && !a.is_null() {
        if let Go::Fail(e) = consult(0, Kind::SigAct) { set_errno(e); return -1; }
    }
    next_fn!("sigaction", unsafe extern "C" fn(c_int, *const libc::sigaction, *mut libc::sigaction) -> c_int)(s, a, o)
}

// Thread-local switch: changes of this thread's signal mask count as calls on device 0.
thread_local! { pub static WATCH_MASK: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }

#[cfg(not(feature = "san"))]
#[no_mangle]
pub unsafe extern "C" fn pthread_sigmask(how: c_int, a: *const sigset_t, o: *mut sigset_t) -> c_int {
    mask(how, a, o, |how, a, o| next_fn!("pthread_sigmask", unsafe extern "C" fn(c_int, *const sigset_t, *mut sigset_t) -> c_int)(how, a, o))
}

#[cfg(not(feature = "san"))]
#[no_mangle]
pub unsafe extern "C" fn sigprocmask(how: c_int, a: *const sigset_t, o: *mut sigset_t) -> c_int {
    mask(how, a, o, |how, a, o| next_fn!("sigprocmask", unsafe extern "C" fn(c_int, *const sigset_t, *mut sigset_t) -> c_int)(how, a, o))
}

#[cfg(not(feature = "san"))]
unsafe fn mask(how: c_int, a: *const sigset_t, o: *mut sigset_t, real: impl Fn(c_int, *const sigset_t, *mut sigset_t) -> c_int) -> c_int {
    let _pause = (crate::mem::pause(), crate::step::pause());
    let watch = WATCH_MASK.try_with(|w| w.get()).unwrap_or(false) && !a.is_null();
    if watch { consult(0, Kind::MaskPre); }
    // what stops the thread after each instruction must not be blocked
    let mut own: sigset_t;
    let mut a = a;
    if crate::step::on() && !a.is_null() && how != libc::SIG_UNBLOCK {
        own = *a;
        libc::sigdelset(&mut own, libc::SIGTRAP);
        a = &own;
    }
    let r = real(how, a, o);
    if watch { consult(0, Kind::MaskPost); }
    r
}

#[no_mangle]
#[allow(unknown_lints, invalid_runtime_symbol_definitions)]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int { open64(path, flags, mode) }

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let _pause = (crate::mem::pause(), crate::step::pause());
    let fd = libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode) as c_int;
    if fd >= 0 && dev_of(fd).is_some() {
        let i = dev_of(fd).unwrap();
        if let Go::Fail(e) = consult(i, Kind::Open) {
            libc::syscall(libc::SYS_close, fd);
            set_errno(e);
            return -1;
        }
        lock().opens += 1;
    }
    fd
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    let _pause = (crate::mem::pause(), crate::step::pause());
    let r = libc::syscall(libc::SYS_close, fd) as c_int;
    if r != 0 && ACTIVE.load(SeqCst) {
        let e = get_errno();
        if e == libc::EBADF { lock().close_ebadf += 1; }
        set_errno(e);
    }
    r
}

pub fn now() -> Instant { Instant::now() }
