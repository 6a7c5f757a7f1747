//! Stand-ins for the system calls the interpreter does not know.
//! The terminal device is a socket pair put on the standard descriptors.

use libc::*;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};

static RNG: AtomicU64 = AtomicU64::new(88172645463325252);
const Z: AtomicUsize = AtomicUsize::new(0);
static ACTS: [AtomicUsize; 65] = [Z; 65];
/// signal to raise at the next wait or change of the signal mask
static PLANNED: AtomicUsize = AtomicUsize::new(0);

fn rnd() -> u64 { let x = RNG.fetch_add(0x9e3779b97f4a7c15, SeqCst); let x = (x ^ x >> 30).wrapping_mul(0xbf58476d1ce4e5b9); x ^ x >> 27 }
pub fn seed(s: u64) { RNG.store(s.wrapping_mul(0x2545f4914f6cdd1d) | 1, SeqCst); }
pub fn plan(s: c_int) { PLANNED.store(s as usize, SeqCst); }

/// Runs the handler of this signal in the calling thread.
pub fn raise_now(s: c_int) -> bool {
    let h = ACTS[s as usize].load(SeqCst);
    if h > 1 { let f: extern "C" fn(c_int) = unsafe { std::mem::transmute(h as *const ()) }; f(s); }
    h > 1
}
fn raise_planned() -> bool { let s = PLANNED.swap(0, SeqCst); s != 0 && raise_now(s as c_int) }
fn err(e: c_int) -> c_int { unsafe { *__errno_location() = e; } -1 }

static PEER: AtomicUsize = AtomicUsize::new(0);
/// Puts a new device on descriptors 0 and 1.
pub fn device() {
    unsafe {
        let old = PEER.swap(0, SeqCst);
        if old != 0 { close(old as c_int); }
        let mut s = [0 as c_int; 2];
        assert_eq!(socketpair(AF_UNIX, SOCK_STREAM, 0, s.as_mut_ptr()), 0);
        assert_eq!((dup2(s[0], 0), dup2(s[0], 1)), (0, 1));
        close(s[0]);
        PEER.store(s[1] as usize, SeqCst);
    }
}
fn readable(fd: c_int) -> bool { unsafe { let mut p = pollfd{fd, events: POLLIN, revents: 0}; poll(&mut p, 1, 0) == 1 && p.revents & POLLIN != 0 } }
/// Types input.
pub fn feed(b: &[u8]) { let _ = unsafe { write(PEER.load(SeqCst) as c_int, b.as_ptr() as _, b.len()) }; }
/// Takes the output. (Only by one thread at a time.)
pub fn drain() -> usize {
    let (fd, mut n, mut b) = (PEER.load(SeqCst) as c_int, 0, [0u8; 4096]);
    while readable(fd) { let k = unsafe { read(fd, b.as_mut_ptr() as _, b.len()) }; if k <= 0 { break; } n += k as usize; }
    n
}

#[no_mangle]
unsafe extern "C" fn pselect(n: c_int, r: *mut fd_set, _w: *mut fd_set, e: *mut fd_set, t: *const timespec, _m: *const sigset_t) -> c_int {
    if raise_planned() { return err(EINTR); }
    let mut ready = 0;
    if !t.is_null() { let _ = ((*t).tv_sec, (*t).tv_nsec); }
    for fd in 0..n {
        if FD_ISSET(fd, r) { if readable(fd) { ready += 1; } else { FD_CLR(fd, r); } }
    }
    if !e.is_null() { FD_ZERO(e); }
    ready
}
#[no_mangle]
unsafe extern "C" fn tcgetattr(_fd: c_int, t: *mut termios) -> c_int { *t = std::mem::zeroed(); 0 }
#[no_mangle]
unsafe extern "C" fn tcsetattr(_fd: c_int, _a: c_int, t: *const termios) -> c_int { let x = *t; if x.c_cc[VMIN] == 200 || rnd() % 12 == 0 { err(EIO) } else { 0 } }
#[no_mangle]
unsafe extern "C" fn sigaction(s: c_int, a: *const libc::sigaction, o: *mut libc::sigaction) -> c_int {
    if rnd() % 40 == 0 { return err(EINVAL); }
    let old = ACTS[s as usize].load(SeqCst);
    if !a.is_null() { ACTS[s as usize].store((*a).sa_sigaction, SeqCst); }
    if !o.is_null() { let mut x: libc::sigaction = std::mem::zeroed(); x.sa_sigaction = old; *o = x; }
    0
}
#[no_mangle]
unsafe extern "C" fn pthread_sigmask(_h: c_int, _a: *const sigset_t, o: *mut sigset_t) -> c_int {
    if !o.is_null() { *o = std::mem::zeroed(); }
    if rnd() % 3 == 0 { raise_planned(); }
    0
}
unsafe fn bits(s: *mut sigset_t) -> *mut u64 { s as *mut u64 }
#[no_mangle]
unsafe extern "C" fn sigemptyset(s: *mut sigset_t) -> c_int { *s = std::mem::zeroed(); 0 }
#[no_mangle]
unsafe extern "C" fn sigfillset(s: *mut sigset_t) -> c_int { *s = std::mem::zeroed(); *bits(s) = !0; 0 }
#[no_mangle]
unsafe extern "C" fn sigaddset(s: *mut sigset_t, n: c_int) -> c_int { *bits(s) |= 1 << (n - 1); 0 }
#[no_mangle]
unsafe extern "C" fn sigdelset(s: *mut sigset_t, n: c_int) -> c_int { *bits(s) &= !(1 << (n - 1)); 0 }
#[no_mangle]
unsafe extern "C" fn sigismember(s: *const sigset_t, n: c_int) -> c_int { (*(s as *const u64) >> (n - 1) & 1) as c_int }
