//! Signals raised at a chosen instruction.
//!
//! The processor's trap flag stops the thread after every instruction; the handler of the resulting SIGTRAP counts
//! the instructions and raises signals where the plan says, so that they are delivered exactly there. The monitor's
//! own code within interposed system calls is not stepped.

use std::cell::Cell;
use libc::{c_int, c_void};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::SeqCst};

pub const MAX: usize = 8;

#[derive(Copy, Clone, Debug, Default)]
pub struct Inj {
    pub at: u64,
    pub sig: c_int,
    /// where, relative to the text of this program or of the C library
    pub place: u64,
    /// how far this thread's clock was ahead
    pub ahead: u64,
}

#[derive(Default)]
pub struct Stepped {
    pub instructions: u64,
    pub injected: Vec<Inj>,
    /// the handler allocated or freed memory
    pub allocated: bool,
    /// errno was another after the handler of the signal raised at this instruction
    pub errno_at: Option<u64>,
}

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static COUNTING: Cell<bool> = const { Cell::new(false) };
    static N: Cell<u64> = const { Cell::new(0) };
    static PLAN: Cell<[(u64, c_int); MAX]> = const { Cell::new([(0, 0); MAX]) };
    static LEN: Cell<usize> = const { Cell::new(0) };
    static NEXT: Cell<usize> = const { Cell::new(0) };
    static DONE: Cell<[Inj; MAX]> = const { Cell::new([Inj{at: 0, sig: 0, place: 0, ahead: 0}; MAX]) };
    /// Nothing but the handler, and at most one more instruction, runs before the next trap
    static WINDOW: Cell<bool> = const { Cell::new(false) };
    /// Where the last trap was
    static PREV: Cell<u64> = const { Cell::new(0) };
    static WAITED_FOR: Cell<bool> = const { Cell::new(false) };
    /// Of what was interrupted
    static SP: Cell<u64> = const { Cell::new(0) };
    static ERRNO: Cell<c_int> = const { Cell::new(0) };
    static ALLOCATED: Cell<bool> = const { Cell::new(false) };
    static ERRNO_AT: Cell<u64> = const { Cell::new(u64::MAX) };
}

const TF: i64 = 0x100;

/// In a plan instead of a signal: the other thread goes on from here
pub const SWITCH: c_int = -1;

pub const NEVER: &[(u64, c_int)] = &[(u64::MAX, 0)];

/// Two threads that take turns
pub struct Turns { turn: AtomicU32, over: [AtomicBool; 2], pub switches: AtomicU32, pub blocked: AtomicU32, pub released: AtomicU32, progress: [AtomicU64; 2] }
static TURNS: Turns = Turns{turn: AtomicU32::new(0), over: [const { AtomicBool::new(false) }; 2], switches: AtomicU32::new(0), blocked: AtomicU32::new(0), released: AtomicU32::new(0), progress: [const { AtomicU64::new(0) }; 2]};
thread_local! { static ME: Cell<u32> = const { Cell::new(0) }; }

pub fn turns_start() { TURNS.turn.store(0, SeqCst); for o in &TURNS.over { o.store(false, SeqCst); } TURNS.switches.store(0, SeqCst); TURNS.blocked.store(0, SeqCst); TURNS.released.store(0, SeqCst); }
/// How often the threads took turns, how often the other could not go on, and how often it could as soon as a lock was released
pub fn turns_taken() -> (u32, u32, u32) { (TURNS.switches.load(SeqCst), TURNS.blocked.load(SeqCst), TURNS.released.load(SeqCst)) }
/// Thread 1 waits for its first turn
pub fn turns_begin(me: u32) {
    ME.set(me);
    if me == 1 { while TURNS.turn.load(SeqCst) != 1 && !TURNS.over[0].load(SeqCst) { nap(); } }
}
pub fn turns_end(me: u32) { TURNS.over[me as usize].store(true, SeqCst); }

fn nap() { unsafe { let t = libc::timespec{tv_sec: 0, tv_nsec: 5_000}; libc::syscall(libc::SYS_nanosleep, &t, std::ptr::null_mut::<libc::timespec>()); } }

/// Can the other not go on?
fn switch() -> bool {
    let me = ME.get();
    TURNS.turn.store(1 - me, SeqCst);
    // For as long as the other makes progress; it may be waiting for a lock held here.
    let mut n = 0;
    let mut seen = TURNS.progress[1 - me as usize].load(SeqCst);
    while n < 60 {
        n += 1;
        let p = TURNS.progress[1 - me as usize].load(SeqCst);
        if p != seen { seen = p; n = 20; }
        if TURNS.turn.load(SeqCst) == me || TURNS.over[1 - me as usize].load(SeqCst) { return false; }
        if n < 20 { unsafe { libc::syscall(libc::SYS_sched_yield); } } else { nap(); }
    }
    true
}

#[cfg(not(feature = "san"))]
#[inline(never)]
fn flag(on: bool) {
    unsafe {
        if on { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq"); }
        else { std::arch::asm!("pushfq", "and qword ptr [rsp], ~0x100", "popfq"); }
    }
}
#[cfg(feature = "san")]
fn flag(_: bool) {}

fn flagged() -> bool {
    let f: i64;
    unsafe { std::arch::asm!("pushfq", "pop {}", out(reg) f); }
    f & TF != 0
}

/// A stretch of the harness's own
pub struct Paused(bool);
pub fn pause() -> Paused {
    if !ON.try_with(|o| o.get()).unwrap_or(false) || !flagged() { return Paused(false); }
    flag(false);
    WINDOW.set(false);
    Paused(true)
}
impl Drop for Paused { fn drop(&mut self) { if self.0 { flag(true); } } }

pub fn on() -> bool { ON.try_with(|o| o.get()).unwrap_or(false) }

/// Called by the allocator
pub fn note_allocation() {
    let here = 0u8;
    // The handler's frame is well below that of what it interrupted.
    let _ = WINDOW.try_with(|w| if w.get() && (&here as *const u8 as u64) + 512 < SP.get() { let _ = ALLOCATED.try_with(|a| a.set(true)); });
}

extern "C" fn trap(_: c_int, _: *mut libc::siginfo_t, c: *mut c_void) {
    unsafe {
        let regs = &mut (*(c as *mut libc::ucontext_t)).uc_mcontext.gregs;
        let errno = libc::__errno_location();
        let now = *errno;
        let n = N.get();
        N.set(n + 1);
        TURNS.progress[ME.get() as usize].fetch_add(1, SeqCst);
        if WINDOW.get() {
            WINDOW.set(false);
            if now != ERRNO.get() && ERRNO.get() >= 0 && ERRNO_AT.get() == u64::MAX { ERRNO_AT.set(n - 1); }
        }
        // The other thread waits for a lock; it may go on when this one has woken it.
        let rip = regs[libc::REG_RIP as usize] as u64;
        let prev = PREV.replace(rip);
        if WAITED_FOR.get() && prev & 0xfff < 0xfff && prev != 0 && std::ptr::read_unaligned(prev as *const u16) == 0x050f {
            WAITED_FOR.set(switch());
            if !WAITED_FOR.get() { TURNS.released.fetch_add(1, SeqCst); }
        }
        let plan = PLAN.get();
        while NEXT.get() < LEN.get() && plan[NEXT.get()].0 <= n {
            let (_, sig) = plan[NEXT.get()];
            let (a, b) = (trap as *const () as u64, libc::abort as *const () as u64);
            let place = if rip.abs_diff(a) < 1 << 28 { rip.wrapping_sub(a) } else if rip.abs_diff(b) < 1 << 28 { 1 << 40 | (rip.wrapping_sub(b) & 0xffff_ffff) } else { 1 << 41 };
            let mut d = DONE.get();
            d[NEXT.get()] = Inj{at: n, sig, place, ahead: crate::interpose::ahead()};
            DONE.set(d);
            NEXT.set(NEXT.get() + 1);
            WINDOW.set(true);
            SP.set(regs[libc::REG_RSP as usize] as u64);
            // an instruction of the C library may set errno itself
            ERRNO.set(if place < 1 << 40 || place > 1 << 42 { now } else { -1 });
            if sig == SWITCH {
                WINDOW.set(false);
                TURNS.switches.fetch_add(1, SeqCst);
                WAITED_FOR.set(switch());
                if WAITED_FOR.get() { TURNS.blocked.fetch_add(1, SeqCst); }
            }
            else if sig != 0 { libc::syscall(libc::SYS_tgkill, libc::getpid(), libc::syscall(libc::SYS_gettid), sig); }
        }
        if !COUNTING.get() && NEXT.get() >= LEN.get() && !WINDOW.get() && !WAITED_FOR.get() { regs[libc::REG_EFL as usize] &= !TF; }
        *errno = now;
    }
}

struct Off;
impl Drop for Off { fn drop(&mut self) { flag(false); WINDOW.set(false); ON.set(false); } }

/// Runs `f`, raising these signals at these instructions (in ascending order); without any, counts the instructions.
/// Signal 0 is not raised.
/// NEVER does not step.
pub fn run<T>(plan: &[(u64, c_int)], f: impl FnOnce() -> T) -> (T, Stepped) {
    if plan == NEVER { return (f(), Stepped::default()); }
    unsafe {
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = trap as *const () as usize;
        a.sa_flags = libc::SA_SIGINFO;
        libc::sigfillset(&mut a.sa_mask);
        libc::sigaction(libc::SIGTRAP, &a, std::ptr::null_mut());
    }
    let mut p = [(0, 0); MAX];
    for (a, b) in p.iter_mut().zip(plan) { *a = *b; }
    PLAN.set(p);
    LEN.set(plan.len().min(MAX));
    NEXT.set(0);
    N.set(0);
    COUNTING.set(plan.is_empty());
    WINDOW.set(false);
    WAITED_FOR.set(false);
    PREV.set(0);
    ALLOCATED.set(false);
    ERRNO_AT.set(u64::MAX);
    ON.set(true);
    let off = Off;
    flag(true);
    let res = f();
    flag(false);
    drop(off);
    let e = ERRNO_AT.get();
    (res, Stepped{instructions: N.get(), injected: DONE.get()[..NEXT.get()].to_vec(), allocated: ALLOCATED.get(), errno_at: if e == u64::MAX { None } else { Some(e) }})
}

/// Instructions of this stretch so far
pub fn so_far() -> u64 { N.get() }

/// A random plan within this many instructions
pub fn plan(r: &mut crate::util::Rng, instructions: u64, sigs: &[c_int]) -> Vec<(u64, c_int)> {
    let mut at: Vec<u64> = sigs.iter().map(|_| r.next() % instructions.max(1)).collect();
    // now and then close together
    if sigs.len() > 1 && r.chance(3) { let a = at[0]; for x in at.iter_mut() { *x = a + r.below(4) as u64; } }
    at.sort();
    at.into_iter().zip(sigs.iter().copied()).collect()
}
