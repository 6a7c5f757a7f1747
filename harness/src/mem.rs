//! How much memory the library holds: what is allocated during its calls and not freed in them.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
}

pub struct Counting;

fn add(n: i64) {
    crate::step::note_allocation();
    let _ = ON.try_with(|o| if o.get() {
        LIVE.with(|l| { l.set(l.get() + n); PEAK.with(|p| if l.get() > p.get() { p.set(l.get()) }); });
        if n > 0 { ALLOCS.with(|a| a.set(a.get() + 1)); }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { let p = System.alloc(l); if !p.is_null() { add(l.size() as i64); } p }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { let p = System.alloc_zeroed(l); if !p.is_null() { add(l.size() as i64); } p }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l); add(-(l.size() as i64)); }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() { add(n as i64 - l.size() as i64); }
        q
    }
}

pub struct Switch(bool);
impl Drop for Switch { fn drop(&mut self) { let _ = ON.try_with(|o| o.set(self.0)); } }
fn switch(on: bool) -> Switch { Switch(ON.try_with(|o| o.replace(on)).unwrap_or(false)) }

/// A stretch of the harness's own within a call of the library
pub fn pause() -> Switch { switch(false) }

/// A call of the library
pub fn lib<T>(f: impl FnOnce() -> T) -> T { let _s = switch(true); f() }

pub fn live() -> i64 { LIVE.with(|l| l.get()) }
pub fn allocations() -> u64 { ALLOCS.with(|a| a.get()) }
pub fn start_peak() { PEAK.with(|p| p.set(live())); }
pub fn peak() -> i64 { PEAK.with(|p| p.get()) }
