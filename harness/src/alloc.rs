//! Allocation fuel: a deterministic bound on the bytes one case may request.
//! A sweep that never ends by growing its queues exceeds it at the same point
//! on every run; the process then ends with code 77.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
thread_local! {
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static MAX: Cell<u64> = const { Cell::new(LIMIT) };
    static ON: Cell<bool> = const { Cell::new(false) };
}
pub const LIMIT: u64 = 3 << 30;
pub struct Fuel;
extern "C" { fn _exit(c: i32) -> !; }
#[inline]
fn count(n: usize) {
    let _ = ON.try_with(|on| if on.get() {
        BYTES.with(|b| {
            b.set(b.get() + n as u64);
            if b.get() > MAX.with(|m| m.get()) { unsafe { _exit(77) } }
        })
    });
}
unsafe impl GlobalAlloc for Fuel {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { count(l.size()); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { count(l.size()); System.alloc_zeroed(l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { count(n); System.realloc(p, l, n) }
}
pub fn reset() { BYTES.with(|b| b.set(0)); MAX.with(|m| m.set(LIMIT)); ON.with(|b| b.set(true)); }
pub fn off() { ON.with(|b| b.set(false)); }
/// A lower limit for the rest of the case.
pub fn limit(n: u64) { BYTES.with(|b| b.set(0)); MAX.with(|m| m.set(n)); }
/// Bytes requested since the last reset.
pub fn used() -> u64 { BYTES.with(|b| b.get()) }
