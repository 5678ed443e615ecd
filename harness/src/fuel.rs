//! Step fuel: user supplied callbacks (`Clone`, `line`, comparators) tick it,
//! so code that never ends is stopped at a deterministic count.
use std::cell::Cell;
thread_local! { static LEFT: Cell<u64> = const { Cell::new(0) }; static USED: Cell<u64> = const { Cell::new(0) }; }
pub fn reset() { LEFT.with(|l| l.set(20_000_000)); USED.with(|l| l.set(0)); }
#[inline]
pub fn tick() {
    USED.with(|u| u.set(u.get() + 1));
    LEFT.with(|l| {
        let v = l.get();
        if v == 0 { panic!("step bound exceeded: the operation does not end"); }
        l.set(v - 1);
    })
}
pub fn used() -> u64 { USED.with(|u| u.get()) }
