//! Counts the heap the code under test holds. The simulator's global allocator marks every block
//! that is allocated while simulated code runs; a block keeps its mark until it is freed, whoever
//! frees it. One run is one thread, so the counters are thread local.
use std::cell::Cell;

thread_local! {
    static INSIDE: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

/// Simulated code runs right now.
pub fn inside() -> bool {
    INSIDE.try_with(|c| c.get()).unwrap_or(false)
}
pub fn add(n: i64) {
    let live = LIVE.try_with(|c| {
        c.set(c.get() + n);
        c.get()
    });
    if let Ok(live) = live {
        let _ = PEAK.try_with(|c| c.set(c.get().max(live)));
    }
}
/// A new run starts.
pub fn reset() {
    let _ = LIVE.try_with(|c| c.set(0));
    let _ = PEAK.try_with(|c| c.set(0));
}
/// The most bytes held at any time since the last reset.
pub fn peak() -> i64 {
    PEAK.try_with(|c| c.get()).unwrap_or(0)
}
/// Bytes held by simulated code on this thread.
pub fn live() -> i64 {
    LIVE.try_with(|c| c.get()).unwrap_or(0)
}

pub struct Scope(bool);
/// Simulated code (true) or the simulator (false) runs until the scope is dropped.
pub fn scope(inside: bool) -> Scope {
    Scope(INSIDE.try_with(|c| c.replace(inside)).unwrap_or(false))
}
impl Drop for Scope {
    fn drop(&mut self) {
        let _ = INSIDE.try_with(|c| c.set(self.0));
    }
}
