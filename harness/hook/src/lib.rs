//! The library and the simulator are compiled with a call to `__sanitizer_cov_trace_pc` in every basic block (see
//! ../rustc-wrapper.sh); this crate, which is not, answers it. It counts the blocks each thread has run, and calls the
//! thread simulator when a drawn number of blocks has been run since it was last called.
use std::cell::Cell;

thread_local! {
    static BLOCKS: Cell<u64> = const { Cell::new(0) };
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static LEFT: Cell<u64> = const { Cell::new(0) };
    static CALL: Cell<Option<fn()>> = const { Cell::new(None) };
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc() {
    BLOCKS.with(|c| c.set(c.get().wrapping_add(1)));
    if ACTIVE.with(|c| c.get()) {
        let n = LEFT.with(|c| c.get());
        if n == 0 {
            return;
        }
        LEFT.with(|c| c.set(n - 1));
        if n == 1 {
            if let Some(f) = CALL.with(|c| c.get()) {
                f();
            }
        }
    }
}
/// Blocks run by this thread so far.
pub fn blocks() -> u64 {
    BLOCKS.with(|c| c.get())
}
/// Whether blocks of this thread count towards its next call.
pub fn set_active(on: bool) {
    ACTIVE.with(|c| c.set(on));
}
/// Call `f` after `n` more active blocks; 0: never.
pub fn arm(n: u64, f: fn()) {
    CALL.with(|c| c.set(Some(f)));
    LEFT.with(|c| c.set(n));
}
