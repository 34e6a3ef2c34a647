//! Interposed libc entry points: the wall clock, the entropy source and the futex calls of std's locks
//! are answered by the simulator on simulation threads, and passed to the kernel everywhere else.
use libc::{c_int, c_long, c_uint, c_void, size_t, ssize_t, timespec};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static SIM_ON: Cell<bool> = const { Cell::new(false) };
    static CLOCK_NS: Cell<i128> = const { Cell::new(0) };
    static CLOCK_TICK: Cell<i128> = const { Cell::new(0) };
    static CLOCK_MIN: Cell<i128> = const { Cell::new(0) };
    static CLOCK_MAX: Cell<i128> = const { Cell::new(0) };
    static CLOCK_READS: Cell<u64> = const { Cell::new(0) };
    static ENTROPY: Cell<u64> = const { Cell::new(0) };
    static ENTROPY_READS: Cell<u64> = const { Cell::new(0) };
    /// id of this thread in the thread simulator, or usize::MAX
    pub static SIM_THREAD: Cell<usize> = const { Cell::new(usize::MAX) };
    static ALLOC_YIELD: Cell<bool> = const { Cell::new(false) };
    static MAX_ALLOC: Cell<usize> = const { Cell::new(0) };
}

pub const SEC: i128 = 1_000_000_000;

pub fn sim_enter(entropy: u64) {
    SIM_ON.with(|c| c.set(true));
    ENTROPY.with(|c| c.set(entropy));
    ENTROPY_READS.with(|c| c.set(0));
}
pub fn sim_leave() {
    SIM_ON.with(|c| c.set(false));
}
/// The wall clock (ns since the epoch) the current thread will read from now on.
pub fn set_clock(ns: i128, tick_ns: i128) {
    CLOCK_NS.with(|c| c.set(ns));
    CLOCK_TICK.with(|c| c.set(tick_ns));
    CLOCK_MIN.with(|c| c.set(ns));
    CLOCK_MAX.with(|c| c.set(ns));
    CLOCK_READS.with(|c| c.set(0));
}
/// (current, minimum read or set, maximum, reads) since `set_clock`.
pub fn clock_state() -> (i128, i128, i128, u64) {
    (
        CLOCK_NS.with(|c| c.get()),
        CLOCK_MIN.with(|c| c.get()),
        CLOCK_MAX.with(|c| c.get()),
        CLOCK_READS.with(|c| c.get()),
    )
}
/// The largest single allocation this thread asked for since the last call.
pub fn take_max_alloc() -> usize {
    MAX_ALLOC.with(|c| c.replace(0))
}
fn note_alloc(n: usize) {
    let _ = MAX_ALLOC.try_with(|c| c.set(c.get().max(n)));
}
pub fn entropy_reads() -> u64 {
    ENTROPY_READS.with(|c| c.get())
}
pub fn set_alloc_yield(on: bool) {
    ALLOC_YIELD.with(|c| c.set(on));
    hook::set_active(on);
}
pub fn alloc_yield() -> bool {
    ALLOC_YIELD.with(|c| c.get())
}

pub unsafe fn raw_syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let r: c_long;
    std::arch::asm!(
        "syscall",
        inlateout("rax") n => r,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack)
    );
    r
}

fn ret_errno(r: c_long) -> c_long {
    if r < 0 && r > -4096 {
        unsafe { *libc::__errno_location() = (-r) as c_int };
        -1
    } else {
        r
    }
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut timespec) -> c_int {
    if SIM_ON.with(|c| c.get()) {
        let t = CLOCK_NS.with(|c| c.get()) + CLOCK_TICK.with(|c| c.get());
        CLOCK_NS.with(|c| c.set(t));
        if clk == libc::CLOCK_REALTIME {
            CLOCK_READS.with(|c| c.set(c.get() + 1));
        }
        CLOCK_MIN.with(|c| c.set(c.get().min(t)));
        CLOCK_MAX.with(|c| c.set(c.get().max(t)));
        (*ts).tv_sec = t.div_euclid(SEC) as i64;
        (*ts).tv_nsec = t.rem_euclid(SEC) as i64;
        return 0;
    }
    ret_errno(raw_syscall(libc::SYS_clock_gettime, clk as c_long, ts as c_long, 0, 0, 0, 0)) as c_int
}

unsafe fn fill_entropy(buf: *mut u8, len: usize) {
    ENTROPY_READS.with(|c| c.set(c.get() + 1));
    let mut s = ENTROPY.with(|c| c.get());
    for i in 0..len {
        s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
        *buf.add(i) = (crate::ctx::mix(s) >> 24) as u8;
    }
    ENTROPY.with(|c| c.set(s));
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: c_uint) -> ssize_t {
    if SIM_ON.with(|c| c.get()) {
        fill_entropy(buf as *mut u8, len);
        return len as ssize_t;
    }
    ret_errno(raw_syscall(libc::SYS_getrandom, buf as c_long, len as c_long, flags as c_long, 0, 0, 0)) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if n == libc::SYS_getrandom && SIM_ON.with(|x| x.get()) {
        fill_entropy(a as *mut u8, b as usize);
        return b;
    }
    if n == libc::SYS_futex && SIM_THREAD.with(|x| x.get()) != usize::MAX {
        if let Some(r) = crate::threads::sim_futex(a as *const u32, b as c_int, c as u32, d as *const timespec) {
            return ret_errno(r);
        }
    }
    ret_errno(raw_syscall(n, a, b, c, d, e, f))
}

pub struct SimAlloc;
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ALLOC_YIELD.with(|c| c.get()) {
            crate::threads::yield_point(crate::threads::Y_ALLOC);
        }
        note_alloc(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ALLOC_YIELD.with(|c| c.get()) {
            crate::threads::yield_point(crate::threads::Y_FREE);
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if ALLOC_YIELD.with(|c| c.get()) {
            crate::threads::yield_point(crate::threads::Y_ALLOC);
        }
        note_alloc(n);
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static ALLOC: SimAlloc = SimAlloc;
