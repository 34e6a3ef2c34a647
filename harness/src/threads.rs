//! C10: real OS threads share one MemoryStore; exactly one runs at a time. Control may move at every allocation and
//! release, inside the callers' encoders and decoders, and wherever a lock would block (futex wait) or wake.
use crate::ctx::{self, fnv, Ctx, Violation, F};
use crate::store::cid_of;
use crate::sys;
use anyhow::{anyhow, Result};
use cid::multihash::Code;
use cid::Cid;
use libc::{c_int, c_long, timespec};
use libipld_core::codec::{Decode, Encode};
use libipld_core::raw::RawCodec;
use std::collections::BTreeMap;
use std::future::Future;
use std::io::{Read, Seek, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use ucan::store::{MemoryStore, UcanJwtStore, UcanStore};

pub const Y_ALLOC: u8 = 0;
pub const Y_FREE: u8 = 1;
pub const Y_CODE: u8 = 2;
/// between any two basic blocks of the library
pub const Y_BLOCK: u8 = 3;
const CTRL: usize = 1_000_000;

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Runnable,
    Futex(usize),
    Parked,
    Done,
}
struct Th {
    st: St,
    woken: bool,
}
struct TSim {
    ctx: Ctx,
    th: Vec<Th>,
    cur: usize,
    rate: [u64; 4],
    deadlock: Option<String>,
    hist: Vec<Op>,
    switches: u64,
    decode_panicked: bool,
    steps: u64,
}
#[derive(Clone, Debug)]
struct Op {
    thread: usize,
    write: bool,
    key: usize,
    inv: u64,
    ret: u64,
    res: Res,
}
#[derive(Clone, Debug, PartialEq)]
enum Res {
    Pending,
    Wrote(String),
    Found(Vec<u8>),
    Absent,
    Err(String),
    Panicked,
}

static mut SIM: *mut TSim = std::ptr::null_mut();
static TURN: AtomicU32 = AtomicU32::new(u32::MAX);
static GEN: AtomicUsize = AtomicUsize::new(0);

#[allow(static_mut_refs)]
fn g() -> &'static mut TSim {
    unsafe { &mut *SIM }
}
fn turn_of(gen: usize, who: usize) -> u32 {
    (((gen & 0xff_ffff) << 8) | if who == CTRL { 0xff } else { who }) as u32
}
fn give(gen: usize, who: usize) {
    TURN.store(turn_of(gen, who), Ordering::SeqCst);
    unsafe {
        sys::raw_syscall(libc::SYS_futex, &TURN as *const _ as c_long, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as c_long, i32::MAX as c_long, 0, 0, 0);
    }
}
fn await_turn(gen: usize, who: usize) {
    let want = turn_of(gen, who);
    loop {
        let v = TURN.load(Ordering::SeqCst);
        if v == want {
            return;
        }
        unsafe {
            sys::raw_syscall(libc::SYS_futex, &TURN as *const _ as c_long, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as c_long, v as c_long, 0, 0, 0);
        }
    }
}

thread_local! {
    static MY_GEN: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

/// Runs `f` with yielding switched off (the scheduler itself allocates).
fn quiet<R>(f: impl FnOnce() -> R) -> R {
    let was = sys::alloc_yield();
    sys::set_alloc_yield(false);
    let r = f();
    sys::set_alloc_yield(was);
    r
}

pub fn yield_point(kind: u8) {
    let me = sys::SIM_THREAD.with(|c| c.get());
    if me == usize::MAX || std::thread::panicking() {
        return;
    }
    quiet(|| {
        let s = g();
        let r = s.rate[kind as usize];
        if r == 0 {
            return;
        }
        s.steps += 1;
        if s.ctx.ch.draw(1000) < 1000 - r {
            return;
        }
        let others: Vec<usize> = (0..s.th.len()).filter(|i| *i != me && s.th[*i].st == St::Runnable).collect();
        if others.is_empty() {
            return;
        }
        let n = others[s.ctx.ch.draw(others.len() as u64) as usize];
        s.ctx.fired[F::Preempt as usize] += 1;
        s.ctx.log(format!("preempted at {} -> T{n}", ["alloc", "free", "callback", "block"][kind as usize]));
        switch(me, n);
    })
}
/// About how many basic blocks a thread runs until it is preempted; 0: any number.
pub const BLOCK_GAPS: &[u64] = &[0, 0, 25, 150, 800, 5000];
/// A drawn number of basic blocks has passed.
fn on_block() {
    if sys::SIM_THREAD.with(|c| c.get()) == usize::MAX {
        return;
    }
    if !std::thread::panicking() {
        quiet(|| {
            let me = sys::SIM_THREAD.with(|c| c.get());
            let s = g();
            s.steps += 1;
            let others: Vec<usize> = (0..s.th.len()).filter(|i| *i != me && s.th[*i].st == St::Runnable).collect();
            if !others.is_empty() {
                let n = others[s.ctx.ch.draw(others.len() as u64) as usize];
                s.ctx.fired[F::Preempt as usize] += 1;
                s.ctx.log(format!("preempted between blocks -> T{n}"));
                switch(me, n);
            }
        });
    }
    arm();
}
/// When this thread will next be preempted between blocks.
fn arm() {
    let n = quiet(|| {
        let s = g();
        match s.rate[Y_BLOCK as usize] {
            0 => 0,
            r => 1 + if s.ctx.ch.draw(6) == 5 { s.ctx.ch.draw(12) } else { s.ctx.ch.draw(2 * r) },
        }
    });
    hook::arm(n, on_block);
}
fn switch(me: usize, n: usize) {
    let gen = MY_GEN.with(|c| c.get());
    let s = g();
    s.cur = n;
    s.switches += 1;
    s.ctx.sched_hash = fnv(s.ctx.sched_hash, &[n as u8]);
    s.ctx.cur_task = n;
    give(gen, n);
    await_turn(gen, me);
}
/// The current thread cannot go on: run another one; comes back when this one is runnable again.
fn block(me: usize) {
    let gen = MY_GEN.with(|c| c.get());
    let s = g();
    let others: Vec<usize> = (0..s.th.len()).filter(|i| s.th[*i].st == St::Runnable).collect();
    if others.is_empty() {
        s.deadlock = Some(format!("{:?}", s.th.iter().map(|t| t.st).map(|t| match t { St::Futex(_) => "waits for a lock", St::Parked => "waits to be woken", St::Done => "done", St::Runnable => "runnable" }).collect::<Vec<_>>()));
        s.ctx.log("deadlock".into());
        give(gen, CTRL);
        // this thread never runs again
        await_turn(gen, me);
        unreachable!();
    }
    let n = others[s.ctx.ch.draw(others.len() as u64) as usize];
    if n != me {
        switch(me, n);
    }
}

/// std's locks wait and wake through here on simulated threads. None: not handled.
pub fn sim_futex(addr: *const u32, op: c_int, val: u32, timeout: *const timespec) -> Option<c_long> {
    let me = sys::SIM_THREAD.with(|c| c.get());
    let cmd = op & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
    quiet(|| match cmd {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            let cur = unsafe { (*(addr as *const AtomicU32)).load(Ordering::SeqCst) };
            if cur != val {
                return Some(-(libc::EAGAIN as c_long));
            }
            if !timeout.is_null() {
                // a timed wait: let somebody else run, then time out
                let s = g();
                let others: Vec<usize> = (0..s.th.len()).filter(|i| *i != me && s.th[*i].st == St::Runnable).collect();
                if !others.is_empty() {
                    let n = others[s.ctx.ch.draw(others.len() as u64) as usize];
                    switch(me, n);
                }
                return Some(-(libc::ETIMEDOUT as c_long));
            }
            let s = g();
            s.ctx.log(format!("T{me} waits for a lock"));
            *s.ctx.probes.entry("lock-contended".into()).or_insert(0) += 1;
            s.th[me].st = St::Futex(addr as usize);
            block(me);
            Some(0)
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            let s = g();
            let mut w: Vec<usize> = (0..s.th.len()).filter(|i| s.th[*i].st == St::Futex(addr as usize)).collect();
            let mut n = 0;
            while n < val as c_long && !w.is_empty() {
                let k = s.ctx.ch.draw(w.len() as u64) as usize;
                let t = w.remove(k);
                s.th[t].st = St::Runnable;
                n += 1;
            }
            if n > 0 {
                s.ctx.log(format!("T{me} wakes {n}"));
                // the lock is free now and others want it: often one of them gets it first
                let others: Vec<usize> = (0..s.th.len()).filter(|i| *i != me && s.th[*i].st == St::Runnable).collect();
                if !others.is_empty() && s.ctx.ch.draw(2) == 1 {
                    let k = others[s.ctx.ch.draw(others.len() as u64) as usize];
                    s.ctx.fired[F::Preempt as usize] += 1;
                    s.ctx.log(format!("preempted at unlock -> T{k}"));
                    switch(me, k);
                }
            }
            Some(n)
        }
        _ => None,
    })
}

struct TWake(usize);
impl Wake for TWake {
    fn wake(self: Arc<Self>) {
        quiet(|| {
            let s = g();
            s.th[self.0].woken = true;
            if s.th[self.0].st == St::Parked {
                s.th[self.0].st = St::Runnable;
            }
        })
    }
}
fn block_on<R>(me: usize, f: impl Future<Output = R>) -> R {
    let waker = Waker::from(Arc::new(TWake(me)));
    let mut cx = Context::from_waker(&waker);
    let mut f = Box::pin(f);
    loop {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
        quiet(|| {
            let s = g();
            if std::mem::take(&mut s.th[me].woken) {
                return;
            }
            s.th[me].st = St::Parked;
            block(me);
            g().th[me].woken = false;
        });
    }
}

fn simulated() -> bool {
    sys::SIM_THREAD.with(|c| c.get()) != usize::MAX
}
/// Off a simulated thread nothing fails.
pub fn tfault(f: F) -> bool {
    simulated() && quiet(|| g().ctx.fault(f))
}
/// One time in n, on a simulated thread.
pub fn tchance(n: u64) -> bool {
    simulated() && quiet(|| g().ctx.ch.draw(n) == n - 1)
}

/// What callers store: bytes whose encoder and decoder can be slow (yield), fail or panic.
#[derive(Clone)]
struct Val(Vec<u8>);
impl std::fmt::Debug for Val {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Val({})", self.0.len())
    }
}
impl Encode<RawCodec> for Val {
    fn encode<W: Write>(&self, _: RawCodec, w: &mut W) -> Result<()> {
        let n = self.0.len() / 2;
        w.write_all(&self.0[..n])?;
        yield_point(Y_CODE);
        if tfault(F::DecodeErr) {
            return Err(anyhow!("simulated: encoder fails"));
        }
        w.write_all(&self.0[n..])?;
        Ok(())
    }
}
impl Decode<RawCodec> for Val {
    fn decode<R: Read + Seek>(_: RawCodec, r: &mut R) -> Result<Self> {
        let mut v = Vec::new();
        let mut b = [0u8; 64];
        loop {
            let n = r.read(&mut b)?;
            if n == 0 {
                break;
            }
            v.extend_from_slice(&b[..n]);
            yield_point(Y_CODE);
        }
        if tfault(F::DecodeErr) {
            return Err(anyhow!("simulated: decoder fails"));
        }
        if tfault(F::DecodePanic) {
            g().decode_panicked = true;
            sys::set_alloc_yield(false);
            std::panic::panic_any(SimulatedPanic);
        }
        yield_point(Y_CODE);
        Ok(Val(v))
    }
}
struct SimulatedPanic;

fn content(key: usize) -> Vec<u8> {
    // distinct contents, some sharing prefixes, one empty, one large; the rest differs from run to run
    let (k, salt) = (key % 16, key / 16);
    match k {
        0 => vec![],
        1 => b"a".to_vec(),
        2 => vec![0xff, 0xfe],
        3 => (0..3000u32).map(|i| (i % 251) as u8).collect(),
        4 => (0..700 + salt % 5000).map(|i| (i % 251) as u8 ^ salt as u8).collect(),
        5 => "z".repeat(salt % 200 + 1).into_bytes(),
        _ => format!("block {k} {salt} {}", "x".repeat(k * 7 % 50)).into_bytes(),
    }
}
fn utf8(k: usize) -> bool {
    std::str::from_utf8(&content(k)).is_ok()
}

#[derive(Clone, Debug)]
enum Plan {
    Write(usize, bool),
    Read(usize, bool),
    CloneHandle,
}

fn store_client(me: usize, mut store: MemoryStore, plan: Vec<Plan>) {
    for p in plan {
        let (write, key) = match &p {
            Plan::Write(k, _) => (true, *k),
            Plan::Read(k, _) => (false, *k),
            Plan::CloneHandle => {
                sys::set_alloc_yield(true);
                let n = store.clone();
                store = n;
                sys::set_alloc_yield(false);
                continue;
            }
        };
        let s = g();
        let inv = s.ctx.events;
        s.ctx.log(format!("T{me} {} k{key}", if write { "write" } else { "read" }));
        let at = s.hist.len();
        s.hist.push(Op { thread: me, write, key, inv, ret: u64::MAX, res: Res::Pending });
        let bytes = content(key);
        let cid = cid_of(Code::Blake3_256, &bytes);
        let text = String::from_utf8(bytes.clone()).unwrap_or_default();
        sys::set_alloc_yield(true);
        let r = catch_unwind(AssertUnwindSafe(|| match p {
            Plan::Write(_, false) => match block_on(me, store.write(Val(bytes.clone()))) {
                Ok(c) => Res::Wrote(c.to_string()),
                Err(e) => Res::Err(format!("{e}")),
            },
            Plan::Write(_, true) => match block_on(me, store.write_token(&text)) {
                Ok(c) => Res::Wrote(c.to_string()),
                Err(e) => Res::Err(format!("{e}")),
            },
            Plan::Read(_, false) => match block_on(me, store.read::<Val>(&cid)) {
                Ok(Some(v)) => Res::Found(v.0),
                Ok(None) => Res::Absent,
                Err(e) => Res::Err(format!("{e}")),
            },
            _ => match block_on(me, store.read_token(&cid)) {
                Ok(Some(v)) => Res::Found(v.into_bytes()),
                Ok(None) => Res::Absent,
                Err(e) => Res::Err(format!("{e}")),
            },
        }));
        sys::set_alloc_yield(false);
        let res = match r {
            Ok(r) => r,
            Err(p) => {
                let (loc, msg) = ctx::last_panic();
                if p.downcast_ref::<SimulatedPanic>().is_none() {
                    let s = g();
                    if s.ctx.viol.is_none() {
                        s.ctx.viol = Some(Violation { class: "panic".into(), msg: format!("store operation panicked at {loc}: {msg}") });
                    }
                }
                Res::Panicked
            }
        };
        let s = g();
        s.ctx.log(format!("T{me} -> {}", show(&res)));
        s.hist[at].ret = s.ctx.events;
        s.hist[at].res = res;
    }
    // dropping the handle is part of the run
    sys::set_alloc_yield(true);
    drop(store);
    sys::set_alloc_yield(false);
}

pub type Body = Box<dyn FnOnce(usize) + Send>;

/// What every simulated thread does around its own program.
fn thread_main(me: usize, gen: usize, entropy: u64, body: Body) {
    MY_GEN.with(|c| c.set(gen));
    sys::sim_enter(entropy);
    await_turn(gen, me);
    sys::SIM_THREAD.with(|c| c.set(me));
    arm();
    body(me);
    sys::set_alloc_yield(false);
    let s = g();
    s.th[me].st = St::Done;
    sys::SIM_THREAD.with(|c| c.set(usize::MAX));
    let others: Vec<usize> = (0..s.th.len()).filter(|i| s.th[*i].st == St::Runnable).collect();
    if others.is_empty() {
        if s.th.iter().any(|t| t.st != St::Done) {
            s.deadlock = Some("a thread finished while others still wait".into());
        }
        give(gen, CTRL);
    } else {
        let n = others[s.ctx.ch.draw(others.len() as u64) as usize];
        s.cur = n;
        s.ctx.cur_task = n;
        s.ctx.sched_hash = fnv(s.ctx.sched_hash, &[n as u8]);
        give(gen, n);
    }
}

/// A line in the run's log, from a simulated thread.
pub fn tlog(s: impl FnOnce() -> String) {
    quiet(|| {
        let l = s();
        g().ctx.log(l)
    })
}
/// Runs a piece of the system under test on a simulated thread: it can be preempted in there. Err: it panicked.
pub fn exposed<R>(f: impl FnOnce() -> R) -> std::result::Result<R, String> {
    sys::set_alloc_yield(true);
    let r = catch_unwind(AssertUnwindSafe(f));
    sys::set_alloc_yield(false);
    r.map_err(|_| {
        let (loc, msg) = ctx::last_panic();
        format!("{loc}: {msg}")
    })
}
/// Polls a future to its end on a simulated thread.
pub fn wait<R>(me: usize, f: impl Future<Output = R>) -> R {
    block_on(me, f)
}

/// Runs one OS thread per body, one at a time, until all have ended. The context is installed again afterwards.
/// (whether they blocked each other for ever, whether a decoder panicked, what the store clients did)
fn run_threads(c: Ctx, rate: [u64; 4], stack: usize, entropy: u64, bodies: Vec<Body>) -> (Option<String>, bool, Vec<Op>) {
    let nth = bodies.len();
    let gen = GEN.fetch_add(1, Ordering::SeqCst) + 1;
    let sim = Box::new(TSim {
        ctx: c,
        th: (0..nth).map(|_| Th { st: St::Runnable, woken: false }).collect(),
        cur: 0,
        rate,
        deadlock: None,
        hist: vec![],
        switches: 0,
        decode_panicked: false,
        steps: 0,
    });
    unsafe { SIM = Box::into_raw(sim) };
    TURN.store(turn_of(gen, CTRL), Ordering::SeqCst);
    let handles: Vec<_> = bodies
        .into_iter()
        .enumerate()
        .map(|(i, b)| std::thread::Builder::new().stack_size(stack).spawn(move || thread_main(i, gen, entropy + i as u64, b)).expect("spawn"))
        .collect();
    let first = g().ctx.ch.draw(nth as u64) as usize;
    g().ctx.cur_task = first;
    g().cur = first;
    give(gen, first);
    await_turn(gen, CTRL);
    let sim = unsafe { Box::from_raw(SIM) };
    if sim.deadlock.is_none() {
        for h in handles {
            let _ = h.join();
        }
    }
    let TSim { ctx: mut c, hist, decode_panicked, switches, deadlock, steps, .. } = *sim;
    if switches > nth as u64 {
        *c.probes.entry("nontrivial".into()).or_insert(0) += 1;
    }
    c.cur_task = usize::MAX;
    c.steps += steps;
    ctx::install(c);
    (deadlock, decode_panicked, hist)
}
/// The same for other worlds: takes the installed context and puts it back. Some: they blocked each other for ever.
pub fn run_bodies(rate: [u64; 4], stack: usize, entropy: u64, bodies: Vec<Body>) -> Option<String> {
    run_threads(ctx::take(), rate, stack, entropy, bodies).0
}
fn show(r: &Res) -> String {
    match r {
        Res::Found(v) => format!("Found({} bytes, {:x})", v.len(), fnv(1, v)),
        o => format!("{o:?}"),
    }
}

pub fn run() {
    crate::tverify::warm_up();
    let mut c = ctx::take();
    let nth = 2 + c.ch.draw(3) as usize;
    let many = c.ch.draw(4) == 3;
    let nkeys = 1 + c.ch.draw(if many { 16 } else { 5 }) as usize;
    let salt = c.ch.draw(1 << 20) as usize;
    // a pool of a run's own contents, and of contents every run knows
    let keys: Vec<usize> = (0..nkeys)
        .map(|i| {
            let k = c.ch.draw(8) as usize;
            if k < 4 { k } else { k + 16 * (salt + i) }
        })
        .collect();
    let rates: &[u64] = &[0, 30, 100, 300, 600];
    let rate = [rates[c.ch.draw(5) as usize], rates[c.ch.draw(5) as usize], rates[c.ch.draw(5) as usize], BLOCK_GAPS[c.ch.draw(6) as usize]];
    if c.ch.draw(3) == 2 {
        c.rates[F::DecodeErr as usize] = 150;
    }
    if c.ch.draw(6) == 5 {
        c.rates[F::DecodePanic as usize] = 60;
    }
    let plans: Vec<Vec<Plan>> = (0..nth)
        .map(|_| {
            (0..1 + c.ch.draw(if nkeys > 6 { 14 } else { 6 }))
                .map(|_| {
                    let k = keys[c.ch.draw(nkeys as u64) as usize];
                    let tok = utf8(k) && c.ch.draw(4) == 3;
                    match c.ch.draw(9) {
                        0..=3 => Plan::Write(k, tok),
                        8 => Plan::CloneHandle,
                        _ => Plan::Read(k, tok),
                    }
                })
                .collect()
        })
        .collect();
    let entropy = c.ch.draw(1 << 40);
    let store = fresh_store(entropy);
    // now and then the store has been in use for a while
    let used = match c.ch.draw(400) {
        1 => [70usize, 300, 1100, 5000][c.ch.draw(4) as usize],
        _ => 0,
    };
    for i in 0..used {
        let mut st = store.clone();
        let bytes = earlier(i);
        let want = cid_of(Code::Blake3_256, &bytes);
        match ctx::now_or_never(st.write(crate::store::Block(bytes))) {
            Some(Ok(got)) if got == want => {}
            o => c.viol = Some(Violation { class: "wrong-cid".into(), msg: format!("writing block {i} of {used}: {o:?}") }),
        }
    }
    c.log(format!("{nth} threads, keys {keys:?}, preemption {rate:?}"));
    let bodies: Vec<Body> = plans
        .into_iter()
        .map(|p| {
            let st = store.clone();
            Box::new(move |me| store_client(me, st, p)) as Body
        })
        .collect();
    let (dead, decode_panicked, hist) = run_threads(c, rate, 256 * 1024, entropy, bodies);
    if let Some(d) = dead {
        ctx::violate(&["C10"], "deadlock", format!("store operations block each other for ever: {d}"));
        std::mem::forget(store);
        return;
    }
    check(&store, &hist, decode_panicked);
    if !decode_panicked {
        for i in 0..used {
            let bytes = earlier(i);
            match ctx::now_or_never(store.read::<crate::store::Block>(&cid_of(Code::Blake3_256, &bytes))) {
                Some(Ok(Some(b))) if b.0 == bytes => {}
                o => return ctx::violate(&["C10"], "vanished", format!("in the end block {i} of {used} written before the threads started reads as {o:?}")),
            }
        }
    }
}
pub fn warm_up() {
    let mut store = MemoryStore::default();
    for k in 0..5 {
        let bytes = content(k);
        let cid = cid_of(Code::Blake3_256, &bytes);
        let _ = ctx::now_or_never(store.read::<Val>(&cid));
        let _ = ctx::now_or_never(store.write(Val(bytes)));
        let _ = ctx::now_or_never(store.read::<Val>(&cid));
        let _ = ctx::now_or_never(store.read_token(&cid));
    }
}
/// A store whose hashing does not depend on what this process did before.
pub fn fresh_store(entropy: u64) -> MemoryStore {
    std::thread::spawn(move || {
        sys::sim_enter(entropy ^ 0x5eed);
        MemoryStore::default()
    })
    .join()
    .expect("store")
}
/// Blocks that were there before the threads started.
fn earlier(i: usize) -> Vec<u8> {
    format!("earlier block {i}").into_bytes()
}

fn check(store: &MemoryStore, hist: &[Op], poisoned: bool) {
    let v = |class: &str, msg: String| ctx::violate(&["C10"], class, msg);
    let mut by_key: BTreeMap<usize, Vec<&Op>> = BTreeMap::new();
    for o in hist {
        by_key.entry(o.key).or_default().push(o);
    }
    for (k, ops) in &by_key {
        let bytes = content(*k);
        let cid = cid_of(Code::Blake3_256, &bytes).to_string();
        // a grow-only register: linearizable iff every read is explained by its neighbours in real time
        for o in ops {
            match &o.res {
                Res::Wrote(c) => {
                    if *c != cid {
                        v("wrong-cid", format!("T{} writing k{k} got {c}, the content's identifier is {cid}", o.thread));
                    }
                }
                Res::Found(b) => {
                    ctx::probe("read-found");
                    if *b != bytes {
                        v("mixed", format!("T{} reading k{k} got other bytes ({} instead of {})", o.thread, b.len(), bytes.len()));
                    }
                    if !ops.iter().any(|w| w.write && w.inv < o.ret) {
                        v("from-nowhere", format!("T{} read k{k} before anybody started to write it", o.thread));
                    }
                }
                Res::Absent => {
                    ctx::probe("read-absent");
                    if let Some(w) = ops.iter().find(|w| matches!(w.res, Res::Wrote(_)) && w.ret <= o.inv) {
                        v("missed", format!("T{} read k{k} as absent after T{} had written it", o.thread, w.thread));
                    }
                    if let Some(w) = ops.iter().find(|w| matches!(w.res, Res::Found(_)) && w.ret <= o.inv) {
                        v("vanished", format!("T{} read k{k} as absent after T{} had read it", o.thread, w.thread));
                    }
                }
                Res::Err(e) => {
                    if !e.contains("simulated") && !poisoned {
                        v("spurious-error", format!("T{} {} k{k}: {e}", o.thread, if o.write { "write" } else { "read" }));
                    }
                }
                Res::Panicked => {
                    if !poisoned {
                        v("panic", format!("T{} k{k} panicked", o.thread));
                    }
                }
                Res::Pending => v("unfinished", format!("T{} never finished", o.thread)),
            }
        }
        // what is there in the end
        if poisoned {
            continue;
        }
        let c: Cid = cid_of(Code::Blake3_256, &bytes);
        let fin = ctx::guard("read", || ctx::now_or_never(store.read::<crate::store::Block>(&c)));
        let fin = match fin {
            Some(Some(Ok(x))) => x.map(|b| b.0),
            Some(Some(Err(e))) => {
                v("spurious-error", format!("final read of k{k}: {e}"));
                continue;
            }
            _ => {
                v("stuck", format!("final read of k{k} does not end"));
                continue;
            }
        };
        let wrote = ops.iter().any(|o| matches!(o.res, Res::Wrote(_)));
        let tried = ops.iter().any(|o| o.write);
        match fin {
            Some(b) if b != bytes => v("mixed", format!("in the end k{k} holds other bytes")),
            Some(_) if !tried => v("from-nowhere", format!("in the end k{k} is there though nobody wrote it")),
            Some(_) if !wrote => v("failed-write-visible", format!("in the end k{k} is there though every write of it failed")),
            None if wrote => v("missed", format!("in the end the written k{k} is missing")),
            _ => {}
        }
    }
}
