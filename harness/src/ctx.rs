//! The simulator core: recorded choices, faults, simulated time, the cooperative executor, the event log.
use crate::sys;
use std::cell::RefCell;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap, HashMap};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn fnv(h: u64, b: &[u8]) -> u64 {
    let mut h = h;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x0000_0100_0000_01B3);
    }
    h
}

/// The one source of choices of a run. 0 is always the simplest alternative.
pub struct Chooser {
    state: u64,
    script: Option<Vec<u64>>,
    pos: usize,
    pub record: Vec<u64>,
    /// choices are also written here as they are made (for runs that kill their process)
    pub sink: Option<std::fs::File>,
}
pub const MAX_DRAWS: usize = 400_000;
impl Chooser {
    pub fn seeded(seed: u64) -> Self {
        Chooser { state: mix(seed ^ 0xA5A5_5A5A_1234_8765), script: None, pos: 0, record: Vec::new(), sink: None }
    }
    pub fn scripted(script: Vec<u64>) -> Self {
        Chooser { state: 0, script: Some(script), pos: 0, record: Vec::new(), sink: None }
    }
    pub fn draw(&mut self, n: u64) -> u64 {
        if n <= 1 || self.record.len() >= MAX_DRAWS {
            return 0;
        }
        let v = match &self.script {
            Some(s) => s.get(self.pos).copied().unwrap_or(0).min(n - 1),
            None => {
                self.state = self.state.wrapping_add(0x9E37_79B9_7F4A_7C15);
                ((mix(self.state) as u128 * n as u128) >> 64) as u64
            }
        };
        self.pos += 1;
        self.record.push(v);
        if let Some(f) = &mut self.sink {
            let _ = std::io::Write::write_all(f, &v.to_le_bytes());
        }
        v
    }
}

macro_rules! faults {
    ($($id:ident),* $(,)?) => {
        #[allow(non_camel_case_types, dead_code)]
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        pub enum F { $($id),* }
        pub const FAULT_NAMES: &[&str] = &[$(stringify!($id)),*];
    };
}
faults!(
    StoreReadErr, StoreReadMiss, StoreCorrupt, StoreTruncate, StoreMisdirect, StoreStall, StoreWriteErr, StoreWriteTorn,
    KeySignErr, KeyVerifyErr, KeyDidErr, KeyCtorErr, KeyStall, Cancel, NetDrop, NetDup, NetDelay, NetCorrupt, NetTruncate,
    NetSplice, ClockJumpFwd, ClockJumpBack, ClockSkew, ClockTick, NodeCrash, DecodeErr, DecodePanic, Preempt, HostilePeer,
    AttackerEdit, StoreShortRead, StoreAckLost,
);
pub const NF: usize = FAULT_NAMES.len();

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}

#[derive(Default, Clone)]
pub struct OpLog {
    pub node: usize,
    pub clock_lo: i128,
    pub clock_hi: i128,
    pub faults: u32,
    pub polls: u64,
    pub reads: u64,
}

pub struct Ctx {
    pub prop: String,
    pub ch: Chooser,
    pub now: i128,
    pub epoch: i128,
    pub skew: Vec<i128>,
    pub tick: i128,
    seq: u64,
    timers: BinaryHeap<Reverse<(i128, u64)>>,
    timer_wakers: HashMap<u64, Waker>,
    stalled: Vec<Waker>,
    pub healed: bool,
    pub lat_max: u64,
    pub rates: [u16; NF],
    pub fired: [u64; NF],
    pub probes: BTreeMap<String, u64>,
    pub hash: u64,
    pub sched_hash: u64,
    pub lines: Vec<String>,
    pub trace: bool,
    pub events: u64,
    pub polls: u64,
    pub viol: Option<Violation>,
    pub cur_task: usize,
    pub task_op: Vec<Option<usize>>,
    pub ops: Vec<OpLog>,
    pub steps: u64,
}

thread_local! {
    static CTX: RefCell<Option<Box<Ctx>>> = const { RefCell::new(None) };
    static TASKS: RefCell<Vec<TaskSlot>> = const { RefCell::new(Vec::new()) };
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install(c: Ctx) {
    CTX.with(|x| *x.borrow_mut() = Some(Box::new(c)));
}
pub fn take() -> Ctx {
    TASKS.with(|t| t.borrow_mut().clear());
    *CTX.with(|x| x.borrow_mut().take()).expect("no ctx")
}
pub fn with<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    CTX.with(|x| f(x.borrow_mut().as_mut().expect("no simulation on this thread")))
}

impl Ctx {
    pub fn new(prop: &str, ch: Chooser, trace: bool) -> Self {
        Ctx {
            prop: prop.to_string(),
            ch,
            now: 0,
            epoch: 1_700_000_000 * sys::SEC,
            skew: vec![0],
            tick: 0,
            seq: 0,
            timers: BinaryHeap::new(),
            timer_wakers: HashMap::new(),
            stalled: Vec::new(),
            healed: false,
            lat_max: 0,
            rates: [0; NF],
            fired: [0; NF],
            probes: BTreeMap::new(),
            hash: 0xcbf2_9ce4_8422_2325,
            sched_hash: 0xcbf2_9ce4_8422_2325,
            lines: Vec::new(),
            trace,
            events: 0,
            polls: 0,
            viol: None,
            cur_task: usize::MAX,
            task_op: Vec::new(),
            ops: Vec::new(),
            steps: 0,
        }
    }
    fn cur_op(&mut self) -> Option<&mut OpLog> {
        let t = self.cur_task;
        let o = self.task_op.get(t).copied().flatten()?;
        self.ops.get_mut(o)
    }
    pub fn log(&mut self, s: String) {
        self.hash = fnv(self.hash, s.as_bytes());
        self.hash = fnv(self.hash, b"\n");
        self.events += 1;
        if self.trace {
            let t = self.now;
            let task = if self.cur_task == usize::MAX { "-".to_string() } else { format!("t{}", self.cur_task) };
            self.lines.push(format!("{:>6} {:>12.6}s {:>4} {}", self.events, t as f64 / 1e9, task, s));
        }
    }
    pub fn fault(&mut self, f: F) -> bool {
        let r = self.rates[f as usize] as u64;
        if self.healed || r == 0 {
            return false;
        }
        let hit = self.ch.draw(1000) >= 1000 - r;
        if hit {
            self.note_fault(f);
        }
        hit
    }
    pub fn note_fault(&mut self, f: F) {
        self.fired[f as usize] += 1;
        if let Some(o) = self.cur_op() {
            o.faults += 1;
        }
        self.log(format!("FAULT {:?}", f));
    }
}

#[macro_export]
macro_rules! ev { ($($a:tt)*) => { $crate::ctx::with(|c| c.log(format!($($a)*))) } }

pub fn draw(n: u64) -> u64 {
    with(|c| c.ch.draw(n))
}
/// true with probability num/den; false is the simple outcome
pub fn chance(num: u64, den: u64) -> bool {
    num > 0 && draw(den) >= den - num.min(den)
}
pub fn pick<'a, T>(v: &'a [T]) -> &'a T {
    &v[draw(v.len() as u64) as usize]
}
pub fn fault(f: F) -> bool {
    with(|c| c.fault(f))
}
pub fn fault_enabled(f: F) -> bool {
    with(|c| !c.healed && c.rates[f as usize] > 0)
}
pub fn note_fault(f: F) {
    with(|c| c.note_fault(f))
}
pub fn probe(name: &str) {
    with(|c| *c.probes.entry(name.to_string()).or_insert(0) += 1)
}
pub fn prop() -> String {
    with(|c| c.prop.clone())
}
/// Record a violation if the active check owns this oracle.
pub fn violate(props: &[&str], class: &str, msg: String) {
    with(|c| {
        if c.viol.is_none() && props.contains(&c.prop.as_str()) {
            c.log(format!("VIOLATION {class}: {msg}"));
            c.viol = Some(Violation { class: class.to_string(), msg });
        }
    })
}
pub fn violated() -> bool {
    with(|c| c.viol.is_some())
}
pub fn clock_now(node: usize) -> i128 {
    with(|c| c.epoch + c.now + c.skew[node])
}
pub fn clock_secs(node: usize) -> u64 {
    clock_now(node).div_euclid(sys::SEC).max(0) as u64
}

/// Enable a random subset of the given faults, each at a random rate (per mille).
pub fn swarm(list: &[(F, &[u16])]) {
    for (f, rates) in list {
        if chance(1, 2) {
            let r = *pick(rates);
            with(|c| c.rates[*f as usize] = r);
        }
    }
}

// ---------------------------------------------------------------- time and tasks

pub struct Sleep {
    d: i128,
    deadline: Option<i128>,
    id: u64,
}
pub fn sleep(d: i128) -> Sleep {
    Sleep { d, deadline: None, id: 0 }
}
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let me = &mut *self;
        with(|c| match me.deadline {
            None => {
                if me.d <= 0 {
                    return Poll::Ready(());
                }
                let t = c.now + me.d;
                me.deadline = Some(t);
                c.seq += 1;
                me.id = c.seq;
                c.timers.push(Reverse((t, me.id)));
                c.timer_wakers.insert(me.id, cx.waker().clone());
                Poll::Pending
            }
            Some(t) if c.now >= t => Poll::Ready(()),
            Some(_) => {
                c.timer_wakers.insert(me.id, cx.waker().clone());
                Poll::Pending
            }
        })
    }
}
impl Drop for Sleep {
    fn drop(&mut self) {
        if self.deadline.is_some() {
            let id = self.id;
            CTX.with(|x| {
                if let Ok(mut b) = x.try_borrow_mut() {
                    if let Some(c) = b.as_mut() {
                        c.timer_wakers.remove(&id);
                    }
                }
            });
        }
    }
}

const LAT: &[i128] = &[0, 1_000_000, 20_000_000, 400_000_000, 2_000_000_000, 30_000_000_000, 600_000_000_000];
pub const LATS: u64 = LAT.len() as u64;
/// Latency of one external operation: ready at once, or pending for a drawn time.
pub async fn latency() {
    let d = with(|c| {
        let m = c.lat_max;
        LAT[c.ch.draw(m + 1) as usize]
    });
    sleep(d).await
}

/// What a failing dependency says: a plain text, or an error of some other library.
pub fn sim_error(what: &str) -> anyhow::Error {
    use std::io::{Error, ErrorKind};
    let k = |k: ErrorKind| anyhow::Error::new(Error::new(k, format!("simulated: {what}")));
    match draw(12) {
        0..=2 => anyhow::anyhow!("simulated: {what}"),
        3 => k(ErrorKind::NotFound),
        4 => k(ErrorKind::TimedOut),
        5 => k(ErrorKind::Interrupted),
        6 => k(ErrorKind::WouldBlock),
        7 => k(ErrorKind::UnexpectedEof),
        8 => anyhow::anyhow!("{what}").context("simulated: service temporarily unavailable"),
        9 => anyhow::anyhow!("simulated: No token found for CID"),
        10 => anyhow::anyhow!("simulated: not found"),
        _ => anyhow::anyhow!("simulated: timeout, try again later"),
    }
}

/// A stall: pending until faults stop (or the caller gives up).
pub struct Stall(bool);
pub fn stall() -> Stall {
    Stall(false)
}
impl Future for Stall {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        self.0 = true;
        with(|c| {
            if c.healed {
                Poll::Ready(())
            } else {
                c.stalled.push(cx.waker().clone());
                Poll::Pending
            }
        })
    }
}

/// Run a future, giving up at a drawn suspension point if the Cancel fault is enabled.
pub struct Cancellable<Fu> {
    inner: Option<Pin<Box<Fu>>>,
}
pub fn cancellable<Fu: Future>(f: Fu) -> Cancellable<Fu> {
    Cancellable { inner: Some(Box::pin(f)) }
}
impl<Fu: Future> Future for Cancellable<Fu> {
    type Output = Option<Fu::Output>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let fut = match self.inner.as_mut() {
            Some(f) => f,
            None => return Poll::Ready(None),
        };
        match fut.as_mut().poll(cx) {
            Poll::Ready(v) => Poll::Ready(Some(v)),
            Poll::Pending => {
                if fault(F::Cancel) {
                    self.inner = None;
                    Poll::Ready(None)
                } else {
                    Poll::Pending
                }
            }
        }
    }
}

pub fn heal() {
    let ws = with(|c| {
        c.healed = true;
        c.log("HEAL: faults stop".into());
        std::mem::take(&mut c.stalled)
    });
    for w in ws {
        w.wake();
    }
}

struct Flag {
    ready: AtomicBool,
}
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.ready.store(true, Ordering::Relaxed);
    }
}

struct TaskSlot {
    name: String,
    node: usize,
    fut: Option<Pin<Box<dyn Future<Output = ()>>>>,
    flag: Arc<Flag>,
    done: bool,
    background: bool,
}

pub fn spawn(name: &str, node: usize, fut: impl Future<Output = ()> + 'static) -> usize {
    let id = TASKS.with(|t| {
        let mut t = t.borrow_mut();
        t.push(TaskSlot {
            name: name.to_string(),
            node,
            fut: Some(Box::pin(fut)),
            flag: Arc::new(Flag { ready: AtomicBool::new(true) }),
            done: false,
            background: false,
        });
        t.len() - 1
    });
    with(|c| {
        while c.task_op.len() <= id {
            c.task_op.push(None);
        }
    });
    id
}

#[derive(Debug, PartialEq, Eq)]
pub enum RunEnd {
    Done,
    Deadlock(Vec<String>),
    Budget,
}

pub fn set_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        if std::env::var_os("UCANSIM_PANICS").is_some() {
            eprintln!("panic at {loc}: {msg}");
        }
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}
pub fn last_panic() -> (String, String) {
    LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()
}

/// A panic in the harness's own code is an error of the harness, never a violation.
pub fn is_harness_panic(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/verif/harness/src/") || loc.contains("harness/src/")
}

pub struct HarnessError(pub String);

/// Call library code, turning a panic into a violation of the active property (every property is about
/// operations that end in a result). Returns None when it panicked.
pub fn guard<R>(what: &str, f: impl FnOnce() -> R) -> Option<R> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Some(r),
        Err(p) => {
            panicked(what, p);
            None
        }
    }
}

fn panicked(what: &str, p: Box<dyn std::any::Any + Send>) {
    let (loc, msg) = last_panic();
    if p.downcast_ref::<HarnessError>().is_some() || is_harness_panic(&loc) {
        std::panic::panic_any(HarnessError(format!("{loc}: {msg}")));
    }
    library_panic(what, &loc, &msg);
}
/// Every property is about operations that end in a result: a panic in the library violates the active one.
pub fn library_panic(what: &str, loc: &str, msg: &str) {
    let short = loc.rsplit("/registry/src/").next().unwrap_or(loc).to_string();
    let file = short.rsplit(':').nth(1).unwrap_or("").rsplit('/').take(2).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("/");
    with(|c| {
        if c.viol.is_none() {
            let m = format!("{what} panicked at {short}: {msg}");
            c.log(format!("VIOLATION panic: {m}"));
            c.viol = Some(Violation { class: format!("panic:{file}"), msg: m });
        }
    });
}

/// Poll tasks until all are done, nothing can run any more, or the step budget is spent.
pub fn run_tasks(max_polls: u64) -> RunEnd {
    let mut left = max_polls;
    loop {
        let ready: Vec<usize> = TASKS.with(|t| {
            t.borrow().iter().enumerate().filter(|(_, s)| !s.done && s.flag.ready.load(Ordering::Relaxed)).map(|(i, _)| i).collect()
        });
        if ready.is_empty() {
            // advance simulated time to the next timer
            let w = with(|c| {
                while let Some(Reverse((t, id))) = c.timers.pop() {
                    if let Some(w) = c.timer_wakers.remove(&id) {
                        c.now = c.now.max(t);
                        return Some(w);
                    }
                }
                None
            });
            if let Some(w) = w {
                w.wake();
                continue;
            }
            let left: Vec<String> =
                TASKS.with(|t| t.borrow().iter().filter(|s| !s.done && !s.background).map(|s| s.name.clone()).collect());
            return if left.is_empty() { RunEnd::Done } else { RunEnd::Deadlock(left) };
        }
        if left == 0 {
            return RunEnd::Budget;
        }
        left -= 1;
        let i = ready[draw(ready.len() as u64) as usize];
        poll_task(i);
        // every now and then time moves on although something is runnable (slow nodes)
        with(|c| c.steps += 1);
    }
}

fn poll_task(i: usize) {
    let (mut fut, flag, node, name) = TASKS.with(|t| {
        let mut t = t.borrow_mut();
        let s = &mut t[i];
        (s.fut.take().unwrap(), s.flag.clone(), s.node, s.name.clone())
    });
    flag.ready.store(false, Ordering::Relaxed);
    let waker = Waker::from(flag);
    let mut cx = Context::from_waker(&waker);
    let (clk, tick) = with(|c| {
        c.cur_task = i;
        c.polls += 1;
        c.sched_hash = fnv(c.sched_hash, &(i as u64).to_le_bytes());
        let clk = c.epoch + c.now + c.skew[node];
        op_clock(c, clk, clk);
        (clk, c.tick)
    });
    sys::set_clock(clk, tick);
    let r = catch_unwind(AssertUnwindSafe(|| fut.as_mut().poll(&mut cx)));
    let (end, lo, hi, _) = sys::clock_state();
    with(|c| {
        op_clock(c, lo, hi);
        c.now += (end - clk).max(0);
        if let Some(o) = c.cur_op() {
            o.polls += 1;
        }
    });
    let done = match r {
        Ok(Poll::Ready(())) => true,
        Ok(Poll::Pending) => false,
        Err(p) => {
            panicked(&format!("task {name}"), p);
            true
        }
    };
    if done {
        drop(fut);
        TASKS.with(|t| t.borrow_mut()[i].done = true);
    } else {
        TASKS.with(|t| t.borrow_mut()[i].fut = Some(fut));
    }
    with(|c| c.cur_task = usize::MAX);
}

fn op_clock(c: &mut Ctx, lo: i128, hi: i128) {
    if let Some(o) = c.cur_op() {
        o.clock_lo = o.clock_lo.min(lo);
        o.clock_hi = o.clock_hi.max(hi);
    }
}

pub fn begin_op(node: usize) -> usize {
    with(|c| {
        let clk = c.epoch + c.now + c.skew[node];
        c.ops.push(OpLog { node, clock_lo: clk, clock_hi: clk, ..Default::default() });
        let id = c.ops.len() - 1;
        let t = c.cur_task;
        if t != usize::MAX {
            c.task_op[t] = Some(id);
        }
        id
    })
}
pub fn end_op(id: usize) -> OpLog {
    let (_, lo, hi, _) = sys::clock_state();
    with(|c| {
        if c.cur_task != usize::MAX {
            op_clock(c, lo, hi);
        }
        let t = c.cur_task;
        if t != usize::MAX {
            c.task_op[t] = None;
        }
        c.ops[id].clone()
    })
}
pub fn op_read() -> u64 {
    with(|c| match c.cur_op() {
        Some(o) => {
            o.reads += 1;
            o.reads
        }
        None => 0,
    })
}
/// Move a node's clock; widen the clock window of every op running on that node.
pub fn jump_clock(node: usize, d: i128) {
    with(|c| {
        c.skew[node] += d;
        let clk = c.epoch + c.now + c.skew[node];
        let ids: Vec<usize> = c.task_op.iter().flatten().copied().collect();
        for o in ids {
            if c.ops[o].node == node {
                c.ops[o].clock_lo = c.ops[o].clock_lo.min(clk);
                c.ops[o].clock_hi = c.ops[o].clock_hi.max(clk);
            }
        }
        c.log(format!("clock of node {node} stepped by {}s", d as f64 / 1e9));
    })
}
/// Poll a future that must complete without suspension (used for synchronous wrappers only).
pub fn now_or_never<R>(f: impl Future<Output = R>) -> Option<R> {
    let waker = Waker::from(Arc::new(Flag { ready: AtomicBool::new(false) }));
    let mut cx = Context::from_waker(&waker);
    let mut f = Box::pin(f);
    match f.as_mut().poll(&mut cx) {
        Poll::Ready(v) => Some(v),
        Poll::Pending => None,
    }
}

/// A one-shot cell tasks can wait on.
pub struct Cellq<T> {
    inner: std::rc::Rc<RefCell<(Option<T>, Vec<Waker>)>>,
}
impl<T> Clone for Cellq<T> {
    fn clone(&self) -> Self {
        Cellq { inner: self.inner.clone() }
    }
}
impl<T: Clone> Cellq<T> {
    pub fn new() -> Self {
        Cellq { inner: Default::default() }
    }
    pub fn set(&self, v: T) {
        let ws = {
            let mut b = self.inner.borrow_mut();
            b.0 = Some(v);
            std::mem::take(&mut b.1)
        };
        for w in ws {
            w.wake();
        }
    }
    pub fn peek(&self) -> Option<T> {
        self.inner.borrow().0.clone()
    }
    pub async fn get(&self) -> T {
        std::future::poll_fn(|cx| {
            let mut b = self.inner.borrow_mut();
            match &b.0 {
                Some(v) => Poll::Ready(v.clone()),
                None => {
                    b.1.push(cx.waker().clone());
                    Poll::Pending
                }
            }
        })
        .await
    }
}
