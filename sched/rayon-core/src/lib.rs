//! rayon-core with the scheduler replaced by one that the checker controls.  rayon itself (all its iterators) runs unchanged on top.
//! Every fork of two branches goes through `join_context`; in explore mode each branch is a thread of its own and exactly one
//! thread runs at a time, the one the explorer chose at the last scheduling point.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeSet, VecDeque};
use std::fmt;
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::time::{Duration, Instant};

pub type Paths = BTreeSet<(u32, Vec<u8>)>;
// ------------------------------------------------------------------------------------------------ control by the checker
pub mod mc {
    use super::*;
    pub use super::Paths;
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum Mode { InOrder, Reverse, Explore, Step }
    /// Runs the two branches of a fork in mode `Step`; set by the checker.
    pub type Pair = fn(&mut dyn FnMut(), &mut (dyn FnMut() + Send));
    pub static PAIR: std::sync::OnceLock<Pair> = std::sync::OnceLock::new();
    #[derive(Clone, Debug, Default, PartialEq, Eq)]
    pub struct Log {
        /// number of threads of every pool built
        pub pools: Vec<usize>,
        pub installs: usize,
        /// branches forked inside a pool, and on the pool of the process
        pub forks: usize,
        pub global_forks: usize,
        /// parallel loops, one after the other
        pub regions: u32,
        /// most branches ready at the same time
        pub width: usize,
        /// heap operations inside branches
        pub heap_points: usize,
        /// decisions of the prefix that were not available in this run
        pub mismatches: usize,
        /// branches that had to wait for a preempted one
        pub stuck: usize,
    }
    /// One scheduling decision: which option was taken out of how many the bound admitted.
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct Choice { pub taken: u16, pub allowed: u16 }
    pub struct Run { pub choices: Vec<Choice>, pub log: Log, pub internal: Paths }
    /// Bounds of an exploration: only decisions of one parallel loop are branched on (if given), at most `delays` deviations
    /// from the default order, at most `preempt` preemptions of a branch at a heap operation.
    #[derive(Clone, Copy, Debug)]
    pub struct Limits { pub only: Option<u32>, pub delays: usize, pub preempt: usize }
    /// Threads created by this scheduler itself.
    pub static SHIM_THREADS: AtomicUsize = AtomicUsize::new(0);

    /// Where this scheduler keeps its own state.
    pub fn own() -> (usize, usize) { let p = &raw const STATE as usize; (p, p + std::mem::size_of::<Mutex<State>>()) }
    pub fn log() -> Log { lock().log.clone() }
    /// `split`: what rayon is told about the number of threads, which is how finely it splits loops (0: the pool's own number).
    pub fn reset(mode: Mode, split: usize) { let mut s = lock(); *s = State::blank(); s.mode = mode; s.split = split; }
    /// One run in explore mode: follow `prefix`, then always option 0.
    pub fn explore_run<R>(prefix: &[u16], lim: Limits, internal: &Paths, split: usize, f: impl FnOnce() -> R) -> (R, Run) {
        {
            let mut s = lock();
            *s = State::blank();
            s.mode = Mode::Explore; s.split = split; s.prefix = prefix.to_vec(); s.lim = lim; s.internal = internal.clone();
            s.tasks.push(Task::new());
            s.tasks[0].tid = gettid();
        }
        ME.with(|m| m.set(0));
        PATH.with(|p| p.borrow_mut().clear());
        BUSY.with(|b| b.set(false));
        let r = f();
        BUSY.with(|b| b.set(true));
        ME.with(|m| m.set(usize::MAX));
        let mut s = lock();
        s.mode = Mode::InOrder;
        (r, Run { choices: std::mem::take(&mut s.trace), log: s.log.clone(), internal: std::mem::take(&mut s.seen) })
    }
    /// The next prefix in depth first order, if any is left.
    pub fn next_prefix(c: &[Choice]) -> Option<Vec<u16>> {
        let i = c.iter().rposition(|c| c.taken + 1 < c.allowed)?;
        let mut p: Vec<u16> = c[..i].iter().map(|c| c.taken).collect();
        p.push(c[i].taken + 1);
        Some(p)
    }
    /// Called by the allocator of the checker: a point at which a running branch may be preempted.
    pub fn heap_point() {
        if BUSY.try_with(|b| b.get()).unwrap_or(true) { return }
        let me = ME.try_with(|m| m.get()).unwrap_or(usize::MAX);
        if me == usize::MAX { return }
        BUSY.with(|b| b.set(true));
        {
            let mut s = lock();
            if s.mode == Mode::Explore && s.depth > 0 && s.cur == me {
                s.log.heap_points += 1;
                if s.lim.preempt > s.preempted { switch(s, me, true); }
            }
        }
        BUSY.with(|b| b.set(false));
    }
}
use mc::{Choice, Limits, Log, Mode};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
/// `Stuck`: waits for something that a preempted branch holds; goes on by itself once that is released.
enum St { Ready, Blocked(usize), Done, Stuck }
struct Task { st: St, forced: bool, cv: Arc<Condvar>, tid: i32 }
impl Task { fn new() -> Task { Task { st: St::Ready, forced: false, cv: Arc::new(Condvar::new()), tid: 0 } } }
unsafe extern "C" { safe fn gettid() -> i32; }
/// Whether a thread waits in the kernel.
fn sleeping(tid: i32) -> bool { std::fs::read(format!("/proc/self/task/{tid}/stat")).ok().and_then(|b| { let i = b.iter().rposition(|c| *c == b')')?; b.get(i + 2).map(|c| *c == b'S') }).unwrap_or(false) }
struct State {
    /// The chosen branch has taken notice.
    awake: bool,
    mode: Mode, split: usize, tasks: Vec<Task>, cur: usize, prefix: Vec<u16>, trace: Vec<Choice>, lim: Limits, used: usize, preempted: usize,
    internal: Paths, seen: Paths, depth: usize, log: Log,
}
impl State {
    const fn blank() -> State {
        State { awake: true, mode: Mode::InOrder, split: 0, tasks: vec![], cur: 0, prefix: vec![], trace: vec![], lim: Limits { only: None, delays: 0, preempt: 0 }, used: 0, preempted: 0, internal: Paths::new(), seen: Paths::new(), depth: 0,
            log: Log { pools: vec![], installs: 0, forks: 0, global_forks: 0, regions: 0, width: 0, heap_points: 0, mismatches: 0, stuck: 0 } }
    }
}
static STATE: Mutex<State> = Mutex::new(State::blank());
fn lock() -> MutexGuard<'static, State> { STATE.lock().unwrap_or_else(|e| e.into_inner()) }
/// Access from library code: what it allocates is no point of preemption.
fn quiet<R>(f: impl FnOnce(&mut State) -> R) -> R {
    let was = BUSY.with(|b| b.replace(true));
    let r = f(&mut lock());
    BUSY.with(|b| b.set(was));
    r
}
thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    static POOL: Cell<usize> = const { Cell::new(0) };
    static BUSY: Cell<bool> = const { Cell::new(true) };
    static PATH: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
}
fn default_threads() -> usize { std::thread::available_parallelism().map(|n| n.get()).unwrap_or(1) }

/// How often a branch did not sleep and yet did not get on.
static SPINS: AtomicUsize = AtomicUsize::new(0);
/// Picks who runs next; the caller has marked itself ready, blocked or done.
fn pick(s: &mut State, me: usize, preempt: bool) -> usize {
    let mut cand: Vec<usize> = vec![];
    if s.tasks[me].st == St::Ready { cand.push(me); }
    cand.extend((0..s.tasks.len()).rev().filter(|&t| t != me && s.tasks[t].st == St::Ready));
    s.log.width = s.log.width.max(cand.len());
    assert!(!cand.is_empty(), "harness: no branch is ready");
    // branches that only fork further, and joins whose other half has ended, do nothing observable: they go first, in one order
    let k = if let Some(k) = cand.iter().position(|&t| s.tasks[t].forced) { k } else if cand.len() == 1 { 0 } else {
        let mut allowed = if preempt { if s.preempted < s.lim.preempt { cand.len() } else { 1 } } else { cand.len().min((s.lim.delays - s.used).saturating_add(1)) };
        if s.lim.only.map(|r| r != s.log.regions).unwrap_or(false) { allowed = 1; }
        if allowed == 1 { 0 } else {
            let mut k = s.prefix.get(s.trace.len()).copied().unwrap_or(0) as usize;
            if k >= allowed {
                // this run took another course than the one the prefix comes from: its options end here
                s.log.mismatches += 1;
                s.trace.push(Choice { taken: k as u16, allowed: 0 });
                k = 0;
            } else { s.trace.push(Choice { taken: k as u16, allowed: allowed as u16 }); }
            if preempt { if k > 0 { s.preempted += 1; } } else { s.used += k; }
            k
        }
    };
    let t = cand[k];
    s.tasks[t].forced = false;
    t
}
/// Gives the processor to the chosen branch and waits for the turn of `me` (unless it is done).
fn switch(mut s: MutexGuard<'static, State>, me: usize, preempt: bool) {
    // a branch that had to wait for a preempted one is not the running one any more: no decision, it only queues up
    if s.cur == me {
        while !s.tasks.iter().any(|t| t.st == St::Ready) && s.tasks.iter().any(|t| t.st == St::Stuck) {
            let cv = s.tasks[me].cv.clone();
            s = cv.wait_timeout(s, Duration::from_micros(100)).unwrap_or_else(|e| e.into_inner()).0;
        }
        let t = pick(&mut s, me, preempt);
        s.cur = t;
        if t == me { return }
        s.awake = false;
        s.tasks[t].cv.notify_all();
    } else if s.tasks[me].st == St::Stuck { s.tasks[me].st = St::Ready; }
    if s.tasks[me].st == St::Done { return }
    let cv = s.tasks[me].cv.clone();
    let (mut of, mut still, mut since, mut wait) = (usize::MAX, 0, Instant::now(), 400);
    while s.cur != me {
        let (g, r) = cv.wait_timeout(s, Duration::from_micros(wait)).unwrap_or_else(|e| e.into_inner());
        s = g;
        if s.cur == me { break }
        if s.cur != of { of = s.cur; still = 0; since = Instant::now(); continue }
        if !r.timed_out() || s.tasks[me].st != St::Ready || !s.awake { continue }
        // the running branch waits for a lock that a preempted one holds (or spins for it): the preempted one has to go on
        if sleeping(s.tasks[of].tid) { still += 1; wait = 60 } else { still = 0; wait = 400 }
        if still >= 3 || since.elapsed() > Duration::from_millis(if SPINS.load(SeqCst) < 8 { 400 } else { 4 }) {
            if still < 3 { SPINS.fetch_add(1, SeqCst); }
            s.tasks[of].st = St::Stuck;
            s.log.stuck += 1;
            s.cur = me;
        }
    }
    s.awake = true;
}

pub struct FnContext { migrated: bool, _m: PhantomData<*mut ()> }
impl FnContext { pub fn migrated(&self) -> bool { self.migrated } }
fn ctx() -> FnContext { FnContext { migrated: false, _m: PhantomData } }

struct Ptr<T>(*mut T);
unsafe impl<T> Send for Ptr<T> {}
impl<T> Ptr<T> { fn get(&self) -> *mut T { self.0 } }

pub fn join_context<A, B, RA, RB>(oper_a: A, oper_b: B) -> (RA, RB)
where A: FnOnce(FnContext) -> RA + Send, B: FnOnce(FnContext) -> RB + Send, RA: Send, RB: Send {
    let n = POOL.with(|p| p.get());
    let mode = quiet(|s| { if n == 0 { s.log.global_forks += 1 } else { s.log.forks += 1 } s.mode });
    let me = ME.with(|m| m.get());
    if n == 0 || mode == Mode::InOrder || (mode == Mode::Explore && me == usize::MAX) {
        let a = oper_a(ctx());
        let b = oper_b(ctx());
        return (a, b);
    }
    if mode == Mode::Reverse {
        let b = oper_b(ctx());
        let a = oper_a(ctx());
        return (a, b);
    }
    if mode == Mode::Step {
        let (mut a, mut b) = (Some(oper_a), Some(oper_b));
        let (mut ra, mut rb) = (None, None);
        let pool = n;
        (mc::PAIR.get().expect("harness: no stepper"))(
            &mut || if let Some(f) = a.take() { ra = Some(catch_unwind(AssertUnwindSafe(|| f(ctx())))) },
            &mut || if let Some(f) = b.take() { let was = POOL.with(|p| p.replace(pool)); rb = Some(catch_unwind(AssertUnwindSafe(|| f(ctx())))); POOL.with(|p| p.set(was)) },
        );
        return match (ra.expect("harness: branch a"), rb.expect("harness: branch b")) { (Ok(a), Ok(b)) => (a, b), (Err(e), _) | (_, Err(e)) => resume_unwind(e) };
    }
    let was_busy = BUSY.with(|b| b.replace(true));
    let path = PATH.with(|p| p.borrow().clone());
    let child = |k: u8| { let mut q = path.clone(); q.push(k); q };
    let (pa, pb) = (child(0), child(1));
    let id = {
        let mut s = lock();
        if s.depth == 0 { s.log.regions += 1; }
        s.depth += 1;
        let r = s.log.regions;
        s.seen.insert((r, path.clone()));
        let id = s.tasks.len();
        s.tasks.push(Task::new());
        s.tasks[id].forced = s.internal.contains(&(r, pb.clone()));
        s.tasks[me].forced = s.internal.contains(&(r, pa.clone()));
        id
    };
    let mut rb: Option<std::thread::Result<RB>> = None;
    let slot = Ptr(&mut rb as *mut Option<std::thread::Result<RB>>);
    let body = move || {
        {
            let mut s = lock();
            s.tasks[id].tid = gettid();
            let cv = s.tasks[id].cv.clone();
            while s.cur != id { s = cv.wait(s).unwrap_or_else(|e| e.into_inner()); }
            s.awake = true;
        }
        ME.with(|m| m.set(id));
        POOL.with(|p| p.set(n));
        PATH.with(|p| *p.borrow_mut() = pb);
        BUSY.with(|b| b.set(false));
        let r = catch_unwind(AssertUnwindSafe(|| oper_b(ctx())));
        BUSY.with(|b| b.set(true));
        unsafe { *slot.get() = Some(r); }
        let mut s = lock();
        s.tasks[id].st = St::Done;
        for t in s.tasks.iter_mut() { if t.st == St::Blocked(id) { t.st = St::Ready; t.forced = true; } }
        switch(s, id, false);
    };
    // the branch ends before this function returns
    let job: Box<dyn FnOnce() + Send + '_> = Box::new(body);
    let job: Box<dyn FnOnce() + Send + 'static> = unsafe { std::mem::transmute(job) };
    mc::SHIM_THREADS.fetch_add(1, SeqCst);
    let h = std::thread::Builder::new().stack_size(1 << 20).spawn(job).expect("harness: thread");
    PATH.with(|p| *p.borrow_mut() = pa);
    switch(lock(), me, false);
    BUSY.with(|b| b.set(was_busy));
    let ra = catch_unwind(AssertUnwindSafe(|| oper_a(ctx())));
    BUSY.with(|b| b.set(true));
    {
        let mut s = lock();
        if s.tasks[id].st != St::Done { s.tasks[me].st = St::Blocked(id); switch(s, me, false); } else if s.cur != me { switch(s, me, false); }
    }
    let _ = h.join();
    lock().depth -= 1;
    PATH.with(|p| *p.borrow_mut() = path);
    BUSY.with(|b| b.set(was_busy));
    match (ra, rb.expect("harness: branch result")) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(e), _) | (_, Err(e)) => resume_unwind(e),
    }
}
pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where A: FnOnce() -> RA + Send, B: FnOnce() -> RB + Send, RA: Send, RB: Send { join_context(|_| a(), |_| b()) }

// ------------------------------------------------------------------------------------------------ pools
pub struct ThreadPool { n: usize }
#[derive(Debug)]
pub struct ThreadPoolBuildError(());
impl fmt::Display for ThreadPoolBuildError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "pool") } }
impl std::error::Error for ThreadPoolBuildError {}
#[derive(Default)]
pub struct ThreadPoolBuilder { n: usize }
pub struct ThreadBuilder(());
impl ThreadPoolBuilder {
    pub fn new() -> Self { Self::default() }
    pub fn num_threads(mut self, n: usize) -> Self { self.n = n; self }
    pub fn thread_name<F: FnMut(usize) -> String + 'static>(self, _: F) -> Self { self }
    pub fn stack_size(self, _: usize) -> Self { self }
    pub fn use_current_thread(self) -> Self { self }
    pub fn panic_handler<H: Fn(Box<dyn std::any::Any + Send>) + Send + Sync + 'static>(self, _: H) -> Self { self }
    pub fn start_handler<H: Fn(usize) + Send + Sync + 'static>(self, _: H) -> Self { self }
    pub fn exit_handler<H: Fn(usize) + Send + Sync + 'static>(self, _: H) -> Self { self }
    pub fn breadth_first(self) -> Self { self }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        let n = if self.n == 0 { default_threads() } else { self.n };
        quiet(|s| s.log.pools.push(n));
        Ok(ThreadPool { n })
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> { Ok(()) }
}
struct InPool(usize);
impl Drop for InPool { fn drop(&mut self) { POOL.with(|p| p.set(self.0)); } }
impl ThreadPool {
    fn enter(&self) -> InPool { InPool(POOL.with(|p| p.replace(self.n))) }
    pub fn install<OP: FnOnce() -> R + Send, R: Send>(&self, op: OP) -> R { quiet(|s| s.log.installs += 1); let _g = self.enter(); op() }
    pub fn broadcast<OP: Fn(BroadcastContext<'_>) -> R + Sync, R: Send>(&self, op: OP) -> Vec<R> { let _g = self.enter(); broadcast(op) }
    pub fn current_num_threads(&self) -> usize { self.n }
    pub fn current_thread_index(&self) -> Option<usize> { current_thread_index() }
    pub fn current_thread_has_pending_tasks(&self) -> Option<bool> { None }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where A: FnOnce() -> RA + Send, B: FnOnce() -> RB + Send, RA: Send, RB: Send { let _g = self.enter(); join(a, b) }
    pub fn scope<'s, OP: FnOnce(&Scope<'s>) -> R + Send, R: Send>(&self, op: OP) -> R { let _g = self.enter(); scope(op) }
    pub fn in_place_scope<'s, OP: FnOnce(&Scope<'s>) -> R, R>(&self, op: OP) -> R { let _g = self.enter(); in_place_scope(op) }
    pub fn scope_fifo<'s, OP: FnOnce(&ScopeFifo<'s>) -> R + Send, R: Send>(&self, op: OP) -> R { let _g = self.enter(); scope_fifo(op) }
    pub fn in_place_scope_fifo<'s, OP: FnOnce(&ScopeFifo<'s>) -> R, R>(&self, op: OP) -> R { let _g = self.enter(); in_place_scope_fifo(op) }
    pub fn spawn<OP: FnOnce() + Send + 'static>(&self, op: OP) { let _g = self.enter(); op() }
    pub fn spawn_fifo<OP: FnOnce() + Send + 'static>(&self, op: OP) { let _g = self.enter(); op() }
    pub fn yield_now(&self) -> Option<Yield> { Some(Yield::Idle) }
    pub fn yield_local(&self) -> Option<Yield> { Some(Yield::Idle) }
}
impl fmt::Debug for ThreadPool { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "ThreadPool({})", self.n) } }

pub fn max_num_threads() -> usize { 65535 }
pub fn current_num_threads() -> usize {
    let s = quiet(|s| s.split);
    match POOL.with(|p| p.get()) { 0 => default_threads(), n => if s > 0 { s } else { n } }
}
pub fn current_thread_index() -> Option<usize> { match POOL.with(|p| p.get()) { 0 => None, n => Some(match ME.with(|m| m.get()) { usize::MAX => 0, t => t % n }) } }
pub fn current_thread_has_pending_tasks() -> Option<bool> { None }
pub enum Yield { Executed, Idle }
pub fn yield_now() -> Option<Yield> { Some(Yield::Idle) }
pub fn yield_local() -> Option<Yield> { Some(Yield::Idle) }

// ------------------------------------------------------------------------------------------------ scopes
type Job<'s, S> = Box<dyn FnOnce(&S) + Send + 's>;
pub struct Scope<'s> { q: Mutex<VecDeque<Job<'s, Scope<'s>>>> }
pub struct ScopeFifo<'s> { q: Mutex<VecDeque<Job<'s, ScopeFifo<'s>>>> }
macro_rules! scopes { ($t:ident, $spawn:ident, $scope:ident, $inplace:ident) => {
    impl<'s> $t<'s> {
        pub fn $spawn<B: FnOnce(&$t<'s>) + Send + 's>(&self, b: B) { self.q.lock().unwrap().push_back(Box::new(b)); }
        fn drain(&self) { loop { let v: Vec<_> = self.q.lock().unwrap().drain(..).collect(); if v.is_empty() { break } run_all(self, v); } }
    }
    pub fn $scope<'s, OP: FnOnce(&$t<'s>) -> R + Send, R: Send>(op: OP) -> R { $inplace(op) }
    pub fn $inplace<'s, OP: FnOnce(&$t<'s>) -> R, R>(op: OP) -> R { let s = $t { q: Mutex::new(VecDeque::new()) }; let r = op(&s); s.drain(); r }
} }
scopes!(Scope, spawn, scope, in_place_scope);
scopes!(ScopeFifo, spawn_fifo, scope_fifo, in_place_scope_fifo);
fn run_all<'s, S: Sync + 's>(s: &S, mut v: Vec<Job<'s, S>>) {
    match v.len() {
        0 => {}
        1 => (v.pop().unwrap())(s),
        n => { let w = v.split_off(n / 2); join_context(move |_| run_all(s, v), move |_| run_all(s, w)); }
    }
}
pub fn spawn<F: FnOnce() + Send + 'static>(f: F) { quiet(|s| s.log.global_forks += (POOL.with(|p| p.get()) == 0) as usize); f() }
pub fn spawn_fifo<F: FnOnce() + Send + 'static>(f: F) { spawn(f) }
pub struct BroadcastContext<'a> { i: usize, n: usize, _m: PhantomData<&'a mut dyn Fn()> }
impl BroadcastContext<'_> { pub fn index(&self) -> usize { self.i } pub fn num_threads(&self) -> usize { self.n } }
pub fn broadcast<OP: Fn(BroadcastContext<'_>) -> R + Sync, R: Send>(op: OP) -> Vec<R> { let n = current_num_threads(); (0..n).map(|i| op(BroadcastContext { i, n, _m: PhantomData })).collect() }
pub fn spawn_broadcast<OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static>(op: OP) { broadcast(op); }
