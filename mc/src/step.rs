//! Preemption of a call at machine instructions.  Either the processor traps after every instruction of the watched thread (the
//! trap flag, set by the thread itself), or the pages that hold the library's writable statics are closed so that every access to
//! them traps.  At every point the process is forked, and in the copy another thread runs first: to completion, or up to one of its
//! own points.  Also the inventory of what calls could share: the writable statics of the library in this very binary.
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::OnceLock;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind { Off = 0, Atomics = 1, Every = 2, Shared = 3, Trace = 4, Conflicts = 5 }
static KIND: AtomicU32 = AtomicU32::new(0);
static N: AtomicU64 = AtomicU64::new(0);
static INSTR: AtomicU64 = AtomicU64::new(0);
/// What the handlers need while the pages of statics are closed: at an address of its own.
#[repr(C)]
struct Watch { start: AtomicUsize, span: AtomicUsize, on: AtomicU32, relock: AtomicU32, owner: AtomicUsize, turn: AtomicU32, other: AtomicI32, first: AtomicI32, stop_at: AtomicU64, seen: AtomicU64 }
const WATCH: usize = 0x7e00_1000_0000;
fn w() -> &'static Watch { unsafe { &*(WATCH as *const Watch) } }
/// Turns: the other thread has not started (1), is done (2), has stopped at a point (4), may go on (5).
const DONE: u32 = 2;
static OWNER: AtomicUsize = AtomicUsize::new(0);
const TF: u64 = 0x100;

#[cfg(target_arch = "x86_64")]
mod arch {
    use super::TF;
    #[inline(always)]
    pub fn on() { unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], {t}", "popfq", t = const TF) } }
    /// Clears the flag; whether it was set.
    #[inline(always)]
    pub fn off() -> bool {
        let f: u64;
        unsafe { std::arch::asm!("pushfq", "mov {f}, qword ptr [rsp]", "and qword ptr [rsp], {m}", "popfq", f = out(reg) f, m = const !TF as i32) }
        f & TF != 0
    }
}
/// Outside the library's own code (allocator, scheduler) no points are taken: returns whether stepping has to be resumed.
#[inline]
pub fn pause() -> bool { matches!(KIND.load(Relaxed), 1 | 2 | 4 | 5) && arch::off() }
#[inline]
pub fn resume(was: bool) { if was { arch::on() } }

/// A locked or exchanging access to memory: how threads synchronise.
unsafe fn atomic(mut p: *const u8) -> bool {
    unsafe {
        for _ in 0..6 {
            match *p { 0xf0 => return true, 0x66 | 0xf2 | 0xf3 | 0x2e | 0x36 | 0x3e | 0x26 | 0x64 | 0x65 | 0x67 | 0x40..=0x4f => p = p.add(1), 0x86 | 0x87 => return *p.add(1) >> 6 != 3, _ => return false }
        }
    }
    false
}
pub fn sleeping(tid: i32) -> bool {
    // /proc/self/task/<tid>/stat, without allocation
    let mut path = *b"/proc/self/task/0000000000/stat\0";
    let mut t = tid;
    for k in (16..26).rev() { path[k] = b'0' + (t % 10) as u8; t /= 10; }
    // leading zeros are not accepted: shift them out
    let z = path[16..26].iter().take_while(|b| **b == b'0').count();
    path.copy_within(16 + z.., 16);
    let mut b = [0u8; 128];
    let n = unsafe {
        let fd = libc::open(path.as_ptr() as *const _, libc::O_RDONLY);
        if fd < 0 { return false }
        let n = libc::read(fd, b.as_mut_ptr() as *mut _, b.len());
        libc::close(fd);
        n.max(0) as usize
    };
    b[..n].windows(3).find(|w| w[0] == b')' && w[1] == b' ').map(|w| w[2] == b'S').unwrap_or(false)
}
/// How long to wait for a thread that neither sleeps nor gets done; shorter once that has happened a few times.
fn patience() -> u32 { if board().waits < 4 { 3000 } else { 2060 } }
/// Waits until the other thread is done or has stopped, unless it has to wait for this one.
fn hand_over() {
    let w = w();
    let mut still = 0;
    let mut i = 0u32;
    while w.turn.load(SeqCst) == 1 {
        i += 1;
        if i < 2000 { std::hint::spin_loop(); continue }
        unsafe { libc::usleep(if i < 2050 { 20 } else { 300 }); }
        let o = w.other.load(SeqCst);
        if i >= 2050 && o != 0 { if sleeping(o) { still += 1 } else { still = 0 } }
        // a wait for a lock on a closed page never sleeps: it comes by the same point again and again
        if i > patience() { board().waits += 1; break }
        if still >= 4 || w.seen.load(SeqCst) > 1200 { break }
    }
    // this one is not watched from here on
    open();
}
/// Closes the pages of the statics, opens them for good.
fn close() { let w = w(); w.on.store(1, SeqCst); unsafe { libc::mprotect(w.start.load(SeqCst) as *mut _, w.span.load(SeqCst), libc::PROT_NONE); } }
fn open() { let w = w(); if w.on.swap(0, SeqCst) != 0 { unsafe { libc::mprotect(w.start.load(SeqCst) as *mut _, w.span.load(SeqCst), libc::PROT_READ | libc::PROT_WRITE); } } }
extern "C" fn fault(_: i32, i: *mut libc::siginfo_t, u: *mut libc::c_void) {
    let w = w();
    let (start, span) = (w.start.load(SeqCst), w.span.load(SeqCst));
    let a = unsafe { (*i).si_addr() } as usize;
    if a < start || a >= start + span { unsafe { libc::signal(libc::SIGSEGV, libc::SIG_DFL); } return }
    // another thread opened them meanwhile
    if w.on.load(SeqCst) == 0 { return }
    unsafe { libc::mprotect(start as *mut _, span, libc::PROT_READ | libc::PROT_WRITE); }
    if w.owner.load(SeqCst) == me() && statics().iter().any(|s| a >= s.addr && a < s.addr + s.len.max(1)) { shared_point(); }
    if w.on.load(SeqCst) != 0 {
        // the access itself, then closed again
        w.relock.store(1, SeqCst);
        unsafe { (*(u as *mut libc::ucontext_t)).uc_mcontext.gregs[libc::REG_EFL as usize] |= TF as i64; }
    }
}
/// A heap operation of the watched thread is a point as well.
pub fn heap_point() {
    if KIND.load(Relaxed) != 3 { return }
    let w = w();
    if w.on.load(SeqCst) == 0 || w.owner.load(SeqCst) != me() { return }
    unsafe { libc::mprotect(w.start.load(SeqCst) as *mut _, w.span.load(SeqCst), libc::PROT_READ | libc::PROT_WRITE); }
    shared_point();
    if w.on.load(SeqCst) != 0 { close(); }
}
static SECOND: AtomicBool = AtomicBool::new(false);
fn shared_point() {
    let w = w();
    if SECOND.load(Relaxed) {
        let n = w.seen.fetch_add(1, SeqCst) + 1;
        if n == w.stop_at.load(SeqCst) {
            open();
            w.turn.store(4, SeqCst);
            let (mut still, mut i) = (0, 0);
            while w.turn.load(SeqCst) != 5 && still < 4 {
                i += 1;
                if i + 2000 > patience() { board().waits += 1; break }
                unsafe { libc::usleep(if i < 50 { 20 } else { 300 }); }
                // the first one may have to wait for this one
                if i >= 50 { if sleeping(w.first.load(SeqCst)) { still += 1 } else { still = 0 } }
            }
        }
        return
    }
    let n = N.fetch_add(1, Relaxed) + 1;
    if n % LANES.load(Relaxed) != LANE.load(Relaxed) || n >= 1 << 10 || board().tried > board().limit { return }
    schedules(n);
}
/// All schedules with a switch at this point `n`, each in a copy of its own.
fn schedules(n: u64) {
    let w = w();
    unsafe {
        match libc::fork() {
            0 => {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                // one copy for every point at which the other thread stops (0: it does not)
                let b = board();
                b.second = 0;
                let mut q = 0;
                loop {
                    b.tried += 1;
                    match libc::fork() {
                        0 => {
                            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                            COPY.store(n * 64 + q.min(63), SeqCst);
                            SECOND.store(true, SeqCst);
                            w.seen.store(0, SeqCst);
                            w.stop_at.store(q, SeqCst);
                            w.on.store(0, SeqCst);
                            intrude();
                            return
                        }
                        -1 => libc::_exit(3),
                        p => if !ended(p) { b.verdict[(n * 64 + q.min(63)) as usize] = DIED; }
                    }
                    q += 1 + q / 48 * (b.second / 16);
                    if q > b.second || q > 600 { libc::_exit(0) }
                }
            }
            -1 => libc::_exit(3),
            p => { ended(p); }
        }
    }
}
fn ended(p: i32) -> bool {
    let mut st = 0;
    unsafe { while libc::waitpid(p, &mut st, 0) < 0 {} }
    libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0
}
/// Starts the other thread and waits for it.
fn intrude() {
    let w = w();
    w.turn.store(1, SeqCst);
    w.other.store(0, SeqCst);
    w.first.store(unsafe { libc::gettid() }, SeqCst);
    let r = std::thread::Builder::new().spawn(|| {
        w.other.store(unsafe { libc::gettid() }, SeqCst);
        w.owner.store(me(), SeqCst);
        let f = unsafe { &mut *(&raw mut INTRUDER) };
        if KIND.load(SeqCst) == 5 { OWNER.store(me(), SeqCst); arch::on(); }
        if let Some(f) = f { f(); }
        arch::off();
        open();
        if SECOND.load(SeqCst) && w.stop_at.load(SeqCst) == 0 { board().second = w.seen.load(SeqCst); }
        w.turn.store(DONE, SeqCst);
    });
    if r.is_err() { unsafe { libc::_exit(3) } }
    hand_over();
}
/// What runs on the other thread; cleared once it has started.
static mut INTRUDER: Option<Box<dyn FnMut() + Send>> = None;
/// Where a copy of the process notes how it ended: point, and what the parent saw of it.
pub const MAXP: usize = 1 << 16;
#[repr(C)]
pub struct Board {
    pub points: u64, pub instructions: u64, pub tried: u64, pub second: u64, pub verdict: [u8; MAXP],
    /// Forks whose branches were traced, those without conflicts, those that could not be traced to the end.
    pub forks: u64, pub apart: u64, pub waits: u64, pub limit: u64, pub untraced: u64, pub accesses: u64,
    /// Memory that both branches touch and one writes.
    pub conflicts: [(usize, usize); 64], pub nconf: usize,
}
pub const FINE: u8 = 1;
pub const DIED: u8 = 9;
static BOARD: std::sync::atomic::AtomicPtr<Board> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());
pub fn board() -> &'static mut Board {
    if BOARD.load(SeqCst).is_null() {
        let p = unsafe { libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Board>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) };
        assert!(p != libc::MAP_FAILED);
        BOARD.store(p as *mut Board, SeqCst);
    }
    unsafe { &mut *BOARD.load(SeqCst) }
}
/// The point at which this copy of the process was preempted (0: the original).
pub fn copy_of() -> u64 { COPY.load(SeqCst) }
static COPY: AtomicU64 = AtomicU64::new(0);
static LANE: AtomicU64 = AtomicU64::new(0);
static LANES: AtomicU64 = AtomicU64::new(1);
/// The mask registers, from the state that the kernel saved.
fn masks(u: *mut libc::c_void) -> Option<&'static [u64; 8]> {
    static AT: AtomicUsize = AtomicUsize::new(usize::MAX);
    let mut at = AT.load(Relaxed);
    if at == usize::MAX {
        at = 0;
        if crate::cpu::native_has("avx512f") { at = std::arch::x86_64::__cpuid_count(0xd, 5).ebx as usize; }
        AT.store(at, Relaxed);
    }
    if at == 0 { return None }
    unsafe {
        let f = (*(u as *mut libc::ucontext_t)).uc_mcontext.fpregs as *const u8;
        // which parts of the state are saved (0: in their initial state)
        let bv = (f.add(512) as *const u64).read_unaligned();
        static ZERO: [u64; 8] = [0; 8];
        if bv & 1 << 5 == 0 { return Some(&ZERO) }
        Some(&*(f.add(at) as *const [u64; 8]))
    }
}
extern "C" fn trap(_: i32, _: *mut libc::siginfo_t, u: *mut libc::c_void) {
    let g = unsafe { &mut (*(u as *mut libc::ucontext_t)).uc_mcontext.gregs };
    if w().relock.swap(0, SeqCst) != 0 {
        g[libc::REG_EFL as usize] &= !(TF as i64);
        if w().on.load(SeqCst) != 0 { unsafe { libc::mprotect(w().start.load(SeqCst) as *mut _, w().span.load(SeqCst), libc::PROT_NONE); } }
        return
    }
    let k = KIND.load(Relaxed);
    // not wanted any more, or a thread started by the watched one
    if k == 0 || OWNER.load(Relaxed) != me() { g[libc::REG_EFL as usize] &= !(TF as i64); return }
    INSTR.fetch_add(1, Relaxed);
    if k == 4 { record(g, masks(u)); return }
    if k == 5 {
        if !(SECOND.load(Relaxed) || START.load(Relaxed)) && !touches(g, masks(u)) || SECOND.load(Relaxed) && !touches(g, masks(u)) { return }
        START.store(false, Relaxed);
        shared_point();
        // the preempted one is not watched any more
        if OWNER.load(Relaxed) != me() { g[libc::REG_EFL as usize] &= !(TF as i64); }
        return
    }
    if k == 1 && !unsafe { atomic(g[libc::REG_RIP as usize] as *const u8) } { return }
    let n = N.fetch_add(1, Relaxed) + 1;
    if n % LANES.load(Relaxed) != LANE.load(Relaxed) || n >= MAXP as u64 { return }
    // the schedule with a preemption here goes on in a copy of the process, all others in this one
    let b = board();
    b.tried += 1;
    unsafe {
        match libc::fork() {
            0 => {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                KIND.store(0, SeqCst);
                COPY.store(n, SeqCst);
                g[libc::REG_EFL as usize] &= !(TF as i64);
                intrude();
            }
            -1 => libc::_exit(3),
            p => if !ended(p) { b.verdict[n as usize] = DIED; }
        }
    }
}
fn install() {
    static ONCE: AtomicU32 = AtomicU32::new(0);
    if ONCE.swap(1, SeqCst) != 0 { return }
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER;
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
        sa.sa_sigaction = fault as *const () as usize;
        libc::sigaction(libc::SIGSEGV, &sa, std::ptr::null_mut());
        let p = libc::mmap(WATCH as *mut _, 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_FIXED_NOREPLACE, -1, 0);
        assert!(p as usize == WATCH, "harness: address in use");
        let st = statics();
        if let (Some(a), Some(b)) = (st.iter().map(|s| s.addr).min(), st.iter().map(|s| s.addr + s.len).max()) {
            w().start.store(a & !4095, SeqCst);
            w().span.store(b.next_multiple_of(4096) - (a & !4095), SeqCst);
        }
    }
}
fn me() -> usize { unsafe { libc::pthread_self() as usize } }
/// The library call of the watched thread begins or ends.
pub fn in_call(begin: bool) {
    if !CALLS.load(Relaxed) { return }
    if KIND.load(Relaxed) == 3 { if w().owner.load(SeqCst) == me() { if begin { close() } else { open() } } return }
    if OWNER.load(Relaxed) != me() { return }
    if begin { arch::on() } else { arch::off(); }
}
static CALLS: AtomicBool = AtomicBool::new(false);
fn begin(kind: Kind, lane: (u64, u64), calls: bool) {
    install();
    let b = board();
    b.points = 0; b.instructions = 0; b.tried = 0; b.waits = 0; b.limit = u64::MAX;
    b.verdict.fill(0);
    N.store(0, SeqCst);
    INSTR.store(0, SeqCst);
    LANE.store(lane.0 % lane.1, SeqCst);
    LANES.store(lane.1, SeqCst);
    CALLS.store(calls, SeqCst);
    OWNER.store(me(), SeqCst);
    w().owner.store(me(), SeqCst);
    w().on.store(0, SeqCst);
    KIND.store(kind as u32, SeqCst);
}
/// The original: how many points there were. A copy: waits for the other thread.
fn end() {
    open();
    if copy_of() == 0 {
        KIND.store(0, SeqCst);
        OWNER.store(0, SeqCst);
        let b = board();
        b.points = N.load(SeqCst);
        b.instructions = INSTR.load(SeqCst);
    } else {
        let _ = w().turn.compare_exchange(4, 5, SeqCst, SeqCst);
        let mut t = 0;
        while w().turn.load(SeqCst) != DONE {
            std::thread::sleep(std::time::Duration::from_micros(50));
            let _ = w().turn.compare_exchange(4, 5, SeqCst, SeqCst);
            t += 1;
            if t > 400_000 { unsafe { libc::_exit(7) } }
        }
        KIND.store(0, SeqCst);
    }
}
/// Runs `a` on this thread in every schedule in which `b` runs to completion on another thread at one of the points of `a`'s library
/// call (those of this lane: k mod .1 = .0).  Every schedule goes on in a copy of the process, in which `after` judges it; `lone`
/// gets the result of `a` without preemption.
pub fn scatter<R>(kind: Kind, lane: (u64, u64), a: impl FnOnce() -> R, b: impl FnMut() + Send + 'static, after: impl FnOnce(&R) -> u8) -> R {
    unsafe { *(&raw mut INTRUDER) = Some(Box::new(b)); }
    begin(kind, lane, true);
    let r = a();
    end();
    let n = copy_of();
    if n != 0 { board().verdict[n as usize] = after(&r); unsafe { libc::_exit(0) } }
    r
}
// ------------------------------------------------------------------------------------------------ accesses
static START: AtomicBool = AtomicBool::new(false);
static SIDE: AtomicU32 = AtomicU32::new(0);
/// Below this the stack is the branch's own; set at its first instruction.
static SP0: AtomicUsize = AtomicUsize::new(0);
static TLS: AtomicUsize = AtomicUsize::new(0);
static TRACE: std::sync::atomic::AtomicPtr<Seen> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());
static TRACED: AtomicUsize = AtomicUsize::new(0);
const TMAX: usize = 1 << 20;
#[derive(Clone, Copy)]
struct Seen { at: usize, len: u32, write: bool, side: u8 }
/// While branches are traced nothing is released: addresses stay what they are.
pub fn tracing() -> bool { KIND.load(Relaxed) == 4 }
fn record(g: &[i64; 23], k: Option<&[u64; 8]>) {
    let sp = g[libc::REG_RSP as usize] as usize;
    if START.swap(false, Relaxed) { SP0.store(sp, Relaxed); }
    let (sp0, tls) = (SP0.load(Relaxed), TLS.load(Relaxed));
    for a in unsafe { crate::access::next(g, k) }.into_iter().flatten() {
        let e = a.at.saturating_add(a.len);
        if a.len < 1 << 20 && (a.at >= sp0.saturating_sub(1 << 22) && e <= sp0 || a.at >= tls - 0x4000 && e <= tls + 0x1000) { continue }
        let n = TRACED.fetch_add(1, Relaxed);
        if n < TMAX { unsafe { *TRACE.load(Relaxed).add(n) = Seen { at: a.at, len: a.len.min(u32::MAX as usize) as u32, write: a.write, side: SIDE.load(Relaxed) as u8 }; } }
    }
}
fn touches(g: &[i64; 23], k: Option<&[u64; 8]>) -> bool {
    let b = board();
    unsafe { crate::access::next(g, k) }.into_iter().flatten().any(|a| b.conflicts[..b.nconf].iter().any(|c| a.at < c.1 && c.0 < a.at.saturating_add(a.len)))
}
/// What the two traced branches both touch, one of them writing.
fn conflicts() {
    let n = TRACED.load(SeqCst);
    let b = board();
    b.accesses += n as u64;
    if n >= TMAX { b.untraced += 1; b.nconf = 0; return }
    let t = unsafe { std::slice::from_raw_parts(TRACE.load(SeqCst), n) };
    let unite = |f: &dyn Fn(&Seen) -> bool| {
        let mut v: Vec<(usize, usize)> = t.iter().filter(|s| f(s)).map(|s| (s.at, s.at.saturating_add(s.len as usize))).collect();
        v.sort();
        let mut o: Vec<(usize, usize)> = vec![];
        for r in v { match o.last_mut() { Some(l) if r.0 <= l.1 => l.1 = l.1.max(r.1), _ => o.push(r) } }
        o
    };
    let meet = |a: &[(usize, usize)], b: &[(usize, usize)], o: &mut Vec<(usize, usize)>| {
        let (mut i, mut j) = (0, 0);
        while i < a.len() && j < b.len() {
            let (lo, hi) = (a[i].0.max(b[j].0), a[i].1.min(b[j].1));
            if lo < hi { o.push((lo, hi)); }
            if a[i].1 < b[j].1 { i += 1 } else { j += 1 }
        }
    };
    let mut c = vec![];
    meet(&unite(&|s| s.side == 0 && s.write), &unite(&|s| s.side == 1), &mut c);
    meet(&unite(&|s| s.side == 0), &unite(&|s| s.side == 1 && s.write), &mut c);
    #[cfg(feature = "sched")]
    { let own = rayon_core::mc::own(); c.retain(|r| !(r.0 >= own.0 && r.1 <= own.1)); }
    c.sort();
    // too many: the closest are joined
    while c.len() > 64 { let k = (1..c.len()).min_by_key(|&k| c[k].0.saturating_sub(c[k - 1].1)).unwrap(); c[k - 1].1 = c[k - 1].1.max(c[k].1); c.remove(k); }
    if std::env::var_os("MC_WHY").is_some() { for r in &c { eprintln!("conflict {:x}..{:x} sp {:x} base {:x}: {:?}", r.0, r.1, SP0.load(SeqCst), base(), t.iter().filter(|s| s.at < r.1 && r.0 < s.at + s.len as usize).map(|s| (s.at, s.len, s.write, s.side)).take(6).collect::<Vec<_>>()); } }
    b.conflicts[..c.len()].copy_from_slice(&c);
    b.nconf = c.len();
}
/// The same for the two branches of every fork of a call that `f` makes.  `Every`: the second runs to completion at every instruction
/// of the first.  `Conflicts`: the memory the two touch is compared; where both touch something that one of them writes, all schedules
/// with a switch at such an access of the first and one at such an access of the second.
#[cfg(feature = "sched")]
pub fn branches<R>(kind: Kind, limit: u64, f: impl FnOnce() -> R, after: impl FnOnce(&R) -> u8) -> R {
    let _ = rayon_core::mc::PAIR.set(pair);
    begin(kind, (0, 1), false);
    KIND.store(0, SeqCst);
    let b = board();
    b.forks = 0; b.apart = 0; b.waits = 0; b.limit = limit; b.untraced = 0; b.accesses = 0;
    PAIRS.store(kind as u32, SeqCst);
    rayon_core::mc::reset(rayon_core::mc::Mode::Step, 1 << 12);
    let r = f();
    PAIRS.store(0, SeqCst);
    let n = copy_of();
    if n != 0 { board().verdict[n as usize] = after(&r); unsafe { libc::_exit(0) } }
    b.points = N.load(SeqCst);
    b.instructions = INSTR.load(SeqCst);
    r
}
#[cfg(feature = "sched")]
static PAIRS: AtomicU32 = AtomicU32::new(0);
#[cfg(feature = "sched")]
fn pair(a: &mut dyn FnMut(), b: &mut (dyn FnMut() + Send)) {
    let kind = PAIRS.load(SeqCst);
    if kind == 0 || KIND.load(SeqCst) != 0 || copy_of() != 0 { a(); b(); return }
    if kind == Kind::Conflicts as u32 {
        let bd = board();
        bd.forks += 1;
        bd.nconf = 0;
        match unsafe { libc::fork() } {
            0 => unsafe {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                TRACE.store(libc::mmap(std::ptr::null_mut(), TMAX * std::mem::size_of::<Seen>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) as *mut _, SeqCst);
                let fs: usize;
                std::arch::asm!("mov {}, fs:[0]", out(reg) fs);
                TLS.store(fs, SeqCst);
                for side in 0..2 {
                    SIDE.store(side, SeqCst);
                    START.store(true, SeqCst);
                    KIND.store(Kind::Trace as u32, SeqCst);
                    arch::on();
                    if side == 0 { a() } else { b() }
                    arch::off();
                    KIND.store(0, SeqCst);
                }
                conflicts();
                libc::_exit(0)
            },
            -1 => panic!("harness: fork"),
            p => if !ended(p) { bd.untraced += 1; },
        }
        if bd.nconf == 0 { bd.apart += 1; a(); b(); return }
    }
    // the branch outlives its use: a copy waits for it below, the original drops it unused
    let bp: *mut (dyn FnMut() + Send + '_) = b;
    struct Send1(*mut (dyn FnMut() + Send));
    unsafe impl Send for Send1 {}
    let p = Send1(unsafe { std::mem::transmute::<*mut (dyn FnMut() + Send + '_), *mut (dyn FnMut() + Send + 'static)>(bp) });
    unsafe { *(&raw mut INTRUDER) = Some(Box::new(move || { let p = &p; (*p.0)() })); }
    START.store(true, SeqCst);
    KIND.store(kind, SeqCst);
    arch::on();
    a();
    arch::off();
    KIND.store(0, SeqCst);
    if copy_of() != 0 { end() } else { unsafe { *(&raw mut INTRUDER) = None; } b() }
}
/// Points of `a`, without preemption.
pub fn count<R>(kind: Kind, a: impl FnOnce() -> R) -> (u64, u64) {
    begin(kind, (u64::MAX - 1, u64::MAX), true);
    a();
    end();
    (board().points, board().instructions)
}
// ------------------------------------------------------------------------------------------------ statics
pub struct Static { pub name: String, pub addr: usize, pub len: usize }
fn base() -> usize { unsafe { let ph = libc::getauxval(libc::AT_PHDR) as usize; ph & !4095 } }
/// What the writable statics of the library hold now.
pub fn snapshot() -> Vec<u8> { statics().iter().flat_map(|s| unsafe { std::slice::from_raw_parts(s.addr as *const u8, s.len) }.to_vec()).collect() }
/// Writable statics of the library in this binary (not thread local), as the symbol table tells.
pub fn statics() -> &'static [Static] {
    static S: OnceLock<Vec<Static>> = OnceLock::new();
    S.get_or_init(|| {
        let b = std::fs::read("/proc/self/exe").expect("harness: own binary");
        let u16a = |o: usize| u16::from_le_bytes(b[o..o + 2].try_into().unwrap()) as usize;
        let u32a = |o: usize| u32::from_le_bytes(b[o..o + 4].try_into().unwrap()) as usize;
        let u64a = |o: usize| u64::from_le_bytes(b[o..o + 8].try_into().unwrap()) as usize;
        assert!(&b[..4] == b"\x7fELF" && b[4] == 2, "harness: binary format");
        let (sh, es, n, ns) = (u64a(0x28), u16a(0x3a), u16a(0x3c), u16a(0x3e));
        let sec = |i: usize| sh + i * es;
        let text = |o: usize| { let e = b[o..].iter().position(|c| *c == 0).unwrap(); String::from_utf8_lossy(&b[o..o + e]).into_owned() };
        let name = |i: usize| text(u64a(sec(ns) + 0x18) + u32a(sec(i)));
        let mut v = vec![];
        let mut symbols = 0;
        let at = if u16a(16) == 3 { base() } else { 0 };
        for i in 0..n {
            if u32a(sec(i) + 4) != 2 { continue }
            let (off, len, link) = (u64a(sec(i) + 0x18), u64a(sec(i) + 0x20), u32a(sec(i) + 0x28));
            let str0 = u64a(sec(link) + 0x18);
            for k in 0..len / 24 {
                let o = off + 24 * k;
                let nm = text(str0 + u32a(o));
                if !nm.contains("9pic_scale") { continue }
                symbols += 1;
                let shndx = u16a(o + 6);
                if b[o + 4] & 15 != 1 || shndx == 0 || shndx >= n { continue }
                let flags = u64a(sec(shndx) + 8);
                // writable once the program runs: relocated constants are protected again before it starts
                if flags & 1 == 0 || flags & 0x400 != 0 || name(shndx).starts_with(".data.rel.ro") { continue }
                v.push(Static { name: nm, addr: at + u64a(o + 8), len: u64a(o + 16) });
            }
        }
        assert!(symbols > 100, "harness: no symbols of the library in the binary");
        v
    })
}
