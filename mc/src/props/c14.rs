//! A result depends on the call alone: histories of calls, destination contents, temporaries' contents, calls in between.
use super::common::*;
use crate::case::*;
use crate::explore::*;
use crate::{cpu, guard, step, threads};
use pic_scale::*;
use std::sync::atomic::{AtomicU64, Ordering::*};

pub struct P;
const FILTS: &[&str] = &["Bilinear", "Lanczos3", "Nearest", "MitchellNetravalli"];

// ---------------------------------------------------------------- operations of a history
#[derive(Clone, Copy)]
pub struct Op { c: Case, opaque: bool, salt: u8 }
fn pixels(o: &Op) -> Vec<f64> {
    let mut px = content(&o.c, 14 + o.salt as u32);
    if o.opaque && o.c.ch == 4 { for p in px.chunks_exact_mut(4) { p[3] = o.c.max(); } }
    px
}
fn perform(o: &Op) -> u64 {
    let px = pixels(o);
    unsafe { libc::alarm(100); }
    let r = run_with(&o.c, &px, Pad::Canary, Prior::Canary);
    unsafe { libc::alarm(0); }
    let k = match r.ret { Ret::Ok => 1, Ret::Err(c) => 100 + c as u64, Ret::Panic(_) => 2 };
    h64(h64(hash_px(k, &r.px), r.pad.is_some() as u64), r.src_same as u64)
}
/// The alphabet: calls that share geometry, filter or format with others in every combination.
fn alphabet(t: bool) -> Vec<Op> {
    let mut v = vec![];
    let geo = [(9, 7, 5, 4), (9, 7, 13, 4), (7, 9, 4, 5), (9, 7, 9, 4)];
    for (gi, &(sw, sh, dw, dh)) in geo.iter().enumerate() {
        for fname in ["Bilinear", "Lanczos3", "Nearest"] {
            let f = filt(fname);
            for e in direct(&[10, 12], true) {
                // thin out: every format and channel count with the first geometry and filter, fewer elsewhere
                if gi > 0 && !(e.ch == 3 || e.premul) { continue }
                if (gi > 1 || fname == "Nearest") && e.q { continue }
                if fname == "Nearest" && (gi > 0 || e.ch == 2) { continue }
                if gi == 3 && !t && e.fmt == Fmt::F16 { continue }
                v.push(Op { c: e.case(f, sw, sh, dw, dh), opaque: false, salt: 0 });
                if e.premul && gi == 0 && fname == "Bilinear" { v.push(Op { c: e.case(f, sw, sh, dw, dh), opaque: true, salt: 0 }); }
            }
        }
    }
    let l = filt("Lanczos3");
    for e in colors() { if e.premul { continue } v.push(Op { c: e.case(l, 9, 7, 5, 4), opaque: false, salt: 0 }); }
    for tf in [2u8, 3, 12] { for api in [Api::Linear, Api::LinearApprox, Api::Oklab, Api::Jzazbz] { let mut c = Ent { api, fmt: Fmt::U8, ch: 3, depth: 8, q: false, premul: false }.case(l, 9, 7, 5, 4); c.tf = tf; v.push(Op { c, opaque: false, salt: 0 }); } }
    for e in ar30() { v.push(Op { c: e.case(l, 9, 7, 5, 4), opaque: false, salt: 0 }); }
    for e in scale_front() { if e.ch >= 3 { v.push(Op { c: e.case(l, 9, 7, 5, 4), opaque: false, salt: 0 }); } }
    // failing calls, same size copies, threads, strides, wide rows
    let rgb8 = Ent { api: Api::Direct, fmt: Fmt::U8, ch: 3, depth: 8, q: false, premul: false };
    let rgba16 = Ent { api: Api::Direct, fmt: Fmt::U16, ch: 4, depth: 10, q: false, premul: true };
    let rgbaf = Ent { api: Api::Direct, fmt: Fmt::F32, ch: 4, depth: 8, q: false, premul: true };
    for e in [rgb8, rgba16, rgbaf] {
        v.push(Op { c: e.case(l, 9, 7, 9, 7), opaque: false, salt: 0 });
        v.push(Op { c: e.case(l, 70, 3, 41, 2), opaque: false, salt: 0 });
        v.push(Op { c: e.case(l, 0, 7, 5, 4), opaque: false, salt: 0 });
        v.push(Op { c: e.case(l, 9, 7, 5, 0), opaque: false, salt: 0 });
        let mut c = e.case(l, 9, 7, 5, 4); c.thr = 2; v.push(Op { c, opaque: false, salt: 0 });
        let mut c = e.case(l, 9, 7, 5, 4); c.ss = 9 * e.ch as u32 + 3; c.ds = 5 * e.ch as u32 + 2; v.push(Op { c, opaque: false, salt: 0 });
    }
    let mut c = rgba16.case(l, 9, 7, 5, 4); c.depth = 17; v.push(Op { c, opaque: false, salt: 0 });
    v
}
/// A smaller alphabet for longer histories.
fn core(t: bool) -> Vec<Op> {
    let a = alphabet(t);
    let n = if t { 90 } else { 40 };
    // evenly spread over the alphabet, which lists neighbours together
    (0..n).map(|i| a[i * a.len() / n]).collect()
}
fn lanczos_core() -> Vec<Op> { alphabet(false).into_iter().filter(|o| o.c.filt == filt("Lanczos3") && matches!(o.c.api, Api::Direct | Api::Ar30Host | Api::Ra30Net) && o.c.sw > 0 && o.c.dh > 0).enumerate().filter(|(i, _)| i % 3 != 1).map(|x| x.1).collect() }

/// Calls that leave threads behind (the colour conversions run on a pool of the whole process): no copy is made of a process in which they ran.
fn pooled(o: &Op) -> bool { o.c.api.is_color() }
#[repr(C)]
struct Cell { h: [u64; 1024], ok: [u32; 1024] }
fn cell() -> &'static mut Cell { unsafe { &mut *(libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Cell>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) as *mut Cell) } }
fn lone() -> bool {
    // a copy of a process with other threads would hold whatever those threads hold; pools of a finished call end by themselves
    for k in 0..400 {
        if std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(1) <= 1 { return true }
        std::thread::sleep(std::time::Duration::from_micros(if k < 50 { 50 } else { 5000 }));
    }
    false
}
/// Runs f in a forked copy of this process; an error if the copy died.
fn forked(f: impl FnOnce()) -> Result<(), String> {
    if threads::created() > 0 && !lone() { return Ok(()) }
    unsafe {
        match libc::fork() {
            -1 => panic!("harness: fork failed"),
            0 => { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); f(); libc::_exit(0) }
            p => {
                let mut st = 0;
                while libc::waitpid(p, &mut st, 0) < 0 {}
                if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 { Ok(()) } else { Err(if libc::WIFSIGNALED(st) { format!("killed by signal {}", libc::WTERMSIG(st)) } else { format!("exit status {}", libc::WEXITSTATUS(st)) }) }
            }
        }
    }
}
/// What each operation gives as the first call of a process.
fn golden(ops: &[Op]) -> Vec<u64> {
    assert!(ops.len() <= 1024);
    let c = cell();
    for (i, o) in ops.iter().enumerate() {
        c.ok[i] = 0;
        let _ = forked(|| { c.h[i] = perform(o); c.ok[i] = 1; });
    }
    let r = (0..ops.len()).map(|i| if c.ok[i] == 1 { c.h[i] } else { 0xdead }).collect();
    unsafe { libc::munmap(c as *mut Cell as *mut _, std::mem::size_of::<Cell>()); }
    r
}
/// All continuations of the history so far, each in a copy of the process as that history left it.
fn grow(ops: &[Op], gold: &[u64], hist: &mut Vec<usize>, depth: usize, cx: &mut Cx) {
    for i in 0..ops.len() {
        let o = &ops[i];
        cx.at(&o.c);
        let r = forked(|| {
            let h = perform(o);
            cx.step();
            cx.trace();
            cx.count("histories");
            cx.state(h64(h, i as u64));
            hist.push(i);
            if h != gold[i] { let t: Vec<String> = hist[..hist.len() - 1].iter().map(|&k| ops[k].c.show()).collect(); cx.violate("history", &format!("{} gives another result than in a fresh process after: {}", o.c.show(), t.join("; "))); }
            else if depth > 1 && !pooled(o) { grow(ops, gold, hist, depth - 1, cx); }
        });
        if let Err(e) = r { if gold[i] != 0xdead { cx.violate("crash", &format!("{e} during {} after {:?}", o.c.show(), hist.iter().map(|&k| ops[k].c.show()).collect::<Vec<_>>())); } }
    }
}
// ---------------------------------------------------------------- one scaler reconfigured
#[derive(Clone, Copy, Debug, PartialEq)]
enum Step { Thr(i32), Q(bool), CopyAside(i32), Resize(u8) }
fn steps() -> Vec<Step> { vec![Step::Thr(0), Step::Thr(2), Step::Thr(-1), Step::Q(true), Step::Q(false), Step::CopyAside(3), Step::Resize(0), Step::Resize(1), Step::Resize(2)] }
fn config_case(kind: u8) -> Case {
    let e = match kind { 0 => Ent { api: Api::Direct, fmt: Fmt::U8, ch: 3, depth: 8, q: false, premul: false }, 1 => Ent { api: Api::Direct, fmt: Fmt::F32, ch: 4, depth: 8, q: false, premul: true }, _ => Ent { api: Api::Direct, fmt: Fmt::U16, ch: 1, depth: 10, q: false, premul: false } };
    e.case(filt("Lanczos3"), 9, 70, 5, 66)
}
fn through(s: &Scaler, kind: u8) -> (u64, usize) {
    let c = config_case(kind);
    let px = content(&c, 3);
    let t0 = threads::created();
    let n = (c.dw * c.dh * c.ch as u32) as usize;
    let h = match kind {
        0 => { let a: Vec<u8> = px.iter().map(|v| *v as u8).collect(); let mut b = vec![0u8; n]; let r = ret(s.resize_rgb(&ImageStore::<u8, 3>::borrow(&a, 9, 70).unwrap(), &mut ImageStoreMut::<u8, 3>::borrow(&mut b, 5, 66).unwrap())); hash_px((r == Ret::Ok) as u64, &b.iter().map(|v| *v as f64).collect::<Vec<_>>()) }
        1 => { let a: Vec<f32> = px.iter().map(|v| *v as f32).collect(); let mut b = vec![0f32; n]; let r = ret(s.resize_rgba_f32(&ImageStore::<f32, 4>::borrow(&a, 9, 70).unwrap(), &mut ImageStoreMut::<f32, 4>::borrow(&mut b, 5, 66).unwrap(), true)); hash_px((r == Ret::Ok) as u64, &b.iter().map(|v| *v as f64).collect::<Vec<_>>()) }
        _ => { let a: Vec<u16> = px.iter().map(|v| *v as u16).collect(); let mut b = vec![0u16; n]; let mut st = ImageStoreMut::<u16, 1>::borrow(&mut b, 5, 66).unwrap(); st.bit_depth = 10; let r = ret(s.resize_plane_u16(&ImageStore::<u16, 1>::borrow(&a, 9, 70).unwrap(), &mut st)); drop(st); hash_px((r == Ret::Ok) as u64, &b.iter().map(|v| *v as f64).collect::<Vec<_>>()) }
    };
    (h, threads::created() - t0)
}
fn fresh(thr: Option<i32>, q: Option<bool>) -> Scaler {
    let mut s = Scaler::new(ResamplingFunction::Lanczos3);
    if let Some(q) = q { s.set_workload_strategy(if q { WorkloadStrategy::PreferQuality } else { WorkloadStrategy::PreferSpeed }); }
    if let Some(t) = thr { s.set_threading_policy(match t { 0 => ThreadingPolicy::Single, -1 => ThreadingPolicy::Adaptive, n => ThreadingPolicy::Fixed(n as usize) }); }
    s
}
fn configure(path: &[Step], cx: &mut Cx) {
    let mut s = Scaler::new(ResamplingFunction::Lanczos3);
    let (mut thr, mut q) = (None, None);
    let pol = |t: i32| match t { 0 => ThreadingPolicy::Single, -1 => ThreadingPolicy::Adaptive, n => ThreadingPolicy::Fixed(n as usize) };
    for p in path {
        match *p {
            Step::Thr(t) => { s.set_threading_policy(pol(t)); thr = Some(t); }
            Step::Q(b) => { s.set_workload_strategy(if b { WorkloadStrategy::PreferQuality } else { WorkloadStrategy::PreferSpeed }); q = Some(b); }
            Step::CopyAside(t) => { let mut c = s; c.set_threading_policy(pol(t)); c.set_workload_strategy(WorkloadStrategy::PreferQuality); let _ = through(&c, 2); }
            Step::Resize(k) => {
                let got = through(&s, k);
                let want = through(&fresh(thr, q), k);
                cx.steps(2);
                cx.trace();
                cx.count("configured resizes compared");
                cx.state(h64(got.0, k as u64));
                if got != want { cx.violate("configuration", &format!("resize kind {k} after {path:?} differs from a new scaler with threads {thr:?} and quality {q:?} (image or number of threads created: {} instead of {})", got.1, want.1)); }
            }
        }
    }
}
/// Paths of configuration steps that end in a resize.
fn paths(depth: usize) -> Vec<Vec<Step>> {
    let al = steps();
    let mut all: Vec<Vec<Step>> = vec![];
    let mut cur: Vec<Vec<Step>> = vec![vec![]];
    for _ in 0..depth {
        let mut next = vec![];
        for p in &cur { for s in &al { let mut q = p.clone(); q.push(*s); if matches!(s, Step::Resize(_)) { all.push(q.clone()); } next.push(q); } }
        cur = next;
    }
    all
}
// ---------------------------------------------------------------- a call in the middle of a call
fn interrupted(a: &Op, b: &Op, k: u64) -> (u64, Option<u64>, u64) {
    let b2 = *b;
    // the heap operations of the call alone: arguments are prepared before
    guard::preempted(k, || perform(a), move || perform(&b2))
}
fn mixed() -> Vec<Op> { let a: Vec<Op> = alphabet(false).into_iter().filter(|o| !pooled(o)).collect(); (0..26).map(|i| a[(i * a.len() + 7) / 26]).collect() }

fn quiet_ops() -> Vec<Op> {
    let mut v: Vec<Op> = alphabet(false).into_iter().filter(|o| !pooled(o) && o.c.thr == 0).collect();
    for e in direct(&[10], true) { if e.ch > 2 { for f in ["Lanczos3", "Bilinear"] { for (sw, sh, dw, dh) in [(9, 5, 6, 5), (5, 9, 5, 6), (8, 5, 11, 5), (5, 7, 5, 9)] { v.push(Op { c: e.case(filt(f), sw, sh, dw, dh), opaque: false, salt: 0 }); } } } }
    v
}
/// Atomic and all instructions of one call.
fn watched(o: &Op, cx: &mut Cx) -> (u64, u64) {
    step::board().points = 0;
    cx.at(&o.c);
    let _ = forked(|| { step::count(step::Kind::Atomics, || perform(o)); });
    cx.step();
    (step::board().points, step::board().instructions)
}
/// Points of each call, shared by all workers: one more than their number, 0 if not counted.
fn noted() -> &'static [AtomicU64; 1024] {
    static A: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    let p = *A.get_or_init(|| unsafe { libc::mmap(std::ptr::null_mut(), 8192, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) as usize });
    unsafe { &*(p as *const [AtomicU64; 1024]) }
}
static INNER: AtomicU64 = AtomicU64::new(0);
/// At each point of `a`, in a copy of the process, `b` runs to completion on another thread; both have to give what they give alone,
/// and so have later calls.
fn middle(a: &Op, b: &Op, warm: Option<&Op>, kind: step::Kind, lane: (u64, u64), ga: u64, gb: u64, cx: &mut Cx) -> bool {
    if ga == 0xdead || gb == 0xdead { return true }
    let bd = step::board();
    cx.at(&a.c);
    cx.note(&format!("interrupted at {kind:?} instructions by {}", b.c.show()));
    bd.tried = 0;
    let t0 = std::time::Instant::now();
    let e = forked(|| {
        if let Some(w) = warm { perform(w); }
        let b2 = *b;
        step::scatter(kind, lane, || perform(a), move || INNER.store(perform(&b2), SeqCst), |x| {
            if *x != ga { return 2 }
            if INNER.load(SeqCst) != gb { return 3 }
            if perform(b) != gb || perform(a) != ga || perform(b) != gb { 4 } else { step::FINE }
        });
    });
    if cx.verbose || std::env::var_os("MC_TIMES").is_some() { eprintln!("{kind:?} {lane:?} tried {} of {} points, {:?}: {} | {}", bd.tried, bd.points, t0.elapsed(), a.c.show(), b.c.show()); }
    cx.steps(5 * bd.tried);
    cx.traces(bd.tried);
    cx.add("interruptions at instructions", bd.tried);
    let after = warm.map(|w| format!(" after {}", w.c.show())).unwrap_or_default();
    if let Err(e) = e { cx.violate("crash", &format!("{e} when {} runs in the middle of {}{after}", b.c.show(), a.c.show())); return false }
    cx.state(h64(h64(ga, gb), bd.tried));
    let Some(n) = bd.verdict.iter().position(|v| *v > step::FINE) else { return true };
    let at = if kind == step::Kind::Shared { format!("{} (access to statics or heap operation), up to its own point {}", n / 64, n % 64) } else { format!("{n} ({kind:?} instructions)") };
    let what = match bd.verdict[n] { 2 => "the outer call gives another result", 3 => "the inner call gives another result", 4 => "later ones of these calls give another result", _ => "the process dies" };
    cx.violate("interrupted", &format!("when {} runs at point {at}, of {}{after}, {what}", b.c.show(), a.c.show()));
    false
}
const LANES: u64 = 24;
fn small_ops() -> Vec<Op> {
    let mut v = vec![];
    for f in ["Bilinear", "Lanczos3", "Nearest"] { for e in direct(&[10], true).into_iter().chain(ar30()).chain(scale_front()) { for (sw, sh, dw, dh) in [(5, 4, 3, 3), (5, 3, 3, 3), (3, 5, 3, 3), (4, 3, 3, 3), (3, 4, 3, 3)] { if sw == 5 && sh == 4 || f != "Nearest" { v.push(Op { c: e.case(filt(f), sw, sh, dw, dh), opaque: false, salt: 0 }); } } } }
    v.truncate(1024);
    v
}
fn prior_ents() -> Vec<Ent> { everything(&[10, 8, 16]) }
fn prior_sizes(t: bool) -> Vec<(u32, u32, u32, u32)> {
    let mut v = vec![(17, 9, 9, 5), (9, 5, 17, 9), (1, 1, 3, 2), (3, 4, 1, 1), (40, 3, 13, 7), (5, 21, 11, 8), (70, 4, 70, 3), (37, 2, 37, 5), (64, 6, 20, 6), (13, 6, 40, 6), (6, 6, 6, 6)];
    let n = if t { 4 } else { 2 };
    for a in 1..=n { for b in 1..=n { for c in 1..=n + 1 { for d in 1..=n + 1 { v.push((a, b, c, d)); } } } }
    v
}
impl Prop for P {
    fn id(&self) -> &'static str { "C14" }
    fn counters(&self) -> &'static [&'static str] { &["histories", "configured resizes compared", "runs with other memory contents", "interruptions", "instructions watched", "atomic instructions in calls", "writable statics of the library", "kinds of calls that write statics", "interruptions at instructions"] }
    fn phases(&self, t: bool) -> Vec<Phase> {
        let top = cpu::LEVELS.len() - 1;
        vec![
            Phase { level: Some(top), n: alphabet(t).len() as u64, label: "histories of two calls, the full alphabet".into() },
            Phase { level: Some(0), n: alphabet(t).len() as u64, label: "histories of two calls, portable code".into() },
            Phase { level: Some(top), n: core(t).len() as u64, label: "histories of three calls".into() },
            Phase { level: Some(0), n: core(false).len() as u64, label: "histories of three calls, portable code".into() },
            Phase { level: Some(top), n: lanczos_core().len() as u64, label: "histories of three calls of one scaler".into() },
            Phase { level: Some(top), n: steps().len() as u64 * steps().len() as u64, label: "configuration sequences".into() },
            Phase { level: Some(top), n: (prior_ents().len() * FILTS.len()) as u64, label: "destination and temporary contents".into() },
            Phase { level: Some(5), n: (prior_ents().len() * FILTS.len()) as u64, label: "destination and temporary contents, haswell".into() },
            Phase { level: Some(1), n: (prior_ents().len() * FILTS.len()) as u64, label: "destination and temporary contents, sse4".into() },
            Phase { level: Some(0), n: (prior_ents().len() * FILTS.len()) as u64, label: "destination and temporary contents, portable code".into() },
            Phase { level: Some(top), n: mixed().len() as u64, label: "a call at every heap operation of another call".into() },
            Phase { level: Some(top), n: { noted(); quiet_ops().len() as u64 }, label: "instructions of calls that synchronise with others".into() },
            Phase { level: Some(top), n: LANES, label: "a call at every atomic instruction of another call".into() },
            Phase { level: Some(top), n: if step::statics().is_empty() { 0 } else { LANES }, label: "a call at every instruction of another call, if calls can share anything".into() },
        ]
    }
    fn job(&self, phase: u32, idx: u64, cx: &mut Cx) {
        let t = cx.thorough;
        match phase {
            0..=4 => {
                let (ops, depth) = match phase { 0 | 1 => (alphabet(t), 2), 2 => (core(t), 3), 3 => (core(false), 3), _ => (lanczos_core(), 3) };
                let gold = golden(&ops);
                let i = idx as usize;
                let o = ops[i];
                cx.at(&o.c);
                if pooled(&o) {
                    for (k, b) in ops.iter().enumerate() {
                        if depth > 2 && k % 4 != i % 4 { continue }
                        cx.at(&b.c);
                        let e = forked(|| {
                            let _ = perform(&o);
                            let h = perform(b);
                            cx.steps(2);
                            cx.trace();
                            cx.count("histories");
                            cx.state(h64(h, k as u64));
                            if h != gold[k] { cx.violate("history", &format!("{} gives another result than in a fresh process after: {}", b.c.show(), o.c.show())); }
                        });
                        if let Err(e) = e { if gold[k] != 0xdead { cx.violate("crash", &format!("{e} during {} after {}", b.c.show(), o.c.show())); } }
                    }
                    return
                }
                let r = forked(|| {
                    if phase == 4 { PERSIST.store(Box::leak(Box::new(Scaler::new(ResamplingFunction::Lanczos3))), SeqCst); }
                    let h = perform(&o);
                    cx.step();
                    if h != gold[i] { cx.violate("fresh", &format!("two fresh processes give different results: {}", o.c.show())); return }
                    let mut hist = vec![i];
                    grow(&ops, &gold, &mut hist, depth - 1, cx);
                    // across threads of the process: another thread, after this one
                    if depth == 2 {
                        for (k, b) in ops.iter().enumerate() {
                            if (k + i) % if t { 1 } else { 5 } != 0 { continue }
                            let b2 = *b;
                            cx.at(&b2.c);
                            let e = forked(|| {
                                let h = std::thread::spawn(move || perform(&b2)).join().unwrap();
                                let h2 = perform(&o);
                                cx.steps(2);
                                cx.count("histories");
                                if h != gold[k] { cx.violate("threads", &format!("on a second thread {} gives another result after {}", b2.c.show(), o.c.show())); }
                                if h2 != gold[i] { cx.violate("threads", &format!("{} gives another result after another thread ran {}", o.c.show(), b2.c.show())); }
                            });
                            if let Err(e) = e { if gold[k] != 0xdead { cx.violate("crash", &format!("{e} during {} on a second thread after {}", b2.c.show(), o.c.show())); } }
                        }
                    }
                });
                if let Err(e) = r { cx.violate("crash", &format!("{e} after {}", o.c.show())); }
                if idx % 13 == 0 { cx.sample(|| format!("every continuation ({depth} calls) of {}", o.c.show())); }
            }
            5 => {
                let al = steps();
                let (a, b) = (al[idx as usize % al.len()], al[idx as usize / al.len()]);
                let depth = if t { 5 } else { 4 };
                for p in paths(depth - 2) { let mut q = vec![a, b]; q.extend(p); cx.note(&format!("{q:?}")); configure(&q, cx); }
            }
            6..=9 => {
                let es = prior_ents();
                let e = es[idx as usize % es.len()];
                let f = filt(FILTS[idx as usize / es.len()]);
                for (i, &(sw, sh, dw, dh)) in prior_sizes(t).iter().enumerate() {
                    let mut c = e.case(f, sw, sh, dw, dh);
                    c.level = cx_level(phase);
                    if i % 6 == 4 { c.thr = 2; }
                    let px = content(&c, 2);
                    cx.at(&c);
                    let base = run(&c, &px);
                    cx.step();
                    cx.state(hash_px(phase as u64, &base.px));
                    for (pr, poison) in [(Prior::Ones, 0xffu8), (Prior::Zero, 0), (Prior::Ones, 0x7e), (Prior::Canary, 0x3c)] {
                        let o = guard::with(3, poison, || run_with(&c, &px, Pad::Canary, pr));
                        cx.step();
                        cx.trace();
                        cx.count("runs with other memory contents");
                        if o.ret != base.ret { cx.violate("contents", &format!("{} instead of {} with a destination of {pr:?} and temporaries of {poison:#x}: {}", ret_show(&o.ret), ret_show(&base.ret), c.show())); }
                        else if let Some(i) = first_diff(&o.px, &base.px) { cx.violate("contents", &format!("{} is {} instead of {} when the destination held {pr:?} and temporaries {poison:#x}: {}", at_px(&c, i), o.px[i], base.px[i], c.show())); break }
                    }
                }
            }
            11 => {
                let ops = quiet_ops();
                let (points, instructions) = watched(&ops[idx as usize], cx);
                noted()[idx as usize].store(points + 1, SeqCst);
                cx.add("instructions watched", instructions);
                cx.add("atomic instructions in calls", points);
                if idx == 0 { cx.add("writable statics of the library", step::statics().len() as u64); }
            }
            12 => {
                // the calls that synchronise with something: others run at each of these points
                let ops = quiet_ops();
                let sync: Vec<usize> = (0..ops.len()).filter(|&i| { let p = noted()[i].load(SeqCst); if p > 0 { p > 1 } else { watched(&ops[i], cx).0 > 0 } }).collect();
                if sync.is_empty() { return }
                let gold = golden(&ops);
                let n = 24.min(sync.len());
                for k in 0..n {
                    if k as u64 % LANES != idx { continue }
                    let i = sync[k * sync.len() / n];
                    let a = &ops[i];
                    // others that differ in one respect, and some that differ in more
                    let near = |f: &dyn Fn(&Case, &Case) -> bool| sync.iter().copied().find(|&j| j != i && f(&a.c, &ops[j].c));
                    let mut others: Vec<usize> = [
                        near(&|x, y| x.filt == y.filt && x.fmt == y.fmt && x.ch == y.ch && (x.sw != y.sw || x.dw != y.dw)),
                        near(&|x, y| x.filt == y.filt && x.fmt == y.fmt && x.ch == y.ch && (x.sh != y.sh || x.dh != y.dh)),
                        near(&|x, y| x.filt != y.filt && x.fmt == y.fmt && x.ch == y.ch && x.sw == y.sw),
                        near(&|x, y| x.filt == y.filt && x.fmt != y.fmt && x.sw == y.sw),
                        near(&|x, y| x.filt == y.filt && x.fmt == y.fmt && x.ch != y.ch && x.sw == y.sw),
                    ].into_iter().flatten().collect();
                    for d in [1, 7, n / 2] { others.push(sync[(k * sync.len() / n + d) % sync.len()]); }
                    others.sort(); others.dedup();
                    let twin = Op { salt: 1, ..*a };
                    let gt = golden(&[twin])[0];
                    for warm in [false, true] { if !middle(a, &twin, warm.then_some(a), step::Kind::Atomics, (0, 1), gold[i], gt, cx) { return } }
                    for &j in &others { for warm in [None, Some(a), Some(&ops[j])] { if !middle(a, &ops[j], warm, step::Kind::Atomics, (0, 1), gold[i], gold[j], cx) { return } } }
                }
            }
            13 => {
                let ops = small_ops();
                // what calls that are the first of their process leave in the statics of the library
                let cl = cell();
                let before = step::snapshot();
                for (i, o) in ops.iter().enumerate() { cl.ok[i] = 0; let _ = forked(|| { perform(o); let after = step::snapshot(); cl.ok[i] = if after == before { 0 } else { 1 }; cl.h[i] = before.iter().zip(&after).enumerate().filter(|(_, (a, b))| a != b).fold(7, |h, (i, _)| h64(h, i as u64)); }); }
                let touching: Vec<usize> = (0..ops.len()).filter(|&i| cl.ok[i] == 1).collect();
                // one operation for every different set of bytes changed, and more of them spread over the rest
                let mut seen = vec![];
                let mut picked: Vec<usize> = touching.iter().copied().filter(|&i| !seen.contains(&cl.h[i]) && { seen.push(cl.h[i]); true }).collect();
                picked.truncate(if t { 24 } else { 8 });
                for k in 0..if t { 24 } else { 8 } { if let Some(&i) = touching.get(k * touching.len() / if t { 24 } else { 8 }) { if !picked.contains(&i) { picked.push(i); } } }
                unsafe { libc::munmap(cl as *mut Cell as *mut _, std::mem::size_of::<Cell>()); }
                if idx == 0 { cx.add("kinds of calls that write statics", touching.len() as u64); }
                for (n, &i) in picked.iter().enumerate() {
                    let a = &ops[i];
                    let other = &ops[picked[(n + 1) % picked.len()]];
                    let twin = Op { salt: 1, ..*a };
                    let gold = golden(&[*a, twin, *other]);
                    for (b, g) in [(&twin, gold[1]), (other, gold[2])] {
                        for warm in [None, Some(b)] {
                            if !middle(a, b, warm, step::Kind::Shared, (idx, LANES), gold[0], g, cx) { return }
                            if n < 4 || t { if !middle(a, b, warm, step::Kind::Every, (idx, LANES), gold[0], g, cx) { return } }
                        }
                    }
                }
            }
            _ => {
                let ops = mixed();
                let gold = golden(&ops);
                let a = ops[idx as usize];
                for (k, b) in ops.iter().enumerate() {
                    let mut at = 1;
                    loop {
                        let cl = cell();
                        cx.at(&a.c);
                        cx.note(&format!("interrupted at heap operation {at} by {}", b.c.show()));
                        let e = forked(|| {
                            let (x, y, n) = interrupted(&a, b, at);
                            cl.h[0] = x; cl.h[1] = y.unwrap_or(0); cl.h[2] = n; cl.ok[0] = 1; cl.ok[1] = y.is_some() as u32;
                        });
                        let (ok, x, y, n, ran) = (cl.ok[0] == 1, cl.h[0], cl.h[1], cl.h[2], cl.ok[1] == 1);
                        unsafe { libc::munmap(cl as *mut Cell as *mut _, std::mem::size_of::<Cell>()); }
                        cx.steps(2);
                        cx.trace();
                        cx.count("interruptions");
                        if let Err(e) = e { if gold[idx as usize] != 0xdead && gold[k] != 0xdead { cx.violate("crash", &format!("{e} when {} runs at heap operation {at} of {}", b.c.show(), a.c.show())); } break }
                        if !ok { break }
                        if x != gold[idx as usize] || (ran && y != gold[k]) { cx.violate("interrupted", &format!("when {} runs at heap operation {at} of {}, the {} call gives another result", b.c.show(), a.c.show(), if x != gold[idx as usize] { "outer" } else { "inner" })); }
                        cx.state(h64(h64(x, y), at));
                        if at >= n { break }
                        at += if t { 1 } else { 1 + at / 8 };
                    }
                }
            }
        }
    }
    fn rule(&self, _: bool) -> String { "explicit exploration of histories: after each call the process is forked once per continuation, so every sequence of calls over the alphabet runs from exactly the state its prefix left; each result is compared with that of the same call in a fresh process; configuration sequences of one scaler against a new scaler (image and threads created); destination and temporary memory filled with different values; one call run to completion at heap operations of another; and, where calls can share anything at all (the binary's symbol table tells whether the library has writable statics, and every instruction of every kind of call is looked at for accesses that synchronise), at every atomic instruction, at every instruction, and at accesses to the statics with a second switch inside the other call".into() }
    fn bounds(&self, t: bool) -> Vec<(String, String)> { vec![
        ("history of two calls".into(), format!("all {}^2 pairs, portable and vector code, {} of them also across two threads", alphabet(t).len(), if t { "all" } else { "a fifth" })),
        ("history of three calls".into(), format!("all {}^3 triples, and {}^3 triples of one scaler object", core(t).len(), lanczos_core().len())),
        ("configuration".into(), format!("all sequences of up to {} steps out of {} that end in a resize", if t { 5 } else { 4 }, steps().len())),
        ("instructions".into(), "every instruction of 380 calls watched for atomic accesses; schedules: one preemption at every atomic instruction or at every instruction, and two switches at accesses to statics and heap operations, only if the library has writable statics or calls execute atomic instructions (on a tree without both there is nothing to schedule)".into()),
        ("interruption".into(), format!("{} x {} calls, at {} heap operation", mixed().len(), mixed().len(), if t { "every" } else { "every early and a thinning series of later" }))] }
    fn assumptions(&self) -> Vec<String> { vec!["calls share memory through the library's writable statics, the heap or atomic instructions only; what is not in the symbol table as a static of the library (memory got from the system by itself) is not seen as shared".into()] }
}
fn cx_level(phase: u32) -> u8 { [(cpu::LEVELS.len() - 1) as u8, 5, 1, 0][phase as usize - 6] }
