//! Exhaustive case runner: forks worker processes, hands out job indices, attributes crashes and hangs to the
//! exact call that was in flight, counts distinct observed states, and collects violations.
use crate::case::{Case, Ret};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

pub const W: usize = 8;
const NCTR: usize = 48;
const VLEN: usize = 3000;
const NV: usize = 96;
const SETBITS: usize = 24;

#[repr(C)]
struct Slot { idx: AtomicU64, beat: AtomicU64, busy: AtomicU32, has: AtomicU32, case: std::mem::MaybeUninit<Case>, note_len: AtomicU32, note: [u8; 240] }
#[repr(C)]
struct VSlot { len: AtomicU32, phase: u32, idx: u64, buf: [u8; VLEN] }
#[repr(C)]
struct Shared {
    next: AtomicU64, stop: AtomicU32, nviol: AtomicU32, done_jobs: AtomicU64, states: AtomicU64, set_full: AtomicU32,
    trans: AtomicU64, traces: AtomicU64, nknown: AtomicU32,
    ctr: [AtomicU64; NCTR],
    fmax: [AtomicU64; NCTR],
    slot: [Slot; W],
    viol: [VSlot; NV],
    known: [VSlot; NV],
    nsamp: AtomicU32,
    samp: [VSlot; 16],
    set: [AtomicU64; 1 << SETBITS],
}
fn shared() -> &'static mut Shared {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
        assert!(p != libc::MAP_FAILED);
        &mut *(p as *mut Shared)
    }
}
pub fn h64(mut h: u64, v: u64) -> u64 { h ^= v; h = h.wrapping_mul(0x9e3779b97f4a7c15); h ^= h >> 29; h.wrapping_mul(0xbf58476d1ce4e5b9) ^ (h >> 31) }
pub fn hash_px(seed: u64, px: &[f64]) -> u64 { px.iter().fold(h64(0x51ed, seed), |h, v| h64(h, v.to_bits())) }

static NOTE: std::sync::atomic::AtomicPtr<Slot> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());
/// Appends to the note of the call in flight; safe to call from a signal handler.
pub fn crash_note(t: &[u8]) {
    let p = NOTE.load(Relaxed);
    if p.is_null() { let _ = unsafe { libc::write(2, t.as_ptr() as *const _, t.len()) }; return }
    let sl = unsafe { &mut *p };
    let mut n = (sl.note_len.load(Relaxed) as usize).min(240);
    for b in b": ".iter().chain(t) { if n < 240 { sl.note[n] = *b; n += 1; } }
    sl.note_len.store(n as u32, Relaxed);
}
/// What a job sees.
pub struct Cx {
    sh: *mut Shared,
    w: usize,
    pub phase: u32,
    pub idx: u64,
    pub verbose: bool,
    pub thorough: bool,
    names: &'static [&'static str],
    pub viol_here: u32,
}
impl Cx {
    fn s(&self) -> &'static mut Shared { unsafe { &mut *self.sh } }
    /// Announces the call that is about to run, so that a crash is attributed to it.
    pub fn at(&mut self, c: &Case) {
        let sl = &mut self.s().slot[self.w];
        sl.case.write(*c);
        sl.has.store(1, Relaxed);
        sl.beat.fetch_add(1, Relaxed);
        if self.verbose { eprintln!("  call {}", c.show()); }
    }
    pub fn note(&mut self, n: &str) {
        let sl = &mut self.s().slot[self.w];
        let l = n.len().min(240);
        sl.note[..l].copy_from_slice(&n.as_bytes()[..l]);
        sl.note_len.store(l as u32, Relaxed);
        sl.beat.fetch_add(1, Relaxed);
    }
    /// One call of the real library was executed.
    pub fn step(&mut self) { self.s().trans.fetch_add(1, Relaxed); }
    pub fn steps(&mut self, n: u64) { self.s().trans.fetch_add(n, Relaxed); }
    /// A prediction of the reference model was compared with the implementation.
    pub fn trace(&mut self) { self.s().traces.fetch_add(1, Relaxed); }
    pub fn traces(&mut self, n: u64) { self.s().traces.fetch_add(n, Relaxed); }
    /// Records an observed state; returns whether it is new.
    pub fn state(&mut self, h: u64) -> bool {
        let s = self.s();
        if s.set_full.load(Relaxed) != 0 { return false }
        let h = if h == 0 { 1 } else { h };
        let m = (1usize << SETBITS) - 1;
        let mut i = (h as usize).wrapping_mul(0x9E3779B97F4A7C15) >> (64 - SETBITS);
        loop {
            let v = s.set[i].load(Relaxed);
            if v == h { return false }
            if v == 0 {
                match s.set[i].compare_exchange(0, h, Relaxed, Relaxed) {
                    Ok(_) => { if s.states.fetch_add(1, Relaxed) as usize > (1 << SETBITS) * 7 / 10 { s.set_full.store(1, Relaxed); } return true }
                    Err(x) if x == h => return false,
                    _ => {}
                }
            }
            i = (i + 1) & m;
        }
    }
    pub fn count(&mut self, name: &'static str) { self.add(name, 1) }
    pub fn add(&mut self, name: &'static str, n: u64) {
        let i = self.names.iter().position(|x| *x == name).unwrap_or_else(|| panic!("counter {name} not declared"));
        self.s().ctr[i].fetch_add(n, Relaxed);
    }
    /// Keeps the maximum of a measured quantity (non negative).
    pub fn maxf(&mut self, name: &'static str, v: f64) {
        let i = self.names.iter().position(|x| *x == name).unwrap_or_else(|| panic!("counter {name} not declared"));
        self.s().fmax[i].fetch_max(v.max(0.).to_bits(), Relaxed);
    }
    fn put(v: &mut [VSlot; NV], n: &AtomicU32, phase: u32, idx: u64, text: &str) {
        let k = n.fetch_add(1, SeqCst) as usize;
        if k < NV {
            let l = text.len().min(VLEN);
            v[k].buf[..l].copy_from_slice(&text.as_bytes()[..l]);
            v[k].phase = phase; v[k].idx = idx;
            v[k].len.store(l as u32, SeqCst);
        }
    }
    /// Reports a violation; `sig` classifies it, `text` describes it.
    pub fn violate(&mut self, sig: &str, text: &str) {
        self.viol_here += 1;
        if self.verbose { eprintln!("  VIOLATES [{sig}] {text}"); }
        if self.viol_here > 3 { return }
        let s = self.s();
        let t: String = format!("{sig}\t{text}").chars().take(700).collect();
        Self::put(&mut s.viol, &s.nviol, self.phase, self.idx, &t);
        if s.nviol.load(Relaxed) as usize >= NV { s.stop.store(1, SeqCst); }
    }
    /// Reports an occurrence of a recorded finding (only the first of each kind is kept).
    pub fn known(&mut self, key: &str, text: &str) {
        let s = self.s();
        let n = (s.nknown.load(SeqCst) as usize).min(NV);
        for k in 0..n {
            let v = &s.known[k];
            let b = &v.buf[..v.len.load(SeqCst) as usize];
            if b.starts_with(key.as_bytes()) && b.get(key.len()) == Some(&b'\t') { return }
        }
        let t: String = format!("{key}\t{text}").chars().take(700).collect();
        Self::put(&mut s.known, &s.nknown, self.phase, self.idx, &t);
    }
    /// Keeps a few executed cases verbatim for the evidence file.
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        let s = self.s();
        if s.nsamp.load(Relaxed) >= 16 { return }
        let k = s.nsamp.fetch_add(1, SeqCst) as usize;
        if k < 16 {
            let t: String = f().chars().take(600).collect();
            s.samp[k].buf[..t.len()].copy_from_slice(t.as_bytes());
            s.samp[k].len.store(t.len() as u32, SeqCst);
        }
    }
    pub fn stopping(&self) -> bool { self.s().stop.load(Relaxed) != 0 }
}

/// A block of jobs that run under one CPU feature level (None: the job chooses).
pub struct Phase { pub level: Option<usize>, pub n: u64, pub label: String }
pub trait Prop {
    fn id(&self) -> &'static str;
    fn counters(&self) -> &'static [&'static str];
    fn phases(&self, thorough: bool) -> Vec<Phase>;
    fn job(&self, phase: u32, idx: u64, cx: &mut Cx);
    /// text for the evidence file
    fn rule(&self, thorough: bool) -> String;
    fn bounds(&self, thorough: bool) -> Vec<(String, String)>;
    fn assumptions(&self) -> Vec<String> { vec![] }
    fn batch(&self) -> u64 { 1 }
    fn workers(&self) -> usize { W }
    fn setup_worker(&self) {}
    /// seconds without progress after which a call counts as not returning
    fn hang_s(&self) -> u64 { 60 }
}
pub struct Violation { pub phase: u32, pub idx: u64, pub sig: String, pub text: String }
pub struct Report {
    pub jobs_total: u64, pub jobs_done: u64, pub states: u64, pub set_full: bool, pub trans: u64, pub traces: u64,
    pub ctr: BTreeMap<&'static str, u64>, pub fmax: BTreeMap<&'static str, f64>, pub viol: Vec<Violation>, pub known: Vec<(String, String)>,
    pub capped: bool, pub wall: f64, pub phases: Vec<(String, u64, f64)>, pub samples: Vec<String>,
}

fn worker(p: &dyn Prop, sh: *mut Shared, w: usize, phase: u32, ph: &Phase, thorough: bool) -> ! {
    crate::case::quiet_panics();
    if let Some(l) = ph.level { crate::cpu::set_level(l); }
    p.setup_worker();
    let s = unsafe { &mut *sh };
    NOTE.store(&mut s.slot[w], SeqCst);
    let mut cx = Cx { sh, w, phase, idx: 0, verbose: false, thorough, names: p.counters(), viol_here: 0 };
    let b = p.batch();
    loop {
        if s.stop.load(SeqCst) != 0 { break }
        let i0 = s.next.fetch_add(b, SeqCst);
        if i0 >= ph.n { break }
        for i in i0..(i0 + b).min(ph.n) {
            s.slot[w].idx.store(i, SeqCst);
            s.slot[w].has.store(0, SeqCst);
            s.slot[w].note_len.store(0, SeqCst);
            s.slot[w].busy.store(1, SeqCst);
            s.slot[w].beat.fetch_add(1, SeqCst);
            cx.idx = i;
            cx.viol_here = 0;
            if let Err(m) = crate::case::guarded(|| p.job(phase, i, &mut cx)) {
                eprintln!("harness panic in job {i} of phase {phase}: {m}");
                unsafe { libc::_exit(3) }
            }
            s.slot[w].busy.store(0, SeqCst);
            s.done_jobs.fetch_add(1, SeqCst);
        }
    }
    unsafe { libc::_exit(0) }
}
/// Runs one job in this process, verbosely.
pub fn replay_job(p: &dyn Prop, phase: u32, idx: u64, thorough: bool) -> Vec<Violation> {
    let sh = shared();
    let phs = p.phases(thorough);
    let ph = &phs[phase as usize];
    assert!(idx < ph.n, "job index out of range for this tree");
    crate::case::quiet_panics();
    if let Some(l) = ph.level { crate::cpu::set_level(l); }
    p.setup_worker();
    let mut cx = Cx { sh, w: 0, phase, idx, verbose: true, thorough, names: p.counters(), viol_here: 0 };
    p.job(phase, idx, &mut cx);
    collect(&sh.viol, &sh.nviol)
}
fn text_of(v: &VSlot) -> String { String::from_utf8_lossy(&v.buf[..v.len.load(SeqCst) as usize]).into_owned() }
fn collect(v: &[VSlot; NV], n: &AtomicU32) -> Vec<Violation> {
    (0..(n.load(SeqCst) as usize).min(NV)).map(|k| {
        let t = text_of(&v[k]);
        let (a, b) = t.split_once('\t').unwrap_or((&t, ""));
        Violation { phase: v[k].phase, idx: v[k].idx, sig: a.to_string(), text: b.to_string() }
    }).collect()
}
fn sig_name(s: i32) -> String { match s { libc::SIGSEGV => "SIGSEGV".into(), libc::SIGABRT => "SIGABRT".into(), libc::SIGILL => "SIGILL".into(), libc::SIGBUS => "SIGBUS".into(), libc::SIGFPE => "SIGFPE".into(), libc::SIGKILL => "SIGKILL".into(), n => format!("signal {n}") } }

pub fn explore(p: &dyn Prop, thorough: bool, budget: Duration) -> Report {
    let sh = shared();
    let phases = p.phases(thorough);
    let t0 = Instant::now();
    let mut rep = Report { jobs_total: 0, jobs_done: 0, states: 0, set_full: false, trans: 0, traces: 0, ctr: BTreeMap::new(), fmax: BTreeMap::new(), viol: vec![], known: vec![], capped: false, wall: 0., phases: vec![], samples: vec![] };
    let mut crashes: Vec<Violation> = vec![];
    for (pi, ph) in phases.iter().enumerate() {
        let pt = Instant::now();
        sh.next.store(0, SeqCst);
        sh.done_jobs.store(0, SeqCst);
        rep.jobs_total += ph.n;
        if sh.stop.load(SeqCst) != 0 { continue }
        if let Ok(o) = std::env::var("MC_ONLY") { if o.split(',').all(|x| x.parse() != Ok(pi)) { continue } }
        let nw = p.workers().min(W).min(ph.n.max(1) as usize);
        let spawn = |w: usize| -> i32 {
            let shp = sh as *const Shared as *mut Shared;
            unsafe { (*shp).slot[w].busy.store(0, SeqCst); }
            match unsafe { libc::fork() } { 0 => { unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); } worker(p, shp, w, pi as u32, ph, thorough) } -1 => panic!("fork failed"), c => c }
        };
        let mut pids: Vec<i32> = (0..nw).map(&spawn).collect();
        let mut beats: Vec<(u64, Instant)> = vec![(0, Instant::now()); nw];
        let mut live = nw;
        while live > 0 {
            let mut any = false;
            for w in 0..nw {
                if pids[w] == 0 { continue }
                let mut st = 0;
                let r = unsafe { libc::waitpid(pids[w], &mut st, libc::WNOHANG) };
                let mut crash: Option<String> = None;
                if r == pids[w] {
                    any = true;
                    if libc::WIFEXITED(st) {
                        match libc::WEXITSTATUS(st) {
                            0 => { pids[w] = 0; live -= 1; continue }
                            3 => { eprintln!("harness error in worker"); std::process::exit(3) }
                            n => crash = Some(format!("process exited with status {n}")),
                        }
                    } else { crash = Some(format!("process killed by {}", sig_name(libc::WTERMSIG(st)))); }
                    if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGKILL { eprintln!("worker was killed (out of memory?)"); std::process::exit(4) }
                } else {
                    let b = sh.slot[w].beat.load(SeqCst);
                    if b != beats[w].0 || sh.slot[w].busy.load(SeqCst) == 0 { beats[w] = (b, Instant::now()); }
                    else if beats[w].1.elapsed() > Duration::from_secs(p.hang_s()) {
                        unsafe { libc::kill(pids[w], libc::SIGKILL); libc::waitpid(pids[w], &mut st, 0); }
                        crash = Some(format!("no return within {} s", p.hang_s()));
                    }
                }
                if let Some(c) = crash {
                    let sl = &sh.slot[w];
                    let idx = sl.idx.load(SeqCst);
                    let what = if sl.has.load(SeqCst) == 1 { unsafe { sl.case.assume_init_ref() }.show() } else { "(between calls)".into() };
                    let note = String::from_utf8_lossy(&sl.note[..sl.note_len.load(SeqCst) as usize]).into_owned();
                    if sl.busy.load(SeqCst) == 0 { eprintln!("worker died outside a job: {c}"); std::process::exit(3) }
                    crashes.push(Violation { phase: pi as u32, idx, sig: "crash".into(), text: format!("{c} during {what} {note}") });
                    if crashes.len() > 12 { sh.stop.store(1, SeqCst); }
                    if sh.stop.load(SeqCst) == 0 { beats[w] = (0, Instant::now()); pids[w] = spawn(w); } else { pids[w] = 0; live -= 1; }
                }
            }
            if t0.elapsed() > budget && sh.stop.load(SeqCst) == 0 { rep.capped = true; sh.stop.store(1, SeqCst); }
            if !any { std::thread::sleep(Duration::from_millis(4)); }
        }
        rep.jobs_done += sh.done_jobs.load(SeqCst);
        if std::env::var_os("MC_TIMES").is_some() { eprintln!("{} {} jobs {:.1} s, {} calls", ph.label, ph.n, pt.elapsed().as_secs_f64(), sh.trans.load(SeqCst)); }
        rep.phases.push((ph.label.clone(), sh.done_jobs.load(SeqCst), pt.elapsed().as_secs_f64()));
    }
    rep.states = sh.states.load(SeqCst);
    rep.set_full = sh.set_full.load(SeqCst) != 0;
    rep.trans = sh.trans.load(SeqCst);
    rep.traces = sh.traces.load(SeqCst);
    for (i, n) in p.counters().iter().enumerate() {
        let c = sh.ctr[i].load(SeqCst);
        let f = sh.fmax[i].load(SeqCst);
        if f != 0 { rep.fmax.insert(n, f64::from_bits(f)); } else { rep.ctr.insert(n, c); }
    }
    rep.viol = collect(&sh.viol, &sh.nviol);
    rep.viol.extend(crashes);
    rep.known = collect(&sh.known, &sh.nknown).into_iter().map(|v| (v.sig, v.text)).collect();
    rep.samples = sh.samp.iter().map(text_of).filter(|t| !t.is_empty()).collect();
    rep.wall = t0.elapsed().as_secs_f64();
    rep
}
pub fn ret_show(r: &Ret) -> String { match r { Ret::Ok => "Ok".into(), Ret::Err(c) => format!("Err(code {c})"), Ret::Panic(m) => format!("panic: {m}") } }
