//! Nothing outside the images and the call's own temporaries is read or written; the source is never written.
use super::c02;
use super::common::*;
use crate::case::*;
use crate::explore::*;
use crate::{cpu, guard};
use std::sync::atomic::{AtomicUsize, Ordering::*};

pub struct P;
fn ents(t: bool) -> Vec<Ent> { everything(if t { &[10, 8, 12, 13, 16] } else { &[10, 16] }) }
const MODES: &[&str] = &["sizes", "axes", "long"];
const FILTS: &[&str] = &["Bilinear", "Lanczos3", "Nearest", "Lanczos6", "MitchellNetravalli", "Bartlett"];

// where the buffers of the call in flight are, for the fault handler
static SRC: [AtomicUsize; 3] = [const { AtomicUsize::new(0) }; 3];
static DST: [AtomicUsize; 3] = [const { AtomicUsize::new(0) }; 3];
/// set while a colour scaler known to read past the source runs; where it did
static OVER: AtomicUsize = AtomicUsize::new(0);
static SEEN: AtomicUsize = AtomicUsize::new(0);
struct Zones { src: guard::Zone, dst: guard::Zone }
thread_local! { static Z: Zones = Zones { src: guard::Zone::new(2 << 20, true), dst: guard::Zone::new(2 << 20, false) }; }

extern "C" fn on_fault(sig: i32, info: *mut libc::siginfo_t, _: *mut libc::c_void) {
    let addr = unsafe { (*info).si_addr() } as usize;
    // a recorded finding: let the over-read of the dependency through, once, and remember it
    let (v, l) = (SRC[0].load(Relaxed), SRC[1].load(Relaxed));
    if OVER.load(Relaxed) != 0 && addr >= v + l && addr < v + l + 64 && unsafe { libc::mprotect((addr & !4095) as *mut _, 4096, libc::PROT_READ) } == 0 { SEEN.store(addr & !4095, Relaxed); return }
    let mut buf = [0u8; 160];
    let mut n = 0;
    let mut put = |s: &[u8]| { for b in s { if n < buf.len() { buf[n] = *b; n += 1; } } };
    let near = |z: &[AtomicUsize; 3]| -> Option<isize> {
        let (v, b, l) = (z[0].load(Relaxed), z[1].load(Relaxed), z[2].load(Relaxed));
        if v == 0 || addr + (1 << 20) < v || addr >= v + b.max(l) + (1 << 20) { return None }
        Some(addr as isize - v as isize)
    };
    let mut num = |put: &mut dyn FnMut(&[u8]), v: isize| { let mut d = [0u8; 24]; let mut i = 24; let mut u = v.unsigned_abs(); loop { i -= 1; d[i] = b'0' + (u % 10) as u8; u /= 10; if u == 0 { break } } if v < 0 { i -= 1; d[i] = b'-'; } put(&d[i..]); };
    match (near(&SRC), near(&DST)) {
        (Some(o), _) => { put(b"access at byte "); num(&mut put, o); put(b" of the source buffer of "); num(&mut put, SRC[1].load(Relaxed) as isize); }
        (_, Some(o)) => { put(b"access at byte "); num(&mut put, o); put(b" of the destination buffer of "); num(&mut put, DST[1].load(Relaxed) as isize); }
        _ => put(b"access outside a temporary buffer or far outside every buffer"),
    }
    crate::explore::crash_note(&buf[..n]);
    unsafe { libc::signal(sig, libc::SIG_DFL); }
}
fn probe<T: Smp>(c: &Case, px: &[f64], end: bool) -> (Ret, Option<String>) {
    let src = make_src::<T>(c, px, None);
    let n = c.dstep() * c.dh as usize;
    let e = std::mem::size_of::<T>();
    Z.with(|z| {
        if src.len() * e > z.src.len || n * e > z.dst.len { panic!("harness: buffer too large") }
        z.src.own::<T>(src.len(), end).copy_from_slice(&src);
        let out = z.dst.own::<T>(n, end);
        for (i, v) in out.iter_mut().enumerate() { *v = T::canary(i); }
        z.dst.beside(n * e, end).fill(0x7e);
        let s: &[T] = z.src.view::<T>(src.len(), end);
        let d: &mut [T] = z.dst.view::<T>(n, end);
        for (a, p, l) in [(&SRC, s.as_ptr() as usize, src.len() * e), (&DST, d.as_ptr() as usize, n * e)] { a[0].store(p, Relaxed); a[1].store(l, Relaxed); a[2].store(2 << 20, Relaxed); }
        let r = guard::with(if end { 1 } else { 2 }, 0xcb, || call(c, s, d));
        let bad = if let Some(n) = guard::overwritten() { Some(format!("memory beside a temporary of {n} bytes was written")) }
            else if let Some(i) = z.dst.beside(n * e, end).iter().position(|b| *b != 0x7e) { Some(format!("byte {i} beside the destination was written")) }
            else if z.src.own::<T>(src.len(), end).iter().zip(&src).any(|(a, b)| a.bits() != b.bits()) { Some("the source was modified".into()) }
            else { None };
        (r, bad)
    })
}
fn check(c: &Case, px: &[f64], end: bool, cx: &mut Cx) {
    cx.at(c);
    cx.note(if end { "(buffers end at inaccessible memory)" } else { "(buffers start at inaccessible memory)" });
    OVER.store((c.api == Api::Sigmoidal && c.ch == 3) as usize, Relaxed);
    let (r, bad) = match c.fmt { Fmt::U8 => probe::<u8>(c, px, end), Fmt::U16 => probe::<u16>(c, px, end), Fmt::F32 => probe::<f32>(c, px, end), Fmt::F16 => probe::<f16>(c, px, end) };
    let seen = SEEN.swap(0, Relaxed);
    if seen != 0 {
        unsafe { libc::mprotect(seen as *mut _, 4096, libc::PROT_NONE); }
        cx.known("colorutils-sigmoidal-overread", &c.show());
    }
    cx.step();
    cx.trace();
    if r != Ret::Ok { cx.violate("error", &format!("{} for a valid call: {}", ret_show(&r), c.show())); }
    if let Some(b) = bad { cx.violate("outside", &format!("{b}: {}", c.show())); }
}
impl Prop for P {
    fn id(&self) -> &'static str { "C05" }
    fn counters(&self) -> &'static [&'static str] { &["temporaries placed at guard pages"] }
    fn phases(&self, t: bool) -> Vec<Phase> {
        cpu::available_levels().into_iter().map(|l| Phase { level: Some(l), n: (ents(t).len() * FILTS.len() * MODES.len()) as u64, label: cpu::LEVELS[l].name.into() }).collect()
    }
    fn setup_worker(&self) {
        unsafe {
            let st = Box::leak(vec![0u8; 64 << 10].into_boxed_slice());
            let ss = libc::stack_t { ss_sp: st.as_mut_ptr() as *mut _, ss_flags: 0, ss_size: st.len() };
            libc::sigaltstack(&ss, std::ptr::null_mut());
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = on_fault as *const () as usize;
            a.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
            libc::sigaction(libc::SIGSEGV, &a, std::ptr::null_mut());
            libc::sigaction(libc::SIGBUS, &a, std::ptr::null_mut());
        }
    }
    fn job(&self, phase: u32, idx: u64, cx: &mut Cx) {
        let t = cx.thorough;
        let es = ents(t);
        let e = es[idx as usize % es.len()];
        let r = idx as usize / es.len();
        let f = filt(FILTS[r % FILTS.len()]);
        let level = cpu::available_levels()[phase as usize] as u8;
        let heavy = e.is_color();
        let a0 = guard::allocations();
        let one = |cx: &mut Cx, i: usize, sw: u32, sh: u32, dw: u32, dh: u32| {
            for end in [true, false] {
                if !t && !end && i % 3 != 0 { continue }
                let mut c = e.case(f, sw, sh, dw, dh);
                c.level = level;
                let unit = if e.is_ar30() { 4 } else { e.ch as u32 };
                match i % 5 { 3 => { c.ss = sw * unit + 1 + i as u32 % 7; } 4 => { c.ds = dw * unit + 1 + i as u32 % 5; } _ => {} }
                if i % 17 == 5 { c.thr = 3; }
                let mut px = content(&c, i as u32);
                if c.ch == 4 && c.premul && i % 4 == 1 { for p in px.chunks_exact_mut(4) { p[3] = c.max(); } }
                check(&c, &px, end, cx);
                if i % 8 == 0 && end { cx.state(h64(h64(h64(idx, phase as u64), (sw as u64) << 32 | sh as u64), (dw as u64) << 32 | dh as u64)); }
            }
        };
        match MODES[r / FILTS.len()] {
            "sizes" => for (i, &(sw, sh, dw, dh)) in c02::sizes(t).iter().enumerate() { if heavy && i % 3 != 0 || sw * sh > 60000 && (heavy || r % FILTS.len() != 0) { continue } one(cx, i, sw, sh, dw, dh); },
            "axes" => {
                let lim = if t { 40 } else if heavy { 8 } else { 18 };
                for n in 1..=lim { for m in 1..=lim {
                    let rows = 1 + (n * 7 + m * 3) % 9;
                    one(cx, (n * lim + m) as usize, n, rows, m, rows);
                    if t || (n + m) % 3 == 0 { let cols = 1 + (n * 5 + m) % 37; one(cx, (n * lim + m) as usize, cols, n, cols, m); }
                } }
            }
            _ => {
                if heavy && !t { return }
                for (i, n) in (1..=if t { 300u32 } else { 150 }).enumerate() {
                    // long rows through each pass, and both
                    one(cx, i, n, 3, n, 2);
                    one(cx, i + 1, n, 2, n / 2 + 1, 2);
                    if t || i % 4 == 0 { one(cx, i + 2, n / 3 + 1, 5, n, 3); }
                }
            }
        }
        cx.add("temporaries placed at guard pages", guard::allocations() - a0);
        if idx % 97 == 0 { cx.sample(|| format!("{} {} {}: no access outside", e.show(), FILTS[r % FILTS.len()], MODES[r / FILTS.len()])); }
    }
    fn rule(&self, _: bool) -> String { "one job per (CPU level, entry point, filter, mode); every call runs with source (mapped read-only), destination and each heap temporary placed so that it ends (or starts) exactly at an inaccessible zone of at least half a megabyte, canaries on the other side; a fault is attributed to the call".into() }
    fn bounds(&self, t: bool) -> Vec<(String, String)> { vec![("sizes".into(), format!("{} two-axis sizes; all axis pairs up to {} with 1 to 9 rows or 1 to 37 columns; row lengths 1 to {}", c02::sizes(t).len(), if t { 40 } else { 18 }, if t { 300 } else { 150 })), ("filters".into(), FILTS.join(", ")), ("placement".into(), if t { "every call with both placements" } else { "every call with ends at the guard, a third with starts" }.into())] }
    fn assumptions(&self) -> Vec<String> { vec!["accesses that stay within the owner's page on the side away from the guard are seen as writes only (canaries of 128 bytes at temporaries, 4096 at the destination)".into()] }
}
