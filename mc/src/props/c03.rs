//! Only instructions the CPU reports are executed: every instruction of the executable that needs an extension the combination
//! in force does not have is replaced by a trap; every enumerated call runs natively and must not hit one.
use super::common::*;
use super::isa::{self, Isa};
use crate::case::*;
use crate::cpu;
use crate::explore::*;
use std::sync::atomic::{AtomicUsize, Ordering::*};
use std::sync::OnceLock;

pub struct P;
const FILTS: &[&str] = &["Bilinear", "Lanczos3", "Nearest", "Lanczos6"];
static ISA: OnceLock<Isa> = OnceLock::new();
fn isa() -> &'static Isa { ISA.get_or_init(isa::load) }

const NH: usize = 64;
static HITS: [AtomicUsize; NH] = [const { AtomicUsize::new(0) }; NH];
static NHITS: AtomicUsize = AtomicUsize::new(0);
static BASE: AtomicUsize = AtomicUsize::new(0);
/// (address, original first byte) of every trap set, sorted
static mut TRAPS: Vec<(usize, u8)> = Vec::new();

extern "C" fn on_trap(_: i32, _: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    unsafe {
        let uc = &mut *(uc as *mut libc::ucontext_t);
        let at = uc.uc_mcontext.gregs[libc::REG_RIP as usize] as usize - 1;
        let t = &*(&raw const TRAPS);
        match t.binary_search_by_key(&at, |x| x.0) {
            Ok(k) => {
                let n = NHITS.fetch_add(1, SeqCst);
                if n < NH { HITS[n].store(at, SeqCst); }
                // the real instruction takes its place again, for good
                *(at as *mut u8) = t[k].1;
                uc.uc_mcontext.gregs[libc::REG_RIP as usize] = at as i64;
            }
            Err(_) => { libc::signal(libc::SIGTRAP, libc::SIG_DFL); libc::raise(libc::SIGTRAP); }
        }
    }
}
/// Where this executable is loaded, and its code.
fn text_range() -> (usize, Vec<(usize, usize)>) {
    let exe = std::fs::read_link("/proc/self/exe").unwrap().display().to_string();
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap();
    let mut base = usize::MAX;
    let mut code = vec![];
    for l in maps.lines() {
        if !l.ends_with(&exe) { continue }
        let mut w = l.split_whitespace();
        let (a, b) = w.next().unwrap().split_once('-').unwrap();
        let (a, b) = (usize::from_str_radix(a, 16).unwrap(), usize::from_str_radix(b, 16).unwrap());
        let perm = w.next().unwrap();
        let off = usize::from_str_radix(w.next().unwrap(), 16).unwrap();
        if off == 0 { base = base.min(a); }
        if perm.contains('x') { code.push((a, b)); }
    }
    (base, code)
}
/// Sets the traps for one combination in this process (a forked worker).
fn arm(on: &[&'static str]) -> usize {
    let (base, code) = text_range();
    BASE.store(base, SeqCst);
    let have = isa::mask(on);
    let mut t = vec![];
    unsafe {
        for (a, b) in &code { assert_eq!(libc::mprotect(*a as *mut _, b - a, libc::PROT_READ | libc::PROT_WRITE | libc::PROT_EXEC), 0, "harness: cannot write the code"); }
        for i in &isa().insns {
            if i.needs & !have == 0 { continue }
            let p = base + i.addr;
            if !code.iter().any(|(a, b)| p >= *a && p < *b) { continue }
            t.push((p, *(p as *const u8)));
        }
        t.sort();
        t.dedup();
        *(&raw mut TRAPS) = t;
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO;
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
        for (p, _) in (*(&raw const TRAPS)).iter() { *(*p as *mut u8) = 0xcc; }
        (*(&raw const TRAPS)).len()
    }
}
/// Instructions of this file that need an extension: a trap must be found in each when the extension is missing.
mod canary {
    use std::arch::x86_64::*;
    #[inline(never)] #[target_feature(enable = "sse4.1")] pub unsafe fn sse41(x: __m128) -> __m128 { _mm_round_ps::<0>(x) }
    #[inline(never)] #[target_feature(enable = "avx")] pub unsafe fn avx(x: __m256) -> __m256 { _mm256_add_ps(x, x) }
    #[inline(never)] #[target_feature(enable = "avx2")] pub unsafe fn avx2(x: __m256i) -> __m256i { _mm256_mullo_epi16(x, x) }
    #[inline(never)] #[target_feature(enable = "avx,fma")] pub unsafe fn fma(x: __m256) -> __m256 { _mm256_fmadd_ps(x, x, x) }
    #[inline(never)] #[target_feature(enable = "avx,f16c")] pub unsafe fn f16c(x: __m128i) -> __m128 { _mm_cvtph_ps(x) }
    #[inline(never)] #[target_feature(enable = "avx512f,avx512bw")] pub unsafe fn avx512bw(x: __m512i) -> __m512i { _mm512_mullo_epi16(x, x) }
    #[inline(never)] #[target_feature(enable = "avx512f,avx512vnni")] pub unsafe fn avx512vnni(x: __m512i) -> __m512i { _mm512_dpwssd_epi32(x, x, x) }
    #[inline(never)] #[target_feature(enable = "avx512f,avx512bw,avx512vbmi")] pub unsafe fn avx512vbmi(x: __m512i) -> __m512i { _mm512_permutexvar_epi8(x, x) }
}
fn control(on: &[&'static str]) -> u64 {
    use std::arch::x86_64::*;
    use std::hint::black_box as bb;
    let mut n = 0;
    let mut one = |ext: &str, f: &dyn Fn()| {
        if on.contains(&ext) || !cpu::native_has(ext) { return }
        NHITS.store(0, SeqCst);
        f();
        assert!(NHITS.load(SeqCst) > 0, "harness: an instruction of {ext} was executed without being noticed");
        n += 1;
    };
    unsafe {
        one("sse4.1", &|| { bb(canary::sse41(bb(_mm_setzero_ps()))); });
        one("avx", &|| { bb(canary::avx(bb(std::mem::zeroed()))); });
        one("avx2", &|| { bb(canary::avx2(bb(std::mem::zeroed()))); });
        one("fma", &|| { bb(canary::fma(bb(std::mem::zeroed()))); });
        one("f16c", &|| { bb(canary::f16c(bb(std::mem::zeroed()))); });
        one("avx512bw", &|| { bb(canary::avx512bw(bb(std::mem::zeroed()))); });
        one("avx512vnni", &|| { bb(canary::avx512vnni(bb(std::mem::zeroed()))); });
        one("avx512vbmi", &|| { bb(canary::avx512vbmi(bb(std::mem::zeroed()))); });
    }
    n
}
static ARMED: AtomicUsize = AtomicUsize::new(usize::MAX);
fn armed(k: usize, cx: &mut Cx) {
    if ARMED.load(SeqCst) == k { return }
    assert_eq!(ARMED.load(SeqCst), usize::MAX, "harness: worker of two combinations");
    let fs = feature_sets();
    cpu::set_features(&fs[k].1);
    let n = arm(&fs[k].1);
    cx.add("control instructions trapped", control(&fs[k].1));
    cx.maxf("most instructions replaced by traps", n as f64);
    ARMED.store(k, SeqCst);
}
fn ents(_: bool) -> Vec<Ent> { everything(&[8, 10, 12, 16]) }
fn sizes(t: bool) -> Vec<(u32, u32, u32, u32)> {
    // every remainder of the vector widths in both passes, every tap count class, groups of rows and single rows
    let mut v = vec![(1, 1, 1, 1), (1, 1, 3, 2), (9, 9, 9, 9), (3, 4, 1, 1), (2, 2, 5, 9), (40, 40, 3, 3), (5, 5, 40, 6), (90, 6, 5, 6), (6, 90, 6, 5), (97, 5, 131, 3), (131, 6, 97, 7), (66, 3, 66, 2)];
    let n = if t { 140 } else { 44 };
    for w in 1..=n { v.push((w, 3, w, 2)); v.push((w, 5, w / 2 + 1, 5)); if t || w % 2 == 0 { v.push((w, 2, w + 3, 5)); } }
    for k in 1..=if t { 24 } else { 10 } { v.push((k * 3 + 4, 5, 4, 5)); v.push((7, k * 3 + 3, 7, 3)); }
    v
}
impl Prop for P {
    fn id(&self) -> &'static str { "C03" }
    fn counters(&self) -> &'static [&'static str] { &["most instructions replaced by traps", "calls without a trap", "control instructions trapped"] }
    fn phases(&self, t: bool) -> Vec<Phase> {
        let _ = isa();
        feature_sets().into_iter().map(|(n, _)| Phase { level: None, n: (ents(t).len() * FILTS.len()) as u64, label: format!("cpu with {n}") }).collect()
    }
    fn job(&self, phase: u32, idx: u64, cx: &mut Cx) {
        armed(phase as usize, cx);
        let t = cx.thorough;
        let es = ents(t);
        let e = es[idx as usize % es.len()];
        let f = filt(FILTS[idx as usize / es.len()]);
        let mut seen = 0u64;
        for (k, &(sw, sh, dw, dh)) in sizes(t).iter().enumerate() {
            if e.fmt != Fmt::U8 && !t && k % 3 == 1 && k > 12 { continue }
            if e.api.is_color() && k % 8 != 3 { continue }
            let kinds: &[u8] = if e.premul { &[0, 1] } else { &[0] };
            for &kind in kinds {
                let mut c = e.case(f, sw, sh, dw, dh);
                c.level = 255;
                c.data = kind as u32;
                if k % 11 == 5 { c.thr = 2; }
                let mut px = content(&c, 5);
                if kind == 1 { for p in px.chunks_exact_mut(4) { p[3] = c.max(); } }
                cx.at(&c);
                NHITS.store(0, SeqCst);
                let o = run(&c, &px);
                cx.step();
                let n = NHITS.load(SeqCst);
                if n > 0 {
                    let base = BASE.load(SeqCst);
                    for h in HITS.iter().take(n.min(2)) {
                        let at = h.load(SeqCst) - base;
                        let i = isa();
                        let q = i.insns.iter().find(|q| q.addr == at).unwrap();
                        let fs = feature_sets();
                        let sym = i.symbol(at);
                        let text = format!("{} (needs {}) is executed in {} on a CPU with {}: {}", i.texts[q.text as usize], isa::names(q.needs & !isa::mask(&fs[phase as usize].1)), sym, fs[phase as usize].0, c.show());
                        if sym.contains("colorutils") { cx.known("colorutils-dispatch", &text); } else { cx.violate("instruction", &text); }
                    }
                } else { cx.count("calls without a trap"); cx.trace(); }
                seen = h64(seen, hash_px(phase as u64, &o.px));
                if n > 0 { break }
            }
        }
        cx.state(seen);
        if idx % 331 == 0 { cx.sample(|| format!("{} with {} on a CPU with {}", e.show(), FILTERS[f as usize].0, feature_sets()[phase as usize].0)); }
    }
    fn rule(&self, _: bool) -> String {
        let i = isa();
        format!("explicit enumeration: for every combination of CPU features, every instruction of the executable (disassembled at the start, {} need an extension: {}) that the combination does not cover is replaced by a trap, std's detection cache is set to the combination, and every enumerated call runs natively; a trap names the function", i.insns.len(), i.by_ext.iter().map(|(e, n)| format!("{e} {n}")).collect::<Vec<_>>().join(", "))
    }
    fn bounds(&self, t: bool) -> Vec<(String, String)> { vec![
        ("CPUs".into(), format!("{} combinations of features, closed under implication", feature_sets().len())),
        ("calls".into(), format!("{} entry points, formats, depths and strategies x {} filters x {} shapes (every width up to {}, every tap count up to a bound, opaque and varying alpha)", ents(t).len(), FILTS.len(), sizes(t).len(), if t { 70 } else { 20 }))] }
    fn assumptions(&self) -> Vec<String> { vec![
        "the classification of instructions (mc/src/props/isa.rs) names the extension an instruction needs; tzcnt and other encodings that older CPUs execute with the same result are not counted".into(),
        "the library asks for CPU features through std's is_x86_feature_detected only; the compiler's own support routines, which ask the CPU directly, are left out".into(),
        "combinations the machine cannot run natively are left out".into()] }
}
