//! Forces the result of `is_x86_feature_detected!` for this process.
//!
//! std caches the CPUID result in a static table of bit sets.  The harness finds that table through
//! its own ELF symbol table and self-calibrates which bit means which feature (clear a bit, see which
//! feature query changes), so that it can make the very same compiled library believe that it runs on
//! an older CPU.  Nothing in the library is modified for this.
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::OnceLock;

macro_rules! feats { ($($n:tt),* $(,)?) => {
    pub const FEATS: &[&str] = &[$($n),*];
    pub fn query(i: usize) -> bool { let mut k = 0usize; $( if k == i { return std::arch::is_x86_feature_detected!($n); } k += 1; )* let _ = k; false }
} }
feats!(
    "sse3", "ssse3", "sse4.1", "sse4.2", "popcnt", "avx", "avx2", "fma", "f16c", "bmi1", "bmi2", "lzcnt", "movbe",
    "avxvnni", "avx512f", "avx512cd", "avx512bw", "avx512dq", "avx512vl", "avx512ifma", "avx512vbmi",
    "avx512vbmi2", "avx512bitalg", "avx512vpopcntdq", "avx512vnni", "avx512bf16", "avx512fp16", "gfni", "vaes", "vpclmulqdq",
);

pub struct Level {
    pub name: &'static str,
    pub on: &'static [&'static str],
}
const SSE: &[&str] = &["sse3", "ssse3", "sse4.1", "sse4.2", "popcnt"];
const IVB: &[&str] = &["sse3", "ssse3", "sse4.1", "sse4.2", "popcnt", "avx", "f16c"];
const PILE: &[&str] = &["sse3", "ssse3", "sse4.1", "sse4.2", "popcnt", "avx", "f16c", "fma", "bmi1", "lzcnt"];
const AVX2NOFMA: &[&str] = &["sse3", "ssse3", "sse4.1", "sse4.2", "popcnt", "avx", "f16c", "avx2", "bmi1", "bmi2", "lzcnt", "movbe"];
const HSW: &[&str] = &["sse3", "ssse3", "sse4.1", "sse4.2", "popcnt", "avx", "f16c", "avx2", "fma", "bmi1", "bmi2", "lzcnt", "movbe"];
const ADL: &[&str] = &["sse3", "ssse3", "sse4.1", "sse4.2", "popcnt", "avx", "f16c", "avx2", "fma", "bmi1", "bmi2", "lzcnt", "movbe", "avxvnni", "gfni", "vaes", "vpclmulqdq"];
const SKX: &[&str] = &["sse3", "ssse3", "sse4.1", "sse4.2", "popcnt", "avx", "f16c", "avx2", "fma", "bmi1", "bmi2", "lzcnt", "movbe",
    "avx512f", "avx512cd", "avx512bw", "avx512dq", "avx512vl"];
const ICL: &[&str] = &["sse3", "ssse3", "sse4.1", "sse4.2", "popcnt", "avx", "f16c", "avx2", "fma", "bmi1", "bmi2", "lzcnt", "movbe",
    "avx512f", "avx512cd", "avx512bw", "avx512dq", "avx512vl", "avx512ifma", "avx512vbmi", "avx512vbmi2", "avx512bitalg", "avx512vpopcntdq", "avx512vnni", "gfni", "vaes", "vpclmulqdq"];
pub const LEVELS: &[Level] = &[
    Level { name: "baseline-x86_64", on: &[] },
    Level { name: "nehalem-sse4", on: SSE },
    Level { name: "ivybridge-avx-f16c", on: IVB },
    Level { name: "piledriver-fma-no-avx2", on: PILE },
    Level { name: "avx2-no-fma", on: AVX2NOFMA },
    Level { name: "haswell", on: HSW },
    Level { name: "alderlake-avxvnni", on: ADL },
    Level { name: "skylake-x", on: SKX },
    Level { name: "icelake", on: ICL },
    Level { name: "everything", on: FEATS },
];

struct Map {
    cache: *const AtomicUsize,
    full: [usize; 3],
    bit: Vec<Option<(usize, usize)>>,
    native: Vec<bool>,
}
unsafe impl Send for Map {}
unsafe impl Sync for Map {}
static MAP: OnceLock<Map> = OnceLock::new();

fn find_cache() -> Option<*const AtomicUsize> {
    let exe = std::fs::read("/proc/self/exe").ok()?;
    let u16a = |o: usize| u16::from_le_bytes(exe[o..o + 2].try_into().unwrap());
    let u32a = |o: usize| u32::from_le_bytes(exe[o..o + 4].try_into().unwrap());
    let u64a = |o: usize| u64::from_le_bytes(exe[o..o + 8].try_into().unwrap());
    if &exe[..4] != b"\x7fELF" {
        return None;
    }
    let shoff = u64a(0x28) as usize;
    let shentsize = u16a(0x3a) as usize;
    let shnum = u16a(0x3c) as usize;
    let mut addr = None;
    let mut size = 0;
    let mut anchor = None;
    for i in 0..shnum {
        let s = shoff + i * shentsize;
        if u32a(s + 4) == 2 {
            let off = u64a(s + 0x18) as usize;
            let sz = u64a(s + 0x20) as usize;
            let link = u32a(s + 0x28) as usize;
            let stroff = u64a(shoff + link * shentsize + 0x18) as usize;
            for k in 0..sz / 24 {
                let e = off + k * 24;
                let mut n = stroff + u32a(e) as usize;
                let b = n;
                while exe[n] != 0 {
                    n += 1;
                }
                let name = std::str::from_utf8(&exe[b..n]).unwrap_or("");
                if name.contains("std_detect") && name.contains("cache") && name.contains("CACHE") {
                    addr = Some(u64a(e + 8));
                    size = u64a(e + 16);
                }
                if name == "mc_anchor_symbol" {
                    anchor = Some(u64a(e + 8));
                }
            }
        }
    }
    let base = (&raw const mc_anchor_symbol as u64).wrapping_sub(anchor?);
    if size < 16 || size > 64 {
        return None;
    }
    Some(base.wrapping_add(addr?) as *const AtomicUsize)
}
#[unsafe(no_mangle)]
#[used]
pub static mc_anchor_symbol: u64 = 0x1234;

fn map() -> &'static Map {
    MAP.get_or_init(|| {
        let native: Vec<bool> = (0..FEATS.len()).map(query).collect();
        let cache = find_cache().expect("cannot locate the std feature cache");
        let w = |i: usize| unsafe { &*cache.add(i) };
        let full = [w(0).load(Ordering::SeqCst), w(1).load(Ordering::SeqCst), w(2).load(Ordering::SeqCst)];
        let top = 1usize << 63;
        let mut bit = vec![None; FEATS.len()];
        for wi in 0..3 {
            if full[wi] & top == 0 {
                continue;
            }
            for b in 0..63 {
                if full[wi] >> b & 1 == 0 {
                    continue;
                }
                w(wi).store(full[wi] & !(1 << b), Ordering::SeqCst);
                for f in 0..FEATS.len() {
                    if native[f] && !query(f) {
                        assert!(bit[f].is_none(), "ambiguous feature bit for {}", FEATS[f]);
                        bit[f] = Some((wi, b));
                    }
                }
                w(wi).store(full[wi], Ordering::SeqCst);
            }
        }
        for f in 0..FEATS.len() {
            assert_eq!(bit[f].is_some(), native[f], "feature bit of {} not found", FEATS[f]);
        }
        Map { cache, full, bit, native }
    })
}
/// Makes std report exactly the features of `on` (restricted to what the machine really has).
pub fn set_features(on: &[&str]) {
    let m = map();
    let mut words = m.full;
    for f in 0..FEATS.len() {
        if let Some((w, b)) = m.bit[f] {
            if !on.contains(&FEATS[f]) {
                words[w] &= !(1 << b);
            }
        }
    }
    for i in 0..3 {
        unsafe { (*m.cache.add(i)).store(words[i], Ordering::SeqCst) };
    }
    for f in 0..FEATS.len() {
        assert_eq!(query(f), m.native[f] && on.contains(&FEATS[f]), "feature {} not under control", FEATS[f]);
    }
}
pub fn set_level(l: usize) {
    set_features(LEVELS[l].on)
}
/// Levels that this machine can really execute (every feature they turn on is native).
pub fn available_levels() -> Vec<usize> {
    let m = map();
    (0..LEVELS.len())
        .filter(|&l| {
            LEVELS[l].name == "everything"
                || LEVELS[l].on.iter().all(|n| FEATS.iter().position(|f| f == n).map(|i| m.native[i]).unwrap_or(false))
        })
        .collect()
}
pub fn native_has(n: &str) -> bool {
    FEATS.iter().position(|f| *f == n).map(|i| map().native[i]).unwrap_or(false)
}
