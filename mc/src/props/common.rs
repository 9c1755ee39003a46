//! Shared alphabets: entry points, CPU feature combinations, image contents.
use crate::case::*;
use crate::{conv, cpu, refm};

/// One entry point with its sample format and options.
#[derive(Clone, Copy, Debug)]
pub struct Ent { pub api: Api, pub fmt: Fmt, pub ch: u8, pub depth: u8, pub q: bool, pub premul: bool }
impl Ent {
    pub fn case(&self, f: u8, sw: u32, sh: u32, dw: u32, dh: u32) -> Case {
        let mut c = Case::new(self.fmt, self.ch, f, sw, sh, dw, dh);
        c.api = self.api; c.depth = self.depth; c.quality = self.q; c.premul = self.premul;
        c
    }
    pub fn is_ar30(&self) -> bool { self.api.is_ar30() }
    pub fn is_color(&self) -> bool { self.api.is_color() }
    /// float samples on the outside
    pub fn is_float(&self) -> bool { matches!(self.fmt, Fmt::F32 | Fmt::F16) }
    pub fn show(&self) -> String { format!("{:?} {:?}x{} depth {} {}{}", self.api, self.fmt, self.ch, self.depth, if self.q { "quality" } else { "speed" }, if self.premul { " premultiply" } else { "" }) }
}
/// Every (format, depth, channels, strategy[, premultiply]) of the plain interface; `depths` of the 16-bit formats.
pub fn direct(depths: &[u8], premul: bool) -> Vec<Ent> {
    let mut v = vec![];
    let mut fd: Vec<(Fmt, u8)> = vec![(Fmt::U8, 8)];
    fd.extend(depths.iter().map(|d| (Fmt::U16, *d)));
    fd.extend([(Fmt::F32, 8), (Fmt::F16, 8)]);
    for (fmt, depth) in fd { for ch in 1..=4u8 { for q in [false, true] { for p in [false, true] {
        if p && (ch != 4 || !premul) { continue }
        if q && fmt != Fmt::U8 && !(fmt == Fmt::U16 && depth == depths[0]) && fmt != Fmt::F16 { continue }
        v.push(Ent { api: Api::Direct, fmt, ch, depth, q, premul: p });
    } } } }
    v
}
pub fn scale_front() -> Vec<Ent> {
    let mut v = vec![];
    for fmt in FMTS { for ch in 1..=4u8 { for p in [false, true] {
        if p && ch != 4 { continue }
        v.push(Ent { api: Api::Scale, fmt, ch, depth: if fmt == Fmt::U16 { 12 } else { 8 }, q: false, premul: p });
    } } }
    v
}
pub fn colors() -> Vec<Ent> {
    let mut v = vec![];
    for api in COLORS { for (ch, p) in [(3u8, false), (4, false), (4, true)] { v.push(Ent { api, fmt: Fmt::U8, ch, depth: 8, q: false, premul: p }); } }
    v
}
pub fn ar30() -> Vec<Ent> {
    let mut v = vec![];
    for api in AR30S { for q in [false, true] { v.push(Ent { api, fmt: Fmt::U8, ch: 4, depth: 8, q, premul: false }); } }
    v
}
pub fn everything(depths: &[u8]) -> Vec<Ent> { let mut v = direct(depths, true); v.extend(scale_front()); v.extend(colors()); v.extend(ar30()); v }

/// Implication-closed combinations of the CPU features the library can ask for (only those this machine can run).
pub fn feature_sets() -> Vec<(String, Vec<&'static str>)> {
    let sse: &[&str] = &["sse3", "ssse3", "sse4.1", "sse4.2", "popcnt"];
    let mut v: Vec<Vec<&'static str>> = vec![vec![], sse.to_vec()];
    let with = |base: &[&'static str], add: &[&'static str]| { let mut b = base.to_vec(); b.extend_from_slice(add); b };
    let avx = with(sse, &["avx"]);
    for m in 0..4 {
        let mut b = avx.clone();
        if m & 1 != 0 { b.push("f16c"); }
        if m & 2 != 0 { b.push("fma"); }
        v.push(b.clone());
        let b2 = with(&b, &["avx2", "bmi1", "bmi2", "lzcnt", "movbe"]);
        v.push(b2.clone());
        v.push(with(&b2, &["avxvnni"]));
        if m == 3 {
            for vn in [false, true] {
                let b5 = with(&b2, if vn { &["avx512f", "avx512cd", "avxvnni"] } else { &["avx512f", "avx512cd"] });
                for k in [false, true] {
                    v.push(with(&b5, if k { &["avx512vnni"] } else { &[] }));
                    for bm in [false, true] { for fp in [false, true] {
                        let mut b6 = with(&b5, &["avx512bw", "avx512dq", "avx512vl"]);
                        if k { b6.push("avx512vnni"); }
                        if bm { b6.push("avx512vbmi"); }
                        if fp { b6.push("avx512fp16"); }
                        v.push(b6);
                    } }
                }
            }
        }
    }
    v.retain(|s| s.iter().all(|f| cpu::native_has(f)));
    let interesting = ["sse4.1", "avx", "f16c", "fma", "avx2", "avxvnni", "avx512f", "avx512bw", "avx512vnni", "avx512vbmi", "avx512fp16"];
    v.into_iter().map(|s| (if s.is_empty() { "none".to_string() } else { interesting.iter().filter(|f| s.contains(f)).cloned().collect::<Vec<_>>().join("+") }, s)).collect()
}

/// A dense deterministic image for any entry point; every sample is representable and legal for it.
pub fn content(c: &Case, salt: u32) -> Vec<f64> {
    let n = c.sw as usize * c.sh as usize;
    let ch = c.ch as usize;
    let mut s = 0x9e3779b97f4a7c15u64 ^ (salt as u64) << 32 ^ (c.sw as u64) << 16 ^ c.sh as u64;
    let mut next = || { s ^= s << 13; s ^= s >> 7; s ^= s << 17; match s >> 60 { 0 => 0u64, 1 => 255, _ => (s >> 20) & 255 } };
    let mut v = Vec::with_capacity(n * ch);
    for _ in 0..n { for k in 0..ch {
        let t = next();
        let x = if c.api.is_ar30() { if k == 3 { (t & 3) as f64 } else { (1023. * t as f64 / 255.).round() } }
            else if c.is_int() { quant(c, c.max() * t as f64 / 255.) }
            else if c.premul || k == 3 { quant(c, t as f64 / 255.) }
            else { quant(c, t as f64 / 255. * 1.25 - 0.25) };
        v.push(x);
    } }
    v
}
/// Error allowance of each output sample against the exact result (None: not predictable), for calls without alpha handling.
pub fn allowance(c: &Case, maxabs: f64) -> Vec<Option<f64>> {
    let r = conv::reference(c);
    let t = conv::tol(c, maxabs.max(1e-9));
    let one = |a: &Option<std::rc::Rc<refm::Axis>>, i: usize| -> Option<(f64, f64)> {
        match a {
            None => Some((0., 1.)),
            Some(a) => {
                let mut o = (0f64, 1f64);
                for q in &a[i] {
                    if q.cond > conv::ILL { return None }
                    o = (o.0.max(conv::allow(&t, q, maxabs, c)), o.1.max(q.abs_sum()));
                }
                Some(o)
            }
        }
    };
    let vs: Vec<_> = (0..c.dh as usize).map(|y| one(&r.v, y)).collect();
    let hs: Vec<_> = (0..c.dw as usize).map(|x| one(&r.h, x)).collect();
    let mut o = Vec::with_capacity((c.dw * c.dh) as usize);
    for v in &vs { for h in &hs { o.push(match (v, h) { (Some(v), Some(h)) => Some(v.0 * h.1 + h.0), _ => None }); } }
    o
}
/// First difference of two results, bit for bit (floats by value bits; NaN equals NaN).
pub fn first_diff(a: &[f64], b: &[f64]) -> Option<usize> { a.iter().zip(b).position(|(x, y)| x.to_bits() != y.to_bits() && !(x.is_nan() && y.is_nan())) }
pub fn at_px(c: &Case, i: usize) -> String { let ch = c.ch as usize; format!("x={} y={} channel={}", i / ch % c.dw as usize, i / ch / c.dw as usize, i % ch) }
/// Representative filters: one per class of weight generation, incl. even and odd supports
pub const SOME: &[&str] = &["Bilinear", "Lanczos3", "MitchellNetravalli", "Area", "Nearest", "Lanczos6"];
