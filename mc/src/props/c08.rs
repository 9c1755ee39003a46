//! A resize to the same size copies every bit.
use super::common::*;
use crate::case::*;
use crate::explore::*;
use crate::cpu;

pub struct P;
fn ents(t: bool) -> Vec<Ent> { everything(if t { &[10, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 14, 15, 16] } else { &[10, 1, 12, 16] }) }
fn sizes(t: bool) -> Vec<(u32, u32)> {
    let mut v: Vec<(u32, u32)> = vec![];
    let n = if t { 12 } else { 5 };
    for w in 1..=n { for h in 1..=n { v.push((w, h)); } }
    v.extend([(33, 2), (17, 5), (1, 40), (70, 1), (129, 2), (257, 3), (1030, 2), (3, 700), (66001, 1), (310, 290)]);
    v
}
const THR: &[i32] = &[i32::MIN, 0, 1, 2, -1];
fn go<T: Smp>(c: &Case, salt: u64, cx: &mut Cx) {
    let n = c.srow();
    let (ss, ds) = (c.sstep(), c.dstep());
    // every bit pattern counts: all 8-bit and 16-bit patterns occur over the images of a job
    let src: Vec<T> = (0..ss * c.sh as usize).map(|i| T::of_bits(match i % 7 {
        0 => 0, 1 => !0, 2 => h64(salt, i as u64) & 3,
        3 if T::F == Fmt::F32 => [0x7f800000u64, 0xff800000, 0x7fc00001, 0x7f800001, 0xffbfffff, 1, 0x80000000][i / 7 % 7],
        3 if T::F == Fmt::F16 => [0x7c00u64, 0xfc00, 0x7e01, 0x7c01, 0xfdff, 1, 0x8000][i / 7 % 7],
        _ => h64(salt, i as u64) })).collect();
    let keep = src.clone();
    let mut dst: Vec<T> = (0..ds * c.dh as usize).map(T::canary).collect();
    cx.at(c);
    let r = call(c, &src, &mut dst);
    cx.step();
    cx.trace();
    if r != Ret::Ok { cx.violate("error", &format!("{} for {}", ret_show(&r), c.show())); return }
    cx.state(dst.iter().fold(7, |h, v| h64(h, v.bits())));
    for y in 0..c.sh as usize { for x in 0..n {
        let (a, b) = (keep[y * ss + x].bits(), dst[y * ds + x].bits());
        if a != b { cx.violate("copy", &format!("element {x} of row {y} is {b:#x} instead of {a:#x} for {}", c.show())); return }
    } }
    for (i, v) in dst.iter().enumerate() { if i % ds >= n && v.bits() != T::canary(i).bits() { cx.violate("padding", &format!("destination padding element {i} was written: {}", c.show())); return } }
    if !src.iter().zip(&keep).all(|(a, b)| a.bits() == b.bits()) { cx.violate("source", &format!("the source was modified: {}", c.show())); }
}
impl Prop for P {
    fn id(&self) -> &'static str { "C08" }
    fn counters(&self) -> &'static [&'static str] { &["copies compared"] }
    fn phases(&self, t: bool) -> Vec<Phase> {
        cpu::available_levels().into_iter().map(|l| Phase { level: Some(l), n: (ents(t).len() * FILTERS.len()) as u64, label: cpu::LEVELS[l].name.into() }).collect()
    }
    fn job(&self, phase: u32, idx: u64, cx: &mut Cx) {
        let t = cx.thorough;
        let es = ents(t);
        let e = es[idx as usize % es.len()];
        let f = (idx as usize / es.len()) as u8;
        let level = cpu::available_levels()[phase as usize];
        for &(w, h) in &sizes(t) {
            if w.max(h) > 200 && f % 12 != 1 && !(t && w < 66000) { continue }
            for (k, &thr) in THR.iter().enumerate() {
                // a pool per call is costly: threads only for some filters unless thorough
                if thr != i32::MIN && thr != 0 && !(f % 16 == 0 && (t || (w + h) % 5 == 0)) { continue }
                for stride in [false, true] {
                    let mut c = e.case(f, w, h, w, h);
                    c.level = level as u8;
                    c.thr = thr;
                    if stride { c.ss = c.srow() as u32 + 5; c.ds = c.drow() as u32 + 3; }
                    let salt = idx * 131 + k as u64;
                    match e.fmt { Fmt::U8 => go::<u8>(&c, salt, cx), Fmt::U16 => go::<u16>(&c, salt, cx), Fmt::F32 => go::<f32>(&c, salt, cx), Fmt::F16 => go::<f16>(&c, salt, cx) }
                    cx.count("copies compared");
                }
            }
        }
        cx.sample(|| format!("{} {}: every size copied bit for bit", e.show(), FILTERS[f as usize].0));
    }
    fn rule(&self, _: bool) -> String { "one job per (CPU level, entry point with format, channels, depth, strategy, premultiplication; filter); a job copies every listed size, packed and strided, with every threading policy, with samples that include every extreme bit pattern (infinities, quiet and signalling not-a-number payloads, values above the bit depth)".into() }
    fn bounds(&self, t: bool) -> Vec<(String, String)> {
        vec![("sizes".into(), format!("{} sizes, up to 129 with all filters, up to 66001 with a twelfth of them", sizes(t).len())), ("filters".into(), FILTERS.len().to_string()), ("entry points".into(), ents(t).len().to_string()),
            ("threading policies".into(), "default, Single, Fixed(1), Fixed(2), Adaptive".into()), ("cpu levels".into(), cpu::available_levels().iter().map(|&l| cpu::LEVELS[l].name).collect::<Vec<_>>().join(" "))]
    }
}
