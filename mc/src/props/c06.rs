//! Row strides and row padding never matter.
use super::common::*;
use crate::case::*;
use crate::explore::*;
use crate::cpu;

pub struct P;
const FILTS: &[&str] = &["Bilinear", "Lanczos3", "Nearest", "Area"];
fn ents(t: bool) -> Vec<Ent> { everything(if t { &[10, 1, 8, 12, 14, 16] } else { &[10, 16] }) }
fn sizes(t: bool) -> Vec<(u32, u32, u32, u32)> {
    let mut v = vec![(3, 4, 3, 4), (5, 3, 2, 3), (3, 7, 3, 4), (4, 5, 7, 3), (1, 1, 3, 2), (7, 1, 3, 1), (1, 6, 1, 4), (17, 6, 9, 6), (9, 11, 9, 5), (19, 5, 6, 9), (33, 2, 33, 3), (6, 2, 21, 2), (300, 5, 131, 3), (257, 3, 257, 2), (3, 300, 3, 260), (310, 270, 290, 256)];
    if t { for w in 1..=40 { v.push((w, 5, w, 3)); v.push((w, 5, (w + 1) / 2, 5)); v.push((w, 4, w + 3, 7)); } v.extend([(70, 9, 31, 9), (70, 9, 70, 4), (66, 7, 131, 5)]); }
    v
}
fn strides(e: &Ent, w: u32) -> Vec<u32> {
    let n = if e.is_ar30() { 4 } else { e.ch as u32 };
    let row = w * n;
    let mut v = vec![PACKED, row + 1, row + n, row + 13, row + 64];
    if !e.is_ar30() { v.push(0); }
    v.dedup();
    v
}
impl Prop for P {
    fn id(&self) -> &'static str { "C06" }
    fn counters(&self) -> &'static [&'static str] { &["stride pairs compared"] }
    fn phases(&self, t: bool) -> Vec<Phase> {
        cpu::available_levels().into_iter().map(|l| Phase { level: Some(l), n: (ents(t).len() * FILTS.len()) as u64, label: cpu::LEVELS[l].name.into() }).collect()
    }
    fn job(&self, phase: u32, idx: u64, cx: &mut Cx) {
        let t = cx.thorough;
        let es = ents(t);
        let e = es[idx as usize % es.len()];
        let f = filt(FILTS[idx as usize / es.len()]);
        let level = cpu::available_levels()[phase as usize];
        for &(sw, sh, dw, dh) in &sizes(t) {
            if sw.max(sh) > 200 && idx as usize / es.len() != 1 && !t { continue }
            // constant alpha as well: what the padding holds must not look like varying alpha
            for flat_alpha in [false, true] {
                if flat_alpha && !e.premul { continue }
                let mut c = e.case(f, sw, sh, dw, dh);
                c.level = level as u8;
                let mut px = content(&c, 3);
                if flat_alpha { let a = quant(&c, c.max() * 0.4); for p in px.chunks_exact_mut(4) { p[3] = a; } }
                let mut base: Option<Out> = None;
                for ss in strides(&e, sw) { for ds in strides(&e, dw) {
                    // the large image: packed and padded on both sides only
                    if sw * sh > 60000 && !(ss == PACKED && ds == PACKED || ss > sw * e.ch as u32 + 10 && ds > dw * e.ch as u32 + 10 && ss != PACKED && ds != PACKED) { continue }
                    for pad in [Pad::Canary, Pad::Ones, Pad::Zero] {
                        if (ss == PACKED || ss == 0) && pad != Pad::Canary { continue }
                        if pad == Pad::Zero && !t && !(e.premul && ds == PACKED) { continue }
                        c.ss = ss; c.ds = ds; c.data = pad as u32 + 10 * flat_alpha as u32;
                        // row parallel code has its own stride arithmetic
                        let wide = (e.ch as u32).max(if e.is_ar30() { 4 } else { 1 });
                        c.thr = if pad == Pad::Ones && ss == sw * wide + 13 && ds == dw * wide + 13 && (t || sw + dh > 8) { 2 } else { 0 };
                        cx.at(&c);
                        let o = run_with(&c, &px, pad, Prior::Canary);
                        cx.step();
                        let Some(b) = &base else {
                            cx.state(hash_px(idx, &o.px));
                            base = Some(o);
                            continue
                        };
                        cx.trace();
                        cx.count("stride pairs compared");
                        if o.ret != b.ret { cx.violate("result", &format!("{} but packed rows give {}: {}", ret_show(&o.ret), ret_show(&b.ret), c.show())); continue }
                        if o.ret != Ret::Ok { continue }
                        if let Some(i) = first_diff(&o.px, &b.px) { cx.violate("pixels", &format!("{} is {} but {} with packed rows, source padding {pad:?}: {}", at_px(&c, i), o.px[i], b.px[i], c.show())); }
                        if let Some(i) = o.pad { cx.violate("padding", &format!("destination padding element {i} was written: {}", c.show())); }
                        if !o.src_same { cx.violate("source", &format!("the source was modified: {}", c.show())); }
                    }
                } }
                if let Some(b) = &base { if b.ret != Ret::Ok { cx.violate("error", &format!("{} for a valid call: {}", ret_show(&b.ret), c.show())); } }
            }
        }
        cx.sample(|| format!("{} {}: all stride pairs agree", e.show(), FILTERS[f as usize].0));
    }
    fn rule(&self, _: bool) -> String { "one job per (CPU level, entry point with format, channels, depth, strategy, premultiplication; filter); a job runs every listed size with every pair of source and destination stride and several padding contents, and compares each with the run with packed rows bit for bit".into() }
    fn bounds(&self, t: bool) -> Vec<(String, String)> {
        vec![("strides".into(), "0 (stores only), packed, +1, +channels, +13, +64 elements, for source and destination independently".into()), ("padding content".into(), "pattern, all bits set (NaN), zero".into()),
            ("sizes".into(), format!("{} size pairs", sizes(t).len())), ("filters".into(), FILTS.join(" ")), ("entry points".into(), ents(t).len().to_string()),
            ("cpu levels".into(), cpu::available_levels().iter().map(|&l| cpu::LEVELS[l].name).collect::<Vec<_>>().join(" "))]
    }
}
