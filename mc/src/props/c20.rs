//! Integer results saturate, floats stay finite.
use super::common::*;
use crate::case::*;
use crate::explore::*;
use crate::{conv, cpu};

pub struct P;
const FILTS: &[&str] = &["Lanczos3", "CatmullRom", "Lanczos6", "Bilinear", "MitchellNetravalli", "Lagrange3", "Spline36", "RobidouxSharp"];
fn ents(t: bool) -> Vec<Ent> {
    let mut v: Vec<Ent> = direct(&[16, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15], true);
    v.extend(ar30());
    if t { v.extend(scale_front()); }
    v.retain(|e| !(e.fmt == Fmt::U16 && e.depth == 16 && e.q));
    v
}
fn sizes(t: bool) -> Vec<(u32, u32, u32, u32)> {
    let mut v = vec![(8, 8, 12, 12), (12, 12, 8, 8), (9, 5, 9, 8), (5, 9, 8, 9), (16, 3, 23, 3), (3, 16, 3, 23), (33, 4, 33, 7), (17, 6, 11, 6), (4, 4, 7, 5), (20, 8, 6, 3), (600, 3, 290, 3), (9, 600, 9, 290), (131, 4, 131, 9), (310, 270, 290, 256)];
    if t { for n in 2..=12 { for m in 2..=16 { if n != m { v.push((n, 6, m, 6)); v.push((7, n, 7, m)); } } } for w in 1..=40 { v.push((w, 6, w, 9)); } }
    v
}
/// extreme pictures: checkerboard, steps, single pixels, bands of two
fn picture(c: &Case, k: u32, hi: f64, lo: f64) -> Vec<f64> {
    let ch = c.ch as usize;
    let mut px = vec![];
    for y in 0..c.sh { for x in 0..c.sw { for q in 0..ch as u32 {
        let on = match k {
            0 => (x + y + q) % 2 == 0,
            1 => (x / 2 + y / 2 + q) % 2 == 0,
            2 => (x == c.sw / 2 || y == c.sh / 2) != (q % 2 == 1),
            3 => (x >= c.sw / 2) != (y >= c.sh / 2),
            4 => ((x / 3) % 2 == 0) != (q % 2 == 1),
            5 => ((y / 3) % 2 == 0) != (q % 2 == 1),
            _ => (x == 0 || x + 1 == c.sw || y == 0 || y + 1 == c.sh) != (q % 2 == 1),
        };
        let v = if on { hi } else { lo };
        px.push(if c.api.is_ar30() && q == 3 { 3. } else if c.premul && !c.is_int() && q == 3 { if on { 1. } else { 0. } } else { v });
    } } }
    px
}
impl Prop for P {
    fn id(&self) -> &'static str { "C20" }
    fn counters(&self) -> &'static [&'static str] { &["samples checked", "samples the exact convolution places out of range", "samples compared with the model"] }
    fn phases(&self, t: bool) -> Vec<Phase> {
        cpu::available_levels().into_iter().map(|l| Phase { level: Some(l), n: (ents(t).len() * FILTS.len()) as u64, label: cpu::LEVELS[l].name.into() }).collect()
    }
    fn job(&self, phase: u32, idx: u64, cx: &mut Cx) {
        let t = cx.thorough;
        let es = ents(t);
        let e = es[idx as usize % es.len()];
        let f = filt(FILTS[idx as usize / es.len()]);
        let level = cpu::available_levels()[phase as usize];
        let mags: &[f64] = if e.is_float() { if e.fmt == Fmt::F16 { &[1., 4000.] } else { &[1., 1e6, 1e30] } } else { &[1.] };
        for &(sw, sh, dw, dh) in &sizes(t) { for k in 0..7 { for &mag in mags {
            // the large image: one filter, two pictures
            if sw * sh > 60000 && (idx as usize / es.len() != 0 || k % 4 != 0 || mag != mags[0]) { continue }
            let mut c = e.case(f, sw, sh, dw, dh);
            c.level = level as u8;
            c.data = k;
            let hi = if e.is_float() { quant(&c, mag) } else { c.max() };
            let lo = if e.is_float() && !e.premul { -hi } else { 0. };
            let px = picture(&c, k, hi, lo);
            cx.at(&c);
            let o = run(&c, &px);
            cx.step();
            if o.ret != Ret::Ok { cx.violate("error", &format!("{} for {}", ret_show(&o.ret), c.show())); continue }
            cx.state(hash_px(idx, &o.px));
            cx.add("samples checked", o.px.len() as u64);
            let top = if e.is_float() { f64::INFINITY } else { c.max() };
            if let Some(i) = o.px.iter().position(|v| if e.is_float() { !v.is_finite() } else { *v < 0. || *v > top }) {
                cx.violate("range", &format!("{} is {}, the range is 0..={top}: {}", at_px(&c, i), o.px[i], c.show()));
                continue
            }
            if e.premul || (e.is_float() && mag != 1.) { continue }
            let colours = if e.is_ar30() { 3 } else { e.ch as usize };
            let r = conv::compare(&c, &px, &o.px, c.ch as usize, 0..colours);
            cx.traces(o.px.len() as u64);
            cx.add("samples compared with the model", o.px.len() as u64);
            cx.add("samples the exact convolution places out of range", r.saturated as u64);
            if r.nbad > 0 {
                let b = &r.bad[0];
                cx.violate("saturation", &format!("{} samples differ from the saturated convolution, first at x={} y={} channel={}: got {} expected {:.4} +- {:.4} in {}", r.nbad, b.x, b.y, b.ch, b.got, b.want, b.tol, c.show()));
            }
        } } }
        cx.sample(|| format!("{} {}", e.show(), FILTERS[f as usize].0));
    }
    fn rule(&self, _: bool) -> String { "one job per (CPU level, format, channels, every bit depth 1 to 16, strategy, premultiplication; filter with overshoot); a job resizes seven extreme pictures through every listed size and compares each sample with the range and with the saturated reference convolution".into() }
    fn bounds(&self, t: bool) -> Vec<(String, String)> { vec![("sizes".into(), format!("{} size pairs", sizes(t).len())), ("formats".into(), ents(t).len().to_string()), ("filters".into(), FILTS.join(" ")), ("float magnitudes".into(), "f32 up to 1e30, f16 up to 4000".into())] }
}
