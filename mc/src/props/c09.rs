//! A flat image stays flat.
use super::common::*;
use crate::case::*;
use crate::explore::*;
use crate::{conv, cpu, refm};

pub struct P;
fn ents(t: bool) -> Vec<Ent> { everything(if t { &[10, 1, 2, 4, 6, 8, 9, 11, 12, 13, 14, 15, 16] } else { &[10, 8, 12, 13, 16] }).into_iter().filter(|e| !e.is_color()).collect() }
/// filters for the dense sweep
fn sizes(t: bool) -> Vec<(u32, u32, u32, u32)> {
    let mut v = vec![(2, 2, 4, 3), (3, 3, 2, 5), (7, 5, 3, 5), (5, 7, 5, 3), (4, 6, 9, 2), (1, 1, 3, 3), (9, 4, 4, 9), (1, 5, 4, 2), (17, 2, 40, 2), (33, 3, 12, 7), (40, 11, 9, 5), (6, 40, 3, 3), (70, 3, 70, 2), (300, 4, 700, 4), (5, 300, 5, 700), (4100, 2, 30, 2), (9, 4100, 9, 30), (310, 270, 290, 256)];
    if t { for a in 1..=9 { for b in 1..=9 { if a != b { v.push((a, 5, b, 5)); v.push((5, a, 5, b)); v.push((a, b, b, a)); } } } v.extend([(90, 90, 7, 7), (131, 2, 60, 3), (16, 100, 16, 3), (64, 64, 33, 95)]); }
    v
}
fn values(e: &Ent, c: &Case, t: bool) -> Vec<f64> {
    if e.is_ar30() || e.fmt == Fmt::U16 {
        let m = c.max() as u32;
        let step = if t { (m / 64).max(1) } else { (m / 16).max(1) };
        let mut v: Vec<u32> = (0..=m).step_by(step as usize).collect();
        v.extend([m, m.saturating_sub(1), m / 2, m / 2 + 1]);
        v.retain(|x| *x <= m);
        v.sort(); v.dedup();
        return v.into_iter().map(|x| x as f64).collect()
    }
    if e.fmt == Fmt::U8 { return (0..=255u32).step_by(if t { 1 } else { 5 }).map(|x| x as f64).collect() }
    let k: &[f64] = if e.premul { &[0., 1e-3, 0.25, 0.7, 1.] } else { &[0., 1., -1., 0.333, 1000., -60000., 6e-5, 0.007] };
    k.iter().map(|x| quant(c, *x)).collect()
}
/// taps of the longest position of an axis and its worst condition
fn axis_info(f: u8, n: u32, m: u32) -> (usize, f64, bool) {
    if n == m { return (0, 1., false) }
    let a = refm::axis(f, n as usize, m as usize);
    let mut r = (0usize, 1f64, false);
    for p in a.iter() { for q in p { r.0 = r.0.max(q.w.len()); r.1 = r.1.max(q.cond); r.2 |= q.w.iter().any(|w| w.abs() > 32767. / 32768.); } }
    r
}
impl Prop for P {
    fn id(&self) -> &'static str { "C09" }
    fn counters(&self) -> &'static [&'static str] { &["flat images", "flat images demanded exact", "positions skipped (cancelling weights)"] }
    fn phases(&self, t: bool) -> Vec<Phase> {
        cpu::available_levels().into_iter().map(|l| Phase { level: Some(l), n: (ents(t).len() * FILTERS.len()) as u64, label: cpu::LEVELS[l].name.into() }).collect()
    }
    fn job(&self, phase: u32, idx: u64, cx: &mut Cx) {
        let t = cx.thorough;
        let es = ents(t);
        let e = es[idx as usize % es.len()];
        let f = (idx as usize / es.len()) as u8;
        let level = cpu::available_levels()[phase as usize];
        let nearest = f == filt("Nearest");
        for (si, &(sw, sh, dw, dh)) in sizes(t).iter().enumerate() {
            let (hn, hc, _) = axis_info(f, sw, dw);
            let (vn, vc, _) = axis_info(f, sh, dh);
            if !nearest && (hc > 20. || vc > 20.) { cx.count("positions skipped (cancelling weights)"); continue }
            let mut c = e.case(f, sw, sh, dw, dh);
            c.level = level as u8;
            let vals = values(&e, &c, t);
            for (vi, &v) in vals.iter().enumerate() {
                // dense values on the small sizes, a few on the others
                if !t && vi % 4 != si % 4 { continue }
                if sw * sh > 60000 && (f % 12 != 1 || vi > 20) { continue }
                if sw.max(sh) > 250 && vi % 16 != si % 4 { continue }
                let ch = c.ch as usize;
                let pix: Vec<f64> = (0..ch).map(|k| {
                    if e.is_ar30() && k == 3 { 3. }
                    else if e.premul && k == 3 { if e.is_float() { quant(&c, [1., 0.5, 0.25, if e.fmt == Fmt::F16 { 0.125 } else { 0. }][vi % 4]) } else { vals[(vi * 5 + 3) % vals.len()] } }
                    else { vals[(vi + k * 3) % vals.len()] }
                }).collect();
                let _ = v;
                let px: Vec<f64> = (0..sw * sh).flat_map(|_| pix.iter().copied()).collect();
                cx.at(&c);
                let o = run(&c, &px);
                cx.step();
                cx.trace();
                cx.count("flat images");
                cx.state(hash_px(idx, &o.px[..ch]));
                if o.ret != Ret::Ok { cx.violate("error", &format!("{} for {}", ret_show(&o.ret), c.show())); continue }
                // allowance: fixed point rounding of the weights, per pass
                let mut exact = true;
                for (i, g) in o.px.iter().enumerate() {
                    let w = pix[i % ch];
                    let d = (g - w).abs();
                    let tl = if nearest { 0. }
                        else if e.is_float() {
                            let unit = if e.fmt == Fmt::F16 { 1.1e-3 } else { 3e-6 };
                            let passes = (hn > 0) as u32 as f64 + (vn > 0) as u32 as f64;
                            passes * w.abs() * (unit * hc.max(vc) + 1e-6 * hn.max(vn) as f64) + if e.fmt == Fmt::F16 { 6e-8 * 2. } else { 1e-30 }
                        } else if e.fmt == Fmt::U8 && !c.quality && !e.is_ar30() { [hn, vn].iter().map(|n| if *n > 0 { 1. + (255. * *n as f64 / 65536. + *n as f64 / 128. + 0.5).floor() } else { 0. }).sum() }
                        else if conv::fixed_point(&c) { [hn, vn].iter().map(|n| if *n > 0 { (c.max() * *n as f64 / 65536. + 0.5).floor() } else { 0. }).sum() }
                        else { let x = c.max() * 6e-7 * (hn + vn + 2) as f64 * hc.max(vc); if x < 0.45 { 0. } else { x.floor() + 1. } };
                    if tl > 0. { exact = false; }
                    if !(d <= tl) { cx.violate("flat", &format!("{} is {g} instead of {w} (allowed difference {tl}) for pixels {pix:?}: {}", at_px(&c, i), c.show())); break }
                }
                if exact { cx.count("flat images demanded exact"); }
            }
        }
        cx.sample(|| format!("{} {}: flat images stay flat", e.show(), FILTERS[f as usize].0));
    }
    fn rule(&self, _: bool) -> String { "one job per (CPU level, entry point with format, channels, depth, strategy, premultiplication; filter); a job resizes flat images of the listed values (different per channel) through every listed size".into() }
    fn bounds(&self, t: bool) -> Vec<(String, String)> {
        vec![("sizes".into(), format!("{} size pairs", sizes(t).len())), ("values".into(), if t { "all 256 8-bit values, 65 values of deeper formats" } else { "52 8-bit values, 20 of deeper formats" }.into()), ("filters".into(), FILTERS.len().to_string()), ("entry points".into(), ents(t).len().to_string()),
            ("cpu levels".into(), cpu::available_levels().iter().map(|&l| cpu::LEVELS[l].name).collect::<Vec<_>>().join(" "))]
    }
    fn assumptions(&self) -> Vec<String> { vec!["sizes at which the weights of a filter cancel (absolute sum above 20 times the sum) are skipped".into(), "packed 10-bit alpha is opaque".into(), "f16 images that are fully transparent are skipped with premultiplication (their colour is not kept)".into()] }
}
