//! Every CPU feature combination gives the image of the portable code, up to rounding.
use super::common::*;
use crate::case::*;
use crate::explore::*;
use crate::{conv, cpu};

pub struct P;
fn ents(t: bool) -> Vec<Ent> { no_color(if t { &[10, 1, 4, 8, 9, 11, 12, 13, 14, 15, 16] } else { &[10, 8, 12, 13, 16] }) }
fn no_color(d: &[u8]) -> Vec<Ent> { everything(d).into_iter().filter(|e| !e.is_color()).collect() }
const FILTS: &[&str] = &["Bilinear", "Lanczos3", "Nearest", "MitchellNetravalli", "Area"];
/// (sw, sh, dw, dh)
pub fn sizes(t: bool) -> Vec<(u32, u32, u32, u32)> {
    let mut v = vec![];
    let lim = if t { 6 } else { 4 };
    for sw in 1..=lim { for sh in 1..=lim { for dw in 1..=lim { for dh in 1..=lim { if (sw + 2 * sh + 3 * dw + 5 * dh) % if t { 2 } else { 5 } == 0 { v.push((sw, sh, dw, dh)); } } } } }
    // column tails: every width, vertical only; row kernels with every number of rows and taps
    for w in 1..=if t { 140 } else { 72 } { v.push((w, 5, w, 3)); if t { v.push((w, 2, w, 5)); } }
    for r in 1..=if t { 18 } else { 9 } { for (n, m) in [(7, 5), (9, 4), (24, 5), (33, 11), (40, 3), (5, 13), (8, 2), (64, 9), (131, 6)] { v.push((n, r, m, r)); } }
    v.extend([(17, 9, 9, 5), (33, 7, 12, 13), (66, 40, 31, 21), (1, 40, 1, 3), (40, 1, 3, 1), (2, 2, 37, 33), (5, 5, 5, 5), (130, 3, 130, 3)]);
    // beyond 8-bit counters and every block of a kernel several times
    v.extend([(257, 3, 257, 2), (300, 5, 90, 5), (519, 2, 1030, 3), (3, 300, 3, 700), (1030, 3, 1030, 4), (4099, 2, 37, 2), (5, 4099, 3, 30), (310, 270, 290, 256)]);
    v
}
/// Bound on the difference of two conforming results for sample i (None: unpredictable)
pub fn pair_tol(c: &Case, al: &[Option<f64>], a: &[f64], b: &[f64], i: usize) -> Option<f64> {
    let ch = c.ch as usize;
    let e = al[i / ch]?;
    if c.premul && i % ch != 3 {
        let base = i / ch * ch;
        let alpha = a[base + 3].min(b[base + 3]);
        let max = c.max();
        if alpha <= 0. { return None }
        let q = match c.fmt { Fmt::U8 | Fmt::U16 => 1.5, Fmt::F32 => 1e-6, Fmt::F16 => 2e-3 };
        return Some((2. * (2. * e + q)) * max / alpha + q)
    }
    if c.is_int() && !c.premul {
        // 16-bit fixed point with whole sums is the same integer arithmetic everywhere; the fast strategy, packed
        // 10-bit images and deeper samples (floats inside) may round the other way once per pass
        let passes = match (c.sw != c.dw, c.sh != c.dh) { (true, true) => 2., (false, false) => 0., _ => 1. };
        let same = !c.api.is_ar30() && conv::fixed_point(c) && (c.fmt == Fmt::U16 || c.quality);
        return Some(if same { 0. } else if passes < 2. { 1. } else { (2. * e).min(2. + e.floor()) })
    }
    Some(2. * e)
}
impl Prop for P {
    fn id(&self) -> &'static str { "C02" }
    fn counters(&self) -> &'static [&'static str] { &["samples compared", "samples not comparable (cancelling weights, transparent pixels)"] }
    fn phases(&self, t: bool) -> Vec<Phase> { vec![Phase { level: None, n: (ents(t).len() * FILTS.len() * 2) as u64, label: "all entry points x filters x image contents".into() }] }
    fn job(&self, _: u32, idx: u64, cx: &mut Cx) {
        let t = cx.thorough;
        let es = ents(t);
        let e = es[idx as usize % es.len()];
        let r = idx as usize / es.len();
        let f = filt(FILTS[r % FILTS.len()]);
        let salt = (r / FILTS.len()) as u32;
        let fs = feature_sets();
        for (i, &(sw, sh, dw, dh)) in sizes(t).iter().enumerate() {
            let mut c = e.case(f, sw, sh, dw, dh);
            c.level = 0;
            let px = content(&c, salt * 77 + 1);
            let maxabs = px.iter().fold(0f64, |a, b| a.max(b.abs()));
            cpu::set_level(0);
            cx.at(&c);
            let o0 = run(&c, &px);
            cx.step();
            cx.state(hash_px(idx, &o0.px));
            let exact = (sw == dw && sh == dh) || (f == filt("Nearest"));
            let al = if exact { vec![] } else { allowance(&c, maxabs) };
            for (name, set) in fs.iter().skip(1) {
                cpu::set_features(set);
                c.level = 255;
                cx.at(&c);
                cx.note(name);
                let o = run(&c, &px);
                cx.step();
                if o.ret != o0.ret { cx.violate("result", &format!("{} with CPU features {name}, {} with none, for {}", ret_show(&o.ret), ret_show(&o0.ret), c.show())); continue }
                cx.trace();
                if exact {
                    if let Some(i) = first_diff(&o.px, &o0.px) { cx.violate("exact", &format!("{} is {} with CPU features {name} and {} with none, for {}", at_px(&c, i), o.px[i], o0.px[i], c.show())); }
                    continue
                }
                let mut skipped = 0u64;
                let mut bad: Option<(usize, f64)> = None;
                for i in 0..o.px.len() {
                    let d = (o.px[i] - o0.px[i]).abs();
                    let tl = pair_tol(&c, &al, &o0.px, &o.px, i);
                    match tl { None => skipped += 1, Some(tl) => if !(d <= tl) && bad.map(|b| d > b.1).unwrap_or(true) && !(o.px[i].is_nan() && o0.px[i].is_nan()) { bad = Some((i, d)); } }
                }
                cx.add("samples compared", o.px.len() as u64);
                cx.add("samples not comparable (cancelling weights, transparent pixels)", skipped);
                if let Some((i, _)) = bad { cx.violate("value", &format!("{} is {} with CPU features {name} and {} with none, beyond rounding ({:?}), for {}", at_px(&c, i), o.px[i], o0.px[i], pair_tol(&c, &al, &o0.px, &o.px, i), c.show())); }
            }
            if i == 3 { cx.sample(|| format!("{}: {} feature combinations agree", c.show(), fs.len())); }
        }
    }
    fn rule(&self, _: bool) -> String { "one job per (entry point with format, channels, bit depth, strategy, premultiplication; filter; image content); a job runs every size of the list under every implication-closed CPU feature combination and compares each with the run without any feature".into() }
    fn bounds(&self, t: bool) -> Vec<(String, String)> {
        vec![("entry points".into(), ents(t).len().to_string()), ("CPU feature combinations".into(), feature_sets().iter().map(|f| f.0.clone()).collect::<Vec<_>>().join(", ")),
            ("filters".into(), FILTS.join(" ")), ("sizes".into(), format!("{} (source, destination) size pairs, widths up to 140", sizes(t).len()))]
    }
    fn assumptions(&self) -> Vec<String> { vec!["positions whose weights cancel or that sit on a kernel discontinuity are not compared; colours of transparent pixels are not compared".into()] }
}
