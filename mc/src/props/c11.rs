//! Channels do not leak into each other.
use super::common::*;
use super::c02;
use crate::case::*;
use crate::explore::*;
use crate::cpu;

pub struct P;
fn ents(t: bool) -> Vec<Ent> {
    let mut v: Vec<Ent> = direct(if t { &[10, 1, 8, 12, 13, 14, 16] } else { &[10, 8, 12, 13, 16] }, false).into_iter().filter(|e| e.ch > 1).collect();
    v.extend(ar30());
    v
}
const FILTS: &[&str] = &["Bilinear", "Lanczos3", "Area"];
impl Prop for P {
    fn id(&self) -> &'static str { "C11" }
    fn counters(&self) -> &'static [&'static str] { &["channel comparisons", "plane comparisons"] }
    fn phases(&self, t: bool) -> Vec<Phase> {
        cpu::available_levels().into_iter().map(|l| Phase { level: Some(l), n: (ents(t).len() * FILTS.len()) as u64, label: cpu::LEVELS[l].name.into() }).collect()
    }
    fn job(&self, phase: u32, idx: u64, cx: &mut Cx) {
        let t = cx.thorough;
        let es = ents(t);
        let e = es[idx as usize % es.len()];
        let f = filt(FILTS[idx as usize / es.len()]);
        let level = cpu::available_levels()[phase as usize];
        let ch = e.ch as usize;
        for (i, &(sw, sh, dw, dh)) in c02::sizes(t).iter().enumerate() {
            let mut c = e.case(f, sw, sh, dw, dh);
            c.level = level as u8;
            let px = content(&c, 11);
            cx.at(&c);
            let base = run(&c, &px);
            cx.step();
            cx.state(hash_px(idx, &base.px));
            if base.ret != Ret::Ok { cx.violate("error", &format!("{} for {}", ret_show(&base.ret), c.show())); continue }
            let colours = if e.is_ar30() { 3 } else { ch };
            for k in 0..colours {
                // the other channels at one extreme, at the other, and alternating; floats also huge
                for style in 0..3 {
                    let hi = if e.is_ar30() { 1023. } else if c.is_int() { c.max() } else if e.fmt == Fmt::F32 { 1e30 } else { 30000. };
                    let lo = if c.is_int() || e.is_ar30() { 0. } else { -hi };
                    let mut q = px.clone();
                    for (p, s) in q.iter_mut().enumerate() {
                        if p % ch == k { continue }
                        let m = if e.is_ar30() && p % ch == 3 { 3. } else { hi };
                        *s = match style { 0 => lo, 1 => m, _ => if (p / ch + p % ch) % 2 == 0 { m } else { lo } };
                    }
                    cx.at(&c);
                    let o = run(&c, &q);
                    cx.step();
                    cx.trace();
                    cx.count("channel comparisons");
                    if let Some(j) = (k..o.px.len()).step_by(ch).find(|&j| o.px[j].to_bits() != base.px[j].to_bits()) {
                        cx.violate("leak", &format!("{} changes from {} to {} when only other channels change: {}", at_px(&c, j), base.px[j], o.px[j], c.show()));
                    }
                }
                // the channel as an image of its own
                let mut c1 = c;
                c1.ch = 1;
                if e.is_ar30() { c1.api = Api::Direct; c1.fmt = Fmt::U16; c1.depth = 10; }
                let p1: Vec<f64> = px.iter().skip(k).step_by(ch).copied().collect();
                cx.at(&c1);
                let o1 = run(&c1, &p1);
                cx.step();
                cx.trace();
                cx.count("plane comparisons");
                let maxabs = p1.iter().fold(0f64, |a, b| a.max(b.abs()));
                let same = sw == dw && sh == dh;
                let al = if same { vec![] } else { allowance(&c, maxabs) };
                for j in 0..o1.px.len() {
                    let d = (o1.px[j] - base.px[j * ch + k]).abs();
                    let tl = if same { Some(0.) } else { al[j].map(|x| 2. * x) };
                    if let Some(tl) = tl { if !(d <= tl) { cx.violate("plane", &format!("{} is {} but {} when the channel is resized alone: {}", at_px(&c, j * ch + k), base.px[j * ch + k], o1.px[j], c.show())); break } }
                }
            }
            if i == 5 { cx.sample(|| format!("{}: {colours} channels independent", c.show())); }
        }
    }
    fn rule(&self, _: bool) -> String { "one job per (CPU level, entry point with format, channels, depth, strategy; filter); a job runs every listed size, and for every channel three variants in which all other channels change, comparing the channel bit for bit, and the channel resized as a one channel image, comparing up to rounding".into() }
    fn bounds(&self, t: bool) -> Vec<(String, String)> { vec![("sizes".into(), format!("{} size pairs, widths up to 140", c02::sizes(t).len())), ("entry points".into(), ents(t).len().to_string()), ("filters".into(), FILTS.join(" "))] }
}
