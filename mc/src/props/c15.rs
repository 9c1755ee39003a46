//! Packed 2-10-10-10 images resize like the channels they hold.
use super::c02;
use super::common::*;
use crate::case::*;
use crate::explore::*;
use crate::{conv, cpu};

pub struct P;
const MODES: &[&str] = &["axes", "sizes", "values"];

/// Runs the four packings of one picture; all must agree, and match the reference convolution.
fn check(c0: &Case, px: &[f64], cx: &mut Cx) {
    let mut first: Option<Vec<f64>> = None;
    let kept = (c0.sw == c0.dw && c0.sh == c0.dh) || FILTERS[c0.filt as usize].0 == "Nearest";
    for api in AR30S {
        let mut c = *c0;
        c.api = api;
        cx.at(&c);
        let o = run(&c, px);
        cx.step();
        if o.ret != Ret::Ok { cx.violate("error", &format!("{} for a valid call: {}", ret_show(&o.ret), c.show())); return }
        if let Some(i) = o.pad { cx.violate("padding", &format!("destination padding byte {i} was written: {}", c.show())); }
        if let Some(f) = &first {
            cx.count("packings compared");
            if let Some(i) = first_diff(&o.px, f) { cx.violate("packing", &format!("{} is {} but {} in the first packing of the same picture: {}", at_px(&c, i), o.px[i], f[i], c.show())); return }
            continue
        }
        cx.trace();
        cx.state(hash_px(15, &o.px));
        if kept {
            // whole pixels are moved, alpha included
            for (i, p) in o.px.chunks_exact(4).enumerate() { if !px.chunks_exact(4).any(|q| q == p) { cx.violate("moved", &format!("pixel {i} {p:?} is no source pixel: {}", c.show())); return } }
        } else {
            let r = conv::compare(&c, px, &o.px, 4, 0..3);
            cx.add("samples matching the clamped-weight model", r.clamped as u64);
            if r.nbad > 0 { let b = &r.bad[0]; cx.violate("value", &format!("{} samples differ from the reference, first at x={} y={} channel={}: got {} expected {:.4} +- {:.4} in {}", r.nbad, b.x, b.y, b.ch, b.got, b.want, b.tol, c.show())); return }
            if let Some(i) = o.px.iter().skip(3).step_by(4).position(|a| *a != 3.) { cx.violate("alpha", &format!("alpha of pixel {i} is {} instead of opaque: {}", o.px[i * 4 + 3], c.show())); return }
            // the 10-bit planes resized on their own
            if c.sw * c.sh < 300 { for k in 0..3 {
                let mut c1 = c;
                c1.api = Api::Direct; c1.fmt = Fmt::U16; c1.depth = 10; c1.ch = 1; c1.ss = PACKED; c1.ds = PACKED;
                let p1: Vec<f64> = px.iter().skip(k).step_by(4).copied().collect();
                cx.at(&c1);
                let o1 = run(&c1, &p1);
                cx.step();
                cx.count("channels resized on their own");
                let al = allowance(&c, 1023.);
                for j in 0..o1.px.len() { if let Some(t) = al[j] { if !((o1.px[j] - o.px[j * 4 + k]).abs() <= 2. * t) { cx.violate("plane", &format!("{} is {} but {} when the channel is resized alone: {}", at_px(&c, j * 4 + k), o.px[j * 4 + k], o1.px[j], c.show())); return } } }
            } }
        }
        first = Some(o.px);
    }
}
impl Prop for P {
    fn id(&self) -> &'static str { "C15" }
    fn counters(&self) -> &'static [&'static str] { &["packings compared", "channels resized on their own", "samples matching the clamped-weight model"] }
    fn phases(&self, _: bool) -> Vec<Phase> {
        cpu::available_levels().into_iter().map(|l| Phase { level: Some(l), n: (FILTERS.len() * 2 * MODES.len()) as u64, label: cpu::LEVELS[l].name.into() }).collect()
    }
    fn job(&self, phase: u32, idx: u64, cx: &mut Cx) {
        let t = cx.thorough;
        let f = (idx as usize % FILTERS.len()) as u8;
        let q = idx as usize / FILTERS.len() % 2 == 1;
        let level = cpu::available_levels()[phase as usize] as u8;
        let e = Ent { api: Api::Ar30Host, fmt: Fmt::U8, ch: 4, depth: 8, q, premul: false };
        let mk = |sw, sh, dw, dh| { let mut c = e.case(f, sw, sh, dw, dh); c.level = level; c };
        match MODES[idx as usize / FILTERS.len() / 2] {
            // every weight of every axis pair: an impulse at each position in each channel
            "axes" => {
                let lim = if t { 24 } else if q { 9 } else { 14 };
                let mut pairs: Vec<(u32, u32)> = (1..=lim).flat_map(|n| (1..=lim).map(move |m| (n, m))).collect();
                pairs.extend([(17, 5), (33, 12), (40, 3), (5, 40), (64, 9)]);
                for (n, m) in pairs { for horiz in [true, false] {
                    let lines = n.min(if t { 18 } else { 9 }) + (n + m) % 3;
                    let mut c = if horiz { mk(n, lines, m, lines) } else { mk(lines, n, lines, m) };
                    if (n + m) % 4 == 0 { c.ss = c.sw * 4 + 12; c.ds = c.dw * 4 + 20; }
                    let mut px = crate::img::impulses(&c, horiz, 0., 1023.);
                    for p in px.chunks_exact_mut(4) { p[3] = (p[0] as u32 + p[1] as u32 & 3) as f64; }
                    check(&c, &px, cx);
                } }
            }
            "sizes" => {
                if !["Bilinear", "Lanczos3", "Nearest", "MitchellNetravalli", "Area", "CatmullRom"].contains(&FILTERS[f as usize].0) { return }
                for (i, &(sw, sh, dw, dh)) in c02::sizes(t).iter().enumerate() {
                    let mut c = mk(sw, sh, dw, dh);
                    if i % 5 == 1 { c.ss = sw * 4 + 5; c.ds = dw * 4 + 3; }
                    if i % 11 == 2 { c.thr = 3; }
                    let px = content(&c, 5);
                    check(&c, &px, cx);
                }
            }
            // every value of every field
            _ => {
                if !["Bilinear", "Nearest"].contains(&FILTERS[f as usize].0) { return }
                for (k, (sw, sh, dw, dh)) in [(1024, 2, 1024, 3), (1024, 1, 1024, 1), (2, 1024, 3, 1024), (2, 1024, 1, 512)].into_iter().enumerate() {
                    for s in 0..if t { 64 } else { 8u32 } {
                        let mut c = mk(sw, sh, dw, dh);
                        c.data = s;
                        let mut px = Vec::with_capacity((sw * sh * 4) as usize);
                        for y in 0..sh { for x in 0..sw {
                            let v = if k < 2 { x } else { y };
                            px.extend([v as f64, ((v * (2 * s + 1) + 7 * s) & 1023) as f64, (1023 - (v + 128 * s & 1023)) as f64, (v & 3) as f64]);
                        } }
                        check(&c, &px, cx);
                    }
                }
            }
        }
        if idx % 23 == 0 { cx.sample(|| format!("{} {} {}: four packings agree and match", e.show(), FILTERS[f as usize].0, MODES[idx as usize / FILTERS.len() / 2])); }
    }
    fn rule(&self, _: bool) -> String { "one job per (CPU level, filter, strategy, mode); each picture is resized in all four packings, which must agree bit for bit; the first is compared with the reference convolution of the unpacked channels and with the library's 10-bit plane resize of each channel".into() }
    fn bounds(&self, t: bool) -> Vec<(String, String)> { vec![("axes".into(), format!("all pairs of axis lengths up to {} (quality strategy 9) plus 5 longer, impulses at every position of every channel, both axes, all filters", if t { 24 } else { 14 })), ("sizes".into(), format!("{} size pairs, widths up to 140", c02::sizes(t).len())), ("values".into(), "all 1024 values of every field".into())] }
    fn assumptions(&self) -> Vec<String> { vec!["weights above one in 16-bit fixed point follow the recorded finding of C01".into()] }
}
