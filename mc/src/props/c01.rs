//! Resampling is the separable normalised convolution with the selected filter.
use crate::case::*;
use crate::explore::*;
use crate::{conv, cpu, img};

pub struct P;
#[derive(Clone, Copy)]
pub struct Cfg { pub fmt: Fmt, pub depth: u8, pub ch: u8, pub q: bool }
pub fn configs() -> Vec<Cfg> {
    let mut v = vec![];
    for (fmt, depth) in [(Fmt::U8, 8), (Fmt::U16, 10), (Fmt::U16, 12), (Fmt::U16, 14), (Fmt::U16, 16), (Fmt::F32, 8), (Fmt::F16, 8)] {
        for ch in 1..=4u8 { for q in [false, true] {
            if q && fmt != Fmt::U8 && !(fmt == Fmt::U16 && depth == 10) && fmt != Fmt::F16 { continue }
            v.push(Cfg { fmt, depth, ch, q });
        } }
    }
    v
}
pub fn apply(g: &Cfg, c: &mut Case) { c.depth = g.depth; c.quality = g.q; }
const LONG: &[&str] = &["Bilinear", "Lanczos3", "MitchellNetravalli", "Area", "Lanczos6", "Gaussian"];
fn long_pairs(t: bool) -> Vec<(u32, u32)> {
    let mut v = vec![];
    let ns: &[u32] = if t { &[14, 15, 16, 17, 19, 22, 24, 25, 31, 32, 33, 35, 40, 47, 48, 49, 63, 64, 65, 71, 96, 127, 128, 130] } else { &[15, 17, 22, 31, 33, 40, 49, 66] };
    for &n in ns { for m in [1, 2, 3, 5, 7, n / 3, n / 2, n - 1, n + 1, n + n / 3, 2 * n] { if m > 0 && m != n { v.push((n, m)); } } }
    v.sort(); v.dedup(); v
}
fn widths(t: bool) -> Vec<u32> { if t { (1..=140).collect() } else { (1..=44).chain([47, 48, 49, 63, 64, 65, 66, 79, 95, 97, 127, 129, 131]).collect() } }
fn small(t: bool) -> u32 { if t { 24 } else { 14 } }
const VSIZES: &[(u32, u32)] = &[(1, 3), (2, 1), (3, 2), (4, 3), (5, 3), (6, 2), (9, 2), (12, 5), (3, 7), (21, 2)];
const TWO: &[&str] = &["Bilinear", "Lanczos3", "CatmullRom", "Area"];

/// sizes whose positions sweep the kernel in fine steps
fn fine(t: bool) -> &'static [(u32, u32)] {
    if t { &[(13, 1009), (1, 50), (997, 60), (64, 4001), (211, 210), (210, 211), (5, 20011)] } else { &[(13, 1009), (331, 50), (101, 100)] }
}
/// axes beyond every 8- and 16-bit counter
fn huge(t: bool) -> Vec<(u32, u32)> {
    let mut v = vec![(300, 7), (257, 600), (300, 299), (1030, 9), (4099, 5), (7, 4099), (66001, 3), (3, 66001)];
    if t { v.extend([(2050, 2047), (513, 1027), (33000, 32999), (32771, 2), (66001, 65537), (65537, 131100), (140000, 17), (5, 140000)]); }
    v
}
/// Images of many pixels; the last ones on two CPUs only.
fn large(t: bool) -> Vec<((u32, u32, u32, u32), &'static str, bool)> {
    let mut v = vec![((310, 270, 290, 256), "Bilinear", true), ((1100, 1000, 1050, 1001), "Bilinear", false)];
    if t { v.extend([((520, 1200, 520, 601), "Lanczos3", true), ((1200, 520, 601, 520), "Lanczos3", true), ((2300, 1900, 1150, 2500), "Bilinear", false)]); }
    v
}
/// Compares one call with the reference on all channels.
pub fn verify(c: &Case, px: &[f64], cx: &mut Cx) {
    cx.at(c);
    let o = run(c, px);
    cx.step();
    if o.ret != Ret::Ok { cx.violate("error", &format!("{} for {}", ret_show(&o.ret), c.show())); return }
    cx.state(hash_px(c.fmt as u64, &o.px));
    let r = conv::compare(c, px, &o.px, c.ch as usize, 0..c.ch as usize);
    cx.traces((c.dw * c.dh) as u64 * c.ch as u64);
    cx.add("ambiguous-boundary samples matched by an admissible alternative", r.ambiguous as u64);
    cx.add("ill-conditioned samples not predicted", r.illcond as u64);
    cx.add("samples matching the clamped-weight model", r.clamped as u64);
    if r.clamped > 0 { cx.known("fixed-point-weight-above-one", &c.show()); }
    if r.nbad > 0 {
        let b = &r.bad[0];
        cx.violate("value", &format!("{} samples differ from the reference, first at x={} y={} channel={}: got {} expected {:.4} +- {:.4} in {}", r.nbad, b.x, b.y, b.ch, b.got, b.want, b.tol, c.show()));
    }
    cx.sample(|| format!("{} -> {} samples within tolerance, largest error {:.4}", c.show(), o.px.len(), r.maxerr));
}
fn span(c: &Case) -> (f64, f64) { if c.is_int() { (0., c.max()) } else { (-0.25, 1.) } }
impl Prop for P {
    fn id(&self) -> &'static str { "C01" }
    fn counters(&self) -> &'static [&'static str] { &["ambiguous-boundary samples matched by an admissible alternative", "ill-conditioned samples not predicted", "samples matching the clamped-weight model"] }
    fn phases(&self, t: bool) -> Vec<Phase> {
        let k = configs().len() as u64;
        let mut v = vec![];
        for l in cpu::available_levels() {
            let n = cpu::LEVELS[l].name;
            v.push(Phase { level: Some(l), n: k * 2 * FILTERS.len() as u64, label: format!("{n}: all filters, small axes") });
            v.push(Phase { level: Some(l), n: k * 2 * LONG.len() as u64, label: format!("{n}: long axes") });
            v.push(Phase { level: Some(l), n: k * widths(t).len() as u64, label: format!("{n}: column tails") });
            v.push(Phase { level: Some(l), n: k * TWO.len() as u64, label: format!("{n}: both axes") });
            v.push(Phase { level: Some(l), n: k * 2 * huge(t).len() as u64, label: format!("{n}: huge axes") });
            v.push(Phase { level: Some(l), n: FILTERS.len() as u64 * 2, label: format!("{n}: kernel shapes") });
            v.push(Phase { level: Some(l), n: k * large(t).len() as u64, label: format!("{n}: large images") });
        }
        v
    }
    fn job(&self, phase: u32, idx: u64, cx: &mut Cx) {
        let t = cx.thorough;
        let level = cpu::available_levels()[phase as usize / 7];
        let cf = configs();
        let g = cf[(idx % cf.len() as u64) as usize];
        let rest = (idx / cf.len() as u64) as usize;
        let one = |f: u8, horiz: bool, n: u32, m: u32, lines: u32, cx: &mut Cx| {
            let mut c = if horiz { Case::new(g.fmt, g.ch, f, n, lines, m, lines) } else { Case::new(g.fmt, g.ch, f, lines, n, lines, m) };
            apply(&g, &mut c);
            c.level = level as u8;
            let (lo, hi) = span(&c);
            let px = img::impulses(&c, horiz, lo, hi);
            verify(&c, &px, cx);
        };
        if phase % 7 == 5 {
            let (f, horiz) = ((idx / 2) as u8, idx % 2 == 0);
            if f == filt("Nearest") { return }
            for &(n, m) in fine(t) {
                let mut c = if horiz { Case::new(Fmt::F32, 1, f, n, n, m, n) } else { Case::new(Fmt::F32, 1, f, n, n, n, m) };
                c.level = level as u8;
                let (lo, hi) = span(&c);
                verify(&c, &img::impulses(&c, horiz, lo, hi), cx);
            }
            return
        }
        match phase % 7 {
            0 => {
                let f = (rest / 2) as u8;
                if f == filt("Nearest") { return }
                for n in 1..=small(t) { for m in 1..=small(t) { if n != m { one(f, rest % 2 == 0, n, m, n.max(5), cx); } } }
            }
            1 => for (n, m) in long_pairs(t) { one(filt(LONG[rest / 2]), rest % 2 == 0, n, m, if rest % 2 == 0 { n } else { n.min(37) }, cx); },
            2 => {
                let w = widths(t)[rest];
                for (i, &(n, m)) in VSIZES.iter().enumerate() { one(filt(["Lanczos3", "Bilinear"][i % 2]), false, n, m, w, cx); }
                // the same number of rows through the row kernels
                for (i, &(n, m)) in VSIZES.iter().enumerate().take(4) { if w < 20 { one(filt(["Lanczos3", "Bilinear"][i % 2]), true, n, m, w, cx); } }
            }
            6 => {
                let ((sw, sh, dw, dh), f, everywhere) = large(t)[rest];
                if !everywhere && !matches!(cpu::LEVELS[level].name, "baseline-x86_64" | "everything") { return }
                let mut c = Case::new(g.fmt, g.ch, filt(f), sw, sh, dw, dh);
                apply(&g, &mut c);
                c.level = level as u8;
                let (lo, hi) = span(&c);
                verify(&c, &img::texture(&c, dw * 16 + dh, lo, hi), cx);
            }
            4 => {
                let (n, m) = huge(t)[rest / 2];
                let horiz = rest % 2 == 0;
                for f in ["Bilinear", "Lanczos3", "Area"] {
                    if f == "Area" && !t { continue }
                    let lines = if horiz { 2 } else { 5 };
                    let f = filt(f);
                    let mut c = if horiz { Case::new(g.fmt, g.ch, f, n, lines, m, lines) } else { Case::new(g.fmt, g.ch, f, lines, n, lines, m) };
                    apply(&g, &mut c);
                    c.level = level as u8;
                    let (lo, hi) = span(&c);
                    verify(&c, &img::texture(&c, n ^ m, lo, hi), cx);
                }
            }
            _ => {
                let f = filt(TWO[rest]);
                let lim = if t { 9 } else { 5 };
                for sw in 1..=lim { for sh in 1..=lim { for dw in 1..=lim { for dh in 1..=lim {
                    if sw == dw || sh == dh { continue }
                    let mut c = Case::new(g.fmt, g.ch, f, sw, sh, dw, dh);
                    apply(&g, &mut c);
                    c.level = level as u8;
                    let (lo, hi) = span(&c);
                    let px = img::texture(&c, dw * 16 + dh, lo, hi);
                    verify(&c, &px, cx);
                } } } }
            }
        }
    }
    fn rule(&self, t: bool) -> String {
        format!("one job per (CPU level, sample format, channel count, bit depth, strategy, axis, filter); a job runs every (source length, destination length) pair up to {} (all filters) or a list of long axes, with one impulse per line so that one call exposes the whole weight matrix in both polarities; further jobs run every row width (column tails) and every two-axis size combination", small(t))
    }
    fn bounds(&self, t: bool) -> Vec<(String, String)> {
        vec![("axis length, all 48 convolution filters".into(), format!("1..={} x 1..={}", small(t), small(t))),
            ("long axes".into(), format!("{} pairs up to {} for {:?}", long_pairs(t).len(), long_pairs(t).iter().map(|p| p.0).max().unwrap(), LONG)),
            ("kernel shapes, all 48 convolution filters in f32".into(), format!("{:?}", fine(t))),
            ("huge axes".into(), format!("{:?}, with Bilinear and Lanczos3", huge(t))),
            ("large images".into(), format!("{:?} (those marked false on two CPUs)", large(t))),
            ("row widths".into(), format!("{} widths up to {}", widths(t).len(), widths(t).last().unwrap())),
            ("cpu levels".into(), cpu::available_levels().iter().map(|&l| cpu::LEVELS[l].name).collect::<Vec<_>>().join(" "))]
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["positions whose weights cancel (absolute weight sum above 100 times the weight sum) are not predicted".into(),
            "at kernel discontinuities and exact .5 boundaries either side is admissible".into(),
            "integer results may differ by rounding: half a unit plus the fixed point resolution of the weights; PreferSpeed 8-bit kernels by about 1% of the range".into()]
    }
}
