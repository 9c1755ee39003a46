//! The one-call interface equals the configured scaler.
use super::common::*;
use crate::case::*;
use crate::explore::*;
use crate::cpu;

pub struct P;
fn ents() -> Vec<Ent> {
    let mut v = scale_front();
    for d in [8u8, 10, 16, 1, 0, 17] { for e in scale_front() { if e.fmt == Fmt::U16 { v.push(Ent { depth: d, ..e }); } } }
    v
}
fn sizes(t: bool) -> Vec<(u32, u32, u32, u32)> {
    let mut v = vec![(17, 9, 9, 5), (40, 3, 13, 7), (5, 21, 11, 8), (0, 2, 3, 3), (3, 0, 3, 3), (2, 2, 0, 3), (2, 2, 3, 0), (0, 0, 0, 0),
        // large enough for more than one thread
        (90, 130, 380, 350), (380, 90, 380, 350), (380, 350, 380, 350)];
    let n = if t { 5 } else { 3 };
    for a in 1..=n { for b in 1..=n { for c in 1..=n { for d in 1..=n { v.push((a, b, c, d)); } } } }
    v
}
impl Prop for P {
    fn id(&self) -> &'static str { "C18" }
    fn counters(&self) -> &'static [&'static str] { &["pairs compared", "errors compared"] }
    fn phases(&self, _: bool) -> Vec<Phase> {
        [0usize, 1, 5, cpu::LEVELS.len() - 1].iter().filter(|l| cpu::available_levels().contains(l)).map(|&l| Phase { level: Some(l), n: (ents().len() * FILTERS.len()) as u64, label: cpu::LEVELS[l].name.into() }).collect()
    }
    fn job(&self, phase: u32, idx: u64, cx: &mut Cx) {
        let t = cx.thorough;
        let es = ents();
        let e = es[idx as usize % es.len()];
        let f = (idx as usize / es.len()) as u8;
        let level = [0usize, 1, 5, cpu::LEVELS.len() - 1].into_iter().filter(|l| cpu::available_levels().contains(l)).nth(phase as usize).unwrap();
        for &(sw, sh, dw, dh) in &sizes(t) {
            for mt in [false, true] {
                if mt && !(t && f % 4 == 0) && f % 12 != 1 { continue }
                if sw > 100 && (f % 12 != 1 || !t && phase != 3) { continue }
              for sd in 0..if e.fmt == Fmt::U16 { 3 } else { 1 } {
                if sd > 0 && mt { continue }
                let mut c = e.case(f, sw, sh, dw, dh);
                c.sd = [0, 1, 9][sd];
                c.level = level as u8;
                let px = content(&c, 5);
                c.thr = if mt { 1 } else { 0 };
                cx.at(&c);
                let a = run(&c, &px);
                c.api = Api::Direct;
                c.thr = if mt { -1 } else { 0 };
                cx.at(&c);
                let b = run(&c, &px);
                cx.steps(2);
                cx.trace();
                cx.count("pairs compared");
                cx.state(hash_px(idx, &b.px));
                if a.ret != b.ret { cx.violate("result", &format!("scale() gives {}, the scaler {}: {}", ret_show(&a.ret), ret_show(&b.ret), c.show())); continue }
                if b.ret != Ret::Ok { cx.count("errors compared"); }
                if let Some(i) = first_diff(&a.px, &b.px) { cx.violate("pixels", &format!("{} is {} with scale() and {} with the scaler: {}", at_px(&c, i), a.px[i], b.px[i], c.show())); }
              }
            }
        }
        cx.sample(|| format!("{} {}: both interfaces agree", e.show(), FILTERS[f as usize].0));
    }
    fn rule(&self, _: bool) -> String { "one job per (CPU level, format, channels, depth, premultiplication; filter); a job runs every listed size (zero sizes included) through ImageStoreScaling::scale and through a Scaler with the corresponding settings and compares result and image bit for bit".into() }
    fn bounds(&self, t: bool) -> Vec<(String, String)> { vec![("multithreading option".into(), "off, and on with every twelfth filter (thorough: every fourth), the largest images with two threads".into()), ("sizes".into(), format!("{} size pairs", sizes(t).len())), ("filters".into(), FILTERS.len().to_string()), ("bit depth of the source store".into(), "its own, 0, 8".into()), ("formats".into(), ents().len().to_string())] }
}
