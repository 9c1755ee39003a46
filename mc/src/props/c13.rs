//! Nearest resizing copies the closest source pixel.
use super::common::*;
use crate::case::*;
use crate::explore::*;
use crate::cpu;

pub struct P;
const GIANT: [(u32, u32); 3] = [(17_000_003, 2_000_003), (2_000_003, 17_000_003), (16_777_300, 16_777_299)];
fn ents(t: bool) -> Vec<Ent> { everything(if t { &[10, 1, 8, 12, 16] } else { &[10, 16] }).into_iter().filter(|e| !e.is_color()).collect() }
fn lens(t: bool) -> Vec<(u32, u32)> {
    let mut v = vec![];
    let n = if t { 24 } else { 12 };
    for a in 1..=n { for b in 1..=n { v.push((a, b)); } }
    for a in [13u32, 17, 31, 40, 64, 100, 127, 255, 257, 1000, 1023, 4099] { for b in [1u32, 2, 3, 7, 16, 33, 99, 128, 255, 256, 1001, 3000, 4096] { if t || (a + b) % 3 == 0 { v.push((a, b)); } } }
    v
}
/// Admissible source positions of output position i: those whose centre is closest (both at a tie).
pub fn closest(n: u32, m: u32, i: u32) -> (u32, u32) {
    // position of the output centre in the source, times 2m: (2i+1)n ; the centre of k lies at (2k+1)m
    let p = (2 * i as u64 + 1) * n as u64;
    let m2 = 2 * m as u64;
    let k = (p / m2).min(n as u64 - 1);
    let r = p - k * m2;
    let lo = if r == 0 && k > 0 { k - 1 } else { k };
    let hi = k;
    (lo as u32, hi as u32)
}
const BIG: &[(u32, u32, u32, u32)] = &[(310, 270, 290, 256), (270, 310, 700, 290), (90, 70, 1030, 300)];
impl Prop for P {
    fn id(&self) -> &'static str { "C13" }
    fn counters(&self) -> &'static [&'static str] { &["output pixels checked"] }
    fn phases(&self, t: bool) -> Vec<Phase> {
        let mut v: Vec<Phase> = [0usize, cpu::LEVELS.len() - 1].iter().map(|&l| Phase { level: Some(l), n: (ents(t).len() * 2) as u64, label: format!("{}: one axis", cpu::LEVELS[l].name) }).collect();
        v.push(Phase { level: Some(cpu::LEVELS.len() - 1), n: ents(t).len() as u64, label: "both axes, strides, threads".into() });
        v.push(Phase { level: Some(cpu::LEVELS.len() - 1), n: (ents(t).len() * 2) as u64, label: "rows and columns of many thousand pixels".into() });
        v.push(Phase { level: Some(cpu::LEVELS.len() - 1), n: 2 * GIANT.len() as u64, label: "rows and columns of more than 2^24 pixels".into() });
        v
    }
    fn job(&self, phase: u32, idx: u64, cx: &mut Cx) {
        let t = cx.thorough;
        let es = ents(t);
        let e = es[idx as usize % es.len()];
        let f = filt("Nearest");
        let top = cpu::LEVELS.len() - 1;
        let level = [0, top, top, top, top][phase as usize];
        let one = |c: &Case, cx: &mut Cx| {
            let ch = c.ch as usize;
            // pixel = its own coordinates, spread over the channels in base (number of values) so that every pixel is recognisable
            let base = if e.is_ar30() { 4. } else { c.max().min(255.) + 1. };
            let code = |x: u32, y: u32, salt: u32| -> Vec<f64> {
                // with few values per sample the picture is made distinguishable over several salts
                let h = h64(h64(salt as u64, x as u64), y as u64);
                (0..ch).map(|k| { let d = (h >> (k * 12)) & 0xfff; if c.is_int() || e.is_ar30() { (d as f64) % base } else { quant(c, (d % 256) as f64 / 256.) } }).collect()
            };
            let rounds = if base < 16. { 4 } else { 2 };
            // candidates that survived all rounds, as (x ok, y ok) is not separable: check membership directly
            let mut ok: Vec<bool> = vec![];
            for salt in 0..rounds {
                let mut px = Vec::with_capacity((c.sw * c.sh) as usize * ch);
                for y in 0..c.sh { for x in 0..c.sw { px.extend(code(x, y, salt)); } }
                cx.at(c);
                let o = run(c, &px);
                cx.step();
                if o.ret != Ret::Ok { cx.violate("error", &format!("{} for {}", ret_show(&o.ret), c.show())); return }
                if o.pad.is_some() { cx.violate("padding", &format!("destination padding written: {}", c.show())); }
                cx.state(hash_px(idx, &o.px));
                // remaining candidates per output pixel as a 4-bit set over (lo,hi)x(lo,hi)
                let mut i = 0;
                for y in 0..c.dh { for x in 0..c.dw {
                    let (xl, xh) = closest(c.sw, c.dw, x);
                    let (yl, yh) = closest(c.sh, c.dh, y);
                    let g = &o.px[((y * c.dw + x) as usize) * ch..][..ch];
                    for (a, b) in [(xl, yl), (xh, yl), (xl, yh), (xh, yh)] {
                        let s = &px[((b * c.sw + a) as usize) * ch..][..ch];
                        let m = s.iter().zip(g).all(|(p, q)| p == q);
                        if salt == 0 { ok.push(m); } else { ok[i] &= m; }
                        i += 1;
                    }
                } }
            }
            cx.add("output pixels checked", (c.dw * c.dh) as u64);
            cx.traces((c.dw * c.dh) as u64);
            if let Some(k) = ok.chunks_exact(4).position(|q| !q.iter().any(|b| *b)) {
                let (x, y) = (k as u32 % c.dw, k as u32 / c.dw);
                cx.violate("pixel", &format!("output pixel x={x} y={y} is not the closest source pixel {:?} {:?} for {}", closest(c.sw, c.dw, x), closest(c.sh, c.dh, y), c.show()));
            }
        };
        if phase < 2 {
            let horiz = idx as usize / es.len() == 0;
            for &(a, b) in &lens(t) {
                if a == b { continue }
                let mut c = if horiz { e.case(f, a, 2, b, 2) } else { e.case(f, 3, a, 3, b) };
                c.level = level as u8;
                one(&c, cx);
                if phase == 1 { c.thr = 2; one(&c, cx); }
            }
        } else if phase == 3 {
            let horiz = idx as usize / es.len() == 0;
            for (a, b) in [(66001u32, 4999u32), (20011, 66001), (30011, 30013), (30013, 30011), (131071, 65537)] {
                if !t && a > 70000 { continue }
                let mut c = if horiz { e.case(f, a, 1, b, 1) } else { e.case(f, 1, a, 1, b) };
                c.level = level as u8;
                one(&c, cx);
                c.thr = 3;
                one(&c, cx);
            }
        } else if phase == 4 {
            let (a, b) = GIANT[idx as usize / 2];
            let e = es[0];
            let mut c = if idx % 2 == 0 { e.case(f, a, 1, b, 1) } else { e.case(f, 1, a, 1, b) };
            c.level = level as u8;
            one(&c, cx);
        } else {
            let n = if t { 7 } else { 4 };
            for sw in 1..=n { for sh in 1..=n { for dw in 1..=n { for dh in 1..=n {
                if sw == dw && sh == dh { continue }
                let mut c = e.case(f, sw, sh, dw, dh);
                c.level = level as u8;
                if (sw + dh) % 2 == 0 { c.ss = c.srow() as u32 + 7; }
                if (sh + dw) % 2 == 0 { c.ds = c.drow() as u32 + 3; }
                if sw * sh * dw * dh % 29 == 0 || (sw == 3 && dw == 2 && sh == 1) { c.thr = [1, 2, 3, -1][(dh % 4) as usize]; }
                one(&c, cx);
            } } } }
            for &(sw, sh, dw, dh) in BIG { for thr in [i32::MIN, 4, -1] { for wide in [false, true] {
                let mut c = e.case(f, sw, sh, dw, dh);
                c.level = level as u8;
                c.thr = thr;
                if wide { c.ss = c.srow() as u32 + 7; c.ds = c.drow() as u32 + 3; }
                one(&c, cx);
            } } }
        }
    }
    fn rule(&self, _: bool) -> String { "one job per (CPU level, entry point with format, channels, depth, premultiplication; axis); images are coded so that each pixel identifies its own position; every output pixel must be the whole pixel at a closest position (exact integer arithmetic; both at a tie), on the calling thread and in a pool".into() }
    fn bounds(&self, t: bool) -> Vec<(String, String)> {
        vec![("axis pairs".into(), format!("{} (source, destination) lengths up to 4099, further ones up to 66001 (thorough: 131071), and one plane of 8 bits up to 17000003", lens(t).len())), ("two axes".into(), format!("all sizes up to {0}x{0} -> {0}x{0} with strides and threads, and {BIG:?}", if t { 7 } else { 4 })), ("entry points".into(), ents(t).len().to_string())]
    }
    fn assumptions(&self) -> Vec<String> { vec![] }
}
