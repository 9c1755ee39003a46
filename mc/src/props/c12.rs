//! Alpha aware resizing: premultiply, resize, divide by the resized alpha.
use super::common::*;
use crate::case::*;
use crate::explore::*;
use crate::cpu;

pub struct P;
fn ents(t: bool) -> Vec<Ent> {
    let mut v: Vec<Ent> = direct(if t { &[10, 8, 12, 16, 1, 2, 5, 7, 9, 11, 13, 14, 15] } else { &[10, 8, 12, 16, 13] }, true).into_iter().filter(|e| e.premul).collect();
    v.extend(scale_front().into_iter().filter(|e| e.premul));
    v
}
const FILTS: &[&str] = &["Bilinear", "Lanczos3", "MitchellNetravalli", "Area"];
const MODES: &[&str] = &["sizes", "positions", "pairs"];

/// Allowance of the divided sample, in units, on top of rounding to nearest.
fn slack(c: &Case) -> f64 {
    match c.fmt { // AVX-512 FP16 divides in half precision: three roundings of 2^-11 of 255
        Fmt::U8 => if cpu::LEVELS[c.level as usize].name == "everything" && cpu::native_has("avx512fp16") { 0.4 } else { 0.1 }, Fmt::U16 => 0.02, _ => 0. }
}
/// Depths without an integer kernel multiply in single precision: products so close to a tie that this may round them
/// the other way.
fn ambiguous(c: &Case, px: &[f64]) -> Vec<bool> {
    let m = c.max();
    if c.fmt != Fmt::U16 || matches!(c.depth, 10 | 12 | 16) { return vec![] }
    px.chunks_exact(4).map(|p| (0..3).any(|k| { let v = p[k] * p[3] / m; (v - v.floor() - 0.5).abs() <= v * 3e-7 })).collect()
}
fn premul(c: &Case, px: &[f64]) -> Vec<f64> {
    let m = c.max();
    let mut v = px.to_vec();
    for p in v.chunks_exact_mut(4) { for k in 0..3 {
        p[k] = match c.fmt { Fmt::U8 | Fmt::U16 => (p[k] * p[3] / m).round(), Fmt::F32 => (p[k] as f32 * p[3] as f32) as f64, Fmt::F16 => ((p[k] as f32 * p[3] as f32) as f16) as f64 };
    } }
    v
}
fn constant_alpha(px: &[f64]) -> bool { px.chunks_exact(4).all(|p| p[3].to_bits() == px[3].to_bits()) }

/// Runs one alpha aware call and compares it with the model.
fn check(c: &Case, px: &[f64], cx: &mut Cx, invisible: bool) {
    cx.at(c);
    let o = run(c, px);
    cx.step();
    if o.ret != Ret::Ok { cx.violate("error", &format!("{} for a valid call: {}", ret_show(&o.ret), c.show())); return }
    if !o.src_same { cx.violate("source", &format!("the source was modified: {}", c.show())); }
    let mut plain = *c;
    plain.premul = false;
    cx.at(&plain);
    let cons = constant_alpha(px) && c.fmt != Fmt::F16;
    let q = if cons { px.to_vec() } else { premul(c, px) };
    let r = run(&plain, &q);
    cx.step();
    cx.trace();
    cx.state(hash_px(c.fmt as u64 * 64 + c.depth as u64, &o.px));
    if cons {
        cx.count("constant alpha compared with the plain resize");
        if let Some(i) = first_diff(&o.px, &r.px) { cx.violate("constant", &format!("{} is {} with and {} without alpha handling although alpha is constant: {}", at_px(c, i), o.px[i], r.px[i], c.show())); }
        return
    }
    let m = c.max();
    let sd = slack(c);
    let amb = ambiguous(c, px);
    // output pixels that take part of such a product: by column if rows are kept as they are, and so on
    let (byx, byy) = (c.sw == c.dw, c.sh == c.dh);
    let mut near: Vec<bool> = vec![false; (c.dw * c.dh) as usize];
    for (i, _) in amb.iter().enumerate().filter(|a| *a.1) {
        let (x, y) = (i % c.sw as usize, i / c.sw as usize);
        let dw = c.dw as usize;
        if byx { for j in 0..c.dh as usize { near[j * dw + x] = true; } }
        else if byy { near[y * dw..][..dw].fill(true); }
        else { near.fill(true); }
    }
    cx.add("pixels next to a tie of the premultiplication", near.iter().filter(|b| **b).count() as u64);
    let (mut seen, mut skip) = (0u64, 0u64);
    for (i, (g, w)) in o.px.chunks_exact(4).zip(r.px.chunks_exact(4)).enumerate() {
        if g[3].to_bits() != w[3].to_bits() { cx.violate("alpha", &format!("alpha {} is {} but the plain resize gives {}: {}", at_px(c, i * 4 + 3), g[3], w[3], c.show())); return }
        let a = g[3];
        if a.abs() < match c.fmt { Fmt::F32 => 1e-30, Fmt::F16 => 1e-4, _ => 0.5 } { skip += 1; continue }
        for k in 0..3 {
            seen += 1;
            let want = match c.fmt { Fmt::U8 | Fmt::U16 => (w[k] * m / a).min(m), _ => w[k] / a };
            let tl = match c.fmt { Fmt::U8 | Fmt::U16 => 0.5 + 1e-9 + sd + if near[i] { 4. * m / a } else { 0. }, Fmt::F32 => want.abs() * 1e-5 + 1e-30, Fmt::F16 => want.abs() * 2e-3 + 6e-4 / a.abs() };
            let e = (g[k] - want).abs();
            if c.fmt == Fmt::U8 { cx.maxf("8-bit quotient error", e.min(1e9)); }
            if !(e <= tl) { cx.violate("colour", &format!("{} is {} but premultiplied resize gives {} over alpha {a}, that is {want}: {}", at_px(c, i * 4 + k), g[k], w[k], c.show())); return }
        }
    }
    cx.add("colour samples compared", seen);
    cx.add("transparent pixels", skip);
    if !invisible { return }
    // colour below zero alpha must not matter
    let mut z = px.to_vec();
    let mut any = false;
    for p in z.chunks_exact_mut(4) { if p[3] == 0. { any = true; for k in 0..3 { p[k] = if p[k] > m / 2. { 0. } else { m }; } } }
    if !any { return }
    cx.at(c);
    let o2 = run(c, &z);
    cx.step();
    cx.count("calls with the colour of transparent pixels changed");
    for i in 0..o.px.len() { if o.px[i / 4 * 4 + 3] != 0. && o.px[i].to_bits() != o2.px[i].to_bits() { cx.violate("invisible", &format!("{} changes from {} to {} with the colour of fully transparent source pixels: {}", at_px(c, i), o.px[i], o2.px[i], c.show())); return } }
}
fn sizes(t: bool) -> Vec<(u32, u32, u32, u32)> {
    let mut v = vec![];
    let lim = if t { 6 } else { 4 };
    for sw in 1..=lim { for sh in 1..=lim { for dw in 1..=lim { for dh in 1..=lim { if (sw, sh) != (dw, dh) && (t || (sw + 2 * sh + 3 * dw + 5 * dh) % 3 == 0) { v.push((sw, sh, dw, dh)); } } } } }
    for w in 5..=if t { 140 } else { 70 } { v.push((w, 3, w, 2)); v.push((w, 2, (w + 1) / 2, 2)); v.push((w, 3, w + 3, 4)); }
    v.extend([(1, 9, 1, 4), (9, 1, 4, 1), (20, 33, 7, 50), (33, 20, 50, 7), (257, 3, 257, 2), (300, 2, 131, 2), (1030, 2, 1030, 3), (9, 300, 9, 131), (310, 270, 290, 256)]);
    v
}
/// alpha patterns
fn alpha(c: &Case, px: &mut [f64], pat: u32) {
    let m = c.max();
    let n = px.len() / 4;
    for i in 0..n {
        let a = px[i * 4 + 3];
        px[i * 4 + 3] = quant(c, match pat {
            0 => a,
            1 => if i == n / 2 { m } else { 0. },
            2 => if i == n / 2 { 0. } else { m },
            3 => [0., m, m / 2., 1f64.min(m)][(i * 7 + i / 3) % 4],
            4 => m * 0.4,
            5 => m,
            6 => 0.,
            _ => if c.is_int() { (i % 3) as f64 } else { 1e-3 * (i % 3) as f64 },
        });
    }
}
impl Prop for P {
    fn id(&self) -> &'static str { "C12" }
    fn counters(&self) -> &'static [&'static str] { &["colour samples compared", "transparent pixels", "pixels next to a tie of the premultiplication", "constant alpha compared with the plain resize", "calls with the colour of transparent pixels changed", "8-bit quotient error"] }
    fn phases(&self, t: bool) -> Vec<Phase> {
        cpu::available_levels().into_iter().map(|l| Phase { level: Some(l), n: (ents(t).len() * FILTS.len() * MODES.len()) as u64, label: cpu::LEVELS[l].name.into() }).collect()
    }
    fn job(&self, phase: u32, idx: u64, cx: &mut Cx) {
        let t = cx.thorough;
        let es = ents(t);
        let e = es[idx as usize % es.len()];
        let r = idx as usize / es.len();
        let f = filt(FILTS[r % FILTS.len()]);
        let level = cpu::available_levels()[phase as usize] as u8;
        match MODES[r / FILTS.len()] {
            "sizes" => for &(sw, sh, dw, dh) in &sizes(t) {
                for pat in 0..8 {
                    if !t && sw > 8 && (sw + pat) % 4 != 0 && pat > 0 { continue }
                    let mut c = e.case(f, sw, sh, dw, dh);
                    c.level = level; c.data = pat;
                    if pat == 3 { c.ss = sw * 4 + 12; c.ds = dw * 4 + 4; }
                    if pat == 0 && sw % 16 == 7 { c.thr = 2; }
                    let mut px = content(&c, 9 + pat);
                    alpha(&c, &mut px, pat);
                    check(&c, &px, cx, true);
                }
            },
            // one odd alpha at every position, for every single bit of difference
            "positions" => {
                if f != filt("Bilinear") { return }
                for w in 1..=if t { 140 } else { 72u32 } {
                    let h = 1 + (w % 3);
                    for pos in 0..w * h {
                        if !t && w > 40 && pos % w < w - 36 && (pos + w) % 5 != 0 { continue }
                        let bit = (pos + w) % if e.fmt == Fmt::U16 { e.depth as u32 } else { 8 };
                        let mut c = e.case(f, w, h, w, h + 1);
                        if h > 1 && w % 2 == 0 && w > 2 { c.dw = w / 2; c.dh = h; }
                        c.level = level; c.data = 100 + pos;
                        let m = c.max();
                        let base = match e.fmt { Fmt::U8 | Fmt::U16 => (1u32 << bit) as f64, _ => 1. };
                        let mut px = vec![0f64; (w * h) as usize * 4];
                        for p in px.chunks_exact_mut(4) { p[3] = base; }
                        px[pos as usize * 4..][..4].copy_from_slice(&[m, m, m, 0.]);
                        check(&c, &px, cx, false);
                    }
                }
            }
            // all pairs of colour and alpha
            _ => {
                if f != filt("Bilinear") && f != filt("Lanczos3") { return }
                let mut c0 = e.case(f, 1, 1, 1, 1);
                c0.level = level;
                let m = c0.max();
                let vals: Vec<f64> = if e.is_float() { (0..=64).map(|v| quant(&c0, (v as f64 / 64.).powi(2))).collect() }
                    else if m <= if t { 4095. } else { 1023. } { (0..=m as u32).map(|v| v as f64).collect() }
                    else { let s = (m as u32 + 1) / if t { 2048 } else { 512 }; let mut v: Vec<f64> = (0..=m as u32).filter(|v| *v < 48 || *v + 48 > m as u32 || v % s == s / 2 + 1).map(|v| v as f64).collect(); for k in 1..16 { for d in -1i32..=1 { let x = (1i32 << k) + d; if x as f64 <= m { v.push(x as f64); } } } v };
                // rows of the source come in equal pairs, so that a vertical resize keeps them; each chunk of alphas is one image
                let n = vals.len();
                for (ci, al) in vals.chunks(128).enumerate() {
                    for vert in [true, false] {
                        if f != filt("Bilinear") && ci > 0 && !t { continue }
                        let (w, h) = (n * al.len(), 2);
                        let mut c = if vert { e.case(f, w as u32, h, w as u32, 3) } else { e.case(f, 2, w as u32, 3, w as u32) };
                        c.level = level; c.data = ci as u32;
                        let mut px = vec![0f64; w * 8];
                        for i in 0..w { for r in 0..2 {
                            let k = if vert { r * w + i } else { i * 2 + r };
                            let v = vals[i % n];
                            px[k * 4..][..4].copy_from_slice(&[v, m - v, vals[(i * 7 + 3) % n], al[i / n]]);
                        } }
                        check(&c, &px, cx, false);
                    }
                }
            }
        }
        if idx % 17 == 0 { cx.sample(|| format!("{} {} {}: equals premultiply, resize, divide", e.show(), FILTERS[f as usize].0, MODES[r / FILTS.len()])); }
    }
    fn rule(&self, _: bool) -> String { "one job per (CPU level, RGBA entry point with premultiplication, filter, mode); mode sizes runs every listed size with eight alpha patterns, mode positions puts one pixel of different alpha at every position of every width, mode pairs runs all pairs of colour and alpha; every call is compared with premultiplying exactly, the plain resize of that by the library, and exact division".into() }
    fn bounds(&self, t: bool) -> Vec<(String, String)> {
        vec![("entry points".into(), ents(t).iter().map(|e| e.show()).collect::<Vec<_>>().join(", ")), ("sizes".into(), sizes(t).len().to_string()), ("alpha patterns".into(), "8".into()),
            ("positions".into(), format!("every pixel of every width up to {}", if t { 140 } else { 72 })), ("pairs".into(), format!("all up to {} bits, a grid above and for floats", if t { 12 } else { 10 })),
            ("filters".into(), FILTS.join(" "))]
    }
    fn assumptions(&self) -> Vec<String> { vec!["the plain resize itself is C01's subject".into(), "colour of fully transparent output pixels is not compared".into()] }
}
