//! Reference model: the documented resampling filters as separable, normalised convolutions in f64.
use crate::case::FILTERS;
use pic_scale::ResamplingFunction as R;
use std::cell::RefCell;
use std::collections::HashMap;
use std::f64::consts::{PI, SQRT_2};
use std::rc::Rc;

unsafe extern "C" { fn j1(x: f64) -> f64; }
fn jinc(x: f64) -> f64 { if x == 0. { 0.5 } else { unsafe { j1(x) / x } } }
fn sinc(x: f64) -> f64 { if x == 0. { 1. } else { x.sin() / x } }
fn bc(x: f64, b: f64, c: f64) -> f64 {
    let (x2, x3) = (x * x, x * x * x);
    if x < 1. { ((12. - 9. * b - 6. * c) * x3 + (-18. + 12. * b + 6. * c) * x2 + (6. - 2. * b)) / 6. }
    else if x < 2. { ((-b - 6. * c) * x3 + (6. * b + 30. * c) * x2 + (-12. * b - 48. * c) * x + (8. * b + 24. * c)) / 6. }
    else { 0. }
}
fn cosine_window(x: f64, a: f64) -> f64 { if x >= 1. { 0. } else { a + (1. - a) * (PI * x).cos() } }
fn lanczos(x: f64, a: f64) -> f64 { if x < a { sinc(PI * x) * sinc(PI * x / a) } else { 0. } }
fn lanczos_jinc(x: f64, a: f64) -> f64 { if x < a { jinc(PI * x) * jinc(PI * x / a) } else { 0. } }
fn lagrange(x: f64, s: usize) -> f64 {
    if x > s as f64 { return 0. }
    let n = (s as f64 + x) as usize;
    (0..2 * s).filter(|&i| i != n).map(|i| (n as f64 - i as f64 - x) / (n as f64 - i as f64)).product()
}
fn i0(x: f64) -> f64 { let (mut s, mut t, mut k) = (1., 1., 1.); while t > 1e-18 * s { t *= x * x / 4. / (k * k); s += t; k += 1.; } s }
fn poly(t: f64, a: f64, b: f64, c: f64, d: f64) -> f64 { ((a * t + b) * t + c) * t + d }

/// Kernel value at distance x >= 0 (already divided by the downscale factor).
pub fn kernel(f: R, x: f64) -> f64 {
    match f {
        R::Bilinear | R::Nearest => (1. - x).max(0.),
        R::Cubic | R::BSpline => bc(x, 1., 0.),
        R::MitchellNetravalli => bc(x, 1. / 3., 1. / 3.),
        R::CatmullRom => bc(x, 0., 0.5),
        R::Hermite => bc(x, 0., 0.),
        R::Robidoux | R::EwaRobidoux => bc(x, 12. / (19. + 9. * SQRT_2), 113. / (58. + 216. * SQRT_2)),
        R::RobidouxSharp | R::EwaRobidouxSharp => bc(x, 6. / (13. + 7. * SQRT_2), 7. / (2. + 12. * SQRT_2)),
        R::Bicubic => { let a = -0.5; if x >= 2. { 0. } else if x <= 1. { (a + 2.) * x * x * x - (a + 3.) * x * x + 1. } else { a * x * x * x - 5. * a * x * x + 8. * a * x - 4. * a } }
        R::Hann => if x > 2. { 0. } else { (x * PI / 4.).cos().powi(2) / 4. },
        R::Hamming => cosine_window(x, 0.54),
        R::Hanning => cosine_window(x, 0.5),
        R::EwaHanning | R::EwaLanczosSharp | R::EwaLanczos4Sharpest | R::EwaLanczosSoft | R::HaasnSoft => jinc(x),
        R::Ginseng | R::EwaGinseng => sinc(x),
        R::Blackman | R::EwaBlackman => if x < 2. { sinc(x) * (0.42 + 0.49656062 * (PI * x / 2.).cos() + 0.07684867 * (PI * x).cos()) } else { 0. },
        R::Welch => if x >= 1. { 0. } else { 1. - x * x },
        R::Quadric | R::EwaQuadric => if x < 0.5 { 0.75 - x * x } else if x < 1.5 { 0.5 * (x - 1.5) * (x - 1.5) } else { 0. },
        R::Gaussian => { let s = 0.35f32 as f64; (-x * x / (2. * s * s)).exp() / ((2. * PI).sqrt() * s) }
        R::Sphinx => { let t = PI * x; if x < 1e-4 { 1. } else { 3. * (t.sin() - t * t.cos()) / (t * t * t) } }
        R::Bartlett => (1. - x).max(0.),
        R::BartlettHann => if x > 1. { 0. } else { let g = x / 2.; 0.62 - 0.4832 * g + 0.38 * (2. * PI * g).cos() },
        R::Spline16 => if x < 1. { poly(x, 1., -9. / 5., -1. / 5., 1.) } else { poly(x - 1., -1. / 3., 4. / 5., -7. / 15., 0.) },
        R::Spline36 => if x < 1. { poly(x, 13. / 11., -453. / 209., -3. / 209., 1.) } else if x < 2. { poly(x - 1., -6. / 11., 270. / 209., -156. / 209., 0.) } else { poly(x - 2., 1. / 11., -45. / 209., 26. / 209., 0.) },
        R::Spline64 => if x < 1. { poly(x, 49. / 41., -6387. / 2911., -3. / 2911., 1.) } else if x < 2. { poly(x - 1., -24. / 41., 4032. / 2911., -2328. / 2911., 0.) }
            else if x < 3. { poly(x - 2., 6. / 41., -1008. / 2911., 582. / 2911., 0.) } else { poly(x - 3., -1. / 41., 168. / 2911., -97. / 2911., 0.) },
        R::Kaiser => if x > 1. { 0. } else { i0(6.33 * (1. - x * x).max(0.).sqrt()) / i0(6.33) },
        R::Box | R::Area => 1.,
        R::Bohman => if x > 1. { 0. } else { (1. - x) * (PI * x).cos() + (PI * x).sin() / PI },
        R::Lanczos2 => lanczos(x, 2.), R::Lanczos3 => lanczos(x, 3.), R::Lanczos4 => lanczos(x, 4.), R::Lanczos6 => lanczos(x, 6.),
        R::Lanczos2Jinc => lanczos_jinc(x, 2.), R::Lanczos3Jinc | R::EwaLanczos3Jinc => lanczos_jinc(x, 3.),
        R::Lanczos4Jinc => lanczos_jinc(x, 4.), R::Lanczos6Jinc => lanczos_jinc(x, 6.),
        R::Lagrange2 => lagrange(x, 2), R::Lagrange3 => lagrange(x, 3),
    }
}
const R3: f64 = 3.2383154841662362;
const R4: f64 = 4.2410628637960699;
/// (window, window size, blur)
fn window(f: R) -> Option<(fn(f64) -> f64, f64, f64)> {
    fn hanning(x: f64) -> f64 { cosine_window(x, 0.5) }
    Some(match f {
        R::EwaHanning => (hanning, 2., 0.),
        R::Ginseng => (jinc, 3., 1.),
        R::EwaGinseng => (jinc, R3, 1.),
        R::EwaLanczosSharp => (jinc, R3, 0.9812505837223707),
        R::EwaLanczos4Sharpest => (jinc, R4, 0.8845120932605005),
        R::EwaLanczosSoft => (jinc, R3, 1.0164667662867047),
        R::HaasnSoft => (hanning, 3., 1.11),
        _ => return None,
    })
}
/// Number of source samples a filter spans at scale 1
pub fn support(f: R) -> f64 {
    match f {
        R::EwaHanning => 1.,
        R::Lanczos3 | R::Hann | R::Lanczos3Jinc | R::EwaLanczos3Jinc | R::Ginseng | R::EwaGinseng | R::EwaLanczosSharp
        | R::EwaLanczosSoft | R::HaasnSoft | R::Lagrange3 => 3.,
        R::Lanczos4 | R::Lanczos4Jinc | R::EwaLanczos4Sharpest | R::Spline36 => 4.,
        R::Lanczos6 | R::Lanczos6Jinc | R::Spline64 => 6.,
        _ => 2.,
    }
}
fn widens(f: R) -> bool { !matches!(f, R::Spline16 | R::Spline36 | R::Spline64) }
fn smoothed(f: R) -> bool {
    matches!(f, R::EwaHanning | R::EwaQuadric | R::EwaRobidoux | R::EwaRobidouxSharp | R::EwaLanczos3Jinc | R::EwaBlackman | R::EwaGinseng
        | R::EwaLanczosSharp | R::EwaLanczos4Sharpest | R::EwaLanczosSoft)
}

#[derive(Clone, Debug, PartialEq)]
pub struct Taps { pub start: usize, pub w: Vec<f64>, pub cond: f64, /** L1 change of the weights within the float precision of the position */ pub slack: f64 }
impl Taps {
    pub fn abs_sum(&self) -> f64 { self.w.iter().map(|x| x.abs()).sum() }
    pub fn at(&self, k: usize) -> f64 { if k >= self.start { self.w.get(k - self.start).copied().unwrap_or(0.) } else { 0. } }
}
/// For every output position the admissible tap vectors.  There is one, except where a boundary or a
/// kernel discontinuity is hit within floating point precision; then each side of it is admissible.
pub type Axis = Vec<Vec<Taps>>;

fn taps(f: R, n: usize, m: usize, i: usize, shift: f64, grow: f64, ksize: f64) -> Option<Taps> {
    let scale = n as f64 / m as f64;
    let cutoff = if widens(f) { scale.max(1.) } else { 1. };
    let radius = ksize / 2.;
    let cx = ((i as f64 + 0.5) * scale).min(n as f64) + shift;
    // the `ksize` samples closest to the centre (those at a distance of at most `radius`)
    let center = cx - 0.5;
    let first = (center - radius).ceil();
    let start = first.max(0.) as usize;
    let end = (first + ksize).min(n as f64);
    if end <= start as f64 { return None }
    let end = end as usize;
    let mut w: Vec<f64> = (start..end).map(|k| {
        let dx = (k as f64 - center).abs() * (1. + grow) + if grow > 0. { grow } else { 0. };
        match window(f) {
            None => kernel(f, dx / cutoff),
            Some((win, size, blur)) => {
                let x = if blur > 0. { dx / blur } else { dx };
                if x < size { win(x / cutoff * size) * kernel(f, x / cutoff) } else { 0. }
            }
        }
    }).collect();
    if smoothed(f) { for j in 1..w.len() { w[j] = 0.7 * w[j] + 0.3 * w[j - 1]; } }
    let s: f64 = w.iter().sum();
    let a: f64 = w.iter().map(|x| x.abs()).sum();
    if a == 0. {
        // every kernel value vanishes: the sample under the centre is taken
        let c = (cx.floor() as usize).clamp(start, end - 1) - start;
        for (j, x) in w.iter_mut().enumerate() { *x = (j == c) as u8 as f64; }
        return Some(Taps { start, w, cond: 1., slack: 0. });
    }
    let cond = if s == 0. { f64::INFINITY } else { a / s.abs() };
    for x in w.iter_mut() { *x /= s; }
    // kernels that cancel to tiny values are only known to single precision of their largest term
    let ev = 2.5e-7 * w.len() as f64 / s.abs();
    Some(Taps { start, w, cond, slack: if ev > 4e-6 && ev.is_finite() { ev } else { 0. } })
}
fn area_up(n: usize, m: usize, i: usize) -> Taps {
    // the share of output sample i, [i, i+1) * n / m, that lies beyond source sample s
    let s = i * n / m;
    let d = ((i + 1) * n).saturating_sub((s + 1) * m) as f64 / n as f64;
    if s + 1 < n { Taps { start: s, w: vec![1. - d, d], cond: 1., slack: 0. } } else { Taps { start: s.min(n - 1), w: vec![1.], cond: 1., slack: 0. } }
}
pub fn axis_raw(f: R, n: usize, m: usize) -> Axis {
    let scale = n as f64 / m as f64;
    let cutoff = if widens(f) { scale.max(1.) } else { 1. };
    let ks = support(f) * cutoff;
    let mut kss = vec![ks.round()];
    if (ks - ks.floor() - 0.5).abs() < 1e-5 * ks.max(1.) { kss = vec![ks.floor(), ks.floor() + 1.]; }
    (0..m).map(|i| {
        let mut v: Vec<Taps> = Vec::new();
        let mut add = |t: Taps| {
            let same = |a: &Taps, b: &Taps| {
                let lo = a.start.min(b.start);
                let hi = (a.start + a.w.len()).max(b.start + b.w.len());
                (lo..hi).all(|k| (a.at(k) - b.at(k)).abs() < 2e-6)
            };
            if !v.iter().any(|o| same(o, &t)) { v.push(t); }
        };
        let eps = 1e-12 * (n as f64).max(4.);
        if f == R::Area && scale < 1. {
            add(area_up(n, m, i));
        } else {
            for &k in &kss { for s in [0., eps, -eps] { for g in [0., 5e-7, -5e-7] {
                if let Some(t) = taps(f, n, m, i, s, g, k) {
                    add(t)
                }
            } } }
        }
        v
    }).collect()
}
thread_local! { static CACHE: RefCell<HashMap<(u8, u32, u32), Rc<Axis>>> = RefCell::new(HashMap::new()); }
pub fn axis(filt: u8, n: usize, m: usize) -> Rc<Axis> {
    CACHE.with(|c| {
        let mut c = c.borrow_mut();
        if c.len() > 20000 { c.clear(); }
        c.entry((filt, n as u32, m as u32)).or_insert_with(|| Rc::new(axis_raw(FILTERS[filt as usize].1, n, m))).clone()
    })
}
pub fn identity_axis(n: usize) -> Axis { (0..n).map(|i| vec![Taps { start: i, w: vec![1.], cond: 1., slack: 0. }]).collect() }
