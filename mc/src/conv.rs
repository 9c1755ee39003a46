//! Comparison of one resize call with the reference convolution.
use crate::case::*;
use crate::refm::{self, Axis, Taps};
use std::rc::Rc;

/// Error allowance of one convolution pass, in sample units.
#[derive(Clone, Copy, Debug)]
pub struct Tol { pub base: f64, pub per_tap: f64, pub gain: f64 }

/// Whether the call resamples with 16-bit fixed point weights.
pub fn fixed_point(c: &Case) -> bool { c.api.is_ar30() || c.fmt == Fmt::U8 || (c.fmt == Fmt::U16 && c.depth <= 12) }

pub fn tol(c: &Case, maxabs: f64) -> Tol {
    if c.api.is_ar30() { return Tol { base: 1.01, per_tap: 1023. / 65536., gain: 0. } }
    match c.fmt {
        Fmt::U8 if !c.quality => Tol { base: 1.51, per_tap: 255. / 65536. + 0.5 / 64., gain: 0. },
        Fmt::U8 => Tol { base: 0.51, per_tap: 255. / 65536., gain: 0. },
        Fmt::U16 if c.depth <= 12 => Tol { base: 0.51, per_tap: c.max() / 65536., gain: 0. },
        Fmt::U16 => Tol { base: 0.52 + 1e-5 * maxabs, per_tap: 0.004, gain: 0. },
        Fmt::F32 => Tol { base: 1e-5 * maxabs, per_tap: 5e-7 * maxabs, gain: 0. },
        Fmt::F16 => Tol { base: 6e-4 * maxabs, per_tap: 1e-6 * maxabs, gain: 0. },
    }
}
/// Beyond this ratio of absolute weight sum to weight sum the normalisation cancels and no value is predicted.
pub const ILL: f64 = 100.;
const LIM: f64 = 32767. / 32768.;

pub struct Ref { pub v: Option<Rc<Axis>>, pub h: Option<Rc<Axis>> }
pub fn reference(c: &Case) -> Ref {
    Ref { v: (c.sh != c.dh).then(|| refm::axis(c.filt, c.sh as usize, c.dh as usize)), h: (c.sw != c.dw).then(|| refm::axis(c.filt, c.sw as usize, c.dw as usize)) }
}
fn over(a: &Option<Rc<Axis>>, i: usize) -> bool { a.as_ref().map(|a| a[i].iter().any(|t| t.w.iter().any(|w| w.abs() > LIM))).unwrap_or(false) }
/// The recorded behaviour of fixed point weights above one: the excess is taken off the closest weights of opposite sign.
fn clampw(t: &Taps) -> Taps {
    let mut w = t.w.clone();
    let n = w.len();
    for j in 0..n {
        let fit = w[j].clamp(-1., LIM);
        let mut rest = w[j] - fit;
        if rest.abs() <= 1. / 32768. { continue }
        w[j] = fit;
        for d in 1..n { for k in [j.wrapping_sub(d), j + d] { if k < n && w[k] * rest < 0. { let v = rest.abs().min(w[k].abs()).copysign(rest); w[k] += v; rest -= v; } } }
    }
    Taps { start: t.start, w: w.into_iter().map(|w| w.clamp(-1., LIM)).collect(), cond: t.cond, slack: t.slack }
}

#[derive(Debug)]
pub struct Bad { pub x: usize, pub y: usize, pub ch: usize, pub got: f64, pub want: f64, pub tol: f64 }
#[derive(Default, Debug)]
pub struct Cmp { pub bad: Vec<Bad>, pub nbad: usize, pub clamped: usize, pub maxerr: f64, pub worst: (usize, usize), pub ambiguous: usize, pub saturated: usize, pub illcond: usize }

/// Evaluates one output sample for given taps (clamping the intermediate like integer storage does).
fn eval(c: &Case, px: &[f64], nch: usize, v: Option<&Taps>, h: Option<&Taps>, x: usize, y: usize, k: usize, lo: f64, hi: f64) -> f64 {
    let sw = c.sw as usize;
    let col = |xx: usize| -> f64 {
        match v { None => px[(y * sw + xx) * nch + k],
            Some(t) => { let s: f64 = t.w.iter().enumerate().map(|(j, w)| w * px[((t.start + j) * sw + xx) * nch + k]).sum(); s.clamp(lo, hi) } }
    };
    let r = match h { None => col(x), Some(t) => t.w.iter().enumerate().map(|(j, w)| w * col(t.start + j)).sum() };
    r.clamp(lo, hi)
}
pub fn allow(t: &Tol, taps: &Taps, maxabs: f64, c: &Case) -> f64 {
    // float weights are only as good as the conditioning of their normalisation
    let ill = if taps.cond > 2. { (taps.cond - 1.) * 4e-6 * maxabs } else { 0. };
    let _ = c;
    t.base * if t.base < 0.1 { taps.abs_sum() } else { 1. } + t.per_tap * taps.w.len() as f64 + t.gain * maxabs + ill + taps.slack * maxabs
}
/// Compares the output of `c` (packed `nch`-channel arrays) with the reference on channels `chs`.
pub fn compare(c: &Case, px: &[f64], got: &[f64], nch: usize, chs: std::ops::Range<usize>) -> Cmp {
    let r = reference(c);
    let maxabs = px.iter().fold(0f64, |a, b| a.max(b.abs()));
    let t = tol(c, maxabs.max(1e-9));
    let integer = c.is_int() || c.api.is_ar30();
    let (lo, hi) = if integer { (0., c.max()) } else { (f64::NEG_INFINITY, f64::INFINITY) };
    let mut cmp = Cmp::default();
    let (sw, dw, dh) = (c.sw as usize, c.dw as usize, c.dh as usize);
    let mut row = vec![0f64; sw * nch];
    for y in 0..dh {
        let vt = r.v.as_ref().map(|v| &v[y][0]);
        match vt {
            None => row.copy_from_slice(&px[y * sw * nch..][..sw * nch]),
            Some(tp) => {
                row.fill(0.);
                for (j, w) in tp.w.iter().enumerate() {
                    let s = &px[(tp.start + j) * sw * nch..][..sw * nch];
                    for (d, s) in row.iter_mut().zip(s) { *d += w * s; }
                }
                if integer { for d in row.iter_mut() { *d = d.clamp(lo, hi); } }
            }
        }
        let tv = vt.map(|q| allow(&t, q, maxabs, c)).unwrap_or(0.);
        for x in 0..dw {
            let ht = r.h.as_ref().map(|h| &h[x][0]);
            let tl = match ht { None => tv, Some(q) => tv * q.abs_sum().max(1.) + allow(&t, q, maxabs, c) };
            for k in chs.clone() {
                let want = match ht { None => row[x * nch + k], Some(q) => q.w.iter().enumerate().map(|(j, w)| w * row[(q.start + j) * nch + k]).sum::<f64>() };
                if integer && (want < lo || want > hi) { cmp.saturated += 1; }
                let want = want.clamp(lo, hi);
                let g = got[(y * dw + x) * nch + k];
                let e = (g - want).abs();
                if e <= tl { if e > cmp.maxerr { cmp.maxerr = e; cmp.worst = (x, y); } continue }
                // another admissible tap vector?
                let one = vec![];
                let vs: Vec<Option<&Taps>> = r.v.as_ref().map(|v| v[y].iter().map(Some).collect()).unwrap_or(vec![None]);
                let hs: Vec<Option<&Taps>> = r.h.as_ref().map(|h| h[x].iter().map(Some).collect()).unwrap_or(vec![None]);
                let _: &Vec<Taps> = &one;
                let mut ok = false;
                let mut clamp_ok = false;
                let ov = fixed_point(c) && (over(&r.v, y) || over(&r.h, x));
                'o: for v in &vs {
                    for h in &hs {
                        if v.map(|t| t.cond > ILL).unwrap_or(false) || h.map(|t| t.cond > ILL).unwrap_or(false) { cmp.illcond += 1; ok = true; break 'o }
                        let tv = v.map(|q| allow(&t, q, maxabs, c)).unwrap_or(0.);
                        let tl = match h { None => tv, Some(q) => tv * q.abs_sum().max(1.) + allow(&t, q, maxabs, c) };
                        let w = eval(c, px, nch, *v, *h, x, y, k, lo, hi);
                        if (g - w).abs() <= tl { ok = true; cmp.ambiguous += 1; break 'o }
                        if ov {
                            let (cv, chh) = (v.map(clampw), h.map(clampw));
                            let w = eval(c, px, nch, cv.as_ref(), chh.as_ref(), x, y, k, lo, hi);
                            if (g - w).abs() <= tl { clamp_ok = true }
                        }
                    }
                }
                if ok { continue }
                if clamp_ok { cmp.clamped += 1; continue }
                cmp.nbad += 1;
                if !(e <= cmp.maxerr) { cmp.maxerr = e; }
                if cmp.bad.len() < 3 { cmp.bad.push(Bad { x, y, ch: k, got: g, want, tol: tl }); }
            }
        }
    }
    cmp
}
