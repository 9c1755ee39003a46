//! Image contents.
use crate::case::*;
/// Base levels come in two polarities so that both ends of the range are hit.
/// Line l (the axis that is not resampled) carries an impulse at position (l + channel) mod n of the resampled axis.
pub fn impulses(c: &Case, horizontal: bool, lo: f64, hi: f64) -> Vec<f64> {
    let ch = c.ch as usize;
    let (sw, sh) = (c.sw as usize, c.sh as usize);
    let n = if horizontal { sw } else { sh };
    let mut px = vec![0f64; sw * sh * ch];
    for y in 0..sh { for x in 0..sw { for k in 0..ch {
        let (p, line) = if horizontal { (x, y) } else { (y, x) };
        let inv = (k + c.filt as usize) % 2 == 1;
        let hit = (line + k) % n == p;
        px[(y * sw + x) * ch + k] = if hit != inv { hi } else { lo };
    }}}
    px
}
/// A deterministic aperiodic pattern of values k/255 of the range, including both ends.
pub fn texture(c: &Case, salt: u32, lo: f64, hi: f64) -> Vec<f64> {
    let n = c.sw as usize * c.sh as usize * c.ch as usize;
    let mut s = 0x9e3779b97f4a7c15u64 ^ (salt as u64) << 32 ^ (c.sw as u64) << 16 ^ c.sh as u64;
    (0..n).map(|_| {
        s ^= s << 13; s ^= s >> 7; s ^= s << 17;
        let v = match s >> 60 { 0 => 0, 1 => 255, _ => (s >> 20) & 255 };
        quant(c, lo + (hi - lo) * v as f64 / 255.)
    }).collect()
}
