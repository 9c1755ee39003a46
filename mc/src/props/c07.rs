//! Every call succeeds or reports the right error, and never panics.
use super::common::*;
use crate::case::*;
use crate::explore::*;
use crate::cpu;
use pic_scale::*;

pub struct P;
/// One call with freely chosen fields.
#[derive(Clone, Copy, Debug)]
struct Q { sw: usize, sh: usize, ss: usize, sl: usize, sd: usize, dw: usize, dh: usize, ds: usize, dl: usize, dd: usize }

fn ents() -> Vec<Ent> { everything(&[16]).into_iter().filter(|e| !e.q).collect() }
const FILTS: &[&str] = &["Bilinear", "Nearest", "Lanczos3", "Area"];

fn call_q<T: Smp, const N: usize>(e: &Ent, f: ResamplingFunction, q: &Q, thr: i32, src: &[T], dst: &mut [T]) -> Ret {
    let mut c = e.case(0, 1, 1, 1, 1);
    c.thr = thr;
    let s = ImageStore::<T, N> { buffer: std::borrow::Cow::Borrowed(src), channels: N, width: q.sw, height: q.sh, stride: q.ss, bit_depth: q.sd };
    let mut d = ImageStoreMut::<T, N> { buffer: BufferStore::Borrowed(dst), channels: N, width: q.dw, height: q.dh, stride: q.ds, bit_depth: q.dd };
    match guarded(|| T::call_stores::<N>(&c, e, f, &s, &mut d)) { Ok(r) => r, Err(m) => Ret::Panic(m) }
}
/// Which errors the call may report (empty: it must succeed).
fn errors(e: &Ent, q: &Q) -> Vec<u32> {
    let n: usize = if e.is_ar30() { 4 } else { e.ch as usize };
    let mut v = vec![];
    if q.sw == 0 || q.sh == 0 || q.dw == 0 || q.dh == 0 { v.push(1); }
    let side = |w: usize, h: usize, st: usize, len: usize, big: u32, v: &mut Vec<u32>| {
        let row = w.checked_mul(n);
        let st = if st == 0 && !e.is_ar30() { row } else { Some(st) };
        let size = st.and_then(|s| s.checked_mul(h));
        if row.and_then(|r| r.checked_mul(h)).is_none() || size.is_none() { v.push(big); }
        if size != Some(len) { v.push(4); }
        if let (Some(s), Some(r)) = (st, row) { if s < r { v.push(5); } }
    };
    side(q.sw, q.sh, q.ss, q.sl, 2, &mut v);
    side(q.dw, q.dh, q.ds, q.dl, 3, &mut v);
    if e.fmt == Fmt::U16 && !(1..=16).contains(&q.dd) { v.push(6); }
    v.sort(); v.dedup();
    v
}
fn go<T: Smp>(e: &Ent, f: u8, q: &Q, thr: i32, cx: &mut Cx) {
    let mut c = e.case(f, q.sw as u32, q.sh as u32, q.dw as u32, q.dh as u32);
    c.thr = thr;
    cx.at(&c);
    let what = format!("{q:?}");
    cx.note(&what);
    let src: Vec<T> = (0..q.sl).map(|i| if e.is_float() { T::from64((i % 7) as f64 / 8.) } else if e.fmt == Fmt::U16 { T::from64((i % 2) as f64) } else { T::canary(i) }).collect();
    let mut dst: Vec<T> = (0..q.dl).map(T::canary).collect();
    let fu = FILTERS[f as usize].1;
    let r = match if e.is_ar30() { 4 } else { e.ch } { 1 => call_q::<T, 1>(e, fu, q, thr, &src, &mut dst), 2 => call_q::<T, 2>(e, fu, q, thr, &src, &mut dst), 3 => call_q::<T, 3>(e, fu, q, thr, &src, &mut dst), _ => call_q::<T, 4>(e, fu, q, thr, &src, &mut dst) };
    cx.step();
    cx.trace();
    let er = errors(e, q);
    let show = || format!("{} {} threads={thr} {q:?}", e.show(), FILTERS[f as usize].0);
    match &r {
        Ret::Panic(m) => cx.violate("panic", &format!("panic \"{m}\" for {}", show())),
        Ret::Ok => { cx.count("successful calls"); if !er.is_empty() { cx.violate("accepted", &format!("accepted although error {er:?} applies: {}", show())); } }
        Ret::Err(k) => {
            cx.count("refused calls");
            if er.is_empty() { cx.violate("refused", &format!("a valid call was refused with {}: {}", ret_show(&r), show())); }
            else if !er.contains(k) { cx.violate("wrong-error", &format!("{} although only {er:?} apply: {}", ret_show(&r), show())); }
            if dst.iter().enumerate().any(|(i, v)| v.bits() != T::canary(i).bits()) { cx.violate("touched", &format!("the destination was modified although the call failed with {}: {}", ret_show(&r), show())); }
        }
    }
    cx.state(h64(match r { Ret::Ok => 0, Ret::Err(k) => k as u64, _ => 99 }, h64(e.api as u64 * 64 + e.fmt as u64 * 8 + e.ch as u64, q.sw as u64 ^ (q.dw as u64) << 20)));
}
impl Prop for P {
    fn id(&self) -> &'static str { "C07" }
    fn counters(&self) -> &'static [&'static str] { &["successful calls", "refused calls"] }
    fn phases(&self, _: bool) -> Vec<Phase> {
        let n = (ents().len() * FILTS.len()) as u64;
        vec![Phase { level: Some(cpu::LEVELS.len() - 1), n, label: "geometry errors".into() }, Phase { level: Some(0), n, label: "valid sizes, portable".into() }, Phase { level: Some(cpu::LEVELS.len() - 1), n, label: "valid sizes, native".into() },
            Phase { level: Some(cpu::LEVELS.len() - 1), n: (ents().len() * FILTERS.len()) as u64, label: "all filters, extreme aspect".into() },
            Phase { level: Some(0), n: COLORS.len() as u64, label: "two channels through the colour space scalers".into() }]
    }
    fn job(&self, phase: u32, idx: u64, cx: &mut Cx) {
        let t = cx.thorough;
        if phase == 4 {
            for (sw, sh, dw, dh) in [(3, 2, 3, 2), (4, 3, 2, 5), (0, 1, 1, 1)] {
                let mut c = Case::new(Fmt::U8, 2, filt("Bilinear"), sw, sh, dw, dh);
                c.api = COLORS[idx as usize];
                cx.at(&c);
                let o = crate::case::run(&c, &content(&c, 1));
                cx.step();
                cx.trace();
                match &o.ret {
                    Ret::Panic(m) if m.contains("not implemented") => cx.known("colour-scaler-cbcr8", &c.show()),
                    Ret::Panic(m) => cx.violate("panic", &format!("panic \"{m}\" for {}", c.show())),
                    Ret::Ok => if sw == 0 { cx.violate("accepted", &format!("accepted although a size is zero: {}", c.show())) },
                    Ret::Err(k) => if sw != 0 || *k != 1 { cx.violate("refused", &format!("{} for {}", ret_show(&o.ret), c.show())) },
                }
            }
            return
        }
        let es = ents();
        let e = es[idx as usize % es.len()];
        let r = idx as usize / es.len();
        let f = if phase == 3 { r as u8 } else { filt(FILTS[r]) };
        let n: usize = if e.is_ar30() { 4 } else { e.ch as usize };
        let run = |q: &Q, thr: i32, cx: &mut Cx| match e.fmt { Fmt::U8 => go::<u8>(&e, f, q, thr, cx), Fmt::U16 => go::<u16>(&e, f, q, thr, cx), Fmt::F32 => go::<f32>(&e, f, q, thr, cx), Fmt::F16 => go::<f16>(&e, f, q, thr, cx) };
        match phase {
            0 => {
                const H: usize = 1 << 32;
                const G: usize = 1 << 62;
                // (width, height) of one side, stride, length: every mixture on one side against two shapes of the other
                let mut sides: Vec<(usize, usize, usize, usize)> = vec![];
                for w in [0usize, 1, 3] { for h in [0usize, 1, 2, 4] {
                    let row = w * n;
                    for st in [0, row.saturating_sub(1), row, row + 1, row + 5, usize::MAX, G, H] {
                        let eff = if st == 0 && !e.is_ar30() { row } else { st };
                        let len = eff.saturating_mul(h);
                        let mut lens = vec![0, row * h, row * h + 1, (row * h).saturating_sub(1)];
                        if len < 4096 { lens.extend([len, len + 1, len.saturating_sub(1), len + row, len.saturating_sub(st)]); }
                        lens.sort(); lens.dedup();
                        for l in lens { sides.push((w, h, st, l)); }
                    }
                } }
                for (w, h) in [(usize::MAX, 1), (1, usize::MAX), (H, H), (G, 4), (4, G), (usize::MAX / n, 1), (usize::MAX / n, 2), (usize::MAX, usize::MAX), (H, 0), (0, usize::MAX), (usize::MAX, 0), (G, 0)] { for st in [0, 1, n, w.wrapping_mul(n), usize::MAX] { for l in [0, 1, 8] { sides.push((w, h, st, l)); } } }
                let others = [(2usize, 3usize, 2 * n, 6 * n), (3, 4, 3 * n + 2, 4 * (3 * n + 2)), (0, 1, n, n), (2, 2, 2 * n, 5 * n)];
                for s in &sides { for o in &others { for swap in [false, true] {
                    let (a, b) = if swap { (o, s) } else { (s, o) };
                    let q = Q { sw: a.0, sh: a.1, ss: a.2, sl: a.3, sd: 10, dw: b.0, dh: b.1, ds: b.2, dl: b.3, dd: 10 };
                    run(&q, 0, cx);
                } } }
                if e.fmt == Fmt::U16 { for dd in (0..=20).chain([32, 64, 255, 256 + 8, usize::MAX]) { for sd in [0, 1, 10, 17] { for (w, h) in [(2, 3), (5, 3), (3, 3), (0, 3)] {
                    run(&Q { sw: 3, sh: 3, ss: 0, sl: 9 * n, sd, dw: w, dh: h, ds: w * n, dl: w * h * n, dd }, 0, cx);
                } } } }
                // errors with a thread pool asked for
                for thr in [-1, 2] { run(&Q { sw: 0, sh: 1, ss: 0, sl: 0, sd: 10, dw: 2, dh: 2, ds: 0, dl: 4 * n, dd: 10 }, thr, cx); run(&Q { sw: 2, sh: 2, ss: 2 * n, sl: 4 * n, sd: 10, dw: usize::MAX / 8, dh: 1, ds: 0, dl: 4 * n, dd: 10 }, thr, cx); }
            }
            1 | 2 => {
                let lim = if t { 8 } else { 5 };
                for sw in 1..=lim { for sh in 1..=lim { for dw in 1..=lim { for dh in 1..=lim {
                    let (ss, ds) = match (sw + sh + dw + dh) % 3 { 0 if !e.is_ar30() => (0, 0), 1 => (sw * n, dw * n), _ => (sw * n + 3, dw * n + 2) };
                    let (s2, d2) = (if ss == 0 { sw * n } else { ss }, if ds == 0 { dw * n } else { ds });
                    run(&Q { sw, sh, ss, sl: s2 * sh, sd: 10, dw, dh, ds, dl: d2 * dh, dd: 1 + (sw * 3 + dh) % 16 }, 0, cx);
                } } } }
            }
            _ => {
                let mut l = vec![(1usize, 1usize, 97usize, 61usize), (97, 61, 1, 1), (1, 300, 300, 1), (300, 1, 1, 300), (2, 2, 257, 3), (131, 2, 1, 2), (3, 64, 64, 3), (128, 64, 127, 63), (5, 1, 1, 1), (1, 5, 1, 1)];
                if t { l.extend([(1000, 3, 3, 3), (3, 1000, 3, 3), (2000, 1, 1, 1), (1, 1, 1500, 1), (400, 300, 3, 2), (513, 257, 256, 128)]); }
                for (sw, sh, dw, dh) in l {
                    for thr in [0, -1, 3] {
                        if thr != 0 && !(t || f % 8 == 1) { continue }
                        run(&Q { sw, sh, ss: sw * n, sl: sw * n * sh, sd: 10, dw, dh, ds: dw * n, dl: dw * n * dh, dd: 12 }, thr, cx);
                    }
                }
            }
        }
        cx.sample(|| format!("{} {}", e.show(), FILTERS[f as usize].0));
    }
    fn rule(&self, _: bool) -> String { "one job per (entry point with format, channels, premultiplication; filter); a job makes every combination of widths and heights (0, small, huge), strides (0, one short, exact, long, huge) and buffer lengths (exact, short, long) on one image against valid and invalid shapes of the other, every bit depth, and compares the result with the set of errors that apply; further phases run every valid small size and extreme aspect ratios".into() }
    fn bounds(&self, t: bool) -> Vec<(String, String)> { vec![("entry points".into(), ents().len().to_string()), ("valid sizes".into(), format!("1..={0} in each dimension", if t { 8 } else { 5 })), ("bit depths".into(), "0..=20, 32, 64, 255, 264, usize::MAX".into())] }
    fn assumptions(&self) -> Vec<String> { vec!["where several requirements are violated any of their errors is accepted".into()] }
}
