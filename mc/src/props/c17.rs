//! Image stores describe and copy exactly the pixels they hold.
use crate::case::*;
use crate::explore::*;
use pic_scale::*;

pub struct P;
/// Model of a store
#[derive(Clone, Debug, PartialEq)]
struct M { w: usize, h: usize, stride: usize, depth: usize, buf: Vec<u64> }
enum Any<'a, T: Smp, const N: usize> { I(ImageStore<'a, T, N>), M(ImageStoreMut<'a, T, N>) }
fn bits<T: Smp>(v: &[T]) -> Vec<u64> { v.iter().map(|x| x.bits()).collect() }
fn seen<T: Smp, const N: usize>(s: &Any<T, N>) -> (M, usize, ImageSize, usize) {
    match s {
        Any::I(i) => (M { w: i.width, h: i.height, stride: i.stride(), depth: i.bit_depth, buf: bits(i.as_bytes()) }, i.channels, i.get_size(), i.buffer.as_ref().as_ptr() as usize),
        Any::M(i) => (M { w: i.width, h: i.height, stride: i.stride(), depth: i.bit_depth, buf: bits(i.as_bytes()) }, i.channels, i.get_size(), i.buffer.borrow().as_ptr() as usize),
    }
}
fn check<T: Smp, const N: usize>(s: &Any<T, N>, m: &M, what: &str, cx: &mut Cx) -> usize {
    let (g, ch, sz, ptr) = seen(s);
    cx.trace();
    cx.state(h64(g.buf.iter().fold(N as u64, |h, b| h64(h, *b)), g.w.wrapping_mul(64).wrapping_add(g.h.wrapping_mul(8)).wrapping_add(g.stride) as u64));
    if &g != m || ch != N || sz.width != m.w || sz.height != m.h { cx.violate("content", &format!("{what}: {N} channels, expected {m:?}, found {g:?} with {ch} channels, size {} x {}", sz.width, sz.height)); }
    ptr
}
fn val<T: Smp>(i: usize) -> T { T::of_bits(if T::F == Fmt::U8 { (i as u64 * 37 + 11) & 255 } else { (i as u64 * 2909 + 0x3c01) & 0x7bff }) }
/// Creation of stores from every buffer length.
fn creation<T: Smp, const N: usize>(w: usize, h: usize, cx: &mut Cx) {
    let want = w.checked_mul(h).and_then(|x| x.checked_mul(N));
    let mut lens: Vec<usize> = (0..20).collect();
    if let Some(x) = want { if x < 100000 { lens.extend([x, x + 1, x.saturating_sub(1), x / N.max(1), x * 2]); } }
    lens.sort(); lens.dedup();
    for l in lens {
        let v: Vec<T> = (0..l).map(val::<T>).collect();
        let mut a = v.clone();
        let ok = want == Some(l);
        let m = M { w, h, stride: w.saturating_mul(N), depth: 0, buf: bits(&v) };
        for kind in 0..6 {
            let what = format!("constructor {kind} with {w} x {h} and {l} elements");
            cx.note(&what);
            let r = guarded(|| -> Result<Any<T, N>, PicScaleError> { Ok(match kind {
                0 => Any::I(ImageStore::new(v.clone(), w, h)?),
                1 => Any::I(ImageStore::borrow(&v, w, h)?),
                2 => Any::I(ImageStore::from_slice(&v, w, h)?),
                3 => Any::M(ImageStoreMut::new(v.clone(), w, h)?),
                4 => Any::M(ImageStoreMut::borrow(&mut a, w, h)?),
                _ => Any::M(ImageStoreMut::from_slice(&mut a, w, h)?),
            }) });
            cx.step();
            match r {
                Err(p) => cx.violate("panic", &format!("{what}: {p}")),
                Ok(Ok(s)) => if !ok { cx.violate("accepted", &format!("{what}, {N} channels: accepted")); } else { check(&s, &m, &what, cx); cx.count("stores created"); },
                Ok(Err(e)) => {
                    cx.count("buffers refused");
                    if ok { cx.violate("refused", &format!("{what}, {N} channels: refused with {e:?}")); }
                    else if let PicScaleError::BufferMismatch(b) = &e {
                        if b.slice_len != l || b.width != w || b.height != h || b.channels != N || (want.is_some() && b.expected != want.unwrap()) { cx.violate("message", &format!("{what}: the error says {b:?}")); }
                    } else { cx.violate("wrong-error", &format!("{what}: {e:?}")); }
                }
            }
        }
    }
}
/// Every sequence of copying operations up to `depth` on stores of one geometry.
fn sequences<T: Smp, const N: usize>(w: usize, h: usize, stride: usize, bd: usize, depth: u32, cx: &mut Cx) {
    let eff = if stride == 0 { w * N } else { stride };
    let buf: Vec<T> = (0..eff * h).map(val::<T>).collect();
    let m0 = M { w, h, stride: eff, depth: bd, buf: bits(&buf) };
    for start_mut in [false, true] {
        let total = 5u64.pow(depth);
        for code in 0..total {
            let mut m = m0.clone();
            let mut data = buf.clone();
            let mut cur: Any<T, N> = if start_mut { Any::M(ImageStoreMut { buffer: BufferStore::Borrowed(&mut data), channels: N, width: w, height: h, stride, bit_depth: bd }) }
                else { Any::I(ImageStore { buffer: std::borrow::Cow::Borrowed(&buf), channels: N, width: w, height: h, stride, bit_depth: bd }) };
            let mut k = code;
            let mut hist = String::new();
            for step in 0..depth {
                let op = k % 5;
                k /= 5;
                let prev_ptr = seen(&cur).3;
                let empty = m.buf.is_empty();
                let (next, fresh): (Any<T, N>, bool) = match (op, cur) {
                    (0, Any::I(i)) => { hist += " copied"; (Any::I(i.copied()), true) }
                    (0, Any::M(i)) => { hist += " copied"; (Any::M(i.copied()), true) }
                    (1, Any::M(i)) => { hist += " to_immutable"; let t = i.to_immutable(); let o = Any::I(t.copied()); check(&Any::I(t), &m, &format!("{w}x{h} stride {stride}:{hist}"), cx); (o, true) }
                    (1, Any::I(i)) => { hist += " clone"; (Any::I(i.clone()), false) }
                    (2, Any::I(i)) => {
                        // into a mutable store of the same size with another stride
                        hist += " copied_to_mut";
                        let st2 = w * N + step as usize + 1;
                        let mut d = ImageStoreMut::<T, N> { buffer: BufferStore::Owned((0..st2 * h).map(T::canary).collect()), channels: N, width: w, height: h, stride: st2, bit_depth: bd };
                        i.copied_to_mut(&mut d);
                        let mut b2 = vec![0u64; st2 * h];
                        for (q, b) in b2.iter_mut().enumerate() { *b = if q % st2 < w * N { m.buf[q / st2 * m.stride + q % st2] } else { T::canary(q).bits() }; }
                        m = M { stride: st2, buf: b2, depth: bd, ..m };
                        (Any::M(d), true)
                    }
                    (3, Any::M(mut i)) if !empty => {
                        // a write is seen by this store alone
                        hist += " write";
                        let b = i.buffer.borrow_mut();
                        let at = (step as usize * 7 + 3) % b.len();
                        b[at] = T::of_bits(0x15 + step as u64);
                        m.buf[at] = 0x15 + step as u64;
                        (Any::M(i), false)
                    }
                    (4, Any::M(mut i)) => { hist += " set-depth"; i.bit_depth = 9 + step as usize; m.depth = 9 + step as usize; (Any::M(i), false) }
                    (_, c) => (c, false),
                };
                cx.step();
                let p = check(&next, &m, &format!("{w}x{h} stride {stride}:{hist}"), cx);
                if fresh && !empty && p == prev_ptr { cx.violate("shared", &format!("{w}x{h} stride {stride}:{hist}: the copy shares memory with the original")); }
                cur = next;
            }
            drop(cur);
            cx.count("sequences");
        }
        if bits(&buf) != m0.buf { cx.violate("original", "an operation on a copy changed the original"); }
    }
}
/// copied_to_mut between all pairs of geometries.
fn copies<T: Smp, const N: usize>(w: usize, h: usize, lim: usize, cx: &mut Cx) {
    for ss in [0, w * N, w * N + 1, w * N + N + 2] {
        let es = if ss == 0 { w * N } else { ss };
        let src: Vec<T> = (0..es * h).map(val::<T>).collect();
        for dw in 0..=lim { for dh in 0..=lim { for ds in [0, dw * N, dw * N + 1, dw * N + 2 * N + 1] {
            let ed = if ds == 0 { dw * N } else { ds };
            let mut d = ImageStoreMut::<T, N> { buffer: BufferStore::Owned((0..ed * dh).map(T::canary).collect()), channels: N, width: dw, height: dh, stride: ds, bit_depth: 12 };
            let s = ImageStore::<T, N> { buffer: std::borrow::Cow::Borrowed(&src), channels: N, width: w, height: h, stride: ss, bit_depth: 10 };
            let what = format!("copied_to_mut {w}x{h} stride {ss} into {dw}x{dh} stride {ds}");
            cx.note(&what);
            if let Err(p) = guarded(|| s.copied_to_mut(&mut d)) { cx.violate("panic", &format!("{what}: {p}")); continue }
            cx.step();
            cx.trace();
            cx.count("copies between geometries");
            let b = d.buffer.borrow();
            for (q, v) in b.iter().enumerate() {
                let (x, y) = (q % ed, q / ed);
                let want = if x < dw.min(w) * N && y < h { src[y * es + x].bits() } else { T::canary(q).bits() };
                if v.bits() != want { cx.violate("copy", &format!("{what}, {N} channels: element {x} of row {y} is {:#x} instead of {want:#x}", v.bits())); break }
            }
            if d.width != dw || d.height != dh || d.stride != ds || d.bit_depth != 12 { cx.violate("fields", &format!("{what} changed the description of the destination")); }
            cx.state(b.iter().fold(7, |h, v| h64(h, v.bits())));
        } } }
    }
}
fn alloc<T: Smp, const N: usize>(w: usize, h: usize, cx: &mut Cx) {
    let m = M { w, h, stride: w * N, depth: 0, buf: vec![T::default().bits(); w * h * N] };
    check(&Any::<T, N>::I(ImageStore::alloc(w, h)), &m, "ImageStore::alloc", cx);
    check(&Any::<T, N>::M(ImageStoreMut::alloc(w, h)), &m, "ImageStoreMut::alloc", cx);
    for d in [0, 1, 10, 16, 17] { check(&Any::<T, N>::M(ImageStoreMut::alloc_with_depth(w, h, d)), &M { depth: d, ..m.clone() }, "alloc_with_depth", cx); }
    cx.steps(7);
}
impl Prop for P {
    fn id(&self) -> &'static str { "C17" }
    fn counters(&self) -> &'static [&'static str] { &["stores created", "buffers refused", "sequences", "copies between geometries"] }
    fn phases(&self, _: bool) -> Vec<Phase> { vec![Phase { level: None, n: 16 * 4, label: "format x channels x kind of exploration".into() }] }
    fn job(&self, _: u32, idx: u64, cx: &mut Cx) {
        let t = cx.thorough;
        macro_rules! go { ($t:ty, $n:tt) => {{
            let lim = if t { 6 } else { 4 };
            match idx / 16 {
                0 => {
                    for w in 0..=lim + 2 { for h in 0..=lim + 2 { creation::<$t, $n>(w, h, cx); } }
                    const B: usize = 1 << 32;
                    for (w, h) in [(usize::MAX, 1), (1, usize::MAX), (usize::MAX, usize::MAX), (B, B), (B, B / 4), (1 << 63, 2), (1 << 62, 4), (usize::MAX / 2 + 1, 2), (0, usize::MAX), (usize::MAX, 0), (usize::MAX / 3, 3), ((1 << 63) + 1, 2), (6148914691236517206, 3), (1 << 61, 8), ((1 << 62) + 1, 4)] { creation::<$t, $n>(w, h, cx); }
                }
                1 => for w in 1..=2 { for h in 1..=2 { for (st, bd) in [(0, 0), (w * $n, 10), (w * $n + 2, 16)] { sequences::<$t, $n>(w, h, st, bd, if t { 6 } else { 4 }, cx); } } },
                2 => for w in 0..=lim { for h in 0..=lim { copies::<$t, $n>(w, h, lim, cx); } },
                _ => for w in 0..=lim * 2 { for h in 0..=lim * 2 { alloc::<$t, $n>(w, h, cx); } },
            }
        }} }
        macro_rules! ch { ($t:ty) => { match idx / 4 % 4 { 0 => go!($t, 1), 1 => go!($t, 2), 2 => go!($t, 3), _ => go!($t, 4) } } }
        match idx % 4 { 0 => ch!(u8), 1 => ch!(u16), 2 => ch!(f32), _ => ch!(f16) }
        cx.sample(|| format!("format {} channels {} exploration {}", idx % 4, idx / 4 % 4 + 1, idx / 16));
    }
    fn rule(&self, _: bool) -> String { "per sample format and channel count: every constructor with every size and buffer length (overflowing sizes included); every sequence of the five store operations (copy, convert or clone, copy into a store of another stride, write, set depth) up to the depth, against a model of the store; copies between all pairs of geometries and strides".into() }
    fn bounds(&self, t: bool) -> Vec<(String, String)> { vec![("sequence depth".into(), if t { "6" } else { "4" }.into()), ("geometries".into(), format!("0..={0} x 0..={0} into 0..={0} x 0..={0}, four strides each", if t { 6 } else { 4 })), ("buffer lengths".into(), "0..20 and around the right one".into())] }
}
