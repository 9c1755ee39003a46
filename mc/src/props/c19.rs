//! Thread counts stay within the policy.
use crate::case::*;
use crate::explore::*;
use pic_scale::{ImageSize, ThreadingPolicy};

pub struct P;
/// Expected number of threads for a policy and destination size.
pub fn expected(p: &ThreadingPolicy, w: usize, h: usize, cores: usize) -> (usize, usize) {
    match p {
        ThreadingPolicy::Single => (1, 1),
        ThreadingPolicy::Fixed(n) => ((*n).max(1), (*n).max(1)),
        ThreadingPolicy::Adaptive => { let _ = (w, h); (1, cores) }
    }
}
fn grid() -> Vec<usize> {
    let mut v = vec![0usize];
    for k in 0..64 { let b = 1usize << k; v.extend([b - 1, b, b.wrapping_add(1), b + b / 2]); }
    v.extend([255 * 255, 256 * 255, 65536 * 3, 1000, 1920, 3840, 1080, 2160, usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX / 3]);
    v.sort(); v.dedup(); v
}
fn policies() -> Vec<ThreadingPolicy> {
    let mut v = vec![ThreadingPolicy::Single, ThreadingPolicy::Adaptive];
    for n in (0..=130).chain([255, 256, 1000, 65535, 1 << 20, usize::MAX]) { v.push(ThreadingPolicy::Fixed(n)); }
    v
}
impl Prop for P {
    fn id(&self) -> &'static str { "C19" }
    fn counters(&self) -> &'static [&'static str] { &["thread counts computed", "pools built", "monotone pairs"] }
    fn phases(&self, _: bool) -> Vec<Phase> {
        vec![Phase { level: None, n: policies().len() as u64, label: "thread_count".into() }, Phase { level: None, n: 14, label: "pools".into() }]
    }
    fn job(&self, phase: u32, idx: u64, cx: &mut Cx) {
        let t = cx.thorough;
        let cores = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(1);
        if phase == 0 {
            let p = policies()[idx as usize];
            let g = grid();
            let dense: Vec<usize> = (0..if t { 3000 } else { 600 }).collect();
            let mut last: Vec<usize> = vec![];
            for (gi, &w) in g.iter().chain(dense.iter()).enumerate() {
                let mut row: Vec<usize> = vec![];
                let mut prev = 0;
                for &h in &g {
                    cx.note(&format!("{p:?}.thread_count({w} x {h})"));
                    let r = guarded(|| p.thread_count(ImageSize::new(w, h)));
                    cx.step();
                    cx.count("thread counts computed");
                    cx.trace();
                    let n = match r { Ok(n) => n, Err(m) => { cx.violate("panic", &format!("{p:?}.thread_count({w} x {h}) panics: {m}")); return } };
                    let (lo, hi) = expected(&p, w, h, cores);
                    cx.state(h64(idx, n as u64));
                    if n < lo || n > hi { cx.violate("count", &format!("{p:?}.thread_count({w} x {h}) is {n}, outside {lo}..={hi}")); return }
                    if n < prev { cx.violate("monotone", &format!("{p:?}.thread_count({w} x {h}) is {n}, fewer than for a lower image")); return }
                    cx.count("monotone pairs");
                    prev = n;
                    row.push(n);
                }
                if gi > 0 && gi < g.len() { if let Some(k) = row.iter().zip(&last).position(|(a, b)| a < b) { cx.violate("monotone", &format!("{p:?}.thread_count({w} x {}) is {}, fewer than for a narrower image", g[k], row[k])); return } }
                last = row;
            }
            // huge images use more than one thread when there is more than one core
            if p == ThreadingPolicy::Adaptive && cores > 1 && p.thread_count(ImageSize::new(1 << 14, 1 << 14)) < 2 { cx.violate("adaptive", "a 16384 x 16384 image is given one thread"); }
            cx.sample(|| format!("{p:?}: {} sizes", g.len() * (g.len() + dense.len())));
        } else {
            let list = [ThreadingPolicy::Single, ThreadingPolicy::Adaptive, ThreadingPolicy::Fixed(0), ThreadingPolicy::Fixed(1), ThreadingPolicy::Fixed(2), ThreadingPolicy::Fixed(3), ThreadingPolicy::Fixed(5), ThreadingPolicy::Fixed(7), ThreadingPolicy::Fixed(8), ThreadingPolicy::Fixed(9), ThreadingPolicy::Fixed(13), ThreadingPolicy::Fixed(16), ThreadingPolicy::Fixed(31), ThreadingPolicy::Fixed(64)];
            let p = list[idx as usize];
            for (w, h) in [(1usize, 1usize), (0, 0), (255, 256), (512, 512), (1000, 300), (4096, 4096), (usize::MAX, 2), (1 << 40, 1 << 30)] {
                let before = crate::threads::created();
                let pool = p.get_pool(ImageSize::new(w, h));
                let made = crate::threads::created() - before;
                cx.step();
                cx.trace();
                cx.count("pools built");
                let n = p.thread_count(ImageSize::new(w, h));
                cx.state(h64(idx, 1000 + made as u64));
                match (&p, &pool) {
                    (ThreadingPolicy::Single, None) => if made != 0 { cx.violate("single", &format!("the single policy created {made} threads")); },
                    (ThreadingPolicy::Single, Some(_)) => cx.violate("single", "the single policy made a pool"),
                    (_, None) => cx.violate("no-pool", &format!("{p:?} made no pool for {w} x {h}")),
                    (_, Some(q)) => if q.current_num_threads() != n || made != n { cx.violate("pool", &format!("{p:?} for {w} x {h}: the policy says {n} threads, the pool has {} and {made} were created", q.current_num_threads())); },
                }
            }
        }
    }
    fn rule(&self, _: bool) -> String { "one job per policy; every width from a grid of all powers of two and their neighbours plus a dense range, times every height of the grid, is asked for its thread count; pools are built and the threads they create are counted at pthread_create".into() }
    fn bounds(&self, t: bool) -> Vec<(String, String)> { vec![("policies".into(), policies().len().to_string()), ("sizes per policy".into(), format!("{}", grid().len() * (grid().len() + if t { 3000 } else { 600 })))] }
}
