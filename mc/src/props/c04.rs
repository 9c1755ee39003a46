//! The image does not depend on threads or scheduling.  Built against a rayon whose scheduler the explorer controls.
use super::common::*;
use crate::case::*;
use crate::explore::*;
use crate::{cpu, step, threads};
use rayon_core::mc::{self, Limits, Log, Mode, Paths};
use std::sync::atomic::Ordering::SeqCst;

pub struct P;
const FILTS: &[&str] = &["Bilinear", "Lanczos3", "Nearest"];
const FINE: usize = 4096;
fn ents(t: bool) -> Vec<Ent> { everything(if t { &[8, 10, 12, 14, 16] } else { &[10, 16] }) }
/// Shapes for the exploration of orders: every pass alone and together, groups of four rows with and without rest.
fn shapes(t: bool) -> Vec<(u32, u32, u32, u32)> {
    let mut v = vec![(5, 4, 3, 3), (5, 3, 5, 4), (4, 6, 7, 6), (3, 9, 4, 9), (3, 2, 3, 5), (6, 1, 5, 2), (4, 3, 4, 3)];
    if t { v.extend([(5, 5, 5, 4), (7, 11, 5, 11), (20, 4, 33, 4), (3, 13, 5, 8), (40, 2, 17, 5), (9, 12, 5, 16)]); }
    v
}
fn grid(t: bool) -> Vec<(u32, u32, u32, u32)> {
    let n = if t { 12 } else { 5 };
    let mut v = vec![];
    for sh in 1..=n { for dh in 1..=n + 4 { v.push((5, sh, 4, dh)); v.push((4, sh, 4, dh)); } v.push((6, sh, 9, sh)); }
    v.extend([(33, 70, 17, 65), (7, 130, 7, 67), (70, 9, 31, 9), (6, 6, 6, 6), (2, 3, 17, 129)]);
    v
}
fn big() -> Vec<(u32, u32, u32, u32)> { vec![(40, 30, 420, 330), (300, 260, 290, 256), (16, 500, 300, 500)] }
const POLICIES: &[i32] = &[1, 2, 3, 4, 5, 7, 8, 64, -1];

fn levels(t: bool) -> Vec<usize> { cpu::available_levels().into_iter().filter(|&l| t || matches!(cpu::LEVELS[l].name, "baseline-x86_64" | "nehalem-sse4" | "haswell" | "everything")).collect() }
fn threads_seen() -> usize { threads::created() - mc::SHIM_THREADS.load(SeqCst) }
fn same(c: &Case, base: &Out, o: &Out) -> Option<String> {
    if o.ret != base.ret { return Some(format!("{} instead of {}", ret_show(&o.ret), ret_show(&base.ret))) }
    if let Some(i) = first_diff(&o.px, &base.px) { return Some(format!("{} is {} instead of {}", at_px(c, i), o.px[i], base.px[i])) }
    if o.pad != base.pad { return Some("row padding is written".into()) }
    if o.src_same != base.src_same { return Some("the source is written".into()) }
    None
}
/// What the policy allows.
fn usage(c: &Case, log: &Log, made: usize, cx: &mut Cx) {
    let cores = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(1);
    let n = match c.thr { i32::MIN | 0 => 0, -1 => cores, n => n as usize };
    if made > n { cx.violate("threads", &format!("{made} threads created directly: {}", c.show())); }
    if log.global_forks > 0 {
        if c.api.is_color() { cx.known("colorutils-global-pool", &format!("{} forks on the pool of the process in {}", log.global_forks, c.show())); }
        else { cx.violate("global-pool", &format!("work is given to the pool of the whole process ({} forks), outside the policy: {}", log.global_forks, c.show())); }
    }
    if n == 0 && (!log.pools.is_empty() || log.forks > 0) { cx.violate("single", &format!("the single policy builds pools of {:?} threads and forks {} times: {}", log.pools, log.forks, c.show())); }
    for p in &log.pools { if *p > n { cx.violate("threads", &format!("a pool of {p} threads, the policy allows {n}: {}", c.show())); } }
}
fn single(c: &Case, px: &[f64], cx: &mut Cx) -> Out {
    let mut c0 = *c;
    let mut base = None;
    for thr in [0, i32::MIN] {
        c0.thr = thr;
        cx.at(&c0);
        mc::reset(Mode::InOrder, 0);
        let t0 = threads_seen();
        let o = run(&c0, px);
        cx.step();
        usage(&c0, &mc::log(), threads_seen() - t0, cx);
        if base.is_none() { base = Some(o); }
    }
    base.unwrap()
}
/// All orders within the limits.
fn orders(c: &Case, px: &[f64], base: &Out, lim: Limits, internal: &Paths, what: &str, cx: &mut Cx) {
    let mut prefix: Vec<u16> = vec![];
    let mut n = 0u64;
    loop {
        cx.at(c);
        cx.note(&format!("{what}, schedule {prefix:?}"));
        let t0 = threads_seen();
        let (o, r) = mc::explore_run(&prefix, lim, internal, FINE, || run(c, px));
        cx.step();
        cx.trace();
        cx.count("schedules");
        n += 1;
        cx.add("schedules that took another course", r.log.mismatches.min(1) as u64);
        usage(c, &r.log, threads_seen() - t0, cx);
        if lim.preempt > 0 { cx.add("preemptions tried", r.choices.iter().any(|c| c.taken > 0) as u64); }
        if let Some(d) = same(c, base, &o) {
            cx.violate("order", &format!("{d} when the parallel branches run in another order ({what}, decisions {:?}): {}", r.choices.iter().map(|c| c.taken).collect::<Vec<_>>(), c.show()));
            return
        }
        match mc::next_prefix(&r.choices) { Some(p) => prefix = p, None => break }
    }
    cx.state(h64(h64(hash_px(7, &base.px), n), lim.only.unwrap_or(99) as u64));
}
fn step_levels(t: bool) -> Vec<usize> { let v = levels(t); if t { v } else { v.last().copied().into_iter().collect() } }
fn step_filts(t: bool) -> &'static [&'static str] { if t { FILTS } else { &["Bilinear"] } }
fn step_shapes(t: bool) -> &'static [(u32, u32, u32, u32)] { if t { &[(3, 9, 2, 2), (2, 5, 3, 5), (5, 2, 4, 3)] } else { &[(3, 9, 2, 2)] } }
/// One branch of a fork runs to completion at an instruction of the other: every fork, every instruction.
fn instructions(level: usize, idx: u64, cx: &mut Cx) {
    let t = cx.thorough;
    let es = ents(t);
    let e = es[idx as usize % es.len()];
    let f = filt(step_filts(t)[idx as usize / es.len()]);
    step::board();
    for &(sw, sh, dw, dh) in step_shapes(t) {
        let mut c = e.case(f, sw, sh, dw, dh);
        c.level = level as u8;
        let px = content(&c, 4);
        let base = single(&c, &px, cx);
        c.thr = 2;
        cx.at(&c);
        let o = step::branches(step::Kind::Every, u64::MAX, || run(&c, &px), |o| match same(&c, &base, o) { Some(_) => 2, None => step::FINE });
        cx.step();
        if let Some(d) = same(&c, &base, &o) { cx.violate("policy", &format!("{d} with a pool, compared with the single policy: {}", c.show())); continue }
        let b = step::board();
        cx.add("preemptions at instructions", b.tried);
        cx.steps(b.tried);
        if let Some(p) = b.verdict[..(b.points as usize + 1).min(step::MAXP)].iter().position(|v| *v > step::FINE) {
            cx.violate("instructions", &format!("{} when one parallel branch is preempted at its instruction {p} of {} and another runs: {}", if b.verdict[p] == step::DIED { "the process ends" } else { "another image" }, b.points, c.show()));
        }
        cx.state(h64(hash_px(9, &base.px), b.points));
    }
}
/// What the branches of each fork touch, instruction by instruction; where they meet, every schedule of two switches at such accesses.
fn apart(level: usize, idx: u64, cx: &mut Cx) {
    let t = cx.thorough;
    let es = ents(t);
    let e = es[idx as usize % es.len()];
    let f = filt(FILTS[idx as usize / es.len()]);
    step::board();
    for (k, &(sw, sh, dw, dh)) in apart_shapes(t).iter().enumerate() {
        if !t && k > 0 && idx as usize / es.len() > 0 { continue }
        let mut c = e.case(f, sw, sh, dw, dh);
        c.level = level as u8;
        let px = content(&c, 4);
        let base = single(&c, &px, cx);
        c.thr = 3;
        cx.at(&c);
        let o = step::branches(step::Kind::Conflicts, if t { 20000 } else { 400 }, || run(&c, &px), |o| if same(&c, &base, o).is_some() { 2 } else { step::FINE });
        cx.step();
        if let Some(d) = same(&c, &base, &o) { cx.violate("policy", &format!("{d} with a pool, compared with the single policy: {}", c.show())); continue }
        let b = step::board();
        cx.add("forks traced", b.forks);
        cx.add("forks whose branches share nothing", b.apart);
        cx.add("memory accesses traced", b.accesses);
        cx.add("forks not traced to the end", b.untraced);
        cx.add("schedules of conflicting accesses", b.tried);
        cx.add("calls with more such schedules than the bound", (b.tried > b.limit) as u64);
        cx.steps(b.tried + b.forks);
        if cx.verbose { eprintln!("{} forks, {} apart, {} accesses, {} schedules, {} points: {}", b.forks, b.apart, b.accesses, b.tried, b.points, c.show()); }
        if let Some(p) = b.verdict.iter().position(|v| *v > step::FINE) {
            cx.violate("accesses", &format!("{} when one parallel branch is preempted at access {} to memory it shares with another, and that one at its access {}: {}", if b.verdict[p] == step::DIED { "the process ends" } else { "another image" }, p / 64, p % 64, c.show()));
        }
        cx.state(h64(hash_px(11, &base.px), b.forks));
    }
}
fn apart_shapes(t: bool) -> &'static [(u32, u32, u32, u32)] { if t { &[(3, 9, 4, 6), (5, 4, 3, 3), (3, 2, 3, 5), (40, 2, 17, 5), (7, 11, 5, 11)] } else { &[(3, 9, 4, 3), (20, 9, 17, 8)] } }
impl Prop for P {
    fn id(&self) -> &'static str { "C04" }
    fn counters(&self) -> &'static [&'static str] { &["schedules", "parallel loops explored", "loops with every order", "loops with bounded deviations", "heap operations inside branches", "preemptions tried", "policies compared", "schedules that took another course", "preemptions at instructions", "forks traced", "forks whose branches share nothing", "memory accesses traced", "forks not traced to the end", "schedules of conflicting accesses", "calls with more such schedules than the bound"] }
    fn phases(&self, t: bool) -> Vec<Phase> {
        let mut v = vec![];
        for l in levels(t) { v.push(Phase { level: Some(l), n: (ents(t).len() * FILTS.len()) as u64, label: format!("orders, {}", cpu::LEVELS[l].name) }); }
        for l in levels(t) { v.push(Phase { level: Some(l), n: (ents(t).len() * FILTS.len()) as u64, label: format!("policies, {}", cpu::LEVELS[l].name) }); }
        for l in step_levels(t) { v.push(Phase { level: Some(l), n: (ents(t).len() * step_filts(t).len()) as u64, label: format!("a branch at every instruction of another, {}", cpu::LEVELS[l].name) }); }
        for l in levels(t) { v.push(Phase { level: Some(l), n: (ents(t).len() * FILTS.len()) as u64, label: format!("memory of the branches, {}", cpu::LEVELS[l].name) }); }
        v
    }
    fn job(&self, phase: u32, idx: u64, cx: &mut Cx) {
        let t = cx.thorough;
        let ls = levels(t);
        if phase as usize >= 2 * ls.len() + step_levels(t).len() { apart(ls[phase as usize - 2 * ls.len() - step_levels(t).len()], idx, cx); return }
        if phase as usize >= 2 * ls.len() { instructions(step_levels(t)[phase as usize - 2 * ls.len()], idx, cx); return }
        let level = ls[phase as usize % ls.len()];
        let es = ents(t);
        let e = es[idx as usize % es.len()];
        let f = filt(FILTS[idx as usize / es.len()]);
        if (phase as usize) < ls.len() {
            for (k, &(sw, sh, dw, dh)) in shapes(t).iter().enumerate() {
                let mut c = e.case(f, sw, sh, dw, dh);
                c.level = level as u8;
                let w = if e.is_ar30() { 4 } else { e.ch as u32 };
                if k % 2 == 1 { c.ss = sw * w + 5 * w; c.ds = dw * w + 3 * w; }
                let px = content(&c, 4);
                let base = single(&c, &px, cx);
                c.thr = [3, 2, 8][k % 3];
                // the default run tells the parallel loops and their branches
                let none = Limits { only: None, delays: 0, preempt: 0 };
                let (o, r) = mc::explore_run(&[], none, &Paths::new(), FINE, || run(&c, &px));
                cx.step();
                if let Some(d) = same(&c, &base, &o) { cx.violate("policy", &format!("{d} with a pool, compared with the single policy: {}", c.show())); continue }
                usage(&c, &r.log, 0, cx);
                cx.add("heap operations inside branches", r.log.heap_points as u64);
                for region in 1..=r.log.regions {
                    let leaves = 1 + r.internal.iter().filter(|x| x.0 == region).count();
                    let full = leaves <= if t { 6 } else { 5 };
                    cx.count("parallel loops explored");
                    cx.count(if full { "loops with every order" } else { "loops with bounded deviations" });
                    let lim = Limits { only: Some(region), delays: if full { usize::MAX } else if t { 3 } else { 2 }, preempt: 0 };
                    orders(&c, &px, &base, lim, &r.internal, &format!("loop {region} of {} branches", leaves), cx);
                }
                if r.log.heap_points > 0 { orders(&c, &px, &base, Limits { only: None, delays: 0, preempt: if t { 2 } else { 1 } }, &r.internal, "preemption at heap operations", cx); }
                if idx % 97 == 0 && k == 0 { cx.sample(|| format!("{}: {} parallel loops, {} forks", c.show(), r.log.regions, r.log.forks)); }
            }
        } else {
            let mut g = grid(t);
            if e.fmt != Fmt::F16 && (t || f == filt("Bilinear")) && idx % 5 == 0 { g.extend(big()); }
            for (k, &(sw, sh, dw, dh)) in g.iter().enumerate() {
                let mut c = e.case(f, sw, sh, dw, dh);
                c.level = level as u8;
                let w = if e.is_ar30() { 4 } else { e.ch as u32 };
                if k % 3 == 1 { c.ss = sw * w + 3; c.ds = dw * w + w + 1; }
                let px = content(&c, 6);
                let base = single(&c, &px, cx);
                cx.state(hash_px(phase as u64, &base.px));
                let large = dw * dh > 40000;
                for (j, &thr) in POLICIES.iter().enumerate() {
                    if large && j % 3 != 2 { continue }
                    for (mode, split) in [(Mode::InOrder, 0), (Mode::Reverse, 0), (Mode::Reverse, FINE), (Mode::InOrder, FINE)] {
                        if !t && (mode == Mode::InOrder && split == FINE || large && split == 0) { continue }
                        c.thr = thr;
                        cx.at(&c);
                        mc::reset(mode, split);
                        let t0 = threads_seen();
                        let o = run(&c, &px);
                        let log = mc::log();
                        let made = threads_seen() - t0;
                        cx.step();
                        cx.trace();
                        cx.count("policies compared");
                        usage(&c, &log, made, cx);
                        if let Some(d) = same(&c, &base, &o) { cx.violate("policy", &format!("{d} with this policy, compared with the single policy (branches {mode:?}): {}", c.show())); break }
                    }
                }
            }
        }
    }
    fn rule(&self, _: bool) -> String { "stateless exploration of the real code: pic-scale and rayon are built on a rayon-core whose scheduler runs one branch at a time and takes every decision from the explorer; depth first search over the decisions, one parallel loop at a time, and over preemptions of branches at heap operations; in addition, for every fork, one branch runs to completion at every machine instruction of the other (trap flag, one forked copy of the process per instruction); and both branches of every fork are traced instruction by instruction with the memory each touches: where they share memory one of them writes, every schedule of two switches at such accesses is run (otherwise the branches commute); every image is compared bit for bit with the single policy, and pools, forks and threads with what the policy allows".into() }
    fn bounds(&self, t: bool) -> Vec<(String, String)> { vec![
        ("orders".into(), format!("all orders of the branches of every parallel loop of up to {} branches, up to {} deviations from the default order in longer ones", if t { 6 } else { 5 }, if t { 3 } else { 2 })),
        ("preemptions".into(), format!("{} at heap operations inside branches", if t { 2 } else { 1 })),
        ("instructions".into(), format!("one preemption at every instruction of the first branch of every fork, {} shapes, {} filters, {} CPUs", step_shapes(t).len(), step_filts(t).len(), step_levels(t).len())),
        ("memory".into(), format!("both branches of every fork traced to the end, {} shapes, {} filters, {} CPUs; up to {} schedules of two switches at shared accesses per call", apart_shapes(t).len(), FILTS.len(), levels(t).len(), if t { 20000 } else { 400 })),
        ("policies".into(), format!("single, default, fixed {POLICIES:?} (-1 is adaptive), branches in order and reversed, split by the pool's size and to single rows")),
        ("images".into(), format!("{} shapes for orders, {} for policies, every entry point, format, channel count, filters {FILTS:?}, {} CPUs", shapes(t).len(), grid(t).len() + big().len(), levels(t).len()))] }
    fn assumptions(&self) -> Vec<String> { vec![
        "parallel loops follow each other with a barrier in between (they do in rayon), so their orders are explored one loop at a time".into(),
        "more than two switches between two branches inside row code are explored at heap operations only; two are explored at the accesses of the two branches to memory both touch (their number is in the counters), one at every instruction".into(),
        "the memory a branch touches is taken from its run before any branch of the same loop has run: a branch that would read other addresses only after another one wrote is seen by the single preemptions only".into(),
        "rayon's own scheduler runs each branch exactly once and waits for all of them".into()] }
}
