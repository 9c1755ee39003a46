//! Verdict, evidence file, replay files and recorded findings.
use crate::explore::*;
use std::path::PathBuf;

pub fn root() -> PathBuf { PathBuf::from(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf() }
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) }
    }
    o.push('"');
    o
}
/// Recorded findings of a property: (key, description)
pub fn findings(id: &str) -> Vec<(String, String)> {
    let t = std::fs::read_to_string(root().join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    t.lines().filter_map(|l| {
        let l = l.strip_prefix("finding: property=")?;
        let (pid, rest) = l.split_once(' ')?;
        if pid != id { return None }
        let (key, text) = rest.strip_prefix("key=")?.split_once(' ')?;
        Some((key.to_string(), text.to_string()))
    }).collect()
}
fn write_replay(p: &dyn Prop, thorough: bool, n: usize, v: &Violation) -> PathBuf {
    let dir = root().join("out");
    let _ = std::fs::create_dir_all(&dir);
    let f = dir.join(format!("{}-{n}.replay", p.id()));
    let t = format!("property {}\ntier {}\nphase {}\njob {}\nkind {}\n# {}\n", p.id(), if thorough { "thorough" } else { "quick" }, v.phase, v.idx, v.sig, v.text.replace('\n', " "));
    std::fs::write(&f, t).expect("write replay file");
    f
}
/// Repeats the job of a violation in a fresh process; true if it is violated again.
fn confirm(p: &dyn Prop, thorough: bool, v: &Violation) -> bool {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            let fd = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            libc::dup2(fd, 2);
            libc::alarm(200);
            let r = replay_job(p, v.phase, v.idx, thorough);
            libc::_exit(if r.is_empty() { 0 } else { 42 });
        }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        !(libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0)
    }
}
pub fn finish(p: &dyn Prop, thorough: bool, r: Report) -> i32 {
    let known = findings(p.id());
    let mut viol: Vec<(PathBuf, &Violation)> = vec![];
    let mut extra: Vec<Violation> = vec![];
    let mut seen_known = vec![];
    for (k, t) in &r.known {
        match known.iter().find(|x| &x.0 == k) {
            Some(x) => seen_known.push((x.clone(), t.clone())),
            None => extra.push(Violation { phase: 0, idx: 0, sig: format!("unlisted-finding:{k}"), text: t.clone() }),
        }
    }
    let mut unconfirmed = 0;
    for (n, v) in r.viol.iter().chain(extra.iter()).enumerate() {
        if n < 6 && !v.sig.starts_with("unlisted") && !confirm(p, thorough, v) { unconfirmed += 1; eprintln!("not reproduced in a fresh process: phase {} job {} [{}] {}", v.phase, v.idx, v.sig, v.text); }
        if n < 24 { viol.push((write_replay(p, thorough, n, v), v)); }
    }
    for (x, t) in &seen_known { println!("KNOWN-FINDING: property={} {} (e.g. {})", p.id(), x.1, t); }
    let shown = viol.len().min(12);
    for (f, v) in &viol[..shown] { println!("VIOLATION property={} replay={} [{}] {}", p.id(), f.display(), v.sig, v.text); }
    let exhaustive = !r.capped && r.jobs_done == r.jobs_total && viol.is_empty();
    println!("{} {}: {} of {} jobs, {} library calls, {} distinct observed states, {} model predictions compared, {:.1} s, {}",
        p.id(), if thorough { "thorough" } else { "quick" }, r.jobs_done, r.jobs_total, r.trans, r.states, r.traces, r.wall,
        if !viol.is_empty() { "VIOLATED" } else if exhaustive { "held on everything explored" } else { "held on the explored part" });
    if std::env::var_os("MC_TIMES").is_some() { for x in &r.phases { println!("  {:?}", x); } }
    for (k, v) in &r.ctr { println!("  {k}: {v}"); }
    for (k, v) in &r.fmax { println!("  max {k}: {v:.6}"); }
    for (l, n, s) in &r.phases { if std::env::var("MC_PHASES").is_ok() { println!("  phase {l}: {n} jobs {s:.1} s"); } }
    // evidence
    let mut e = String::from("{\n");
    e += &format!("  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"model_checking\",\n", js(p.id()), js(if thorough { "thorough" } else { "quick" }), std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1));
    e += "  \"coverage\": {\n";
    e += &format!("    \"states\": {},\n    \"transitions\": {},\n    \"traces_validated_against_impl\": {},\n    \"jobs\": {},\n    \"jobs_total\": {},\n    \"exhaustive\": {},\n", r.states.max(1), r.trans.max(1), r.traces, r.jobs_done, r.jobs_total, exhaustive);
    if r.set_full { e += "    \"states_note\": \"state set full, the count is a lower bound\",\n"; }
    e += &format!("    \"rule\": {},\n", js(&p.rule(thorough)));
    e += "    \"bounds\": {";
    e += &p.bounds(thorough).iter().map(|(k, v)| format!("{}: {}", js(k), js(v))).collect::<Vec<_>>().join(", ");
    e += "},\n    \"counters\": {";
    e += &r.ctr.iter().map(|(k, v)| format!("{}: {v}", js(k))).chain(r.fmax.iter().map(|(k, v)| format!("{}: {}", js(&format!("max {k}")), if v.is_finite() { *v } else { 1e308 }))).collect::<Vec<_>>().join(", ");
    e += "},\n    \"phases\": [";
    e += &r.phases.iter().map(|(l, n, s)| format!("{{\"label\": {}, \"jobs\": {n}, \"wall_s\": {s:.2}}}", js(l))).collect::<Vec<_>>().join(", ");
    e += "],\n    \"samples\": [";
    e += &r.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ");
    e += "]\n  },\n";
    e += &format!("  \"wall_s\": {:.3},\n", r.wall);
    e += "  \"assumptions\": [";
    e += &p.assumptions().iter().map(|s| js(s)).collect::<Vec<_>>().join(", ");
    e += &format!("],\n  \"violations\": {},\n  \"violation_details\": [", viol.len());
    e += &viol.iter().map(|(f, v)| format!("{{\"replay\": {}, \"kind\": {}, \"what\": {}}}", js(&f.display().to_string()), js(&v.sig), js(&v.text))).collect::<Vec<_>>().join(", ");
    e += "],\n  \"known_findings_seen\": [";
    e += &seen_known.iter().map(|(x, t)| format!("{{\"key\": {}, \"what\": {}}}", js(&x.0), js(t))).collect::<Vec<_>>().join(", ");
    e += "]\n}\n";
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", p.id())), e).expect("write evidence");
    if !viol.is_empty() {
        if unconfirmed > 0 && unconfirmed == viol.len() { eprintln!("no violation could be reproduced in a fresh process: machinery error"); return 3 }
        return 1
    }
    if r.capped { eprintln!("time budget exhausted before the bounded space was covered"); return 3 }
    0
}
pub fn replay(file: &str) -> i32 {
    let t = std::fs::read_to_string(file).unwrap_or_else(|e| { eprintln!("{file}: {e}"); std::process::exit(2) });
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k).map(|s| s.trim().to_string())).unwrap_or_default();
    let id = get("property ");
    let p = crate::props::all().into_iter().find(|p| p.id() == id).expect("property of the replay file");
    let v = replay_job(&*p, get("phase ").parse().unwrap(), get("job ").parse().unwrap(), get("tier ") == "thorough");
    if v.is_empty() { println!("replayed without a violation"); 0 } else { println!("VIOLATION property={id} replay={file} [{}] {}", v[0].sig, v[0].text); 1 }
}
