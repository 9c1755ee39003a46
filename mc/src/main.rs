#![feature(f16)]
#![cfg_attr(feature = "sched", allow(dead_code))]
//! Exhaustive bounded exploration of the pic-scale implementation.
mod access; mod case; mod conv; mod cpu; mod explore; mod guard; mod img; mod props; mod refm; mod report; mod step; mod threads;
use std::time::Duration;

fn usage() -> ! { eprintln!("usage: mc check <ID> [--tier quick|thorough] | mc replay <file> | mc list"); std::process::exit(2) }
fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args.first().map(|s| s.as_str()) {
        Some("list") => for p in props::all() { println!("{}", p.id()); },
        Some("check") => {
            let id = args.get(1).unwrap_or_else(|| usage());
            let mut thorough = false;
            let mut budget = 0u64;
            let mut i = 2;
            while i < args.len() {
                match args[i].as_str() {
                    "--tier" => { thorough = args.get(i + 1).map(|s| s == "thorough").unwrap_or(false); i += 1; }
                    "--budget" => { budget = args.get(i + 1).and_then(|s| s.parse().ok()).unwrap_or_else(|| usage()); i += 1; }
                    _ => usage(),
                }
                i += 1;
            }
            let p = props::all().into_iter().find(|p| p.id() == id).unwrap_or_else(|| { eprintln!("no such property: {id}"); std::process::exit(2) });
            let budget = if budget > 0 { budget } else if thorough { 3000 } else { 600 };
            let r = explore::explore(&*p, thorough, Duration::from_secs(budget));
            std::process::exit(report::finish(&*p, thorough, r));
        }
        Some("axis") => { let n: usize = args[2].parse().unwrap(); let m: usize = args[3].parse().unwrap(); for (i, a) in refm::axis(case::filt(&args[1]), n, m).iter().enumerate() { for t in a { println!("{i}: start {} {:?} cond {:.3} slack {:.2e}", t.start, t.w, t.cond, t.slack); } } }
        Some("replay") => std::process::exit(report::replay(args.get(1).unwrap_or_else(|| usage()))),
        _ => usage(),
    }
}
