#![allow(static_mut_refs, dead_code)]
mod case;
mod rng;
mod rt;
mod runner;
mod scen;

use case::{Case, Sched};

#[global_allocator]
static A: rt::SimAlloc = rt::SimAlloc;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let verif = std::env::var("HXSIM_VERIF").unwrap_or_else(|_| "/verif".into());
    let find = |id: &str| scen::ALL.iter().find(|p| p.id == id).unwrap_or_else(|| { eprintln!("unknown property {}", id); std::process::exit(2) });
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => runner::check(find(&a[2]), a.get(3).map(|s| s.as_str()).unwrap_or("quick"), &verif),
        Some("replay") => {
            let t = std::fs::read_to_string(&a[2]).expect("replay file");
            let (c, s, class) = Case::from_text(&t).expect("replay format");
            if a.iter().any(|x| x == "-v") { unsafe { rt::VERBOSE = true } }
            let o = runner::one(find(&c.prop), &c, &s);
            match &o.violation {
                Some((k, m)) => { println!("reproduced={} class {} : {}", *k == class, k, m); println!("VIOLATION property={} replay={}", c.prop, a[2]); 1 }
                None => { println!("no violation"); 0 }
            }
        }
        Some("one") => {
            let p = find(&a[2]);
            let c = runner::make_case(p, a[3].parse().unwrap());
            if a.iter().any(|x| x == "-v") { unsafe { rt::VERBOSE = true } }
            if a.iter().any(|x| x == "-p") { println!("{}", c.to_text(&Sched::Random, "", "")); }
            let t = std::time::Instant::now();
            let o = runner::one(p, &c, &Sched::Random);
            println!("{:?} viol={:?} steps={} switches={} sim={}ms counts={:?} log={:x}", t.elapsed(), o.violation, o.steps, o.switches, (o.sim_ns.max(1_000_000_000) - 1_000_000_000) / 1_000_000, o.counts, o.loghash);
            0
        }
        Some("determinism") => runner::determinism(find(&a[2]), a.get(3).and_then(|s| s.parse().ok()).unwrap_or(100)),
        Some("list") => { for p in scen::ALL { println!("{}", p.id); } 0 }
        _ => { eprintln!("usage: hxsim check|replay|one|determinism|list"); 2 }
    };
    std::process::exit(code);
}
