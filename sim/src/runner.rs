//! Forks one child per simulated run, searches over seeds, minimises failures,
//! writes replay files and evidence.
use crate::case::{Case, Sched};
use crate::rng::Rng;
use crate::rt::{self, Outcome};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::os::raw::{c_int, c_short, c_void};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> c_int;
    fn pipe(f: *mut c_int) -> c_int;
    fn waitpid(p: c_int, s: *mut c_int, o: c_int) -> c_int;
    fn kill(p: c_int, s: c_int) -> c_int;
    fn poll(f: *mut PollFd, n: u64, t: c_int) -> c_int;
    fn read(fd: c_int, b: *mut c_void, n: usize) -> isize;
    fn close(fd: c_int) -> c_int;
    fn _exit(c: c_int) -> !;
    fn fcntl(fd: c_int, c: c_int, ...) -> c_int;
    fn prctl(o: c_int, ...) -> c_int;
    fn mmap(a: *mut c_void, l: usize, p: c_int, f: c_int, fd: c_int, o: i64) -> *mut c_void;
    fn munmap(a: *mut c_void, l: usize) -> c_int;
}
#[repr(C)]
struct PollFd { fd: c_int, events: c_short, revents: c_short }

pub struct PropDef {
    pub id: &'static str,
    pub gen: fn(&mut Case, &mut Rng),
    pub run: fn(&Case),
    pub quick: usize,
    pub thorough: usize,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub assumptions: &'static [&'static str],
}

pub fn make_case(p: &PropDef, seed: u64) -> Case {
    let mut r = Rng::new(seed);
    let mut c = Case { prop: p.id.to_string(), seed, ..Default::default() };
    // swarm style: how often the scheduler preempts differs per run
    c.pa = *r.pick(&[0, 0, 16, 64, 256, 1024, 4096]);
    c.po = *r.pick(&[8192, 16384, 32768, 49152]);
    (p.gen)(&mut c, &mut r);
    c
}

struct Child { pid: c_int, fd: c_int, buf: Vec<u8>, start: Instant, tag: usize, beat: *mut u64, last: (u64, Instant) }

fn spawn(p: &PropDef, case: &Case, sched: &Sched, tag: usize) -> Child {
    unsafe {
        let mut fds = [0 as c_int; 2];
        assert!(pipe(fds.as_mut_ptr()) == 0, "pipe");
        let beat = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *mut u64;
        assert!(beat as isize != -1, "mmap");
        let pid = fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            prctl(1, 9u64); // die with the parent
            close(fds[0]);
            rt::child_setup(fds[1]);
            rt::sim_beat(beat);
            rt::disk::reset();
            let empty = vec![];
            let (rep, decs) = match sched { Sched::Random => (0, &empty), Sched::Replay(d) => (1, d) };
            rt::sim_begin(case.seed, case.pa, case.po, rep, decs.as_ptr(), (decs.len() / 2) as c_int);
            (p.run)(case);
            rt::pass();
        }
        close(fds[1]);
        fcntl(fds[0], 4, 0o4000);
        Child { pid, fd: fds[0], buf: vec![], start: Instant::now(), tag, beat, last: (0, Instant::now()) }
    }
}

fn parse(buf: &[u8], killed: bool, status: c_int) -> Outcome {
    let mut o = Outcome::default();
    let t = String::from_utf8_lossy(buf);
    let mut ended = false;
    let mut counts = BTreeMap::new();
    for l in t.lines() {
        let (k, r) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "V" => { let (c, m) = r.split_once('\t').unwrap_or((r, "")); o.violation = Some((c.to_string(), m.to_string())); }
            "S" => {
                let v: Vec<u64> = r.split(' ').map(|x| x.parse().unwrap_or(0)).collect();
                if v.len() == 6 { o.steps = v[0]; o.switches = v[1]; o.sim_ns = v[2]; o.ihash = v[3]; o.shash = v[4]; o.loghash = v[5]; }
            }
            "C" => { if let Some((a, b)) = r.split_once(' ') { counts.insert(a.to_string(), b.parse().unwrap_or(0)); } }
            "D" => { if let Some((a, b)) = r.split_once(' ') { o.decs.push(a.parse().unwrap_or(0)); o.decs.push(b.parse().unwrap_or(0)); } }
            "END" => ended = true,
            _ => {}
        }
    }
    o.counts = counts;
    if !ended {
        if killed { o.violation = Some(("hang".into(), "the run did not finish (endless loop without a scheduling point)".into())); }
        else { o.violation = Some(("crash".into(), format!("process ended without a result, wait status {}", status))); }
        o.counts.insert("_no_trace".into(), 1);
    }
    if let Some((c, m)) = &o.violation { if c == "harness" { o.harness_error = Some(m.clone()); } }
    o
}

pub struct Pool<'a> { p: &'a PropDef, kids: Vec<Child>, max: usize, timeout: Duration, stuck: Duration }
impl<'a> Pool<'a> {
    pub fn new(p: &'a PropDef, max: usize) -> Self { Pool { p, kids: vec![], max, timeout: Duration::from_secs(45), stuck: Duration::from_secs(30) } }
    pub fn full(&self) -> bool { self.kids.len() >= self.max }
    pub fn busy(&self) -> bool { !self.kids.is_empty() }
    pub fn submit(&mut self, case: &Case, sched: &Sched, tag: usize) { let k = spawn(self.p, case, sched, tag); self.kids.push(k); }
    /// Waits until at least one run is over.
    pub fn wait(&mut self) -> Vec<(usize, Outcome)> {
        let mut done = vec![];
        while done.is_empty() && !self.kids.is_empty() {
            let mut pf: Vec<PollFd> = self.kids.iter().map(|k| PollFd { fd: k.fd, events: 1, revents: 0 }).collect();
            unsafe { poll(pf.as_mut_ptr(), pf.len() as u64, 500) };
            let mut i = 0;
            while i < self.kids.len() {
                let mut eof = false;
                let mut tmp = [0u8; 65536];
                loop {
                    let n = unsafe { read(self.kids[i].fd, tmp.as_mut_ptr() as *mut c_void, tmp.len()) };
                    if n > 0 { self.kids[i].buf.extend_from_slice(&tmp[..n as usize]); }
                    else if n == 0 { eof = true; break; }
                    else { break; }
                }
                let mut killed = false;
                let mut slow = false;
                let b = unsafe { self.kids[i].beat.read_volatile() };
                if b != self.kids[i].last.0 { self.kids[i].last = (b, Instant::now()); }
                if !eof && (self.kids[i].last.1.elapsed() > self.stuck || self.kids[i].start.elapsed() > self.timeout) {
                    slow = self.kids[i].last.1.elapsed() <= self.stuck;
                    unsafe { kill(self.kids[i].pid, 9) };
                    killed = true;
                }
                if eof || killed {
                    let k = self.kids.swap_remove(i);
                    let mut st = 0;
                    unsafe { waitpid(k.pid, &mut st, 0); close(k.fd); munmap(k.beat as *mut c_void, 4096); }
                    let mut o = parse(&k.buf, killed, st);
                    // a run that is only slow is given up, it says nothing
                    if slow { o.violation = None; o.counts.insert("runs_given_up".into(), 1); }
                    done.push((k.tag, o));
                } else { i += 1; }
            }
        }
        done
    }
}

pub fn one(p: &PropDef, case: &Case, sched: &Sched) -> Outcome {
    let mut pool = Pool::new(p, 1);
    pool.submit(case, sched, 0);
    loop { if let Some((_, o)) = pool.wait().pop() { return o; } }
}

fn same(o: &Outcome, class: &str) -> bool { matches!(&o.violation, Some((c, _)) if c == class) }

/// Tries to make the case fail with the same class; returns the schedule that did.
fn still_fails(p: &PropDef, c: &Case, decs: &[u64], class: &str, tries: usize) -> Option<(Case, Vec<u64>, String)> {
    let mut cands: Vec<(Case, Sched)> = vec![(c.clone(), Sched::Replay(vec![])), (c.clone(), Sched::Replay(decs.to_vec()))];
    for t in 0..tries { let mut c2 = c.clone(); if t > 0 { c2.seed = c.seed.wrapping_add(t as u64 * 7919); } cands.push((c2, Sched::Random)); }
    let mut pool = Pool::new(p, 8);
    let mut i = 0;
    let mut best: Option<(usize, Outcome)> = None;
    loop {
        while i < cands.len() && !pool.full() && best.is_none() { pool.submit(&cands[i].0, &cands[i].1, i); i += 1; }
        if !pool.busy() { break; }
        for (t, o) in pool.wait() {
            if same(&o, class) && o.counts.get("_no_trace").is_none() && best.as_ref().map(|b| t < b.0).unwrap_or(true) { best = Some((t, o)); }
        }
    }
    best.map(|(t, o)| { let m = o.violation.unwrap().1; (cands[t].0.clone(), o.decs, m) })
}

pub fn minimise(p: &PropDef, case: &Case, decs: &[u64], class: &str, msg: &str, budget: Duration) -> (Case, Vec<u64>, String) {
    let t0 = Instant::now();
    let mut best = (case.clone(), decs.to_vec(), msg.to_string());
    let tries = 6;
    // operations: delta debugging
    let mut chunk = (best.0.ops.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut changed = false;
        while i < best.0.ops.len() && t0.elapsed() < budget {
            let e = (i + chunk).min(best.0.ops.len());
            let mut c = best.0.clone();
            c.ops.drain(i..e);
            if let Some(b) = still_fails(p, &c, &best.1, class, tries) { best = b; changed = true; } else { i = e; }
        }
        if t0.elapsed() >= budget { break; }
        if chunk == 1 { if !changed { break; } } else { chunk = (chunk / 2).max(1); }
    }
    // schedule decisions
    let n = |d: &Vec<u64>| d.len() / 2;
    let mut chunk = (n(&best.1) / 2).max(1);
    while n(&best.1) > 0 && t0.elapsed() < budget {
        let mut i = 0;
        let mut changed = false;
        while i < n(&best.1) && t0.elapsed() < budget {
            let e = (i + chunk).min(n(&best.1));
            let mut d = best.1.clone();
            d.drain(2 * i..2 * e);
            let o = one(p, &best.0, &Sched::Replay(d));
            if same(&o, class) && o.counts.get("_no_trace").is_none() && o.decs.len() < best.1.len() { best.1 = o.decs.clone(); best.2 = o.violation.unwrap().1; changed = true; } else { i = e; }
        }
        if chunk == 1 && !changed { break; }
        chunk = (chunk / 2).max(1);
    }
    best
}

#[derive(Clone)]
pub struct Finding { pub prop: String, pub class: String, pub needle: String, pub text: String }
pub fn known_findings(verif: &str) -> Vec<Finding> {
    let mut v = vec![];
    if let Ok(t) = std::fs::read_to_string(format!("{}/known_findings.txt", verif)) {
        for l in t.lines() {
            if let Some(r) = l.strip_prefix("finding: ") {
                let mut f = Finding { prop: String::new(), class: String::new(), needle: String::new(), text: String::new() };
                let parts: Vec<&str> = r.split(" | ").collect();
                for p in parts { 
                    if let Some(x) = p.strip_prefix("property=") { f.prop = x.trim().to_string(); }
                    else if let Some(x) = p.strip_prefix("class=") { f.class = x.trim().to_string(); }
                    else if let Some(x) = p.strip_prefix("match=") { f.needle = x.trim().to_string(); }
                    else { f.text = p.trim().to_string(); }
                }
                v.push(f);
            }
        }
    }
    v
}

pub fn check(p: &PropDef, tier: &str, verif: &str) -> i32 {
    let vseed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let scale: f64 = std::env::var("HXSIM_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let (n, cap) = if tier == "thorough" { (p.thorough, 660) } else { (p.quick, 50) };
    let n = ((n as f64) * scale) as usize;
    let cap = std::env::var("HXSIM_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(cap);
    let t0 = Instant::now();
    println!("hxsim: property {} tier {} VERIF_SEED={} runs<={} wall<={}s", p.id, tier, vseed, n, cap);
    let known: Vec<Finding> = known_findings(verif).into_iter().filter(|f| f.prop == p.id).collect();
    let mut hits: HashMap<usize, usize> = HashMap::new();
    let mut base = Rng::new(vseed.wrapping_mul(0x9E37).wrapping_add(p.id.bytes().fold(7u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64))));
    let base = base.u64();
    let seed_of = |i: usize| { let mut r = Rng::new(base ^ (i as u64).wrapping_mul(0xD1B54A32D192ED03)); r.u64() >> 1 };
    let mut pool = Pool::new(p, std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8));
    let mut i = 0;
    let mut viol: Option<(usize, Outcome)> = None;
    let (mut runs, mut steps, mut switches, mut sim_ns) = (0u64, 0u64, 0u64, 0u64);
    let mut ih = HashSet::new();
    let mut sh = HashSet::new();
    let mut nontrivial = HashSet::new();
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut herr: Option<String> = None;
    let mut samples = vec![];
    // determinism self check: some runs are executed twice and compared
    let mut twice: HashMap<usize, (u64, u64, u64)> = HashMap::new();
    let mut det_checked = 0u64;
    let mut det_bad = 0u64;
    let mut queue_again: Vec<usize> = vec![];
    loop {
        while !pool.full() && viol.is_none() && herr.is_none() && t0.elapsed() < Duration::from_secs(cap) {
            if let Some(j) = queue_again.pop() {
                let c = make_case(p, seed_of(j));
                pool.submit(&c, &Sched::Random, j + (1 << 40));
            } else if i < n {
                let c = make_case(p, seed_of(i));
                if samples.len() < 3 { samples.push(format!("seed {}: cfg {:?}; first ops: {}", c.seed, c.cfg, c.ops.iter().take(6).cloned().collect::<Vec<_>>().join("; "))); }
                pool.submit(&c, &Sched::Random, i);
                i += 1;
            } else { break; }
        }
        if !pool.busy() { break; }
        for (t, o) in pool.wait() {
            if t >= (1 << 40) {
                let j = t - (1 << 40);
                det_checked += 1;
                if let Some(k) = twice.get(&j) {
                    if *k != (o.loghash, o.ihash, o.steps) { det_bad += 1; eprintln!("warning: seed {} is not deterministic: {:?} vs {:?}", seed_of(j), k, (o.loghash, o.ihash, o.steps)); }
                }
                continue;
            }
            runs += 1;
            steps += o.steps; switches += o.switches; sim_ns += o.sim_ns.saturating_sub(1_000_000_000);
            ih.insert(o.ihash); sh.insert(o.shash);
            for (k, v) in &o.counts { *counts.entry(k.clone()).or_insert(0) += v; }
            if o.counts.get("checks").copied().unwrap_or(0) > 0 { nontrivial.insert((o.shash, o.ihash)); }
            if let Some(e) = &o.harness_error { herr = Some(format!("seed {}: {}", seed_of(t), e)); continue; }
            if let Some((c, m)) = &o.violation {
                if let Some(k) = known.iter().position(|f| f.class == *c && m.contains(&f.needle)) { *hits.entry(k).or_insert(0) += 1; continue; }
                if viol.as_ref().map(|v| t < v.0).unwrap_or(true) { viol = Some((t, o)); }
            } else if t % 40 == 0 { twice.insert(t, (o.loghash, o.ihash, o.steps)); queue_again.push(t); }
        }
    }
    let search = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut nviol = 0;
    for (k, f) in known.iter().enumerate() {
        println!("KNOWN-FINDING: property={} {} (seen in {} runs)", p.id, f.text, hits.get(&k).copied().unwrap_or(0));
    }
    if let Some(e) = &herr { eprintln!("harness error: {}", e); code = 2; }
    if let (Some((t, o)), 0) = (viol, code) {
        let case = make_case(p, seed_of(t));
        let (class, msg) = o.violation.clone().unwrap();
        println!("violation: seed {} class {}: {}", case.seed, class, msg);
        let (c, sched, msg) = if o.counts.get("_no_trace").is_some() { (case, Sched::Random, msg) } else {
            let (c, d, m) = minimise(p, &case, &o.decs, &class, &msg, Duration::from_secs(45));
            (c, Sched::Replay(d), m)
        };
        let dir = format!("{}/replays", verif);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-{}.replay", dir, p.id, seed_of(t));
        // the minimised trace, else the recorded one, else the seed itself: whichever replays
        let orig = make_case(p, seed_of(t));
        let msg0 = o.violation.clone().unwrap().1;
        let cands = [(c, sched, msg), (orig.clone(), Sched::Replay(o.decs.clone()), msg0.clone()), (orig, Sched::Random, msg0)];
        let mut last = None;
        for (c, sched, msg) in cands.iter() {
            let again = one(p, c, sched);
            if !same(&again, &class) { last = Some(again.violation); continue; }
            std::fs::write(&path, c.to_text(sched, &class, msg)).expect("write replay");
            println!("minimised to {} operations, {} schedule decisions: {}", c.ops.len(), if let Sched::Replay(d) = sched { d.len() / 2 } else { 0 }, msg);
            for op in c.ops.iter().take(40) { println!("  op {}", op); }
            println!("VIOLATION property={} replay={}", p.id, path);
            code = 1; nviol = 1;
            break;
        }
        if code == 0 {
            eprintln!("harness error: the violation did not replay: {:?}", last);
            code = 2;
        }
    }
    let faults: BTreeMap<String, u64> = counts.iter().filter(|(k, _)| k.starts_with("fault_")).map(|(k, v)| (k[6..].to_string(), *v)).collect();
    let probes: BTreeMap<String, u64> = counts.iter().filter(|(k, _)| k.starts_with("probe_")).map(|(k, v)| (k[6..].to_string(), *v)).collect();
    let opc: BTreeMap<String, u64> = counts.iter().filter(|(k, _)| k.starts_with("op_")).map(|(k, v)| (k[3..].to_string(), *v)).collect();
    let evals = counts.get("checks").copied().unwrap_or(0);
    let ev = serde_json::json!({
        "property": p.id, "tier": tier, "seed": vseed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": nontrivial.len(), "rule": p.rule, "samples": samples,
            "simulated_runs": runs, "runs_per_hour": (runs as f64 / search.max(0.001) * 3600.0) as u64, "seeds_per_hour": (runs as f64 / search.max(0.001) * 3600.0) as u64,
            "simulated_seconds": sim_ns as f64 / 1e9, "scheduling_points": steps, "context_switches": switches,
            "distinct_interleavings": ih.len(), "distinct_state_histories": sh.len(),
            "interleaving_measure": "hash over the sequence of (scheduling point number, thread switched to)",
            "faults_injected": faults, "probes": probes, "operations": opc,
            "determinism_reruns": det_checked, "determinism_divergences": det_bad, "real_components": p.real, "stubbed_components": p.stub,
            "known_findings_seen": hits.len()
        },
        "wall_s": t0.elapsed().as_secs_f64(),
        "assumptions": p.assumptions, "violations": nviol
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif));
    std::fs::write(format!("{}/evidence/{}.json", verif, p.id), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    println!("hxsim: {} runs, {} checks, {} distinct interleavings, {:.1} simulated s, {} determinism re-runs, {:.1} s wall", runs, evals, ih.len(), sim_ns as f64 / 1e9, det_checked, t0.elapsed().as_secs_f64());
    if !probes.is_empty() { println!("probes: {:?}", probes); }
    if !faults.is_empty() { println!("faults: {:?}", faults); }
    code
}

pub fn determinism(p: &PropDef, n: usize) -> i32 {
    let mut bad = 0;
    for workers in [1usize, 8, 16] {
        let mut pool = Pool::new(p, workers);
        let mut seen: HashMap<usize, (u64, u64, u64)> = HashMap::new();
        let total = n * 2;
        let mut i = 0;
        loop {
            while i < total && !pool.full() { let c = make_case(p, 77_000 + (i % n) as u64); pool.submit(&c, &Sched::Random, i); i += 1; }
            if !pool.busy() { break; }
            for (t, o) in pool.wait() {
                let k = (o.loghash, o.ihash, o.steps);
                if let Some(e) = &o.violation { if bad < 3 { println!("seed {} violation {:?}", 77_000 + t % n, e); } }
                if let Some(q) = seen.insert(t % n, k) { if q != k { bad += 1; println!("seed {} differs {:?} {:?}", 77_000 + t % n, q, k); } }
            }
        }
    }
    println!("{}: {} seeds x2 at 1/8/16 workers, {} divergences", p.id, n, bad);
    if bad > 0 { 2 } else { 0 }
}
