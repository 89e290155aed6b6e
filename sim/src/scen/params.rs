//! P01: every parameter change reaches the DSP code, without overshoot, within the smoothing time.
use super::world::*;
use crate::case::{Case, Tok};
use crate::rng::Rng;
use crate::rt;
use crate::runner::PropDef;
use hexodsp::matrix::{Cell, Matrix};
use hexodsp::*;

pub const DEF: PropDef = PropDef {
    id: "P01", gen, run, quick: 1500, thorough: 60000,
    rule: "one evaluation = one parameter input observed over one audio block by a probe node; a run is distinct by (state history hash, interleaving hash)",
    real: super::REAL_ENGINE, stub: super::STUB_ENGINE,
    assumptions: &["the audio thread keeps calling process_graph_updates before each block"],
};

const NP: usize = 5;
#[derive(Clone, Copy)]
struct Set { v: f32, op: usize, jump: bool }
#[derive(Clone, Default)]
struct Par { sets: Vec<Set>, def: usize, since: u64, last: Option<f32>, live: bool, width: f32 }
#[derive(Default)]
struct Probe { par: Vec<Par>, obs: Vec<Option<Vec<f32>>>, changed: Vec<u64> }
static PROBE: Shared<Probe> = Shared::new();

fn gen(c: &mut Case, r: &mut Rng) {
    let many = r.chance(1, 3);
    c.set("nodes", if many { r.range(9, 20) } else { r.range(1, 6) });
    c.set("sr", *r.pick(&[44100, 48000, 22050, 96000, 192000]));
    let (a, b) = *r.pick(&[(128, 128), (1, 128), (64, 64), (1, 7), (16, 100)]);
    c.set("bmin", a); c.set("bmax", b);
    let n = r.range(10, 60);
    let w = [40, if many { 12 } else { 2 }, 8, 6, 25, 3, 6, if r.chance(1, 3) { 3 } else { 0 }, if r.chance(1, 3) { 2 } else { 0 }];
    for _ in 0..n {
        match r.weighted(&w) {
            0 => { let k = r.below(20); let p = r.below(NP); let v = r.range(-100, 100); c.op(format!("set {} {} {}", k, p, v)); }
            1 => { let k = r.range(20, 100); let s = r.u64() % 100000; c.op(format!("burst {} {}", k, s)); }
            2 => c.op("sync"),
            3 => { let k = r.below(20); c.op(format!("add {}", k)); }
            4 => { let t = *r.pick(&[10, 200, 1000, 3000, 12000, 30000]); c.op(format!("sleep {}", t)); }
            5 => { let t = r.range(1000, 60000); c.op(format!("stall {}", t)); }
            6 => { let k = r.below(20); let p = r.below(NP); let v = r.range(-100, 100); c.op(format!("mod {} {} {}", k, p, v)); }
            7 => c.op("reset"),
            _ => { let n = r.range(150, 700); let s = r.u64() % 100000; c.op(format!("flood {} {}", n, s)); }
        }
    }
}

fn pid(k: usize, p: usize) -> ParamId { NodeId::Rust1x1(k as u8).inp_param_by_idx(p).unwrap() }
fn install(m: &Matrix, k: usize) {
    m.set_dynamic_node1x1(k, Box::new(move |inp: &[f32], out: &mut [f32], ctx: &DynNode1x1Context| {
        PROBE.with(|pr| {
            for (i, s) in [inp, ctx.alpha_slice(), ctx.beta_slice(), ctx.delta_slice(), ctx.gamma_slice()].iter().enumerate() {
                pr.obs[k * NP + i] = Some(s.to_vec());
            }
        });
        for o in out.iter_mut() { *o = 0.0; }
    }));
}

fn on_block(b: &Blk) {
    PROBE.with(|pr| {
        let slope = (b.sr * 0.010).ceil() as u64;
        // how many parameters changed recently (the engine has a limited number of ramps)
        let f0 = b.frame0;
        let distinct = pr.changed.iter().filter(|f| **f > 0 && **f - 1 + 3 * slope + 512 > f0).count();
        let nchanged = pr.par.iter().filter(|p| !p.sets.is_empty() && p.sets.partition_point(|s| s.op <= b.started) != p.def + 1).count();
        for i in 0..pr.par.len() {
            let obs = pr.obs[i].take();
            let p = &mut pr.par[i];
            if p.sets.is_empty() { continue; }
            let new_def = p.sets.partition_point(|s| s.op <= b.done).checked_sub(1);
            let maybe: Vec<Set> = p.sets[new_def.map(|x| x + 1).unwrap_or(0)..].iter().take_while(|s| s.op <= b.started).copied().collect();
            let Some(nd) = new_def else { continue };
            let mut jump = maybe.iter().any(|s| s.jump);
            if nd != p.def || p.last.is_none() {
                if nd != p.def && p.sets[p.def + 1..=nd].iter().any(|s| s.jump) { jump = true; }
                p.def = nd; p.since = 0;
                pr.changed[i] = f0 + 1;
            }
            if !maybe.is_empty() { pr.changed[i] = f0 + 1; }
            let vd = p.sets[nd].v;
            let Some(o) = obs else {
                // a definitely placed node must be executed in every block
                if p.live && maybe.is_empty() && p.since > 0 { rt::fail("not-executed", format!("node of parameter {} is in the synced matrix but was not executed in the block at frame {}", i, f0)); }
                if jump { p.last = None; }
                continue;
            };
            rt::count("checks", 1);
            let start = p.last.unwrap_or(vd);
            let mut lo = start.min(vd); let mut hi = start.max(vd);
            for s in &maybe { lo = lo.min(s.v); hi = hi.max(s.v); }
            if p.since >= slope + 2 && maybe.is_empty() { p.width = 0.0; }
            p.width = p.width.max(hi - lo);
            if jump || p.last.is_none() { p.width = 2.0; }
            if p.last.is_some() && !jump {
                for (k, v) in o.iter().enumerate() {
                    if !(*v >= lo - 1e-4 && *v <= hi + 1e-4) {
                        rt::fail("overshoot", format!("parameter {} sample {} of the block at frame {} is {} outside of {}..{} (set to {})", i, k, f0, v, lo, hi, vd));
                    }
                }
                if distinct + nchanged <= 30 {
                    let maxstep = p.width * 1.1 / slope as f32 + 1e-4;
                    let mut prev = start;
                    for v in o.iter() {
                        if (v - prev).abs() > maxstep { rt::fail("step", format!("parameter {} jumps from {} to {} in one sample at frame {}+ (ramp of {} samples expected)", i, prev, v, f0, slope)); }
                        prev = *v;
                    }
                }
            }
            if maybe.is_empty() && p.since >= slope + 2 {
                for v in o.iter() {
                    if (v - vd).abs() > 1e-5 { rt::fail("lost-param", format!("parameter {} was set to {} but the DSP code still sees {} after {} frames ({} expected at most)", i, vd, v, p.since, slope + 2)); }
                }
            }
            p.last = if jump { None } else { o.last().copied() };
            p.since += b.n as u64;
            rt::state(((o[0] * 50.0) as i64 as u64) ^ (i as u64) << 32);
        }
    })
}

static mut SENT: (usize, usize) = (0, 0);
/// Outside of the overflow fault the audio thread gets a chance to drain its queue of 512 messages.
fn throttle() {
    let nb = HOST.with(|h| h.nblocks);
    unsafe {
        if SENT.0 != nb { SENT = (nb, 0); }
        SENT.1 += 3;
        if SENT.1 > 450 { wait_blocks(2); }
    }
}
fn set(m: &mut Matrix, k: usize, p: usize, v: f32) {
    throttle();
    let opn = ops_done() + 1;
    PROBE.with(|pr| pr.par[k * NP + p].sets.push(Set { v, op: opn, jump: false }));
    op(&format!("set {} {} {}", k, p, v), || m.set_param(pid(k, p), v.into()));
    let g = m.get_param(&pid(k, p)).map(|a| a.f());
    if g != Some(v) { rt::fail("ui-param", format!("get_param after set_param({}) returns {:?}", v, g)); }
}

fn run(c: &Case) {
    host_init();
    let (conf, mut exec) = new_node_engine();
    exec.no_logging();
    let mut m = Matrix::new(conf, 8, 8);
    let nn = c.c("nodes") as usize;
    PROBE.init(Probe { par: vec![Par::default(); 20 * NP], obs: vec![None; 20 * NP], changed: vec![0; 20 * NP] });
    let mut placed = vec![false; 20];
    let place = |m: &mut Matrix, placed: &mut Vec<bool>, list: &[usize]| {
        for &k in list { m.place((k / 4) % 8, (k % 4) * 2, Cell::empty(NodeId::Rust1x1(k as u8))); placed[k] = true; }
        let opn = ops_done() + 1;
        PROBE.with(|pr| for &k in list { for p in 0..NP {
            // smaller instances are created as well
            let par = &mut pr.par[k * NP + p];
            if par.sets.is_empty() { par.sets.push(Set { v: 0.0, op: opn, jump: false }); }
            let v = par.sets.last().unwrap().v;
            par.sets.push(Set { v, op: opn, jump: true });
            par.live = true;
        } });
        op("sync", || m.sync().unwrap());
        for &k in list { op("dyn", || install(m, k)); }
    };
    let first: Vec<usize> = (0..nn).collect();
    for k in 0..20 { install(&m, k); }
    place(&mut m, &mut placed, &first);
    HOST.with(|h| { h.keep = false; h.on_block = Some(Box::new(on_block)); });
    let audio = spawn_audio(exec, AudioCfg { sr: c.c("sr") as f32, min: c.c("bmin") as usize, max: c.c("bmax") as usize, seed: c.seed ^ 5, sleep: true });
    wait_blocks(2);
    for o in &c.ops {
        throttle();
        let mut t = Tok::new(o);
        match t.s() {
            "set" => { let (k, p, v) = (t.u() % 20, t.u() % NP, t.f() / 100.0); if placed[k] { set(&mut m, k, p, v); rt::count("op_set", 1); } }
            "burst" => {
                let (n, s) = (t.u(), t.u());
                let mut r = Rng::new(s as u64);
                let live: Vec<usize> = (0..20).filter(|k| placed[*k]).collect();
                for _ in 0..n { let k = *r.pick(&live); let p = r.below(NP); let v = r.range(-100, 100) as f32 / 100.0; set(&mut m, k, p, v); }
                rt::count("op_burst", 1);
            }
            "flood" => {
                let (n, s) = (t.u(), t.u());
                let mut r = Rng::new(s as u64);
                let live: Vec<usize> = (0..20).filter(|k| placed[*k]).collect();
                HOST.with(|h| h.cmds.push(Cmd::Stall(400_000_000)));
                rt::sleep_us(6000);
                // one operation: it is complete when the queue had a chance to drain
                let opn = ops_done() + 1;
                op("flood", || {
                    for _ in 0..n {
                        let k = *r.pick(&live); let p = r.below(NP); let v = r.range(-100, 100) as f32 / 100.0;
                        PROBE.with(|pr| pr.par[k * NP + p].sets.push(Set { v, op: opn, jump: false }));
                        m.set_param(pid(k, p), v.into());
                    }
                    rt::count("fault_queue_overflow", (n > 512) as u64);
                    rt::sleep_us(420_000);
                    for _ in 0..4 { m.update_filters(); rt::sleep_us(6_000); }
                });
            }
            "sync" => { op("sync", || m.sync().unwrap()); rt::count("op_sync", 1); }
            "add" => { let k = t.u() % 20; if !placed[k] { place(&mut m, &mut placed, &[k]); rt::count("op_add", 1); } }
            "sleep" => rt::sleep_us(t.u() as u64),
            "stall" => { let ns = t.u() as u64 * 1000; HOST.with(|h| h.cmds.push(Cmd::Stall(ns))); }
            "mod" => { let (k, p, v) = (t.u() % 20, t.u() % NP, t.f() / 100.0); if placed[k] { op("mod", || { let _ = m.set_param_modamt(pid(k, p), Some(v)); }); rt::count("op_mod", 1); } }
            "reset" => {
                let list: Vec<usize> = (0..20).filter(|k| placed[*k]).take(3).collect();
                let opn = ops_done() + 1;
                PROBE.with(|pr| for p in pr.par.iter_mut() { if !p.sets.is_empty() { p.sets.push(Set { v: 0.0, op: opn, jump: true }); } p.live = false; });
                op("clear", || m.clear());
                for k in 0..20 { placed[k] = false; }
                place(&mut m, &mut placed, &list);
                rt::count("op_reset", 1);
            }
            _ => {}
        }
        m.update_filters();
    }
    // quiet period: everything has to arrive
    for _ in 0..3 { m.update_filters(); rt::sleep_us(3000); }
    wait_frames((c.c("sr") as f32 * 0.010) as u64 + 800);
    for k in 0..20 { for p in 0..NP { if placed[k] {
        let want = PROBE.with(|pr| pr.par[k * NP + p].sets.last().map(|s| s.v));
        let got = m.get_param(&pid(k, p)).map(|a| a.f());
        if want != got { rt::fail("ui-param", format!("get_param of node {} input {} returns {:?}, expected {:?}", k, p, got, want)); }
    } } }
    audio.stop();
}
