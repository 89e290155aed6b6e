//! P18: output feedback and LED values are those of the newest block.
use super::patch;
use super::world::*;
use crate::case::{Case, Tok};
use crate::rng::Rng;
use crate::rt;
use crate::runner::PropDef;
use hexodsp::matrix::{Cell, Matrix};
use hexodsp::matrix_repr::MatrixRepr;
use hexodsp::nodes::NodeExecutor;
use hexodsp::*;
use std::collections::{BTreeMap, VecDeque};

pub const P18: PropDef = PropDef {
    id: "P18", gen, run, quick: 4000, thorough: 200000,
    rule: "one evaluation = one set of output feedback, LED or filtered values read by the user interface and compared with the recorded blocks; a run is distinct by (state history hash, interleaving hash)",
    real: super::REAL_ENGINE, stub: super::STUB_ENGINE,
    assumptions: &["the LED of the nodes listed in the scenario shows the last sample of their first output", "a filtered value covers the last 10 readings"],
};
/// Nodes whose LED is the last sample of the first output.
const LED: &[&str] = &["sin", "noise", "bosc", "vosc", "mix3", "inp", "delay", "allp", "comb", "rndwk", "tslfo", "biqfilt", "sfilter", "ad", "adsr", "mux9"];
struct B { no: usize, done: usize, out: BTreeMap<NodeId, Vec<f32>> }
#[derive(Default)]
struct St { blocks: VecDeque<B>, ended: usize }
static ST: Shared<St> = Shared::new();
const W: usize = 4;
const H: usize = 4;

fn gen(c: &mut Case, r: &mut Rng) {
    let (a, b) = *r.pick(&[(128, 128), (1, 128), (64, 64), (1, 7), (1, 1), (127, 127)]);
    c.set("bmin", a); c.set("bmax", b);
    c.set("sr", *r.pick(&[44100, 48000, 96000, 22050]));
    for _ in 0..r.range(1, 5) { c.op(format!("cell {}", r.u64() % 100000)); }
    for _ in 0..r.range(2, 20) {
        let s = r.u64() % 100000;
        match r.below(18) {
            0 | 1 => c.op(format!("cell {}", s)),
            2 => c.op(format!("edit {}", s)),
            3 => c.op(format!("del {}", s)),
            4 => match r.below(3) { 0 => c.op("clear"), 1 => c.op("reload"), _ => c.op(format!("big {}", s)) },
            5 => c.op(format!("param {}", s)),
            6 => c.op(format!("srate {}", *r.pick(&[44100, 48000, 96000, 22050]))),
            7 => c.op(format!("stall {}", r.range(1000, 100000))),
            8 => { let (a, b) = *r.pick(&[(128, 128), (1, 128), (1, 1), (16, 40)]); c.op(format!("mode {} {}", a, b)); }
            9 | 10 => c.op(format!("wait {}", r.range(1, 600))),
            11 => for _ in 0..r.range(1, 14) { c.op(format!("filt {}", s)); if r.chance(1, 2) { c.op(format!("wait {}", r.range(1, 300))); } },
            12 => for _ in 0..r.range(1, 30) { c.op(format!("filt {}", r.u64() % 100000)); if r.chance(1, 2) { c.op(format!("wait {}", r.range(1, 300))); } },
            13 | 14 => c.op("led"),
            _ => c.op("fb"),
        }
    }
    c.op("wait 200"); c.op("fb"); c.op("led");
}

fn on_exec(exec: &mut NodeExecutor, b: &Blk) {
    ST.with(|st| {
        let p = exec.get_prog();
        let mut out = BTreeMap::new();
        for o in p.prog.iter() { out.insert(o.node.id(), (o.out_idxlen.0..o.out_idxlen.1).map(|i| p.out[i].read(b.n - 1)).collect()); }
        st.blocks.push_back(B { no: b.no, done: b.done, out });
        st.ended = b.no;
        while st.blocks.len() > 64 { st.blocks.pop_front(); }
    })
}
fn same(a: f32, b: f32) -> bool { a == b || (a.is_nan() && b.is_nan()) }
fn ended() -> usize { ST.with(|s| s.ended) }
/// Blocks between the two numbers, when they are over.
fn wait_ended(n: usize) { let mut g = 0; while ended() < n { rt::sleep_us(200); g += 1; if g > 100_000 { rt::fail("harness", "no blocks"); } } }

fn run(c: &Case) {
    host_init();
    let (conf, mut exec) = new_node_engine();
    exec.no_logging();
    let mut m = Matrix::new(conf, W, H);
    ST.init(St::default());
    HOST.with(|h| { h.keep = false; h.on_exec = Some(Box::new(on_exec)); });
    let audio = spawn_audio(exec, AudioCfg { sr: c.c("sr").max(8000) as f32, min: c.c("bmin").max(1) as usize, max: c.c("bmax").max(1) as usize, seed: c.seed ^ 5, sleep: true });
    // the operation after which the program was last replaced
    let mut changed = 0usize;
    // filtered values: (lowest and highest possible values) of the last readings
    let mut filt: BTreeMap<(NodeId, Option<u8>), VecDeque<((f32, f32), (f32, f32))>> = BTreeMap::new();
    let mut fvals: BTreeMap<(NodeId, Option<u8>), (f32, f32)> = BTreeMap::new();
    for o in &c.ops {
        let mut t = Tok::new(o);
        let w = t.s();
        match w {
            "cell" => { let mut r = Rng::new(t.u() as u64); op("cell", || rand_place(&mut m, &mut r)); changed = ops_done(); }
            "edit" => { let mut r = Rng::new(t.u() as u64); op("edit", || { patch::edit(&mut m, &mut r, W, H); let _ = m.sync(); }); changed = ops_done(); }
            "del" => { let mut r = Rng::new(t.u() as u64); op("del", || { let ids = cells(&m); if !ids.is_empty() { let (x, y, _) = *r.pick(&ids); m.place(x, y, Cell::empty(NodeId::Nop)); } let _ = m.sync(); }); changed = ops_done(); }
            "big" => {
                // many instances
                let mut r = Rng::new(t.u() as u64);
                op("big", || { let n = patch::node(*r.pick(LED), *r.pick(&[8, 20, 40])); let c = patch::rand_cell(&mut r, n); m.place(0, 0, c); let _ = m.sync(); });
                changed = ops_done();
            }
            "clear" => { op("clear", || m.clear()); changed = ops_done(); rt::count("op_clear", 1); }
            "reload" => {
                op("reload", || { let mut repr = m.to_repr(); let s = repr.serialize().to_string(); let repr = MatrixRepr::deserialize(&s).unwrap_or_else(|e| rt::fail("reload", format!("{:?}", e))); let _ = m.from_repr(&repr); });
                changed = ops_done();
            }
            "param" => {
                let mut r = Rng::new(t.u() as u64);
                let ids = cells(&m);
                if !ids.is_empty() { let ps = patch::params(r.pick(&ids).2); if !ps.is_empty() { let p = *r.pick(&ps); let v = patch::rand_value(&mut r, &p); op("param", || m.set_param(p, v)); } }
            }
            "srate" => { let s = t.u() as f32; HOST.with(|h| h.cmds.push(Cmd::SampleRate(s))); rt::count("fault_rate_change", 1); }
            "mode" => { let (a, b) = (t.u().max(1), t.u().max(1)); HOST.with(|h| h.cmds.push(Cmd::Mode(a, b))); }
            "stall" => { let ns = t.u() as u64 * 1000; HOST.with(|h| h.cmds.push(Cmd::Stall(ns))); rt::count("fault_audio_stall", 1); }
            "wait" => wait_frames(t.u() as u64),
            "fb" => {
                let n0 = ended();
                op("update", || m.update_filters());
                let n1 = HOST.with(|h| h.nblocks) + 1;
                let mut got: Vec<(NodeId, u8, Option<f32>)> = vec![];
                for (_, _, n) in cells(&m) { for i in 0..patch::n_out(n) as u8 { got.push((n, i, m.out_fb_for(&n, i))); } }
                wait_ended(n1);
                rt::count("checks", 1);
                let err = ST.with(|s| {
                    // nothing of the new program was played yet
                    let last = s.blocks.iter().find(|b| b.no == n0);
                    if last.map_or(true, |b| b.done < changed) && got.iter().all(|g| g.2.map_or(true, |v| v == 0.0)) { rt::count("probe_not_yet", 1); return None; }
                    let mut err = vec![];
                    for b in s.blocks.iter().filter(|b| b.no >= n0 && b.no <= n1) {
                        let e = got.iter().find_map(|(n, i, v)| match b.out.get(n) {
                            Some(o) => if v.map_or(false, |v| same(v, o[*i as usize])) { None } else { Some(format!("output {} of {} shows {:?}, block {} ended with {}", i, n, v, b.no, o[*i as usize])) },
                            None => None,
                        });
                        match e { None => { rt::count("probe_fb", got.len() as u64); rt::state(b.out.len() as u64 * 31 + got.len() as u64); return None; } Some(e) => err.push(e) }
                    }
                    Some(err.join("; "))
                });
                if let Some(e) = err { rt::fail("feedback", e); }
            }
            "led" => {
                for (_, _, n) in cells(&m) {
                    if n.name() == "quant" || n.name() == "cqnt" {
                        // these show the same pitch in both values
                        let (n0, b0) = (ended(), HOST.with(|h| h.begun));
                        let (l, p, l2) = (m.led_value_for(&n), m.phase_value_for(&n), m.led_value_for(&n));
                        let (n1, b1) = HOST.with(|h| (h.nblocks, h.begun));
                        // not while a block is being played
                        if b0 != b1 || n1 != b1 || l != l2 || !range(n0, n0, &n, 0, changed).is_some() { continue; }
                        rt::count("checks", 1); rt::count("probe_phase", 1);
                        if (p - (l / 2.0 + 0.5 + 0.0001)).abs() > 1e-4 { rt::fail("phase", format!("the phase of {} is {} and its LED {}", n, p, l)); }
                        continue;
                    }
                    if !LED.contains(&n.name()) { continue; }
                    let n0 = ended();
                    let v = m.led_value_for(&n);
                    let n1 = HOST.with(|h| h.nblocks) + 1;
                    if let Some(r) = range(n0, n1, &n, 0, changed) {
                        rt::count("checks", 1); rt::count("probe_led", 1);
                        if !r.iter().any(|x| same(*x, v)) { rt::fail("led", format!("the LED of {} shows {}, its output ended the newest blocks with {:?}", n, v, r)); }
                    }
                }
            }
            "filt" => {
                let mut r = Rng::new(t.u() as u64);
                let ids: Vec<NodeId> = cells(&m).iter().map(|c| c.2).filter(|n| LED.contains(&n.name())).collect();
                let n0 = ended();
                let twice = r.chance(1, 5);
                op("filters", || m.update_filters());
                if twice { op("filters", || m.update_filters()); }
                fvals.clear();
                let all: Vec<NodeId> = cells(&m).iter().map(|c| c.2).filter(|n| patch::n_out(*n) > 0).collect();
                let mut prev: Option<NodeId> = None;
                for _ in 0..4 {
                    if all.is_empty() { break; }
                    let n = match prev { Some(n) if r.chance(1, 3) => n, _ => *r.pick(&all) };
                    prev = Some(n);
                    let out = if ids.contains(&n) && r.chance(1, 2) { None } else { Some(r.below(patch::n_out(n)) as u8) };
                    let v = match out { Some(o) => m.filtered_out_fb_for(&n, o), None => m.filtered_led_for(&n) };
                    let n1 = HOST.with(|h| h.nblocks) + 1;
                    rt::count("checks", 1);
                    // asked again without an update: the same
                    if let Some(x) = fvals.get(&(n, out)) { if *x != v { rt::fail("filter", format!("the filtered value of {} {:?} changed from {:?} to {:?} without an update", n, out, x, v)); } continue; }
                    fvals.insert((n, out), v);
                    let q = filt.entry((n, out)).or_default();
                    let (mut lo, mut hi) = ((f32::INFINITY, f32::INFINITY), (0f32, 0f32));
                    match range(n0, n1, &n, out.unwrap_or(0) as usize, usize::MAX) {
                        Some(l) if !l.iter().any(|v| v.is_nan()) => for x in l { let p = (f32::max(-x, 0.0), f32::max(x, 0.0)); lo = (lo.0.min(p.0), lo.1.min(p.1)); hi = (hi.0.max(p.0), hi.1.max(p.1)); },
                        _ => { lo = (0.0, 0.0); hi = (f32::INFINITY, f32::INFINITY); }
                    }
                    // the program might not run yet
                    let settled = ST.with(|s| s.blocks.iter().find(|b| b.no == n0).map_or(false, |b| b.done >= changed && b.out.contains_key(&n)));
                    if !settled { lo = (0.0, 0.0); hi = (f32::INFINITY, f32::INFINITY); }
                    q.push_back((lo, hi));
                    if q.len() > 10 { q.pop_front(); }
                    let f = |g: &dyn Fn(&((f32, f32), (f32, f32))) -> f32| q.iter().map(|x| g(x)).fold(0f32, f32::max);
                    let (l0, h0, l1, h1) = (f(&|x| x.0 .0), f(&|x| x.1 .0), f(&|x| x.0 .1), f(&|x| x.1 .1));
                    if settled { rt::count("probe_filtered", 1); }
                    if v.0 < l0 || v.0 > h0 || v.1 < l1 || v.1 > h1 { rt::fail("filter", format!("the filtered value of {} {:?} is {:?}, the last {} readings give {}..{} and {}..{}", n, out, v, q.len(), l0, h0, l1, h1)); }
                }
            }
            _ => {}
        }
    }
    let exec = audio.stop();
    drop(m); drop(exec);
}
/// What an output ended the blocks n0..=n1 with, when the node was there all the time.
fn range(n0: usize, n1: usize, n: &NodeId, out: usize, changed: usize) -> Option<Vec<f32>> {
    wait_ended(n1);
    ST.with(|s| {
        let mut v = vec![];
        if !s.blocks.iter().any(|b| b.no == n0) { return None; }
        for b in s.blocks.iter().filter(|b| b.no >= n0 && b.no <= n1) {
            if b.no == n0 && changed != usize::MAX && b.done < changed { return None; }
            v.push(*b.out.get(n)?.get(out)?);
        }
        if v.is_empty() { None } else { Some(v) }
    })
}
fn cells(m: &Matrix) -> Vec<(usize, usize, NodeId)> { let mut v = vec![]; m.for_each(|x, y, c| if !c.is_empty() { v.push((x, y, c.node_id())) }); v }
fn rand_place(m: &mut Matrix, r: &mut Rng) {
    let (x, y) = (r.below(W), r.below(H - 1));
    let src = patch::node(*r.pick(&["inp", "sin", "noise", "bosc", "sin", "inp", "tslfo", "rndwk"]), r.below(3) as u8);
    let n = if r.chance(2, 3) { patch::node(*r.pick(LED), r.below(3) as u8) } else if r.chance(1, 3) { patch::node(*r.pick(&["quant", "cqnt"]), r.below(3) as u8) } else { patch::rand_node(r) };
    let (c1, c2) = (patch::rand_cell(r, src), patch::rand_cell(r, n));
    let (o, i) = (r.below(patch::n_out(src).max(1)) as u8, r.below(patch::n_in(n).max(1)) as u8);
    let both = r.chance(2, 3);
    let _ = m.change_matrix(|m| {
        if both && patch::n_in(n) > 0 { m.place(x, y, c1.out(None, None, Some(o))); m.place(x, y + 1, c2.input(Some(i), None, None)); }
        else { m.place(x, y + 1, c2); }
    });
    let _ = m.sync();
}
