//! P25: engines end cleanly and give back what they took: drop order, helper threads, memory.
use super::patch;
use super::world::*;
use crate::case::{Case, Tok};
use crate::rng::Rng;
use crate::rt;
use crate::runner::PropDef;
use hexodsp::matrix::{Cell, Matrix};
use hexodsp::nodes::{HxMidiEvent, NodeExecutor};
use hexodsp::*;
use std::sync::Arc;

pub const P25: PropDef = PropDef {
    id: "P25", gen, run, quick: 900, thorough: 40000,
    rule: "one evaluation = one engine that was ended, or one repetition of a history on a running engine, with the live threads and the live memory compared; a run is distinct by (state history hash, interleaving hash)",
    real: super::REAL_ENGINE, stub: super::STUB_ENGINE,
    assumptions: &["memory counts as lost if it grows in each of the last three of at least six repetitions of the same history", "the executor logs nothing (loggers belong to threads, not to engines)"],
};
const CYC: usize = 6;

fn gen(c: &mut Case, r: &mut Rng) {
    c.po = c.po.min(*r.pick(&[0, 300, 2000]));
    let (a, b) = *r.pick(&[(128, 128), (64, 64), (17, 101)]);
    c.set("bmin", a); c.set("bmax", b);
    c.set("sr", *r.pick(&[44100, 48000, 96000]));
    c.set("mode", r.below(2) as i64);
    c.set("w", r.range(3, 6)); c.set("h", r.range(3, 6));
    let sz = |r: &mut Rng| r.u64() % 1_000_000_000;
    for _ in 0..r.range(2, 9) {
        let s = sz(r);
        match r.below(13) {
            0..=2 => { let k = r.range(1, 8); c.op(format!("edit {} {}", k, s)); }
            3 => c.op(format!("params {} {}", r.range(1, 30), s)),
            4 => c.op(format!("sample {} {}", r.range(1, 6), s)),
            5 => c.op(format!("code {} {} {}", r.below(3), r.range(1, 4), s)),
            6 => c.op(format!("dyn {} {}", r.range(1, 5), s)),
            7 => c.op(format!("monitor {}", s)),
            8 => c.op(format!("inject {}", r.range(1, 40))),
            9 => c.op("reload"),
            10 => c.op("clear"),
            11 => c.op(format!("scope {}", s)),
            _ => { let us = *r.pick(&[100, 3000, 50000, 300000]); c.op(format!("sleep {}", us)); }
        }
    }
    if c.c("mode") == 0 { for _ in 0..CYC { c.op(format!("end {} {}", r.below(6), sz(r))); } }
}
fn one(m: &mut Matrix, o: &str, w: usize, h: usize) {
    let mut t = Tok::new(o);
    match t.s() {
        "edit" => { let (n, mut r) = (t.u(), Rng::new(t.u() as u64)); for _ in 0..n { let k = op("edit", || patch::edit(m, &mut r, w, h)); rt::log(|| format!("edit {}", k)); } }
        "params" => {
            let (n, mut r) = (t.u(), Rng::new(t.u() as u64));
            for _ in 0..n {
                let nd = patch::rand_node(&mut r);
                let ps = patch::params(nd);
                if ps.is_empty() { continue; }
                let p = *r.pick(&ps);
                let v = patch::rand_value(&mut r, &p);
                op("param", || m.set_param(p, v));
            }
        }
        "sample" => {
            let (n, mut r) = (t.u(), Rng::new(t.u() as u64));
            for _ in 0..n {
                let id = NodeId::Sampl(r.below(2) as u8);
                let s = SAtom::audio("x.wav", Arc::new(vec![44100.0; 2 + r.below(3000)]));
                op("sample", || m.set_param(id.inp_param("sample").unwrap(), s));
            }
        }
        "code" => {
            let (id, n, mut r) = (t.u(), t.u(), Rng::new(t.u() as u64));
            m.place(0, 0, Cell::empty(NodeId::Code(id as u8)));
            let _ = op("sync", || m.sync());
            for _ in 0..n {
                if let Some(bf) = m.get_block_function(id) {
                    let mut bf = bf.lock().unwrap();
                    let _ = bf.remove_at(0, 1, 1);
                    let _ = bf.instanciate_at(0, 1, 1, "value", Some(format!("{}.5", r.below(1000))));
                    let _ = bf.instanciate_at(0, 2, 1, "set", Some("&sig1".to_string()));
                    // a node with state of its own
                    if !patch::NO_BLOCKS.load(std::sync::atomic::Ordering::Relaxed) && r.chance(1, 2) { let _ = bf.remove_at(0, 2, 1); let _ = bf.instanciate_at(0, 2, 1, r.pick(&["accum", "phase", "s&h~"]), None); let _ = bf.instanciate_at(0, 3, 1, "set", Some("&sig2".to_string())); }
                    bf.recalculate_area_sizes();
                }
                if op("code", || m.check_block_function(id)).is_ok() { rt::count("probe_code", 1); }
                rt::sleep_us(r.below(8000) as u64);
            }
        }
        "dyn" => {
            let (n, mut r) = (t.u(), Rng::new(t.u() as u64));
            for _ in 0..n {
                let id = r.below(3);
                let st = vec![r.f(); 16];
                op("dyn", || m.set_dynamic_node1x1(id, Box::new(move |i: &[f32], o: &mut [f32], _c: &DynNode1x1Context| { for (a, b) in i.iter().zip(o.iter_mut()) { *b = a * st[3]; } })));
            }
        }
        "monitor" => { let mut r = Rng::new(t.u() as u64); let (x, y) = (r.below(w), r.below(h)); if let Some(c) = m.get_copy(x, y) { op("monitor", || m.monitor_cell(c)); } }
        "inject" => { for i in 0..t.u() { op("inject", || m.inject_midi_event(HxMidiEvent::NoteOn { channel: 0, note: 40 + (i % 30) as u8, vel: 0.5 })); } }
        "reload" => { let b = op("save", || save_patch_to_mem(m)); let _ = op("load", || load_patch_from_mem(m, &b)); }
        "clear" => op("clear", || m.clear()),
        "scope" => { let mut r = Rng::new(t.u() as u64); let id = r.below(3); m.place(w - 1, 0, Cell::empty(NodeId::Scope(id as u8))); let _ = op("sync", || m.sync()); if let Some(s) = m.get_scope_handle(id) { s.read(0, 0); } }
        "sleep" => rt::sleep_us(t.u() as u64),
        _ => {}
    }
    op("poll", || { m.update_filters(); m.handle_graph_events(); while m.pop_error().is_some() {} let _ = m.get_minmax_monitor_samples(0); });
}
fn cfg(c: &Case, k: usize) -> AudioCfg { AudioCfg { sr: c.c("sr") as f32, min: c.c("bmin") as usize, max: c.c("bmax") as usize, seed: c.seed ^ (77 + k as u64), sleep: true } }
fn live() -> (i64, i64) { rt::drain_quarantine(); unsafe { (rt::LIVE_BYTES, rt::LIVE_BLOCKS) } }
fn verdict(what: &str, v: &[(i64, i64)]) {
    rt::count("checks", v.len() as u64);
    let d: Vec<_> = v.iter().map(|x| (x.0 - v[0].0, x.1 - v[0].1)).collect();
    rt::log(|| format!("live {} {:?}", what, d));
    let l = v.len();
    if l >= 6 && (l - 3..l).all(|i| v[i].1 > v[i - 1].1 && v[i].0 > v[i - 1].0) { rt::fail("leak", format!("{}: live memory (bytes, blocks) grows with every repetition: {:?}", what, v)); }
}
fn threads(what: &str, n: i32) {
    let l = rt::live_threads();
    if l != n { rt::fail("threads", format!("{}: {} threads are running, expected are {}", what, l, n)); }
}
fn timed<R>(what: &str, f: impl FnOnce() -> R) -> R {
    let t = rt::now();
    let r = op(what, f);
    let d = rt::now() - t;
    if d > 20_000_000_000 { rt::fail("slow-end", format!("{} took {} ms", what, d / 1_000_000)); }
    r
}
fn wait_more(n: usize) { wait_blocks(n) }

fn run(c: &Case) {
    rt::set_max_steps(60_000_000);
    let (w, h) = (c.c("w").max(2) as usize, c.c("h").max(2) as usize);
    let hist: Vec<&String> = c.ops.iter().filter(|o| !o.starts_with("end")).collect();
    patch::NO_BLOCKS.store(false, std::sync::atomic::Ordering::Relaxed);
    host_init();
    rt::count("probe_code", 0);
    let base = rt::live_threads();
    if c.c("mode") == 1 {
        // the same history again and again on one engine
        // (the states of blocks are kept by synfx-dsp-jit until the engine ends)
        patch::NO_BLOCKS.store(true, std::sync::atomic::Ordering::Relaxed);
        let (conf, mut exec) = new_node_engine();
        exec.no_logging();
        let mut m = Matrix::new(conf, w, h);
        HOST.with(|x| x.keep = false);
        let audio = spawn_audio(exec, cfg(c, 0));
        // functions that are not part of the graph keep their code in a (bounded) queue
        for id in 0..3 { m.place(id, 0, Cell::empty(NodeId::Code(id as u8))); }
        let _ = op("sync", || m.sync());
        let empty = save_patch_to_mem(&mut m);
        let mut v = Vec::with_capacity(16);
        for _ in 0..CYC + 1 {
            for o in &hist { one(&mut m, o, w, h); }
            // back to the same state
            if let Err(e) = op("load", || load_patch_from_mem(&mut m, &empty)) { rt::fail("harness", format!("empty patch: {:?}", e)); }
            for _ in 0..6 { rt::sleep_us(150_000); op("poll", || { m.update_filters(); m.handle_graph_events(); while m.pop_error().is_some() {} for id in 0..3 { let _ = m.check_block_function(id); m.check_pattern_data(id); } }); }
            pause();
            v.push(live());
            resume();
            rt::state(v.len() as u64);
        }
        verdict("on one engine", &v);
        let exec = audio.stop();
        drop(m);
        drop(exec);
        threads("after the end", base);
        return;
    }
    for k in ["fault_matrix_dropped", "fault_executor_dropped", "probe_code"] { rt::count(k, 0); }
    for k in 0..6 { rt::count(&format!("probe_end{}", k), 0); }
    let mut v = Vec::with_capacity(16);
    let ends: Vec<&String> = c.ops.iter().filter(|o| o.starts_with("end")).collect();
    for (k, e) in ends.iter().enumerate() {
        let mut t = Tok::new(e);
        t.s();
        let (how, s) = (t.u(), t.u() as u64);
        let mut r = Rng::new(s);
        host_init();
        HOST.with(|x| x.keep = false);
        unsafe { rt::POISON = true; }
        let (conf, mut exec): (_, NodeExecutor) = new_node_engine();
        exec.no_logging();
        let mut m = Matrix::new(conf, w, h);
        let audio = spawn_audio(exec, cfg(c, k));
        for o in &hist { one(&mut m, o, w, h); }
        if r.chance(1, 2) { wait_more(r.range(0, 4) as usize); }
        rt::count(&format!("probe_end{}", how), 1);
        match how {
            0 => { let exec = audio.stop(); timed("drop of the executor", || drop(exec)); timed("drop of the matrix", || drop(m)); }
            1 => { let exec = audio.stop(); timed("drop of the matrix", || drop(m)); timed("drop of the executor", || drop(exec)); }
            2 | 3 => {
                // the front end goes while the audio thread plays on
                rt::count("fault_matrix_dropped", 1);
                timed("drop of the matrix", || drop(m));
                threads("after the matrix is gone", base + 1);
                wait_more(r.range(1, 30) as usize);
                if how == 3 { HOST.with(|x| x.cmds.push(Cmd::SampleRate(32000.0))); wait_more(3); }
                let exec = audio.stop();
                timed("drop of the executor", || drop(exec));
            }
            _ => {
                // the audio device is lost, the front end is used on
                rt::count("fault_executor_dropped", 1);
                let exec = audio.stop();
                timed("drop of the executor", || drop(exec));
                for o in &hist { if o.starts_with("edit") || o.starts_with("params") || o.starts_with("sample") || how == 5 { one(&mut m, o, w, h); } }
                timed("drop of the matrix", || drop(m));
            }
        }
        threads("after the end", base);
        HOST.with(|x| { x.midi = vec![]; x.cmds = vec![]; x.blocks = vec![]; });
        if rt::drain_quarantine() > 0 { rt::fail("memory", "memory was written to after it had been freed"); }
        v.push(live());
        rt::state(k as u64 * 7 + how as u64);
    }
    verdict("with every engine", &v);
}
