//! P08: no history of calls, audio, MIDI and faults takes the engine down.
//! P09: the audio callback never allocates, frees, locks or does system calls.
use super::patch;
use super::world::*;
use crate::case::{Case, Tok};
use crate::rng::Rng;
use crate::rt;
use crate::runner::PropDef;
use hexodsp::matrix::{Cell, Matrix};
use hexodsp::nodes::{HxMidiEvent, HxTimedEvent};
use hexodsp::*;
use std::sync::Arc;

pub const P08: PropDef = PropDef {
    id: "P08", gen: gen8, run: run8, quick: 1900, thorough: 80000,
    rule: "one evaluation = one audio callback or UI call that returned, with all freed memory poisoned; a run is distinct by (state history hash, interleaving hash)",
    real: super::REAL_ENGINE, stub: super::STUB_ENGINE,
    assumptions: &["parameter values are finite; audio input, MIDI and modulation are arbitrary", "memory errors are noticed as crashes, poisoned values or writes into freed blocks"],
};
pub const P09: PropDef = PropDef {
    id: "P09", gen: gen9, run: run9, quick: 1900, thorough: 80000,
    rule: "one evaluation = one audio callback (process_graph_updates, MIDI feed, process) checked for allocator calls, lock operations and system calls; a run is distinct by (state history hash, interleaving hash)",
    real: super::REAL_ENGINE, stub: super::STUB_ENGINE,
    assumptions: &["the first callback of an audio thread may set up its logger", "set_sample_rate is called by the host outside of the audio callback"],
};

struct Ext;
impl hexodsp::nodes::ExternalParams for Ext {
    fn a1(&self) -> f32 { 0.25 }
    fn a2(&self) -> f32 { -0.75 }
    fn a3(&self) -> f32 { 7.0 }
}

fn midi(r: &mut Rng) -> HxMidiEvent {
    let channel = if r.chance(1, 8) { r.below(256) } else { r.below(2) } as u8;
    let b = |r: &mut Rng| if r.chance(1, 8) { r.below(256) as u8 } else { 60 + r.below(4) as u8 };
    match r.below(4) {
        0 => HxMidiEvent::NoteOff { channel, note: b(r) },
        1 => HxMidiEvent::CC { channel, cc: if r.chance(1, 2) { r.below(4) as u8 } else { r.below(256) as u8 }, value: r.f() },
        _ => HxMidiEvent::NoteOn { channel, note: b(r), vel: r.f() },
    }
}

fn gen_(c: &mut Case, r: &mut Rng, rt_only: bool) {
    c.po = c.po.min(*r.pick(&[0, 300, 2000, 6000]));
    let (a, b) = *r.pick(&[(128, 128), (1, 128), (64, 64), (1, 4), (16, 100)]);
    c.set("bmin", a); c.set("bmax", b);
    c.set("sr", *r.pick(&[44100, 44100, 48000, 96000, 8000, 192000]));
    c.set("log", r.chance(1, 2) as i64);
    let big = r.chance(1, 40);
    if big { c.set("w", 12); c.set("h", 12); } else { c.set("w", r.range(3, 8)); c.set("h", r.range(3, 8)); }
    let n = r.range(10, 45);
    let faults = r.chance(1, 2);
    let midi_w = if r.chance(1, 2) { 8 } else { 0 };
    let clears = if r.chance(1, 3) { 2 } else { 0 };
    let srch = if r.chance(1, 3) { 2 } else { 0 };
    let star = if big { 6 } else if r.chance(1, 12) { 1 } else { 0 };
    let wild = if r.chance(1, 3) { 3 } else { 0 };
    let sz = |r: &mut Rng| r.u64() % 1_000_000_000;
    { let s = sz(r); c.op(format!("edit 12 {}", s)); }
    for _ in 0..n {
        let s = sz(r);
        match r.weighted(&[40, 12, midi_w, midi_w / 2, 6, 8, 6, clears, srch, if faults { 3 } else { 0 }, if faults { 2 } else { 0 }, star, wild, 4, 3, 10, 3, if rt_only { 0 } else { 2 }, if faults { 2 } else { 0 }, if wild > 0 { 12 } else { 3 }, 6, 1]) {
            0 => { let k = r.range(1, 6); c.op(format!("edit {} {}", k, s)); }
            1 => c.op(format!("params {} {}", r.range(1, 30), s)),
            2 => { let k = if r.chance(1, 12) { 1500 } else { r.range(1, 12) }; let sp = *r.pick(&[1, 10, 200, 3000]); c.op(format!("midi {} {} {}", k, sp, s)); }
            3 => { let k = if r.chance(1, 8) { 90 } else { r.range(1, 5) }; c.op(format!("inject {} {}", k, s)); }
            4 => c.op(format!("sample {}", s)),
            5 => c.op(format!("query {}", s)),
            6 => c.op(format!("monitor {}", s)),
            7 => c.op("clear"),
            8 => { let sr = *r.pick(&[44100, 48000, 96000, 8000, 192000, 22050]); c.op(format!("srate {}", sr)); }
            9 => { let us = r.range(2000, 400000); c.op(format!("stall {}", us)); }
            10 => { let k = r.range(100, 700); c.op(format!("flood {} {}", k, s)); }
            11 => { c.op(format!("star {}", s)); }
            12 => { let k = r.below(7); c.op(format!("wild {}", k)); }
            13 => { let (a, b) = *r.pick(&[(128, 128), (1, 128), (1, 1), (3, 17)]); c.op(format!("blocks {} {}", a, b)); }
            14 => c.op(format!("load {}", s)),
            15 => { let us = *r.pick(&[100, 700, 3000, 20000]); c.op(format!("sleep {}", us)); }
            16 => c.op(format!("cluster {}", s)),
            17 => c.op(format!("logmsgs {}", s)),
            18 => { let k = *r.pick(&[100, 480, 900, 1500]); let us = *r.pick(&[20_000, 300_000]); c.op(format!("garbage {} {} {}", k, us, s)); }
            19 => { let k = if wild > 0 { r.below(7) } else { 0 }; c.op(format!("chain {} {}", k, s)); }
            21 => { let k = if r.chance(1, 3) { 150 } else { r.range(2, 20) }; let id = *r.pick(&[0, 1, 3, 4, 5, 9, 12, 31]); c.op(format!("code {} {} {}", id, k, s)); }
            _ => c.op(format!("dyn {}", s)),
        }
    }
}
fn gen8(c: &mut Case, r: &mut Rng) { gen_(c, r, false) }
fn gen9(c: &mut Case, r: &mut Rng) { gen_(c, r, true) }

fn used_nodes(m: &Matrix) -> Vec<NodeId> { let mut v = vec![]; m.for_each(|_, _, c| if !c.is_empty() && !v.contains(&c.node_id()) { v.push(c.node_id()) }); v }

fn query(m: &mut Matrix, r: &mut Rng, w: usize, h: usize) {
    let ids = used_nodes(m);
    m.update_filters();
    m.update_output_feedback();
    for _ in 0..6 {
        let n = if ids.is_empty() || r.chance(1, 4) { patch::rand_node(r) } else { *r.pick(&ids) };
        let o = r.below(14) as u8;
        m.led_value_for(&n); m.phase_value_for(&n); m.filtered_led_for(&n); m.filtered_out_fb_for(&n, o); m.out_fb_for(&n, o); m.info_for(&n); m.unique_index_for(&n);
        m.get_unused_instance_node_id(n);
        if let Some(p) = n.inp_param_by_idx(r.below(8)) { m.param_input_is_used(p); m.get_param(&p); m.get_param_modamt(&p); }
    }
    for i in 0..6 { let s = *m.get_minmax_monitor_samples(i); for k in 0..s.len() { let _ = s.at(k); } }
    for id in 0..3 { if let Some(sc) = m.get_scope_handle(id) { for k in 0..sc.len() { sc.read(k % 3, k); } sc.get_offs_gain(id); sc.get_threshold(); sc.is_active(id); } }
    let mut buf = [0u8; 20];
    let (x, y) = (r.below(w + 2), r.below(h + 2));
    for d in [CellDir::TR, CellDir::BR, CellDir::B, CellDir::BL, CellDir::TL, CellDir::T, CellDir::C] {
        if let Some(c) = m.get_copy(x, y) {
            c.label(&mut buf); m.edge_label(&c, d, &mut buf); c.find_unconnected_ports(m, d); c.find_first_adjacent_free(m, d); c.find_all_adjacent_free(m, d); c.is_port_dir_connected(m, d);
        }
        m.get_adjacent(x, y, d); m.get_adjacent_output(x, y, d); m.adjacent_edge_has_input(x, y, d); m.get_connections(x, y);
    }
    m.handle_graph_events();
    m.pop_error();
    m.for_each_atom(|_, _, _, _| ());
    hexodsp::log::retrieve_log_messages(|_, _| ());
    for id in 0..3 { m.check_pattern_data(id); let _ = m.check_block_function(id); }
}

fn run_(c: &Case, rt_only: bool) {
    host_init();
    rt::set_max_steps(60_000_000);
    // the non-linear filters of FVaFilt need hundreds of iterations per sample on abnormal input
    if c.ops.iter().any(|o| o.starts_with("wild") || (o.starts_with("chain") && !o.starts_with("chain 0"))) { patch::NO_FVA.store(true, std::sync::atomic::Ordering::Relaxed); }
    unsafe { rt::POISON = !rt_only; }
    let (w, h) = (c.c("w").max(2) as usize, c.c("h").max(2) as usize);
    let (conf, mut exec) = new_node_engine();
    if c.c("log") == 0 { exec.no_logging(); }
    exec.set_external_params(Arc::new(Ext));
    let mut m = Matrix::new(conf, w, h);
    HOST.with(|x| { x.keep = false; x.rt_check_after = if rt_only { Some(1) } else { None }; });
    let audio = spawn_audio(exec, AudioCfg { sr: c.c("sr") as f32, min: c.c("bmin") as usize, max: c.c("bmax") as usize, seed: c.seed ^ 5, sleep: true });
    let mut saved: Vec<Vec<u8>> = vec![];
    let mut done = 0u64;
    for o in &c.ops {
        let mut t = Tok::new(o);
        let k = t.s();
        // stay below the capacity of the message queue when the audio thread keeps up
        match k {
            "edit" => { let (n, mut r) = (t.u(), Rng::new(t.u() as u64)); for _ in 0..n { op("edit", || patch::edit(&mut m, &mut r, w, h)); } }
            "params" | "flood" => {
                let (n, mut r) = (t.u(), Rng::new(t.u() as u64));
                if k == "flood" { HOST.with(|x| x.paused = true); rt::count("fault_queue_flood", 1); }
                let ids = used_nodes(&m);
                if !ids.is_empty() {
                    let ps: Vec<ParamId> = ids.iter().flat_map(|n| patch::params(*n)).collect();
                    for _ in 0..n { if ps.is_empty() { break; } let p = *r.pick(&ps); let v = patch::rand_value(&mut r, &p); op("param", || m.set_param(p, v)); }
                }
                HOST.with(|x| x.paused = false);
            }
            "midi" => {
                let (n, sp, mut r) = (t.u(), t.u().max(1), Rng::new(t.u() as u64));
                HOST.with(|x| {
                    let mut f = x.midi.last().map(|e| e.0).unwrap_or(0).max(x.frames + 256);
                    for _ in 0..n { f += r.below(sp) as u64; let e = midi(&mut r); x.midi.push((f, HxTimedEvent::new_timed(0, e))); }
                });
            }
            "inject" => { let (n, mut r) = (t.u(), Rng::new(t.u() as u64)); for _ in 0..n { let e = midi(&mut r); op("inject", || m.inject_midi_event(e)); } }
            "sample" => {
                let mut r = Rng::new(t.u() as u64);
                let n = *r.pick(&[0usize, 1, 2, 3, 4, 5, 50, 3000]);
                let v: Vec<f32> = (0..n).map(|i| if i == 0 { *r.pick(&[44100.0, 48000.0, 8000.0, 0.0]) } else { r.f() * 2.0 - 1.0 }).collect();
                let id = NodeId::Sampl(r.below(3) as u8);
                let s = SAtom::audio("x.wav", Arc::new(v));
                op("sample", || m.set_param(id.inp_param("sample").unwrap(), s));
            }
            "query" => { let mut r = Rng::new(t.u() as u64); op("query", || query(&mut m, &mut r, w, h)); }
            "monitor" => { let mut r = Rng::new(t.u() as u64); let (x, y) = (r.below(w), r.below(h)); if let Some(mut c) = m.get_copy(x, y) { if r.chance(1, 6) { let n = c.node_id(); c = patch::rand_cell(&mut r, n); } op("monitor", || m.monitor_cell(c)); } }
            "clear" => op("clear", || m.clear()),
            "srate" => { let s = t.u() as f32; HOST.with(|x| x.cmds.push(Cmd::SampleRate(s))); rt::count("fault_sample_rate_change", 1); }
            "stall" => { let ns = t.u() as u64 * 1000; HOST.with(|x| x.cmds.push(Cmd::Stall(ns))); }
            "star" => {
                let mut r = Rng::new(t.u() as u64);
                // one node feeds many others: it is placed in every other row
                for y in 0..h { for x in 0..w { m.place(x, y, Cell::empty(NodeId::Nop)); } }
                let mut k = 0;
                for y in 0..h { for x in 0..w {
                    if (x + y) % 2 == 0 { m.place(x, y, Cell::empty(NodeId::Sin(0)).out(Some(0), Some(0), Some(0))); }
                    else { let n = NodeId::Amp(k); k += 1; m.place(x, y, Cell::empty(n).input(n.inp("inp"), None, None)); }
                } }
                let _ = r.u64();
                let _ = op("sync", || m.sync());
            }
            "garbage" => {
                // replaces many samples while the thread that frees them is not running
                let (n, us, mut r) = (t.u(), t.u() as u64, Rng::new(t.u() as u64));
                rt::count("fault_drop_thread_stall", 1);
                for id in 1..rt::nthreads() { if id != HOST.with(|x| x.audio_tid) { rt::stall(id, us * 1000); } }
                let p = NodeId::Sampl(r.below(2) as u8).inp_param("sample").unwrap();
                for i in 0..n { let s = SAtom::audio("x.wav", Arc::new(vec![44100.0; 4 + i % 5])); op("garbage", || m.set_param(p, s)); }
            }
            "chain" => {
                // the audio input modulates any input of any node
                let (k, mut r) = (t.u() as u8, Rng::new(t.u() as u64));
                let ids = (w * h).min(12);
                let mut rows: Vec<(usize, usize)> = vec![];
                for i in 0..ids { let p = (r.below(w), r.below(h.saturating_sub(2).max(1))); if !rows.contains(&p) { rows.push(p); } }
                let inp = NodeId::Inp(0);
                for (x, y) in rows.iter().take(4) {
                    let n = patch::rand_node(&mut r);
                    if patch::n_in(n) == 0 || y + 1 >= h { continue; }
                    let n2 = patch::rand_node(&mut r);
                    m.place(*x, *y, Cell::empty(inp).out(None, None, Some(r.below(2) as u8)));
                    let o = if patch::n_out(n) > 0 { Some(r.below(patch::n_out(n)) as u8) } else { None };
                    m.place(*x, *y + 1, Cell::empty(n).input(Some(r.below(patch::n_in(n)) as u8), None, None).out(None, None, o));
                    if patch::n_in(n2) > 0 && y + 2 < h { m.place(*x, *y + 2, Cell::empty(n2).input(Some(r.below(patch::n_in(n2)) as u8), None, None)); }
                    for p in patch::params(n) { if r.chance(1, 3) { let v = patch::rand_value(&mut r, &p); op("param", || m.set_param(p, v)); } }
                    if r.chance(1, 2) { if let Some(p) = n.inp_param_by_idx(r.below(patch::n_in(n))) { let v = if r.chance(1, 2) { Some(1.0) } else { Some(-1.0) }; let _ = op("modamt", || m.set_param_modamt(p, v)); } }
                }
                HOST.with(|x| x.wild = k);
                if k != 0 { rt::count("fault_abnormal_input", 1); }
                let _ = op("sync", || m.sync());
                rt::sleep_us(8000);
            }
            "code" => {
                // the code of a function is replaced again and again while it runs
                let (id, n, mut r) = (t.u(), t.u(), Rng::new(t.u() as u64));
                m.place(0, 0, Cell::empty(NodeId::Code(id as u8)));
                let _ = op("sync", || m.sync());
                for i in 0..n {
                    if let Some(bf) = m.get_block_function(id) {
                        let mut bf = bf.lock().unwrap();
                        let _ = bf.remove_at(0, 1, 1);
                        let _ = bf.remove_at(0, 2, 1);
                        let _ = bf.instanciate_at(0, 1, 1, "value", Some(format!("{}.5", i)));
                        let _ = bf.instanciate_at(0, 2, 1, "set", Some("&sig1".to_string()));
                        bf.recalculate_area_sizes();
                    }
                    if op("code", || m.check_block_function(id)).is_ok() { rt::count("probe_code_replaced", 1); }
                    if r.chance(1, 2) { wait_blocks(1); }
                }
            }
            "wild" => { let k = t.u() as u8; HOST.with(|x| x.wild = k); if k != 0 { rt::count("fault_abnormal_input", 1); } }
            "blocks" => { let (a, b) = (t.u().max(1), t.u().max(1).min(128)); HOST.with(|x| x.cmds.push(Cmd::Mode(a, b.max(a)))); }
            "load" => {
                let mut r = Rng::new(t.u() as u64);
                let b = op("save", || save_patch_to_mem(&mut m));
                saved.push(b);
                let b = r.pick(&saved).clone();
                if r.chance(2, 3) { let _ = op("load", || load_patch_from_mem(&mut m, &b)); }
            }
            "sleep" => rt::sleep_us(t.u() as u64),
            "cluster" => {
                let mut r = Rng::new(t.u() as u64);
                op("cluster", || {
                    let n = r.range(1, 3) as usize;
                    let cells: Vec<Cell> = (0..n).map(|_| { let nd = patch::rand_node(&mut r); let c = patch::rand_cell(&mut r, nd); c.with_pos_of(Cell::empty_at(nd, r.below(w + 1) as u8, r.below(h + 1) as u8)) }).collect();
                    let _ = m.change_matrix_err(|m| m.place_multiple(&cells));
                    let _ = m.sync();
                });
            }
            "logmsgs" => { op("log", || { hexodsp::log::init_thread_logger("ui"); for i in 0..200 { hexodsp::log(|w| { use std::io::Write; let _ = write!(w, "message {} {}", i, "\u{fc}".repeat(i % 300)); }); } hexodsp::log::retrieve_log_messages(|_, s| { let _ = s.len(); }); }); }
            _ => {
                let mut r = Rng::new(t.u() as u64);
                let id = r.below(3);
                let g = r.f();
                let st = vec![g; 16];
                op("dyn", || m.set_dynamic_node1x1(id, Box::new(move |i: &[f32], o: &mut [f32], _c: &DynNode1x1Context| { for (a, b) in i.iter().zip(o.iter_mut()) { *b = a * st[3]; } })));
            }
        }
        done += 1;
        rt::state(done + 31 * used_nodes(&m).len() as u64);
    }
    wait_blocks(3);
    // the engine still works: another patch sounds
    if !rt_only {
        HOST.with(|x| { x.wild = 0; x.keep = false; });
        op("clear", || m.clear());
        for y in 0..h { for x in 0..w { m.place(x, y, Cell::empty(NodeId::Nop)); } }
        let amp = NodeId::Amp(0); let out = NodeId::Out(0);
        m.place(0, 0, Cell::empty(amp).out(None, None, amp.out("sig")));
        m.place(0, 1, Cell::empty(out).input(out.inp("ch1"), None, None));
        m.set_param(amp.inp_param("inp").unwrap(), SAtom::param(0.625));
        m.set_param(out.inp_param("mono").unwrap(), SAtom::setting(1));
        let r = op("sync", || m.sync());
        if let Err(e) = r { rt::fail("dead", format!("a simple patch can not be published any more: {:?}", e)); }
        let (f, n0) = (frames(), HOST.with(|x| x.nblocks));
        HOST.with(|x| x.keep = true);
        let mut g = 0;
        let mut v = 0.0;
        // queues drain within a few turns of the drop thread (250 ms each)
        let t_end = rt::now() + 4_000_000_000;
        while rt::now() < t_end || frames() < f + 9000 || HOST.with(|x| x.nblocks) < n0 + 4 {
            op("poll", || { m.update_filters(); m.handle_graph_events(); });
            rt::sleep_us(2000);
            v = HOST.with(|x| { let l = x.blocks.len(); if l > 1 { x.blocks.drain(..l - 1); } x.blocks.last().map(|b| *b.l.last().unwrap()).unwrap_or(0.0) });
            if frames() > f + 9000 && (v - 0.625).abs() <= 1e-3 { break; }
            g += 1; if g > 20000 { rt::fail("dead", "the audio thread makes no progress any more"); }
        }
        if (v - 0.625).abs() > 1e-3 { rt::fail("dead", format!("after the history a simple patch gives {} instead of 0.625", v)); }
    }
    rt::count("checks", HOST.with(|x| x.nblocks) as u64);
    if !rt_only { rt::count("checks", ops_done() as u64); }
    let exec = audio.stop();
    if c.seed % 2 == 0 { op("drop", || drop(exec)); op("drop", || drop(m)); } else { op("drop", || drop(m)); op("drop", || drop(exec)); }
    if rt::drain_quarantine() > 0 { rt::fail("memory", "memory was written to after it had been freed"); }
}
fn run8(c: &Case) { run_(c, false) }
fn run9(c: &Case) { run_(c, true) }
