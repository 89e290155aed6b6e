//! P12: what a patch renders does not depend on the host's block sizes or on what the UI looks at.
//! P13: what a patch renders does not depend on what the engine did before it was loaded.
use super::patch;
use super::world::*;
use crate::case::{Case, Tok};
use crate::rng::Rng;
use crate::rt;
use crate::runner::PropDef;
use hexodsp::matrix::{Cell, Matrix};
use hexodsp::nodes::{EventWindowing, HxMidiEvent, HxTimedEvent, NodeExecutor};
use hexodsp::*;
use std::collections::BTreeMap;
use std::sync::Arc;

pub const P12: PropDef = PropDef {
    id: "P12", gen: gen12, run: run12, quick: 2200, thorough: 60000,
    rule: "one evaluation = one output port of one node compared sample by sample between two renderings of the same patch; a run is distinct by (state history hash, interleaving hash)",
    real: super::REAL_ENGINE, stub: super::STUB_ENGINE,
    assumptions: &["parameter changes take effect at block borders, so both renderings have a border there", "sequencer columns arrive one per block, the first 16 blocks are of the same size", "gate columns with a probability use a random seed and are left out"],
};
pub const P13: PropDef = PropDef {
    id: "P13", gen: gen13, run: run13, quick: 1700, thorough: 60000,
    rule: P12.rule, real: super::REAL_ENGINE, stub: super::STUB_ENGINE,
    assumptions: P12.assumptions,
};

type Rec = BTreeMap<(String, usize), Vec<f32>>;

pub fn chain(m: &mut Matrix, r: &mut Rng, w: usize, h: usize) {
    let x = r.below(w);
    let mut y = 0;
    let mut prev: Option<NodeId> = None;
    while y < h {
        let n = if y == 0 { if r.chance(1, 2) { NodeId::Inp(0) } else { patch::node(*r.pick(&["sin", "bosc", "vosc", "noise", "midip", "tseq", "code", "tslfo", "fbrd", "inp", "sampl"]), r.below(2) as u8) } } else if y + 1 == h { NodeId::Out(0) } else { patch::rand_node(r) };
        let i = if prev.is_some() && patch::n_in(n) > 0 { Some(r.below(patch::n_in(n)) as u8) } else { None };
        let o = if patch::n_out(n) > 0 { Some(r.below(patch::n_out(n)) as u8) } else { None };
        let c = Cell::empty(n).input(i, None, None).out(None, None, o);
        let _ = m.change_matrix(|m| m.place(x, y, c));
        for p in patch::params(n) { if r.chance(1, 3) { let v = patch::rand_value(r, &p); m.set_param(p, v); } }
        prev = Some(n);
        y += 1;
    }
    let _ = m.sync();
}
fn value(r: &mut Rng, p: &ParamId) -> SAtom {
    if !p.is_atom() && r.chance(1, 2) {
        let ((a, b), _) = p.param_min_max().unwrap_or(((0.0, 1.0), (0.0, 0.0)));
        return SAtom::param(*r.pick(&[a, a + (b - a) * 0.01, a + (b - a) * 0.05, a + (b - a) * 0.1, b, 0.0]));
    }
    patch::rand_value(r, p)
}
/// Sources in the first column drive several inputs of the nodes in the others.
fn focus(m: &mut Matrix, r: &mut Rng, w: usize, h: usize) {
    let mut cells = vec![];
    let only = if r.chance(1, 2) { Some(patch::rand_node(r)) } else { None };
    for x in 0..w { for y in 0..h {
        let n = if x == 0 { patch::node(*r.pick(&["inp", "sin", "sin", "bosc", "tslfo", "noise", "midip", "vosc"]), r.below(2) as u8) }
            else { match only { Some(n) if patch::n_in(n) > 0 => n.to_instance((x * h + y) % 3), _ => patch::rand_node(r) } };
        if let NodeId::Out(_) = n { continue; }
        let (ni, no) = (patch::n_in(n), patch::n_out(n));
        let mut used = vec![];
        let mut i = [None; 3];
        if x > 0 && ni > 0 { for d in 0..3 { if r.chance(3, 4) { let k = r.below(ni) as u8; if !used.contains(&k) { used.push(k); i[d] = Some(k); } } } }
        let o = |r: &mut Rng| if no > 0 { Some(r.below(no) as u8) } else { None };
        let (o1, o2, o3) = (o(r), o(r), if x == 0 { None } else { o(r) });
        cells.push((x, y, Cell::empty(n).input(i[0], i[1], i[2]).out(o1, o2, o3)));
    } }
    for (x, y, c) in cells { let _ = m.change_matrix(|m| m.place(x, y, c)); }
    let _ = m.sync();
    for n in used(m) {
        for p in patch::params(n) { if r.chance(1, 3) { let v = value(r, &p); m.set_param(p, v); } }
        for i in 0..patch::n_in(n) { if r.chance(1, 4) { let p = n.inp_param_by_idx(i).unwrap(); let _ = m.set_param_modamt(p, Some(*r.pick(&[1.0, 0.5, 0.1, 0.02, -0.1]))); } }
    }
    let _ = m.sync();
}
/// A random patch as it would be saved.
fn make_patch(r: &mut Rng, n: usize, w: usize, h: usize) -> (Vec<u8>, Vec<NodeId>) {
    let (conf, exec) = new_node_engine();
    let mut m = Matrix::new(conf, w, h);
    if r.chance(2, 3) { focus(&mut m, r, w, h); } else { for _ in 0..1 + r.below(3) { chain(&mut m, r, w, h); } }
    for _ in 0..n { patch::edit(&mut m, r, w, h); }
    sanitize(&mut m, w, h);
    let out = NodeId::Out(0);
    let mut ids = used(&m);
    if ids.is_empty() { m.place(0, 0, Cell::empty(out)); let _ = m.sync(); ids = used(&m); }
    for id in 0..3 { if let Some(p) = m.get_pattern_data(id) {
        use hexodsp::dsp::tracker::UIPatternModel;
        let mut p = p.lock().unwrap();
        for c in 0..6 { if p.is_col_gate(c) { p.set_col_step_type(c); } }
    } }
    let b = save_patch_to_mem(&mut m);
    drop(m); drop(exec);
    (b, ids)
}
/// Takes out the inputs that are documented to be read once per block: those of BiqFilt, and "dcms" of Sampl.
fn sanitize(m: &mut Matrix, w: usize, h: usize) {
    let bad: Vec<(usize, usize)> = (0..w).flat_map(|x| (0..h).map(move |y| (x, y))).filter(|(x, y)| m.get(*x, *y).map(|c| match c.node_id() {
        NodeId::BiqFilt(_) => true,
        n @ NodeId::Sampl(_) => CellDir::TL.input_of(c, n) || CellDir::BL.input_of(c, n) || CellDir::T.input_of(c, n),
        _ => false,
    }).unwrap_or(false)).collect();
    if bad.is_empty() { return; }
    let _ = m.change_matrix(|m| for (x, y) in &bad { m.place(*x, *y, Cell::empty(NodeId::Nop)) });
    let _ = m.sync();
}
trait Dcms { fn input_of(&self, c: &Cell, n: NodeId) -> bool; }
impl Dcms for CellDir { fn input_of(&self, c: &Cell, n: NodeId) -> bool { c.local_port_idx(*self).and_then(|i| n.inp_param_by_idx(i as usize)).map(|p| p.name() == "dcms").unwrap_or(false) } }
pub fn used(m: &Matrix) -> Vec<NodeId> { let mut v = vec![]; m.for_each(|_, _, c| if !c.is_empty() && !v.contains(&c.node_id()) { v.push(c.node_id()) }); v }

/// One step of the script: what happens at a block border, and how long it plays then.
#[derive(Clone)]
struct Seg { ops: Vec<(u8, u64)>, frames: usize }
fn script(r: &mut Rng) -> Vec<Seg> {
    (0..r.range(2, 6)).map(|_| Seg { ops: (0..r.range(0, 6)).map(|_| (r.below(4) as u8, r.u64())).collect(), frames: r.range(40, 700) as usize }).collect()
}
fn step(m: &mut Matrix, ids: &[NodeId], o: &(u8, u64)) {
    let mut r = Rng::new(o.1);
    let n = *r.pick(ids);
    match o.0 {
        0 | 1 => { let ps = patch::params(n); if !ps.is_empty() { let p = *r.pick(&ps); if p.name() == "dcms" { return; } let v = value(&mut r, &p); m.set_param(p, v); } }
        2 => { let k = patch::n_in(n); if k > 0 { let p = n.inp_param_by_idx(r.below(k)).unwrap(); let v = if r.chance(1, 4) { None } else { Some(r.f() * 2.0 - 1.0) }; let _ = m.set_param_modamt(p, v); } }
        _ => { let _ = m.sync(); }
    }
}
fn events(r: &mut Rng, total: usize) -> Vec<HxTimedEvent> {
    let mut v: Vec<usize> = (0..r.range(0, 12)).map(|_| 20 + r.below(total)).collect();
    v.sort();
    v.into_iter().map(|f| HxTimedEvent::new_timed(f, match r.below(3) { 0 => HxMidiEvent::NoteOff { channel: 0, note: 60 + r.below(2) as u8 }, 1 => HxMidiEvent::CC { channel: 0, cc: r.below(4) as u8, value: r.f() }, _ => HxMidiEvent::NoteOn { channel: 0, note: 60 + r.below(2) as u8, vel: r.f() } })).collect()
}
/// Plays blocks up to `until` and records every output of every node.
struct Player { ev: Vec<HxTimedEvent>, fed: usize, win: EventWindowing, frame: usize, blocks: usize, rec: Rec, part: Rng, min: usize, max: usize }
impl Player {
    fn new(ev: &[HxTimedEvent], part: u64, min: usize, max: usize) -> Self { Player { ev: ev.to_vec(), fed: 0, win: EventWindowing::new(), frame: 0, blocks: 0, rec: Rec::new(), part: Rng::new(part), min, max } }
    fn block(&mut self, exec: &mut NodeExecutor, until: usize, updates: bool) {
        let n = if self.blocks < 16 { 1 } else { self.part.range(self.min as i64, self.max as i64) as usize }.min(until - self.frame);
        if updates { if let Err(e) = rt::catch(|| exec.process_graph_updates()) { rt::fail("audio-panic", e); } }
        let mut ctx = Ctx { wild: 0, n, l: [0.0; 128], r: [0.0; 128], f0: self.frame as u64 };
        let Player { ev, fed, win, frame, .. } = self;
        let r = rt::catch(|| {
            exec.feed_midi_events_from(|| {
                if win.feed_me() { if *fed >= ev.len() { return None; } win.feed(ev[*fed]); *fed += 1; }
                win.next_event_in_range(*frame, n)
            });
            exec.process(&mut ctx);
        });
        if let Err(e) = r { rt::fail("audio-panic", e); }
        rt::atomically(|| {
            let p = exec.get_prog();
            for o in p.prog.iter() { for k in o.out_idxlen.0..o.out_idxlen.1 { self.rec.entry((format!("{}", o.node.id()), k - o.out_idxlen.0)).or_default().extend_from_slice(p.out[k].slice(n)); } }
            self.rec.entry(("left".into(), 0)).or_default().extend_from_slice(&ctx.l[..n]);
            self.rec.entry(("right".into(), 0)).or_default().extend_from_slice(&ctx.r[..n]);
        });
        self.frame += n;
        self.blocks += 1;
    }
}
fn send_all(m: &mut Matrix) {
    for n in used(m) { if let NodeId::Sampl(i) = n { if let Some(p) = n.inp_param("sample") {
        let d: Vec<f32> = std::iter::once(44100.0).chain((0..200 + 300 * i as usize).map(|k| ((k * 37) % 101) as f32 / 101.0 - 0.5)).collect();
        m.set_param(p, SAtom::audio("sim", Arc::new(d)));
    } } }
    // (columns that were never touched would not be sent at all)
    for id in 0..3 { if let Some(p) = m.get_pattern_data(id) { p.lock().unwrap().modified_all_cols(); } }
    for id in 0..3 { for _ in 0..7 { m.check_pattern_data(id); } let _ = m.check_block_function(id); } }
struct Ext;
impl hexodsp::nodes::ExternalParams for Ext { fn a1(&self) -> f32 { 0.25 } fn a2(&self) -> f32 { -0.75 } fn a3(&self) -> f32 { 0.125 } fn b1(&self) -> f32 { 0.5 } }

/// Makes the patch, either by loading it or, step by step, in the cleared matrix.
fn enter(m: &mut Matrix, text: &[u8], build: bool) -> bool {
    if !build { return op("load", || load_patch_from_mem(m, text).is_ok()); }
    let Ok(r) = hexodsp::matrix_repr::MatrixRepr::read_from_mem(text) else { return false };
    op("build", || {
        m.clear();
        for c in &r.cells { let c = Cell::from_repr(c); m.place(c.pos().0, c.pos().1, c); }
        if m.sync().is_err() { return false; }
        // only what is not the default
        for (p, v, a) in &r.params {
            let v = p.norm(*v);
            if (v - p.as_atom_def().f()).abs() > 1e-4 { m.set_param(*p, v.into()); }
            if a.is_some() { let _ = m.set_param_modamt(*p, *a); }
        }
        for (p, v) in &r.atoms { if let SAtom::Setting(_) = v { if *v != p.as_atom_def() { m.set_param(*p, v.clone()); } } }
        for id in 0..3 {
            if let Some(d) = m.get_pattern_data(id) { d.lock().unwrap().from_repr(r.patterns.get(id).and_then(|p| p.as_ref()).unwrap_or(&hexodsp::dsp::tracker::PatternData::new(256).to_repr())); }
        }
        for id in 0..4 {
            if let Some(b) = m.get_block_function(id) {
                let mut b = b.lock().unwrap();
                match r.block_funs.get(id).and_then(|f| f.as_ref()) { Some(f) => b.load_snapshot(f), None => { let e = hexodsp::wblockdsp::BlockFun::new(b.block_language()).save_snapshot(); b.load_snapshot(&e) } }
            }
        }
        true
    })
}

/// The reference: a fresh engine that only plays this patch.
fn reference(text: &[u8], ids: &[NodeId], segs: &[Seg], ev: &[HxTimedEvent], sr: f32, part: (u64, usize, usize), w: usize, h: usize, build: bool) -> Rec {
    let (conf, mut exec) = new_node_engine();
    exec.no_logging();
    exec.set_external_params(Arc::new(Ext));
    exec.set_sample_rate(sr);
    let mut m = Matrix::new(conf, w, h);
    if !enter(&mut m, text, build) { rt::fail("harness", "reference load"); }
    send_all(&mut m);
    let mut p = Player::new(ev, part.0, part.1, part.2);
    let mut until = 0;
    for s in segs {
        for o in &s.ops { op("step", || step(&mut m, ids, o)); }
        until += s.frames;
        while p.frame < until { p.block(&mut exec, until, true); }
    }
    drop(m); drop(exec);
    p.rec
}
fn compare(a: &Rec, b: &Rec, what: &str) {
    for (k, v) in a {
        rt::count("checks", 1);
        let Some(w) = b.get(k) else { rt::fail("render", format!("{}: node {} is missing", what, k.0)) };
        rt::count("probe_samples", v.len() as u64);
        if v.iter().any(|x| *x != v[0]) { rt::count("probe_moving", 1); }
        if let Some(i) = (0..v.len().max(w.len())).find(|i| { let (x, y) = (v.get(*i), w.get(*i)); match (x, y) { (Some(x), Some(y)) => x.to_bits() != y.to_bits() && !(x.is_nan() && y.is_nan()) && !(*x == 0.0 && *y == 0.0), _ => true } }) {
            if std::env::var("HXSIM_DBG").is_ok() { for (k, v) in a { eprintln!("{:?} {:?} {:?}", k, &v[i.saturating_sub(2)..(i + 2).min(v.len())], b.get(k).map(|v| &v[i.saturating_sub(2)..(i + 2).min(v.len())])); } }
            rt::fail("render", format!("{}: output {} of {} is {:?} instead of {:?} at frame {}", what, k.1, k.0, w.get(i), v.get(i), i));
        }
    }
    for k in b.keys() { if !a.contains_key(k) { rt::fail("render", format!("{}: node {} plays too", what, k.0)); } }
}

fn gen_common(c: &mut Case, r: &mut Rng) {
    c.set("w", r.range(2, 4)); c.set("h", r.range(3, 6));
    c.set("sr", *r.pick(&[44100, 44100, 48000, 96000, 22050, 8000]));
    let (a, b) = *r.pick(&[(128, 128), (1, 128), (64, 64), (1, 1), (1, 7), (100, 128), (127, 127)]);
    c.set("bmin", a); c.set("bmax", b);
    let (a, b) = *r.pick(&[(128, 128), (1, 128), (32, 32), (1, 1)]);
    c.set("rmin", a); c.set("rmax", b);
    c.op(format!("patch {} {}", r.range(0, 20), r.u64() % 1_000_000_000));
    c.op(format!("script {}", r.u64() % 1_000_000_000));
}
fn gen12(c: &mut Case, r: &mut Rng) {
    gen_common(c, r);
    c.set("noise", r.chance(1, 2) as i64);
}
fn gen13(c: &mut Case, r: &mut Rng) {
    gen_common(c, r);
    c.set("live", r.chance(1, 2) as i64);
    c.set("build", r.chance(1, 3) as i64);
    // when the sample rate is set: 0 before the history, 1 before the load, 2 while loading, 3 after loading
    c.set("rate", r.range(0, 3));
    for _ in 0..r.range(1, 8) {
        let s = r.u64() % 1_000_000_000;
        match r.below(7) {
            0 | 1 => c.op(format!("edit {} {}", r.range(1, 12), s)),
            2 => c.op(format!("chain {}", s)),
            3 => c.op(format!("play {}", r.range(1, 900))),
            4 => c.op(format!("load {}", s)),
            5 => c.op(format!("srate {}", *r.pick(&[44100, 48000, 96000, 8000]))),
            _ => if r.chance(1, 3) { c.op("clear") } else { c.op("same") },
        }
    }
}
struct Sh { until: usize, at: usize, stop: bool, mode: u8, rate: Option<f32>, old: Vec<hexodsp::dsp::Node>, started: bool }
static SH: Shared<Sh> = Shared::new();

fn cfg(c: &Case) -> (usize, usize, f32, Vec<u8>, Vec<NodeId>, Vec<Seg>, Vec<HxTimedEvent>) {
    let (w, h, sr) = (c.c("w").max(2) as usize, c.c("h").max(3) as usize, c.c("sr").max(8000) as f32);
    let (mut text, mut ids, mut segs, mut ev) = (vec![], vec![], vec![Seg { ops: vec![], frames: 300 }], vec![]);
    for o in &c.ops {
        let mut t = Tok::new(o);
        match t.s() {
            "patch" => { let (n, mut r) = (t.u(), Rng::new(t.u() as u64)); (text, ids) = make_patch(&mut r, n, w, h); }
            "script" => { let mut r = Rng::new(t.u() as u64); segs = script(&mut r); ev = events(&mut r, segs.iter().map(|s| s.frames).sum()); }
            _ => {}
        }
    }
    if text.is_empty() { (text, ids) = make_patch(&mut Rng::new(1), 3, w, h); }
    (w, h, sr, text, ids, segs, ev)
}

fn run12(c: &Case) {
    host_init();
    rt::set_max_steps(60_000_000);
    let (w, h, sr, text, ids, segs, ev) = cfg(c);
    let a = reference(&text, &ids, &segs, &ev, sr, (c.seed, c.c("rmin").max(1) as usize, c.c("rmax").max(1) as usize), w, h, false);
    // the same with an audio thread, other block sizes, and a UI that looks at everything
    let (conf, mut exec) = new_node_engine();
    exec.no_logging();
    exec.set_external_params(Arc::new(Ext));
    exec.set_sample_rate(sr);
    let mut m = Matrix::new(conf, w, h);
    let _ = op("load", || load_patch_from_mem(&mut m, &text));
    send_all(&mut m);
    SH.init(Sh { until: 0, at: 0, stop: false, mode: 0, rate: None, old: vec![], started: true });
    let mut p = Player::new(&ev, c.seed ^ 99, c.c("bmin").max(1) as usize, c.c("bmax").max(1) as usize);
    let th = std::thread::spawn(move || {
        rt::name("audio");
        loop {
            let (until, stop) = SH.with(|s| (s.until, s.stop));
            if p.frame < until { p.block(&mut exec, until, true); rt::sleep_us(500); } else if stop { break; } else { rt::sleep_us(900); }
            SH.with(|s| s.at = p.frame);
        }
        (p.rec, exec)
    });
    let mut r = Rng::new(c.seed ^ 1234);
    let mut until = 0;
    for s in &segs {
        for o in &s.ops { op("step", || step(&mut m, &ids, o)); }
        until += s.frames;
        SH.with(|x| x.until = until);
        let mut g = 0;
        while SH.with(|x| x.at) < until {
            if c.c("noise") != 0 { op("query", || look(&mut m, &mut r, w, h)); }
            rt::sleep_us(r.range(100, 3000) as u64);
            g += 1; if g > 100_000 { rt::fail("harness", "audio does not advance"); }
        }
    }
    SH.with(|s| s.stop = true);
    let (b, exec) = th.join().unwrap_or_else(|_| rt::fail("harness", "join"));
    drop(m); drop(exec);
    compare(&a, &b, "with other block sizes");
    rt::state(a.len() as u64);
}
/// Everything the UI can look at without changing the patch.
fn look(m: &mut Matrix, r: &mut Rng, w: usize, h: usize) {
    let ids = used(m);
    if ids.is_empty() { return; }
    let n = *r.pick(&ids);
    match r.below(9) {
        0 => { m.update_filters(); m.filtered_led_for(&n); m.filtered_out_fb_for(&n, 0); }
        1 => { m.update_output_feedback(); m.out_fb_for(&n, 0); }
        2 => { if let Some(c) = m.get_copy(r.below(w), r.below(h)) { m.monitor_cell(c); } }
        3 => { for i in 0..6 { let _ = m.get_minmax_monitor_samples(i).at(0); } }
        4 => { let _ = save_patch_to_mem(m); }
        5 => { m.check_pattern_data(r.below(3)); let _ = m.check_block_function(r.below(3)); }
        6 => { m.led_value_for(&n); m.phase_value_for(&n); m.handle_graph_events(); }
        7 => { for p in patch::params(n) { m.get_param(&p); m.get_param_modamt(&p); } m.for_each_atom(|_, _, _, _| ()); }
        _ => { if let Some(s) = m.get_scope_handle(r.below(2)) { s.read(0, r.below(100)); } let _ = m.check(); }
    }
}

fn run13(c: &Case) {
    host_init();
    rt::set_max_steps(60_000_000);
    let (w, h, sr, text, ids, mut segs, ev) = cfg(c);
    // nodes that get data after the graph is there can not start at the same frame in a live engine
    let build = c.c("build") != 0;
    let live = c.c("live") != 0 && !build && !ids.iter().any(|n| matches!(n, NodeId::TSeq(_) | NodeId::Code(_) | NodeId::Sampl(_)));
    if live { segs[0].ops.clear(); }
    let part = (c.seed, c.c("bmin").max(1) as usize, c.c("bmax").max(1) as usize);
    let a = reference(&text, &ids, &segs, &ev, sr, part, w, h, build);
    let (conf, mut exec) = new_node_engine();
    exec.no_logging();
    exec.set_external_params(Arc::new(Ext));
    let rate = c.c("rate");
    if rate == 0 { exec.set_sample_rate(sr); }
    let mut m = Matrix::new(conf, w, h);
    SH.init(Sh { until: 0, at: 0, stop: false, mode: 0, rate: None, old: vec![], started: false });
    let ev2 = ev.clone();
    let th = std::thread::spawn(move || {
        rt::name("audio");
        // the past
        let mut hist = Player::new(&[], 7, 16, 128);
        let mut p = Player::new(&ev2, part.0, part.1, part.2);
        loop {
            let (until, stop, mode, rate) = SH.with(|s| (s.until, s.stop, s.mode, s.rate.take()));
            if let Some(sr) = rate { exec.set_sample_rate(sr); }
            match mode {
                0 => { if hist.frame < until { hist.block(&mut exec, until, true); hist.rec.clear(); } else { rt::sleep_us(900); } }
                3 => { let old = exec.get_nodes(); SH.with(|s| { s.old = old; s.mode = 1; }); }
                // only the old graph or none plays; the first block of the new graph is the first frame
                1 if !SH.with(|s| s.started) => {
                    exec.process_graph_updates();
                    let nodes = exec.get_nodes();
                    let isnew = !nodes.is_empty() && SH.with(|s| nodes.iter().all(|n| !s.old.iter().any(|o| Arc::ptr_eq(&o.0, &n.0))));
                    rt::atomically(|| drop(nodes));
                    if isnew { SH.with(|s| s.started = true); p.block(&mut exec, until, false); }
                    else { let to = hist.frame + 64; hist.block(&mut exec, to, false); hist.rec.clear(); rt::sleep_us(500); }
                }
                _ => { if p.frame < until { p.block(&mut exec, until, true); rt::sleep_us(500); } else if stop { break; } else { rt::sleep_us(900); } }
            }
            SH.with(|s| if s.mode == mode { s.at = if mode == 0 { hist.frame } else { p.frame } });
        }
        (p.rec, exec)
    });
    let wait = |n: usize| { let mut g = 0; while SH.with(|s| s.at) < n { rt::sleep_us(700); g += 1; if g > 100_000 { rt::fail("harness", "audio does not advance"); } } };
    let mut played = 0;
    for o in &c.ops {
        let mut t = Tok::new(o);
        match t.s() {
            "edit" => { let (n, mut r) = (t.u(), Rng::new(t.u() as u64)); for _ in 0..n { op("edit", || patch::edit(&mut m, &mut r, w, h)); } send_all(&mut m); }
            "chain" => { let mut r = Rng::new(t.u() as u64); op("chain", || chain(&mut m, &mut r, w, h)); }
            "play" => { played += t.u().max(1); SH.with(|s| s.until = played); wait(played); }
            "load" => { let mut r = Rng::new(t.u() as u64); let (b, _) = make_patch(&mut r, 4, w, h); let _ = op("load", || load_patch_from_mem(&mut m, &b)); send_all(&mut m); }
            "same" => { let _ = op("load", || load_patch_from_mem(&mut m, &text)); send_all(&mut m); }
            "clear" => op("clear", || m.clear()),
            "srate" if rate != 0 => { let s = t.u() as f32; SH.with(|x| x.rate = Some(s)); while SH.with(|x| x.rate.is_some()) { rt::sleep_us(300); } }
            _ => {}
        }
    }
    // let the audio thread take all updates, so that the old nodes are known
    played += 64; SH.with(|s| s.until = played); wait(played);
    let setrate = |w: bool| { SH.with(|x| x.rate = Some(sr)); while w && SH.with(|x| x.rate.is_some()) { rt::sleep_us(300); } };
    if rate == 1 { setrate(true); }
    let first: usize = segs[0].frames;
    if live && rate >= 2 { setrate(true); }
    if rate == 2 && !live { setrate(false); }
    if live { SH.with(|s| { s.until = first; s.mode = 3; }); while SH.with(|s| s.mode) == 3 { rt::sleep_us(300); } }
    if !enter(&mut m, &text, build) { rt::fail("render", "the patch does not load"); }
    send_all(&mut m);
    if !live {
        while SH.with(|x| x.rate.is_some()) { rt::sleep_us(300); }
        if rate == 3 { setrate(true); }
    }
    let mut until = 0;
    for s in segs.iter() {
        for o in &s.ops { op("step", || step(&mut m, &ids, o)); }
        until += s.frames;
        SH.with(|x| { x.until = until; if x.mode == 0 { x.mode = 2; x.at = 0; x.started = true; } });
        let mut g = 0;
        while SH.with(|x| x.at) < until || !SH.with(|x| x.started) { rt::sleep_us(700); g += 1; if g > 100_000 { rt::fail("harness", "audio does not advance"); } }
    }
    SH.with(|s| s.stop = true);
    let (b, exec) = th.join().unwrap_or_else(|_| rt::fail("harness", "join"));
    drop(m); drop(exec);
    compare(&a, &b, "after another history");
    rt::state(a.len() as u64);
}
