//! P23: observers are told about every change, and the queries agree with what was placed and set.
use super::patch;
use super::world::*;
use crate::case::{Case, Tok};
use crate::rng::Rng;
use crate::rt;
use crate::runner::PropDef;
use hexodsp::matrix::{Cell, Matrix, MatrixError, MatrixObserver};
use hexodsp::matrix_repr::MatrixRepr;
use hexodsp::*;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

pub const P23: PropDef = PropDef {
    id: "P23", gen, run, quick: 4000, thorough: 100000,
    rule: "one evaluation = one operation after which the observer's mirror and all queries were compared with the matrix and the model; a run is distinct by (state history hash, interleaving hash)",
    real: super::REAL_ENGINE, stub: super::STUB_ENGINE,
    assumptions: &["the observer re-reads what it is told about after the operation", "cells are published with sync after they were changed"],
};
const DIRS: [CellDir; 6] = [CellDir::TR, CellDir::BR, CellDir::B, CellDir::BL, CellDir::TL, CellDir::T];
const KEYS: [&str; 5] = ["a", "b", "\u{fc}", "", "long key with \"quotes\""];
const NI: u8 = 3;
/// One cell: node and ports by direction (TR, BR, B, BL, TL, T).
#[derive(Clone, Copy, PartialEq, Debug)]
struct MC { n: NodeId, p: [Option<u8>; 6] }
impl MC {
    fn empty() -> Self { MC { n: NodeId::Nop, p: [None; 6] } }
    fn cell(&self) -> Cell { Cell::empty(self.n).input(self.p[5], self.p[4], self.p[3]).out(self.p[0], self.p[1], self.p[2]) }
    fn of(c: &Cell) -> Self {
        let r = c.to_repr();
        let f = |v: i16| if v < 0 { None } else { Some(v as u8) };
        MC { n: r.node_id, p: [f(r.out[0]), f(r.out[1]), f(r.out[2]), f(r.inp[2]), f(r.inp[1]), f(r.inp[0])] }
    }
}
struct Grid { w: usize, h: usize, c: Vec<MC> }
impl Grid {
    fn at(&self, x: i64, y: i64) -> Option<MC> { if x < 0 || y < 0 || x >= self.w as i64 || y >= self.h as i64 { None } else { Some(self.c[x as usize * self.h + y as usize]) } }
    /// The neighbour: columns with odd numbers are half a cell lower.
    fn step(x: i64, y: i64, d: usize) -> (i64, i64) {
        let low = x.rem_euclid(2);
        match d { 0 => (x + 1, y - 1 + low), 1 => (x + 1, y + low), 2 => (x, y + 1), 3 => (x - 1, y + low), 4 => (x - 1, y - 1 + low), _ => (x, y - 1) }
    }
}
#[derive(Debug)]
enum Ev { Prop(String), Monitor(MC, (usize, usize)), Param(ParamId), Matrix, All }
struct Obs(Mutex<Vec<Ev>>);
impl MatrixObserver for Obs {
    fn update_prop(&self, key: &str) { self.0.lock().unwrap().push(Ev::Prop(key.to_string())) }
    fn update_monitor(&self, cell: &Cell) { self.0.lock().unwrap().push(Ev::Monitor(MC::of(cell), cell.pos())) }
    fn update_param(&self, p: &ParamId) { self.0.lock().unwrap().push(Ev::Param(*p)) }
    fn update_matrix(&self) { self.0.lock().unwrap().push(Ev::Matrix) }
    fn update_all(&self) { self.0.lock().unwrap().push(Ev::All) }
    fn midi_event(&self, _: nodes::HxMidiEvent) {}
}
type PV = (Option<String>, Option<u32>);
/// What can be seen of a matrix.
#[derive(Clone, PartialEq)]
struct View { par: BTreeMap<ParamId, PV>, prop: BTreeMap<String, String>, cells: Vec<MC>, mon: (MC, (usize, usize)) }
fn pv(m: &Matrix, p: &ParamId) -> PV { (m.get_param(p).map(|v| format!("{:?}", v)), m.get_param_modamt(p).map(|v| v.to_bits())) }
fn cells(m: &Matrix) -> Vec<MC> { let mut v = vec![]; m.for_each(|_, _, c| v.push(MC::of(c))); v }
fn mon(m: &Matrix) -> (MC, (usize, usize)) { (MC::of(m.monitored_cell()), m.monitored_cell().pos()) }
fn view(m: &mut Matrix, all: &[ParamId]) -> View {
    let mut par = BTreeMap::new();
    for p in all { let v = pv(m, p); if v != (None, None) { par.insert(*p, v); } }
    let mut prop = BTreeMap::new();
    for k in KEYS { if let Some(v) = m.get_prop(k) { prop.insert(k.to_string(), format!("{:?}", v)); } }
    View { par, prop, cells: cells(m), mon: mon(m) }
}

fn gen(c: &mut Case, r: &mut Rng) {
    c.set("w", r.range(1, 5)); c.set("h", r.range(1, 5));
    // a few kinds of nodes
    c.set("kinds", (r.u64() % 1_000_000) as i64);
    for _ in 0..r.range(4, 40) {
        let s = r.u64() % 1_000_000;
        match r.below(22) {
            0..=4 => c.op(format!("place {}", s)),
            5 => c.op(format!("del {}", s)),
            6..=8 => c.op(format!("set {}", s)),
            9..=12 => c.op(format!("mod {}", s)),
            13 => c.op(format!("prop {}", s)),
            14 | 15 => c.op(format!("monitor {}", s)),
            16 => match r.below(4) { 0 => c.op("clear"), 1 => c.op("reload"), 2 => c.op("save"), _ => c.op("load") },
            17 => c.op(format!("badload {}", s)),
            18 | 19 => c.op(format!("multi {}", s)),
            20 => match r.below(4) { 0 | 1 => c.op(format!("io {}", s)), 2 => c.op("savem"), _ => { c.op("savem"); match r.below(4) { 0 => c.op("clear"), 1 => c.op("reload"), 2 => c.op(format!("raw {}", s)), _ => {} } c.op("restorem"); } },
            _ => c.op("sync"),
        }
    }
}
fn rand_mc(r: &mut Rng, kinds: &[&str]) -> MC {
    let nm = *r.pick(kinds);
    let n = patch::node(nm, if nm == "out" { 0 } else { r.below(NI as usize) as u8 });
    let (ni, no) = (patch::n_in(n), patch::n_out(n));
    let mut p = [None; 6];
    let all = r.chance(1, 2);
    for d in 0..6 { let k = if d < 3 { no } else { ni }; if k > 0 && (all || r.chance(1, 2)) { p[d] = Some(r.below(k) as u8); } }
    // not one input twice
    for d in 3..6 { for e in 3..d { if p[d].is_some() && p[d] == p[e] { p[d] = None; } } }
    MC { n, p }
}
fn run(c: &Case) {
    host_init();
    let (conf, mut exec) = new_node_engine();
    exec.no_logging();
    let (w, h) = (c.c("w").clamp(1, 8) as usize, c.c("h").clamp(1, 8) as usize);
    let mut m = Matrix::new(conf, w, h);
    HOST.with(|h| h.keep = false);
    let audio = spawn_audio(exec, AudioCfg { sr: 44100.0, min: 64, max: 128, seed: c.seed ^ 5, sleep: true });
    let mut kr = Rng::new(c.c("kinds") as u64);
    let kinds: Vec<&str> = { let mut v = vec!["amp", "mix3", "sin", "out", "map"]; for _ in 0..4 { v.push(*kr.pick(patch::NODES)); } v.retain(|k| *k != "fvafilt" && *k != "sampl"); if kr.chance(1, 3) { v.push("sampl"); } v };
    let mut nodes: Vec<NodeId> = vec![];
    for k in &kinds { for i in 0..if *k == "out" { 1 } else { NI } { let n = patch::node(k, i); if !nodes.contains(&n) { nodes.push(n); } } }
    let all: Vec<ParamId> = nodes.iter().flat_map(|n| patch::params(*n)).collect();
    let obs = Arc::new(Obs(Mutex::new(vec![])));
    m.set_observer(obs.clone());
    let mut g = Grid { w, h, c: vec![MC::empty(); w * h] };
    let mut mirror = view(&mut m, &all);
    let mut before = mirror.clone();
    let mut gen = m.get_generation();
    let mut saved: Option<(Vec<u8>, Vec<MC>, bool)> = None;
    let mut synced = true;
    // the matrix that was put aside (the outer None: who knows)
    let mut aside: Option<Option<Vec<MC>>> = Some(None);
    for o in &c.ops {
        let mut t = Tok::new(o);
        let k = t.s();
        let mut refused = false;
        let mut r = Rng::new(t.u() as u64);
        match k { "place" | "del" | "io" | "multi" | "badload" => aside = None, "clear" | "reload" | "load" => aside = Some(None), _ => {} }
        match k {
            "place" | "del" => {
                let (x, y) = (r.below(w), r.below(h));
                let mc = if k == "del" { MC::empty() } else { rand_mc(&mut r, &kinds) };
                let res = op(k, || { let e = m.change_matrix(|m| m.place(x, y, mc.cell())); synced = m.sync().is_ok(); e });
                if res.is_ok() { g.c[x * h + y] = mc; } else { rt::count("probe_refused", 1); }
            }
            "io" => {
                // single ports of cells
                let (x, y) = (r.below(w), r.below(h));
                let mut mc = g.c[x * h + y];
                if mc.n == NodeId::Nop { continue; }
                let mut cell = m.get_copy(x, y).unwrap();
                for _ in 0..r.range(1, 3) {
                    let d = r.below(6);
                    let n = if d < 3 { patch::n_out(mc.n) } else { patch::n_in(mc.n) };
                    match r.below(5) {
                        0 => { cell.clear_io_dir(DIRS[d]); mc.p[d] = None; }
                        1 if r.chance(1, 4) => { cell.clear_io_dir(CellDir::C); mc.p = [None; 6]; }
                        2 if n > 0 => { let i = r.below(n); cell.set_io_dir(DIRS[d], i); mc.p[d] = Some(i as u8); }
                        _ if n > 0 => {
                            let i = r.below(n);
                            let nm = if d < 3 { mc.n.out_name_by_idx(i as u8) } else { mc.n.inp_name_by_idx(i as u8) }.unwrap_or("");
                            let res = if d < 3 { cell.set_output_by_name(nm, DIRS[d]) } else { cell.set_input_by_name(nm, DIRS[d]) };
                            if res.is_err() { rt::fail("query", format!("{:?} does not know its port {}", mc.n, nm)); }
                            mc.p[d] = Some(i as u8);
                        }
                        _ => {}
                    }
                }
                let res = op(k, || { let e = m.change_matrix(|m| m.place_cell(cell)); synced = m.sync().is_ok(); e });
                if res.is_ok() { g.c[x * h + y] = mc; } else { rt::count("probe_refused", 1); }
            }
            "multi" => {
                let n = r.range(1, 4) as usize;
                let outside = r.chance(1, 5);
                let v: Vec<(usize, usize, MC)> = (0..n).map(|i| (r.below(w + if outside && i + 1 == n { 2 } else { 0 }), r.below(h), rand_mc(&mut r, &kinds))).collect();
                let list: Vec<Cell> = v.iter().map(|(x, y, mc)| mc.cell().with_pos_of(Cell::empty_at(NodeId::Nop, *x as u8, *y as u8))).collect();
                let mut want: Option<&str> = None;
                let mut ng = g.c.clone();
                for (x, y, mc) in &v {
                    if *x >= w { want = Some("range"); break; }
                    if ng[x * h + y].n != NodeId::Nop { want = Some("occupied"); break; }
                    ng[x * h + y] = *mc;
                }
                let res = op(k, || { let e = m.change_matrix_err(|m| m.place_multiple(&list)); synced = m.sync().is_ok(); e });
                let ok = match (&want, &res) { (Some("range"), Err(MatrixError::PosOutOfRange)) | (Some("occupied"), Err(MatrixError::NonEmptyCell { .. })) => true, (None, Ok(())) | (None, Err(MatrixError::CycleDetected)) | (None, Err(MatrixError::DuplicatedInput { .. })) => true, _ => false };
                if !ok { rt::fail("query", format!("place_multiple of {:?} returned {:?}", list, res)); }
                if res.is_ok() { g.c = ng; rt::count("probe_multi", 1); } else { rt::count("probe_multi_refused", 1); }
            }
            "set" => { let p = *r.pick(&all); let v = patch::rand_value(&mut r, &p); op(k, || m.set_param(p, v)); }
            "mod" => {
                // mostly nodes that are there
                let here: Vec<ParamId> = all.iter().filter(|p| g.c.iter().any(|c| c.n == p.node_id())).copied().collect();
                let p = if here.is_empty() || r.chance(1, 4) { *r.pick(&all) } else { here[r.below(here.len().min(6))] };
                if p.is_atom() { continue; }
                let a = if r.chance(1, 4) { None } else { Some(r.range(-100, 100) as f32 / 100.0) };
                let res = op(k, || m.set_param_modamt(p, a));
                if let Err(e) = res { refused = true; if synced { rt::fail("query", format!("set_param_modamt failed: {:?}", e)); } }
                if m.get_param_modamt(&p) != a { rt::fail("query", format!("the modulation amount of {:?} is {:?}, set was {:?}", p, m.get_param_modamt(&p), a)); }
            }
            "prop" => { let key = *r.pick(&KEYS); let v = patch::rand_atom(&mut r); op(k, || m.set_prop(key, v)); }
            "monitor" => {
                let (x, y) = (r.below(w), r.below(h));
                let cell = m.get_copy(x, y).unwrap();
                op(k, || m.monitor_cell(cell));
                if mon(&m) != (g.c[x * h + y], (x, y)) { rt::fail("query", format!("the monitored cell is {:?}, it should be {},{}", m.monitored_cell(), x, y)); }
            }
            "savem" => { op(k, || m.save_matrix()); aside = Some(Some(g.c.clone())); }
            "restorem" => {
                let Some(a) = aside.take() else { continue };
                op(k, || { m.restore_matrix(); synced = m.sync().is_ok(); });
                if let Some(a) = a { g.c = a; }
                aside = Some(None);
                rt::count("op_restore", 1);
            }
            "raw" => {
                for _ in 0..r.range(1, 3) { let (x, y, mc) = (r.below(w), r.below(h), rand_mc(&mut r, &kinds)); m.place(x, y, mc.cell()); g.c[x * h + y] = mc; }
                let x = op(k, || m.sync());
                synced = x.is_ok();
            }
            "clear" => { op(k, || m.clear()); g.c = vec![MC::empty(); w * h]; synced = true; rt::count("op_clear", 1); }
            "save" => { saved = Some((op(k, || save_patch_to_mem(&mut m)), g.c.clone(), synced)); }
            "reload" | "load" => {
                let (data, cs, good) = if k == "load" { match &saved { Some(s) => s.clone(), None => continue } } else { (save_patch_to_mem(&mut m), g.c.clone(), synced) };
                let res = op(k, || load_patch_from_mem(&mut m, &data));
                synced = res.is_ok();
                if let Err(e) = res { if good { rt::fail("query", format!("loading a saved patch failed: {:?}", e)); } }
                g.c = cs;
                rt::count("op_load", 1);
            }
            "badload" => {
                // a patch with a cycle: the matrix is changed, but the graph is refused
                if h < 2 { continue; }
                let (x, y) = (r.below(w), r.below(h - 1));
                let mut cs = g.c.clone();
                let n = patch::node("amp", r.below(NI as usize) as u8);
                cs[x * h + y] = MC { n, p: [None, None, Some(0), None, None, None] };
                cs[x * h + y + 1] = MC { n, p: [None, None, None, None, None, Some(0)] };
                m.save_matrix();
                for (dy, mc) in [(0, cs[x * h + y]), (1, cs[x * h + y + 1])] { m.place(x, y + dy, mc.cell()); }
                let mut repr = m.to_repr();
                m.restore_matrix();
                let s = repr.serialize().to_string();
                let repr = MatrixRepr::deserialize(&s).unwrap_or_else(|e| rt::fail("query", format!("{:?}", e)));
                let res = op(k, || m.from_repr(&repr));
                if res.is_ok() { rt::fail("query", "a patch with a cycle was loaded".to_string()); }
                g.c = cs;
                synced = false;
                rt::count("fault_bad_patch", 1);
            }
            _ => { let r = op(k, || m.sync()); synced = r.is_ok(); }
        }
        // the observer looks at what it was told about
        let evs: Vec<Ev> = std::mem::take(&mut *obs.0.lock().unwrap());
        let now = view(&mut m, &all);
        for e in &evs {
            match e {
                Ev::Prop(k) => match now.prop.get(k) { Some(v) => { mirror.prop.insert(k.clone(), v.clone()); } None => { mirror.prop.remove(k); } },
                Ev::Monitor(c, p) => mirror.mon = (*c, *p),
                Ev::Param(p) => match now.par.get(p) { Some(v) => { mirror.par.insert(*p, v.clone()); } None => { mirror.par.remove(p); } },
                Ev::Matrix => { mirror.cells = now.cells.clone(); for (p, v) in &now.par { let e = mirror.par.entry(*p).or_insert_with(|| v.clone()); if e.0.is_none() { e.0 = v.0.clone(); } } }
                Ev::All => mirror = now.clone(),
            }
        }
        // (cells are announced when they are published)
        if !synced && (k == "raw" || k == "restorem") { mirror.cells = now.cells.clone(); refused = true; }
        rt::count("checks", 1);
        for p in &all { if mirror.par.get(p) != now.par.get(p) { rt::fail("observer", format!("after {}: {:?} is {:?}, the observer still shows {:?}; it was told: {:?}", o, p, now.par.get(p), mirror.par.get(p), evs)); } }
        if mirror.prop != now.prop { rt::fail("observer", format!("after {}: the properties are {:?}, the observer shows {:?}", o, now.prop, mirror.prop)); }
        if mirror.cells != now.cells { rt::fail("observer", format!("after {}: the cells changed, the observer was told: {:?}", o, evs)); }
        if mirror.mon != now.mon { rt::fail("observer", format!("after {}: the monitored cell is {:?}, the observer shows {:?}", o, now.mon, mirror.mon)); }
        // and so does someone who follows the generation
        let gn = m.get_generation();
        if (now.par != before.par || now.prop != before.prop || now.cells != before.cells) && !refused && gn == gen { rt::fail("generation", format!("after {}: the matrix changed, the generation stayed {}", o, gn)); }
        gen = gn;
        before = now;
        queries(&mut m, &g, &nodes, &all, o, &mut r, synced);
        rt::state(evs.len() as u64 * 31 + g.c.iter().filter(|c| c.n != NodeId::Nop).count() as u64);
    }
    let exec = audio.stop();
    drop(m); drop(exec);
}
fn queries(m: &mut Matrix, g: &Grid, nodes: &[NodeId], all: &[ParamId], o: &str, r: &mut Rng, synced: bool) {
    let bad = |what: String| -> ! { rt::fail("query", format!("after {}: {}", o, what)) };
    if m.size() != (g.w, g.h) { bad(format!("size is {:?}", m.size())); }
    if m.get(g.w, 0).is_some() || m.get(0, g.h).is_some() || m.get_copy(g.w, 0).is_some() { bad("there is a cell outside of the grid".into()); }
    let mut used = vec![];
    for x in 0..g.w { for y in 0..g.h {
        let mc = g.c[x * g.h + y];
        let cell = m.get_copy(x, y).unwrap();
        if MC::of(&cell) != mc || cell.pos() != (x, y) { bad(format!("cell {},{} is {:?}, placed was {:?}", x, y, cell, mc)); }
        let e = MC::of(m.get(x, y).unwrap());
        if e != mc { bad(format!("get({},{}) is {:?}, placed was {:?}", x, y, e, mc)); }
        if cell.is_empty() != (mc.n == NodeId::Nop) { bad(format!("is_empty of {:?}", cell)); }
        let mut buf = [0u8; 40];
        let lb = cell.label(&mut buf).map(|s| s.to_string());
        if lb != (if mc.n == NodeId::Nop { None } else { Some(format!("{}", mc.n)) }) { bad(format!("the label of {:?} is {:?}", cell, lb)); }
        let mut conn = vec![];
        for d in 0..6 {
            let dir = DIRS[d];
            let (nx, ny) = Grid::step(x as i64, y as i64, d);
            let nb = g.at(nx, ny);
            let there = nb.and_then(|n| n.p[(d + 3) % 6]);
            if m.get_adjacent(x, y, dir).map(|c| MC::of(c)) != nb { bad(format!("get_adjacent({},{},{:?}) is {:?}, there is {:?}", x, y, dir, m.get_adjacent(x, y, dir), nb)); }
            let ao = m.get_adjacent_output(x, y, dir);
            let want = if d >= 3 { nb.filter(|n| n.n != NodeId::Nop).and_then(|n| n.p[d - 3].map(|p| (n.n, p))) } else { None };
            if ao != want { bad(format!("get_adjacent_output({},{},{:?}) is {:?}, there is {:?}", x, y, dir, ao, nb)); }
            let hi = m.adjacent_edge_has_input(x, y, dir);
            if hi != (d < 3 && there.is_some()) { bad(format!("adjacent_edge_has_input({},{},{:?}) is {}, there is {:?}", x, y, dir, hi, nb)); }
            if cell.has_dir_set(dir) != mc.p[d].is_some() || cell.local_port_idx(dir) != mc.p[d] { bad(format!("port {:?} of {:?}", dir, cell)); }
            let linked = mc.p[d].is_some() && there.is_some();
            let pc = cell.is_port_dir_connected(m, dir);
            if pc.map(|(a, b)| (a as i64, b as i64)) != (if linked { Some((nx, ny)) } else { None }) { bad(format!("is_port_dir_connected({:?}) of {:?} is {:?}, there is {:?}", dir, cell, pc, nb)); }
            if linked { conn.push((mc, d, mc.p[d].unwrap(), nb.unwrap(), (d + 3) % 6, there.unwrap(), (nx, ny))); if d >= 3 { used.push((mc.n, mc.p[d].unwrap())); } }
            // labels
            let len = if r.chance(1, 4) { r.below(5) } else { 20 };
            let mut buf = [0u8; 20];
            let el = m.edge_label(&cell, dir, &mut buf[..len]).map(|(s, c)| (s.to_string(), c));
            let want = if mc.n == NodeId::Nop { None } else { mc.p[d].and_then(|p| if d < 3 { mc.n.out_name_by_idx(p) } else { mc.n.inp_name_by_idx(p) }).filter(|s| s.len() <= len).map(|s| (s.to_string(), d < 3 && there.is_some())) };
            if el != want && synced { bad(format!("edge_label of {:?} {:?} is {:?}, expected {:?}", cell, dir, el, want)); }
        }
        // connections in any order
        let got = m.get_connections(x, y).unwrap_or_else(|| bad(format!("get_connections({},{}) is None", x, y)));
        let mut got: Vec<_> = got.iter().map(|((a, ad, ai), (b, bd, bi, (bx, by)))| (MC::of(a), DIRS.iter().position(|x| x == ad).unwrap_or(9), *ai, MC::of(b), DIRS.iter().position(|x| x == bd).unwrap_or(9), *bi, (*bx as i64, *by as i64))).collect();
        got.sort_by_key(|c| c.1);
        if got != conn { bad(format!("the connections of {},{} are {:?}, expected {:?}", x, y, got, conn)); }
        // free places and unconnected ports (T: inputs, B: outputs, C: all)
        for (dir, opts) in [(CellDir::T, vec![5, 4, 3]), (CellDir::B, vec![0, 1, 2]), (CellDir::C, vec![5, 4, 3, 0, 1, 2])] {
            let free: Vec<usize> = opts.iter().copied().filter(|d| { let (nx, ny) = Grid::step(x as i64, y as i64, *d); g.at(nx, ny).map_or(false, |n| n.n == NodeId::Nop) }).collect();
            let first = free.iter().find(|d| mc.p[**d].is_some()).or(free.first()).map(|d| (DIRS[*d], mc.p[*d]));
            let ff = cell.find_first_adjacent_free(m, dir);
            if ff != first { bad(format!("find_first_adjacent_free({:?}) of {:?} is {:?}, expected {:?}", dir, cell, ff, first)); }
            let fa: Vec<(CellDir, (i64, i64))> = cell.find_all_adjacent_free(m, dir).iter().map(|(d, p)| (*d, (p.0 as i64, p.1 as i64))).collect();
            let want: Vec<_> = free.iter().map(|d| (DIRS[*d], Grid::step(x as i64, y as i64, *d))).collect();
            if fa != want { bad(format!("find_all_adjacent_free({:?}) of {:?} is {:?}, expected {:?}", dir, cell, fa, want)); }
            let up = cell.find_unconnected_ports(m, dir);
            let want: Vec<CellDir> = opts.iter().filter(|d| !conn.iter().any(|c| c.1 == **d)).map(|d| DIRS[*d]).collect();
            if up != want { bad(format!("find_unconnected_ports({:?}) of {:?} is {:?}, expected {:?}", dir, cell, up, want)); }
        }
    } }
    if !synced { return; }
    // inputs in use
    for p in all {
        if p.is_atom() { continue; }
        let u = used.iter().any(|(n, i)| *n == p.node_id() && n.inp_param_by_idx(*i as usize) == Some(*p));
        if m.param_input_is_used(*p) != u { bad(format!("param_input_is_used({:?}) is {}", p, !u)); }
    }
    // every parameter of every node once, with its value
    let mut list: BTreeMap<ParamId, (usize, String, Option<u32>)> = BTreeMap::new();
    let mut twice = None;
    m.for_each_atom(|i, p, a, ma| { if list.insert(p, (i, format!("{:?}", a), ma.map(|v| v.to_bits()))).is_some() { twice = Some(p); } });
    if let Some(p) = twice { bad(format!("for_each_atom gives {:?} twice", p)); }
    for n in nodes {
        match m.unique_index_for(n) {
            None => { if g.c.iter().any(|c| c.n == *n) { bad(format!("{:?} is in the matrix, but has no index", n)); } if list.keys().any(|p| p.node_id() == *n) { bad(format!("for_each_atom gives parameters of {:?}, which does not exist", n)); } }
            Some(i) => for p in patch::params(*n) {
                let (v, a) = pv(m, &p);
                let want = (i, v.unwrap_or_default(), a);
                if list.get(&p) != Some(&want) { bad(format!("for_each_atom gives {:?} for {:?}, it is {:?}", list.get(&p), p, want)); }
            }
        }
    }
    rt::count("probe_queries", list.len() as u64);
}
