//! P02: the audio thread executes exactly the graph of some published matrix state.
//! P03: a rejected change leaves everything as it was.
use super::world::*;
use crate::case::{Case, Tok};
use crate::rng::Rng;
use crate::rt;
use crate::runner::PropDef;
use hexodsp::matrix::{Cell, Matrix, MatrixError};
use hexodsp::*;
use std::collections::{BTreeMap, BTreeSet};

pub const P02: PropDef = PropDef {
    id: "P02", gen, run, quick: 9000, thorough: 60000,
    rule: "one evaluation = one audio block compared with the reference interpreter (outputs and all inputs of the probe nodes); a run is distinct by (state history hash, interleaving hash)",
    real: super::REAL_ENGINE, stub: super::STUB_ENGINE,
    assumptions: &["parameter values are compared once their 10 ms ramp is over (ramps: P01)", "sub graphs whose reference values exceed 1e6 are not compared"],
};
pub const P03: PropDef = PropDef {
    id: "P03", gen: gen3, run, quick: 7000, thorough: 60000,
    rule: "one evaluation = one rejected change followed by a comparison of all cells, input assignments, generation and the audio output with the reference; a run is distinct by (state history hash, interleaving hash)",
    real: super::REAL_ENGINE, stub: super::STUB_ENGINE,
    assumptions: &["changes are made with change_matrix, change_matrix_err, place_multiple or save_matrix/restore_matrix around sync"],
};

pub(super) const W: usize = 5;
pub(super) const H: usize = 6;
pub(super) const NR: usize = 8;
pub(super) type Nid = (u8, u8);
pub(super) const R: u8 = 0; pub(super) const AMP: u8 = 1; pub(super) const MIX: u8 = 2; pub(super) const MAP: u8 = 3; pub(super) const INP: u8 = 4; pub(super) const OUT: u8 = 5;
pub(super) const NIN: [usize; 6] = [5, 3, 7, 7, 1, 3];
pub(super) const NOUT: [usize; 6] = [1, 1, 1, 1, 2, 0];
pub(super) const ATOM: [Option<&str>; 6] = [None, Some("neg_att"), None, Some("clip"), None, Some("mono")];

pub(super) fn nid(n: Nid) -> NodeId {
    match n.0 { R => NodeId::Rust1x1(n.1), AMP => NodeId::Amp(n.1), MIX => NodeId::Mix3(n.1), MAP => NodeId::Map(n.1), INP => NodeId::Inp(n.1), _ => NodeId::Out(n.1) }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub(super) struct MCell { pub n: Nid, pub i: [i8; 3], pub o: [i8; 3] }
impl MCell {
    pub fn cell(&self) -> Cell {
        let f = |x: i8| if x < 0 { None } else { Some(x as u8) };
        Cell::empty(nid(self.n)).input(f(self.i[0]), f(self.i[1]), f(self.i[2])).out(f(self.o[0]), f(self.o[1]), f(self.o[2]))
    }
}
pub(super) type Grid = Vec<Option<MCell>>;
pub(super) fn neighbour(x: usize, y: usize, d: usize) -> Option<(usize, usize)> {
    let (x, y) = (x as i32, y as i32);
    let (nx, ny) = match d { 0 => (x, y - 1), 1 => (x - 1, if x % 2 == 0 { y - 1 } else { y }), _ => (x - 1, if x % 2 == 0 { y } else { y + 1 }) };
    if nx < 0 || ny < 0 || nx >= W as i32 || ny >= H as i32 { None } else { Some((nx as usize, ny as usize)) }
}
/// (target, input, source, output)
pub(super) type MEdge = (Nid, u8, Nid, u8);
pub(super) fn edges(g: &Grid) -> Vec<MEdge> {
    let mut v = vec![];
    for x in 0..W { for y in 0..H { if let Some(c) = g[x * H + y] {
        for d in 0..3 {
            if c.i[d] < 0 { continue; }
            let Some((nx, ny)) = neighbour(x, y, d) else { continue };
            let Some(s) = g[nx * H + ny] else { continue };
            // the source's port facing this cell: bottom, bottom right, top right
            let o = match d { 0 => s.o[2], 1 => s.o[1], _ => s.o[0] };
            if o >= 0 { v.push((c.n, c.i[d] as u8, s.n, o as u8)); }
        }
    } } }
    v
}
#[derive(PartialEq, Debug, Clone, Copy)]
pub(super) enum Verdict { Ok, Dup, Cycle }
pub(super) fn nodes(g: &Grid) -> BTreeSet<Nid> { g.iter().flatten().map(|c| c.n).collect() }
pub(super) fn order(g: &Grid, es: &[MEdge]) -> Option<Vec<Nid>> {
    let mut left: BTreeSet<Nid> = nodes(g);
    let mut out = vec![];
    while !left.is_empty() {
        let free: Vec<Nid> = left.iter().filter(|n| !es.iter().any(|e| e.0 == **n && left.contains(&e.2))).copied().collect();
        if free.is_empty() { return None; }
        for f in free { left.remove(&f); out.push(f); }
    }
    Some(out)
}
pub(super) fn verdict(g: &Grid) -> Verdict {
    let es = edges(g);
    let mut seen = BTreeSet::new();
    for e in &es { if !seen.insert((e.0, e.1)) { return Verdict::Dup; } }
    if order(g, &es).is_none() { Verdict::Cycle } else { Verdict::Ok }
}

/// What the audio thread has to compute.
#[derive(Clone, PartialEq)]
pub(super) struct Snap { pub order: Vec<Nid>, pub edges: Vec<MEdge>, pub pv: BTreeMap<(Nid, u8), f32>, pub mo: BTreeMap<(Nid, u8), f32>, pub at: BTreeMap<Nid, i64> }
pub(super) fn pid(n: Nid, i: u8) -> ParamId { nid(n).inp_param_by_idx(i as usize).unwrap() }
fn fr(k: u8, i: [f32; 5]) -> f32 {
    let c = 0.3 + 0.15 * k as f32;
    (i[0] * c + i[1] * 0.5 - i[2] * 0.25 + i[3] * i[4]).clamp(-2.0, 2.0)
}
struct Res { l: Vec<f32>, r: Vec<f32>, ins: BTreeMap<u8, Vec<[f32; 5]>> }
const BAD: f32 = 1e6;
fn eval(s: &Snap, f0: u64, n: usize) -> Res {
    let mut outs: BTreeMap<(Nid, u8), Vec<f32>> = BTreeMap::new();
    let mut res = Res { l: vec![0.0; n], r: vec![0.0; n], ins: BTreeMap::new() };
    for &nd in &s.order {
        let ni = NIN[nd.0 as usize];
        let mut ins: Vec<Vec<f32>> = vec![];
        for i in 0..ni as u8 {
            let pv = *s.pv.get(&(nd, i)).unwrap_or(&0.0);
            let e = s.edges.iter().rev().find(|e| e.0 == nd && e.1 == i);
            ins.push(match e {
                None => vec![pv; n],
                Some(e) => {
                    let o = outs.get(&(e.2, e.3)).cloned().unwrap_or(vec![0.0; n]);
                    match s.mo.get(&(nd, i)) { None => o, Some(m) => o.iter().map(|x| pv + m * x).collect() }
                }
            });
        }
        let d = |i: u8, x: f32| pid(nd, i).denorm(x);
        let at = *s.at.get(&nd).unwrap_or(&0);
        match nd.0 {
            R => {
                let v: Vec<[f32; 5]> = (0..n).map(|f| [ins[0][f], ins[1][f], ins[2][f], ins[3][f], ins[4][f]]).collect();
                outs.insert((nd, 0), v.iter().map(|i| if i.iter().any(|x| !(x.abs() < BAD)) { f32::NAN } else { fr(nd.1, *i) }).collect());
                res.ins.insert(nd.1, v);
            }
            AMP => { outs.insert((nd, 0), (0..n).map(|f| { let a = ins[2][f]; ins[0][f] * (if at > 0 { a.max(0.0) } else { a.abs() }) * d(1, ins[1][f]) }).collect()); }
            MIX => { outs.insert((nd, 0), (0..n).map(|f| (ins[0][f] * d(3, ins[3][f]) + ins[1][f] * d(4, ins[4][f]) + ins[2][f] * d(5, ins[5][f])) * d(6, ins[6][f])).collect()); }
            MAP => {
                outs.insert((nd, 0), (0..n).map(|f| {
                    let v = ins[0][f] * ins[1][f] + ins[2][f];
                    let (imin, imax, min, max) = (ins[3][f], ins[4][f], ins[5][f], ins[6][f]);
                    if [v, imin, imax, min, max].iter().any(|x| !(x.abs() < BAD)) { return f32::NAN; }
                    let x = if (imax - imin).abs() < f32::EPSILON { 1.0 } else { ((v - imin) / (imax - imin)).abs() };
                    let r = min + (max - min) * x;
                    if at == 0 { r } else { r.max(min.min(max)).min(max.max(min)) }
                }).collect());
            }
            INP => for ch in 0..2 { outs.insert((nd, ch), (0..n).map(|f| d(0, ins[0][f]) * input_signal(ch as usize, f0 + f as u64)).collect()); },
            _ => for f in 0..n {
                let v = d(2, ins[2][f]);
                res.l[f] = v * ins[0][f];
                res.r[f] = v * if at > 0 { ins[0][f] } else { ins[1][f] };
            },
        }
        // anything out of range is tainted from here on
        for o in 0..NOUT[nd.0 as usize] as u8 { for x in outs.get_mut(&(nd, o)).unwrap() { if !(x.abs() < BAD) { *x = f32::NAN; } } }
    }
    res
}

#[derive(Default)]
pub(super) struct St { /// nodes beyond the expected ones may be run
    pub extra: bool, pub vers: Vec<(usize, Option<Snap>)>, pub lo: usize, pub obs: BTreeMap<u8, Vec<[f32; 5]>>, pub ops: Vec<(NodeId, u64, u64)>, pub compared: u64 }
pub(super) static ST: Shared<St> = Shared::new();

fn close(a: f32, b: f32) -> bool { !(a.abs() < BAD) || (a - b).abs() <= 1e-3 * (1.0 + a.abs()) }
fn matches(s: &Snap, b: &Blk, obs: &BTreeMap<u8, Vec<[f32; 5]>>, ops: &[(NodeId, u64, u64)], extra: bool) -> Result<(), String> {
    // the nodes that are run, and what they are told about their connections
    if !extra && ops.len() != s.order.len() { return Err(format!("{} nodes were run, expected {}", ops.len(), s.order.len())); }
    for n in &s.order {
        let want = s.edges.iter().fold((0u64, 0u64), |(i, o), e| (if e.0 == *n { i | 1 << e.1 } else { i }, if e.2 == *n { o | 1 << e.3 } else { o }));
        match ops.iter().find(|o| o.0 == nid(*n)) {
            None => return Err(format!("{:?} was not run", nid(*n))),
            Some(o) => if (o.1, o.2) != want { return Err(format!("{:?} was told that the inputs {:b} and outputs {:b} are connected, expected {:b} and {:b}", o.0, o.1, o.2, want.0, want.1)); }
        }
    }
    let e = eval(s, b.frame0, b.n);
    let ks: Vec<&u8> = e.ins.keys().collect();
    let os: Vec<&u8> = obs.keys().filter(|k| !extra || e.ins.contains_key(*k)).collect();
    if ks != os { return Err(format!("executed probe nodes {:?}, expected {:?}", os, ks)); }
    for (k, v) in &e.ins { for f in 0..b.n { for i in 0..5 {
        if !close(v[f][i], obs[k][f][i]) { return Err(format!("Rust1x1({}) input {} sample {} is {}, expected {}", k, i, f, obs[k][f][i], v[f][i])); }
    } } }
    for f in 0..b.n {
        if !close(e.l[f], b.l[f]) { return Err(format!("left output sample {} is {}, expected {}", f, b.l[f], e.l[f])); }
        if !close(e.r[f], b.r[f]) { return Err(format!("right output sample {} is {}, expected {}", f, b.r[f], e.r[f])); }
    }
    Ok(())
}
pub(super) fn on_exec(exec: &mut hexodsp::nodes::NodeExecutor, b: &Blk) {
    let ops = exec.get_prog().prog.iter().map(|o| (o.node.id(), o.in_connected, o.out_connected)).collect();
    ST.with(|s| s.ops = ops);
    on_block(b);
}
fn on_block(b: &Blk) {
    ST.with(|s| {
        let obs = std::mem::take(&mut s.obs);
        let ops = std::mem::take(&mut s.ops);
        let hi = s.vers.partition_point(|v| v.0 <= b.started);
        let def = s.vers.partition_point(|v| v.0 <= b.done);
        if def == 0 { return; }
        let lo = (def - 1).max(s.lo);
        if lo >= hi { return; }
        if s.vers[lo..hi].iter().any(|v| v.1.is_none()) { return; }
        let mut err = String::new();
        for i in lo..hi {
            if i > lo && s.vers[i].1 == s.vers[i - 1].1 { continue; }
            match matches(s.vers[i].1.as_ref().unwrap(), b, &obs, &ops, s.extra) {
                Ok(()) => { s.lo = i; s.compared += 1; rt::count("checks", 1); if hi - lo > 1 { rt::count("probe_block_during_change", 1); } rt::state(i as u64 ^ (b.l[0] * 1000.0) as i64 as u64); return; }
                Err(e) => { if err.is_empty() { err = e; } }
            }
        }
        rt::fail("graph-mismatch", format!("block at frame {} (n={}) matches none of the {} published matrix states allowed (operations {}..{}): {}", b.frame0, b.n, hi - lo, b.done, b.started, err));
    })
}

pub(super) fn rand_cell(r: &mut Rng, used: &BTreeSet<Nid>, reuse: bool) -> MCell {
    let n = if reuse && !used.is_empty() { let v: Vec<Nid> = used.iter().copied().collect(); *r.pick(&v) } else {
        let k = *r.pick(&[R, R, R, AMP, AMP, MIX, MIX, MAP, INP]);
        let lim = [NR, 10, 10, 6, 2, 1][k as usize];
        let mut i = r.below(lim) as u8;
        for _ in 0..lim { if used.contains(&(k, i)) { i = (i + 1) % lim as u8; } }
        // sometimes a high number: all below are created too
        if (k == AMP || k == MIX) && r.chance(1, 30) { i += 7; }
        (k, i)
    };
    let mut c = MCell { n, i: [-1; 3], o: [-1; 3] };
    let mut taken = vec![];
    for d in 0..3 {
        if r.chance(3, 4) {
            let mut i = r.below(NIN[n.0 as usize]) as i8;
            if r.chance(1, 2) { i = 0.max(i.min(2)); }
            if n.0 == MAP && (i == 3 || i == 4) { i = 0; }
            if !taken.contains(&i) || r.chance(1, 20) { taken.push(i); c.i[d] = i; }
        }
        if NOUT[n.0 as usize] > 0 && r.chance(4, 5) { c.o[d] = r.below(NOUT[n.0 as usize]) as i8; }
    }
    c
}
pub(super) fn fmt_cell(x: usize, y: usize, c: &MCell) -> String { format!("{} {} {} {} {} {} {} {} {} {}", x, y, c.n.0, c.n.1, c.i[0], c.i[1], c.i[2], c.o[0], c.o[1], c.o[2]) }

fn gen3(c: &mut Case, r: &mut Rng) { gen(c, r); c.set("p03", 1); let n = c.ops.len(); for i in 0..n { if c.ops[i].starts_with("sleep") && r.chance(1, 2) { let s = r.u64() % 1000000; c.ops[i] = format!("bad {} {}", r.below(6), s); } } }
fn gen(c: &mut Case, r: &mut Rng) {
    c.set("sr", *r.pick(&[44100, 48000]));
    let (a, b) = *r.pick(&[(128, 128), (1, 128), (64, 64), (1, 9), (16, 100)]);
    c.set("bmin", a); c.set("bmax", b);
    c.set("pre", r.below(2) as i64);
    let mut used = BTreeSet::new();
    let mut fill = String::new();
    let mut cnt = 0;
    let dens = r.range(2, 9) as usize;
    let reuse0 = r.chance(1, 2);
    // sometimes one node is placed all over the grid (its outputs fan out)
    let star = if r.chance(1, 4) { Some(rand_cell(r, &used, false).n) } else { None };
    let rc = if r.chance(1, 2) { 6 } else { 3 };
    let mut ports: Vec<(Nid, i8)> = vec![];
    for x in 0..W { for y in 0..H {
        if r.chance(dens, 10) {
            let reuse = reuse0 && r.chance(1, rc);
            let mut cl = rand_cell(r, &used, reuse);
            if !reuse && used.contains(&cl.n) { continue; }
            if let Some(n) = star { if r.chance(1, 4) { cl = rand_cell(r, &[n].into_iter().collect(), true); cl.i = [-1; 3]; } }
            used.insert(cl.n);
            for i in cl.i { if i >= 0 { ports.push((cl.n, i)); } }
            fill += &format!(" {}", fmt_cell(x, y, &cl)); cnt += 1;
        }
    } }
    c.op(format!("change {}{} {}", cnt + 1, fill, fmt_cell(W - 1, r.below(H), &MCell { n: (OUT, 0), i: [if r.chance(1, 2) { 0 } else { 1 }, if r.chance(1, 2) { 1 } else { 0 }, if r.chance(1, 4) { 2 } else { -1 }], o: [-1; 3] })));
    used.insert((OUT, 0));
    ports.push(((OUT, 0), 0)); ports.push(((OUT, 0), 1));
    c.op("sync");
    for _ in 0..*r.pick(&[0, 0, 6, 20]) { let (n, i) = *r.pick(&ports); let x = *r.pick(&[100, -100, 50, 0, -30, 77]); c.op(format!("mod {} {} {} {}", n.0, n.1, i, x)); }
    let n = r.range(6, 30);
    for _ in 0..n {
        match r.weighted(&[30, 6, 14, 10, 10, 22, 3, 4, 2]) {
            0 => {
                let k = r.range(1, 3);
                let mut s = format!("change {}", k);
                for _ in 0..k {
                    let reuse = r.chance(1, 4);
                    let mut cl = rand_cell(r, &used, reuse);
                    if r.chance(1, 8) { cl = MCell { n: (OUT, 0), i: [0, 1, -1], o: [-1; 3] }; }
                    used.insert(cl.n);
                    for i in cl.i { if i >= 0 { ports.push((cl.n, i)); } }
                    s += &format!(" {}", fmt_cell(r.below(W), r.below(H), &cl));
                }
                c.op(s);
                if r.chance(3, 4) { c.op("sync"); }
            }
            1 => { let (x, y) = (r.below(W), r.below(H)); c.op(format!("empty {} {}", x, y)); if r.chance(3, 4) { c.op("sync"); } }
            2 => { let v: Vec<Nid> = used.iter().copied().collect(); let n = *r.pick(&v); let i = r.below(NIN[n.0 as usize]); let x = r.range(-100, 100); c.op(format!("set {} {} {} {}", n.0, n.1, i, x)); }
            3 => { let v: Vec<Nid> = used.iter().copied().collect(); let mut n = *r.pick(&v); let mut i = r.below(NIN[n.0 as usize]); if r.chance(3, 4) { let q = *r.pick(&ports); n = q.0; i = q.1 as usize; } let x = r.range(-130, 100); c.op(format!("mod {} {} {} {}", n.0, n.1, i, x)); }
            4 => { let v: Vec<Nid> = used.iter().copied().filter(|n| ATOM[n.0 as usize].is_some()).collect(); if !v.is_empty() { let n = *r.pick(&v); let x = r.below(2); c.op(format!("atom {} {} {}", n.0, n.1, x)); } }
            5 => { let t = *r.pick(&[10, 200, 1000, 3000, 9000]); c.op(format!("sleep {}", t)); }
            6 => { let t = r.range(1000, 40000); c.op(format!("stall {}", t)); }
            7 => { let k = r.below(6); let s = r.u64() % 1000000; c.op(format!("bad {} {}", k, s)); }
            _ => c.op("clear"),
        }
    }
}

pub(super) struct Model { pub grid: Grid, pub synced: Grid, pub created: BTreeSet<Nid>, pub pv: BTreeMap<(Nid, u8), f32>, pub mo: BTreeMap<(Nid, u8), f32>, pub at: BTreeMap<Nid, i64>, pub assigned: Grid }
impl Model {
    pub fn new() -> Self { Model { grid: vec![None; W * H], synced: vec![None; W * H], created: BTreeSet::new(), pv: BTreeMap::new(), mo: BTreeMap::new(), at: BTreeMap::new(), assigned: vec![None; W * H] } }
    pub fn snap(&self) -> Snap {
        let es = edges(&self.synced);
        let order = order(&self.synced, &es).unwrap_or_default();
        let mut pv = BTreeMap::new();
        let mut mo = BTreeMap::new();
        let mut at = BTreeMap::new();
        for n in &order {
            for i in 0..NIN[n.0 as usize] as u8 { let v = self.pv.get(&(*n, i)).copied().unwrap_or_else(|| pid(*n, i).norm_def()); pv.insert((*n, i), v); if let Some(m) = self.mo.get(&(*n, i)) { mo.insert((*n, i), *m); } }
            if let Some(a) = ATOM[n.0 as usize] { let v = self.at.get(n).copied().unwrap_or_else(|| nid(*n).inp_param(a).unwrap().as_atom_def().i()); at.insert(*n, v); }
        }
        Snap { order, edges: es, pv, mo, at }
    }
    pub fn sync(&mut self) {
        self.synced = self.grid.clone(); self.assigned = self.grid.clone();
        // lower instances of a node are created as well
        for n in nodes(&self.grid) { for i in 0..=n.1 { self.created.insert((n.0, i)); } }
    }
}
pub(super) fn version(opn: usize, s: Option<Snap>) { ST.with(|st| st.vers.push((opn, s))) }
pub(super) fn dyn_node(k: u8) -> Box<dyn DynamicNode1x1> {
    Box::new(move |inp: &[f32], out: &mut [f32], ctx: &DynNode1x1Context| {
        let (a, b, d, g) = (ctx.alpha_slice(), ctx.beta_slice(), ctx.delta_slice(), ctx.gamma_slice());
        for f in 0..out.len() { let x = fr(k, [inp[f], a[f], b[f], d[f], g[f]]); out[f] = if x.is_nan() { 0.0 } else { x }; }
        ST.with(|st| st.obs.insert(k, (0..out.len()).map(|f| [inp[f], a[f], b[f], d[f], g[f]]).collect()));
    })
}
pub(super) fn install(m: &Matrix, k: u8) { m.set_dynamic_node1x1(k as usize, dyn_node(k)); }
pub(super) fn check_cells(m: &Matrix, g: &Grid, what: &str) {
    for x in 0..W { for y in 0..H {
        let c = m.get_copy(x, y).unwrap_or(Cell::empty(NodeId::Nop));
        let want = g[x * H + y].map(|c| c.cell()).unwrap_or(Cell::empty(NodeId::Nop));
        let a = (c.node_id(), dirs(&c)); let b = (want.node_id(), dirs(&want));
        let pos_ok = c.node_id() == NodeId::Nop || c.pos() == (x, y);
        if a != b || !pos_ok { rt::fail("cells", format!("{}: cell {},{} is {:?} at {:?}, expected {:?}", what, x, y, a, c.pos(), b)); }
    } }
}
fn dirs(c: &Cell) -> Vec<Option<u8>> { [CellDir::T, CellDir::TL, CellDir::BL, CellDir::TR, CellDir::BR, CellDir::B].iter().map(|d| c.local_port_idx(*d)).collect() }
pub(super) fn check_assigned(m: &Matrix, g: &Grid, what: &str) {
    let es = edges(g);
    for k in 0..6u8 { for i in 0..10u8 { for p in 0..NIN[k as usize] as u8 {
        let want = es.iter().any(|e| e.0 == (k, i) && e.1 == p);
        let got = m.param_input_is_used(pid((k, i), p));
        if want != got { rt::fail("assigned", format!("{}: param_input_is_used({:?} input {}) is {} but the cells say {}", what, nid((k, i)), p, got, want)); }
    } } }
}
pub(super) fn err_kind(e: &MatrixError) -> Verdict { match e { MatrixError::CycleDetected => Verdict::Cycle, MatrixError::DuplicatedInput { .. } => Verdict::Dup, _ => rt::fail("verdict", format!("unexpected error {:?}", e)) } }
fn parse_cells(t: &mut Tok) -> Vec<(usize, usize, MCell)> {
    let k = t.u();
    (0..k).map(|_| { let (x, y) = (t.u() % W, t.u() % H); let n = ((t.u() % 6) as u8, t.u() as u8); (x, y, MCell { n, i: [t.i() as i8, t.i() as i8, t.i() as i8], o: [t.i() as i8, t.i() as i8, t.i() as i8] }) }).collect()
}

fn run(c: &Case) {
    host_init();
    ST.init(St::default());
    let (conf, mut exec) = new_node_engine();
    exec.no_logging();
    let mut m = Matrix::new(conf, W, H);
    let mut md = Model::new();
    let p03 = c.c("p03") != 0;
    for k in 0..NR as u8 { install(&m, k); }
    HOST.with(|h| { h.keep = false; h.on_exec = Some(Box::new(on_exec)); });
    version(0, Some(md.snap()));
    let sr = c.c("sr") as f32;
    let mut held = Some(exec);
    let mut audio = None;
    let cfg = || AudioCfg { sr, min: c.c("bmin") as usize, max: c.c("bmax") as usize, seed: c.seed ^ 5, sleep: true };
    // the engine may be started before or after the first graph was built
    if c.c("pre") == 0 { audio = Some(spawn_audio(held.take().unwrap(), cfg())); wait_blocks(1); }
    let mut nops = 0;
    let mut cleared = false;
    for o in &c.ops {
        nops += 1;
        if nops == 3 && audio.is_none() { audio = Some(spawn_audio(held.take().unwrap(), cfg())); wait_blocks(2); }
        let gen0 = m.get_generation();
        let mut t = Tok::new(o);
        match t.s() {
            "change" => {
                let cells = parse_cells(&mut t);
                let mut g = md.grid.clone();
                for (x, y, cl) in &cells { g[x * H + y] = Some(*cl); }
                let want = verdict(&g);
                let r = op("change", || m.change_matrix(|m| for (x, y, cl) in &cells { m.place(*x, *y, cl.cell()); }));
                let got = match &r { Ok(()) => Verdict::Ok, Err(e) => err_kind(e) };
                if got != want { rt::fail("verdict", format!("change_matrix returned {:?}, the cells say {:?}", r, want)); }
                rt::count(match want { Verdict::Ok => "probe_change_ok", Verdict::Dup => "probe_change_dup", _ => "probe_change_cycle" }, 1);
                if want == Verdict::Ok { md.grid = g; md.assigned = md.grid.clone(); }
                else { md.assigned = md.grid.clone(); rt::count(if p03 { "checks" } else { "probe_rejected" }, 1); }
                check_cells(&m, &md.grid, if want == Verdict::Ok { "after change_matrix" } else { "after rejected change_matrix" });
                check_assigned(&m, &md.assigned, if want == Verdict::Ok { "after change_matrix" } else { "after rejected change_matrix" });
                if m.get_generation() != gen0 { rt::fail("generation", "change_matrix altered the generation".to_string()); }
            }
            "empty" => {
                let (x, y) = (t.u() % W, t.u() % H);
                let r = op("empty", || m.change_matrix(|m| m.place(x, y, Cell::empty(NodeId::Nop))));
                if r.is_err() { rt::fail("verdict", format!("removing a cell failed: {:?}", r)); }
                md.grid[x * H + y] = None; md.assigned = md.grid.clone();
                check_cells(&m, &md.grid, "after removing a cell");
            }
            "sync" => {
                md.sync();
                version(ops_done() + 1, if cleared { None } else { Some(md.snap()) });
                let r = op("sync", || m.sync());
                if cleared {
                    // documented: dynamic nodes are handed over again once their node was re-created
                    for k in 0..NR as u8 { op("dyn", || install(&m, k)); }
                    version(ops_done() + 1, Some(md.snap()));
                    op("installed", || ());
                }
                if r.is_err() { rt::fail("sync", format!("sync of a valid matrix failed: {:?}", r)); }
                if m.get_generation() <= gen0 { rt::fail("generation", "sync did not increase the generation".to_string()); }
                check_assigned(&m, &md.assigned, "after sync");
                rt::count("op_sync", 1);
            }
            "set" => {
                let (n, i, x) = (((t.u() % 6) as u8, t.u() as u8), t.u() as u8, t.f() / 100.0);
                let i = i % NIN[n.0 as usize] as u8;
                if n.0 == MAP && (i == 3 || i == 4) { continue; }
                let x = if matches!((n.0, i), (AMP, 1) | (MIX, 3..) | (INP, 0) | (OUT, 2)) { x.abs() * 0.9 } else { x };
                if md.created.contains(&n) { version(ops_done() + 1, None); }
                op("set", || m.set_param(pid(n, i), x.into()));
                md.pv.insert((n, i), x);
                if md.created.contains(&n) && audio.is_some() {
                    wait_frames((sr * 0.010) as u64 + 2 * 128 + 40);
                    version(ops_done() + 1, Some(md.snap()));
                    op("settled", || ());
                } else { version(ops_done(), Some(md.snap())); }
                rt::count("op_set", 1);
            }
            "mod" => {
                let (n, i, x) = (((t.u() % 6) as u8, t.u() as u8), t.u() as u8, t.i());
                let i = i % NIN[n.0 as usize] as u8;
                if n.0 == MAP && (i == 3 || i == 4) { continue; }
                let v = if x < -100 { None } else { Some(x as f32 / 100.0) };
                if md.grid != md.synced && cleared { continue; }
                match v { Some(v) => { md.mo.insert((n, i), v); } None => { md.mo.remove(&(n, i)); } }
                if md.grid != md.synced {
                    // adding or removing a modulation publishes the matrix; whether unpublished
                    // changes come along is up to the implementation, so they are published here
                    md.sync();
                    version(ops_done() + 1, None);
                    op("mod+sync", || { let _ = m.set_param_modamt(pid(n, i), v); let _ = m.sync(); });
                    version(ops_done() + 1, Some(md.snap()));
                    op("published", || ());
                    rt::count("op_mod", 1);
                    continue;
                }
                version(ops_done() + 1, Some(md.snap()));
                let r = op("mod", || m.set_param_modamt(pid(n, i), v));
                if r.is_err() { rt::fail("mod", format!("set_param_modamt failed: {:?}", r)); }
                if m.get_param_modamt(&pid(n, i)) != v { rt::fail("mod", format!("get_param_modamt returns {:?} after setting {:?}", m.get_param_modamt(&pid(n, i)), v)); }
                rt::count("op_mod", 1);
            }
            "atom" => {
                let (n, x) = (((t.u() % 6) as u8, t.u() as u8), t.i());
                let Some(a) = ATOM[n.0 as usize] else { continue };
                md.at.insert(n, x);
                version(ops_done() + 1, Some(md.snap()));
                op("atom", || m.set_param(nid(n).inp_param(a).unwrap(), SAtom::setting(x)));
                rt::count("op_atom", 1);
            }
            "bad" => {
                let (k, s) = (t.u(), t.u() as u64);
                let mut r = Rng::new(s);
                // a grid that is certainly invalid
                let mut g = md.grid.clone();
                let mut cells = vec![];
                let mut tries = 0;
                while verdict(&g) == Verdict::Ok && tries < 40 {
                    let used = nodes(&g);
                    let (x, y) = (r.below(W), r.below(H));
                    let cl = if r.chance(1, 3) { MCell { n: (AMP, 9), i: [0, 1, 2], o: [0, 0, 0] } } else { rand_cell(&mut r, &used, true) };
                    g[x * H + y] = Some(cl); cells.push((x, y, cl)); tries += 1;
                }
                let v = verdict(&g);
                if v == Verdict::Ok { continue; }
                rt::count("checks", p03 as u64);
                rt::count(match v { Verdict::Dup => "probe_bad_dup", _ => "probe_bad_cycle" }, 1);
                match k {
                    0 | 1 => {
                        let e = op("bad change", || m.change_matrix(|m| for (x, y, cl) in &cells { m.place(*x, *y, cl.cell()); }));
                        match e { Ok(()) => rt::fail("verdict", "an invalid change was accepted".to_string()), Err(e) => if err_kind(&e) != v { rt::fail("verdict", format!("{:?} returned for {:?}", e, v)) } }
                    }
                    2 => {
                        let r = op("bad change_err", || m.change_matrix_err(|m| { for (x, y, cl) in &cells { m.place(*x, *y, cl.cell()); } Ok(()) }));
                        if r.is_ok() { rt::fail("verdict", "an invalid change was accepted".to_string()); }
                    }
                    3 => {
                        // a change that reports an error itself
                        let r = op("own error", || m.change_matrix_err(|m| { for (x, y, cl) in &cells { m.place(*x, *y, cl.cell()); } Err(MatrixError::PosOutOfRange) }));
                        if !matches!(r, Err(MatrixError::PosOutOfRange)) { rt::fail("verdict", format!("change_matrix_err returned {:?}", r)); }
                    }
                    4 => {
                        // place_multiple onto an occupied cell, or outside of the grid
                        let occ = (0..W * H).find(|i| md.grid[*i].is_some());
                        let free = (0..W * H).find(|i| md.grid[*i].is_none());
                        let mut l: Vec<Cell> = vec![];
                        let at = |i: usize| { let mut c = Cell::empty_at(NodeId::Amp(8), (i / H) as u8, (i % H) as u8); c.set_io_dir(CellDir::B, 0); c };
                        if let Some(f) = free { l.push(at(f)); }
                        let out = r.chance(1, 2) || occ.is_none();
                        if out { l.push(Cell::empty_at(NodeId::Amp(7), 30, 2)); } else { l.push(at(occ.unwrap())); }
                        let r = op("place_multiple", || m.change_matrix_err(|m| m.place_multiple(&l)));
                        match (&r, out) { (Err(MatrixError::PosOutOfRange), true) | (Err(MatrixError::NonEmptyCell { .. }), false) => {} _ => rt::fail("verdict", format!("place_multiple returned {:?}", r)) }
                    }
                    _ => {
                        // publish a cyclic matrix directly: it has to be refused
                        if v != Verdict::Cycle { continue; }
                        for n in nodes(&g) { for i in 0..=n.1 { md.created.insert((n.0, i)); } }
                        let r = op("bad sync", || { m.save_matrix(); for (x, y, cl) in &cells { m.place(*x, *y, cl.cell()); } m.sync() });
                        if !matches!(r, Err(MatrixError::CycleDetected)) { rt::fail("verdict", format!("sync of a cyclic matrix returned {:?}", r)); }
                        if r.is_err() && m.get_generation() != gen0 { rt::fail("generation", "a refused sync altered the generation".to_string()); }
                        // parameters of nodes that only exist in the refused matrix can be set
                        for (_, _, cl) in &cells { if !nodes(&md.synced).contains(&cl.n) { let p = pid(cl.n, 0); op("set unplaced", || m.set_param(p, 0.25.into())); md.pv.insert((cl.n, 0), 0.25); } }
                        op("restore", || m.restore_matrix());
                        wait_frames((sr * 0.010) as u64 + 300);
                    }
                }
                md.assigned = md.grid.clone();
                check_cells(&m, &md.grid, "after a refused change");
                check_assigned(&m, &md.assigned, "after a refused change");
                if r.chance(1, 2) { m.update_filters(); }
            }
            "clear" => {
                // blocks see the old graph, or silence
                md = Model::new();
                version(ops_done() + 1, None);
                op("clear", || m.clear());
                cleared = true;
                version(ops_done() + 1, Some(md.snap()));
                op("cleared", || ());
                check_cells(&m, &md.grid, "after clear");
                check_assigned(&m, &md.grid, "after clear");
                rt::count("op_clear", 1);
            }
            "sleep" => rt::sleep_us(t.u() as u64),
            "stall" => { let ns = t.u() as u64 * 1000; HOST.with(|h| h.cmds.push(Cmd::Stall(ns))); }
            _ => {}
        }
    }
    if audio.is_none() { audio = Some(spawn_audio(held.take().unwrap(), cfg())); }
    m.update_filters();
    wait_frames(400);
    // after everything was published the audio thread executes the latest state
    let before = ST.with(|s| s.compared);
    wait_frames(300);
    let settled = ST.with(|s| s.vers.last().map(|v| v.1.is_some()).unwrap_or(false));
    if settled && ST.with(|s| s.compared) == before { rt::fail("stuck", "no block after the last change was executed".to_string()); }
    audio.unwrap().stop();
}
