//! P21: a chain built with MatrixCellChain is added to the matrix as it was described,
//! without touching the nodes that are already there.
use super::graph::*;
use super::world::*;
use crate::case::{Case, Tok};
use crate::rng::Rng;
use crate::rt;
use crate::runner::PropDef;
use hexodsp::matrix::{Cell, Matrix, MatrixError};
use hexodsp::*;
use std::collections::{BTreeMap, BTreeSet};

pub const P21: PropDef = PropDef {
    id: "P21", gen, run, quick: 6000, thorough: 100000,
    rule: "one evaluation = one chain placed and compared with its description (cells, instances, connections, all parameters), or one audio block compared with the reference interpreter; a run is distinct by (state history hash, interleaving hash)",
    real: super::REAL_ENGINE, stub: super::STUB_ENGINE,
    assumptions: &["the matrix is published between two chains (the search for unused instances is documented to need it)", "parameter values are compared once their 10 ms ramp is over"],
};
const DIRS: [CellDir; 6] = [CellDir::TR, CellDir::BR, CellDir::B, CellDir::BL, CellDir::TL, CellDir::T];
const NAMES: [&str; 6] = ["rust1x1", "amp", "mix3", "map", "inp", "out"];
fn fmt_link(r: &mut Rng, has_out: &mut bool) -> String {
    let k = loop { let k = *r.pick(&[R, R, R, AMP, AMP, MIX, MAP, INP, OUT]); if k != OUT || !*has_out { break k; } };
    if k == OUT { *has_out = true; }
    // 0: node, 1: input, 2: output, 3: both
    let io = *r.pick(&[0, 1, 2, 3, 3, 3]) as usize & if NOUT[k as usize] == 0 { 1 } else { 3 };
    let mut i = r.below(NIN[k as usize]);
    if k == MAP && (i == 3 || i == 4) { i = 0; }
    let o = r.below(NOUT[k as usize].max(1));
    let mut s = format!("{} {} {} {}", k, io, i, o);
    let n = *r.pick(&[0, 0, 1, 1, 2, 3]);
    s += &format!(" {}", n);
    for _ in 0..n {
        // denormalized, normalized, setting
        let kind = r.below(3);
        let mut i = r.below(NIN[k as usize]);
        if k == MAP && (i == 3 || i == 4) { i = 1; }
        let x = r.range(-100, 100);
        if kind == 2 && ATOM[k as usize].is_some() { s += &format!(" 2 0 {}", r.below(2)); } else { s += &format!(" {} {} {}", kind & 1, i, x); }
    }
    s
}
fn gen(c: &mut Case, r: &mut Rng) {
    c.set("sr", *r.pick(&[44100, 48000]));
    let (a, b) = *r.pick(&[(128, 128), (1, 128), (64, 64), (1, 9)]);
    c.set("bmin", a); c.set("bmax", b);
    for _ in 0..r.range(2, 12) {
        match r.weighted(&[40, 14, 8, 10, 3, 8, 3, 2]) {
            0 => {
                let n = r.range(1, 5);
                let mut has_out = false;
                let mut s = format!("chain {} {} {} {}", r.below(6), r.below(W), r.below(H), n);
                for _ in 0..n { s += &format!(" {}", fmt_link(r, &mut has_out)); }
                // parameters set afterwards by the index in the chain
                let k = *r.pick(&[0, 0, 1, 2]);
                s += &format!(" {}", k);
                for _ in 0..k { s += &format!(" {} {} {}", r.below(n as usize), r.below(7), r.range(-100, 100)); }
                c.op(s);
            }
            1 => { let reuse = BTreeSet::new(); let cl = rand_cell(r, &reuse, false); c.op(format!("place {}", fmt_cell(r.below(W), r.below(H), &cl))); }
            2 => c.op(format!("empty {} {}", r.below(W), r.below(H))),
            3 => c.op(format!("set {} {} {} {}", r.below(6), r.below(4), r.below(7), r.range(-100, 100))),
            4 => c.op("clear"),
            5 => c.op(format!("sleep {}", *r.pick(&[10, 300, 4000]))),
            6 => c.op(format!("stall {}", r.range(1000, 30000))),
            _ => c.op(format!("bad {} {}", r.below(5), r.below(6))),
        }
    }
}
fn kind(n: NodeId) -> Option<Nid> { NAMES.iter().position(|x| *x == n.name()).map(|k| (k as u8, n.instance() as u8)) }
/// All parameters the matrix knows for the nodes of this scenario.
fn params(m: &Matrix) -> BTreeMap<(Nid, u8), String> {
    let mut v = BTreeMap::new();
    for k in 0..6u8 { for inst in 0..14u8 {
        let id = nid((k, inst));
        for i in 0..NIN[k as usize] as u8 { if let Some(x) = m.get_param(&pid((k, inst), i)) { v.insert(((k, inst), i), format!("{:?}", x)); } }
        if let Some(a) = ATOM[k as usize] { if let Some(x) = m.get_param(&id.inp_param(a).unwrap()) { v.insert(((k, inst), 100), format!("{:?}", x)); } }
    } }
    v
}
fn legal(k: Nid, i: u8, x: f32) -> f32 { if matches!((k.0, i), (AMP, 1) | (MIX, 3..) | (INP, 0) | (OUT, 2)) { x.abs() * 0.9 } else { x } }

fn run(c: &Case) {
    host_init();
    ST.init(St::default());
    let (conf, mut exec) = new_node_engine();
    exec.no_logging();
    let mut m = Matrix::new(conf, W, H);
    let mut md = Model::new();
    for k in 0..24u8 { install(&m, k); }
    HOST.with(|h| { h.keep = false; h.on_exec = Some(Box::new(on_exec)); });
    version(0, Some(md.snap()));
    let sr = c.c("sr").max(8000) as f32;
    let audio = spawn_audio(exec, AudioCfg { sr, min: c.c("bmin").max(1) as usize, max: c.c("bmax").max(1) as usize, seed: c.seed ^ 5, sleep: true });
    wait_blocks(1);
    let settle = |m: &mut Matrix, md: &mut Model| {
        md.sync();
        version(ops_done() + 1, None);
        let r = op("sync", || m.sync());
        if r.is_err() { rt::fail("sync", format!("sync of a valid matrix failed: {:?}", r)); }
        for k in 0..24u8 { install(m, k); }
        wait_frames((sr * 0.010) as u64 + 2 * 128 + 40);
        version(ops_done() + 1, Some(md.snap()));
        op("settled", || ());
    };
    for o in &c.ops {
        let mut t = Tok::new(o);
        match t.s() {
            "chain" => {
                let dir = DIRS[t.u() % 6];
                let (x0, y0, n) = (t.u() % W, t.u() % H, t.u());
                let mut ch = MatrixCellChain::new(dir);
                // what is expected: kind, ports and values
                struct L { k: u8, i: [i8; 3], o: [i8; 3], v: Vec<(u8, SAtom)> }
                let mut want: Vec<L> = vec![];
                let out_used = md.grid.iter().flatten().any(|c| c.n.0 == OUT);
                for _ in 0..n {
                    let (mut k, mut io, mut i, mut o) = (t.u() as u8 % 6, t.u(), t.u(), t.u());
                    // there is only one output
                    let skip = k == OUT && (out_used || want.iter().any(|l| l.k == OUT));
                    if skip { k = AMP; io = 3; i = 0; o = 0; }
                    let i = i % NIN[k as usize]; let o = o % NOUT[k as usize].max(1);
                    let mut l = L { k, i: [-1; 3], o: [-1; 3], v: vec![] };
                    let id = nid((k, 0));
                    let (inm, onm) = (id.inp_name_by_idx(i as u8).unwrap_or(""), id.out_name_by_idx(o as u8).unwrap_or(""));
                    match io & 3 { 0 => ch.node(NAMES[k as usize]), 1 => ch.node_inp(NAMES[k as usize], inm), 2 => ch.node_out(NAMES[k as usize], onm), _ => ch.node_io(NAMES[k as usize], inm, onm) };
                    // the data flows in the direction of the chain, or against it
                    let (idir, odir) = if matches!(dir, CellDir::TR | CellDir::BR | CellDir::B) { (dir.flip(), dir) } else { (dir, dir.flip()) };
                    if io & 1 == 1 { l.i[match idir { CellDir::T => 0, CellDir::TL => 1, _ => 2 }] = i as i8; }
                    if io & 2 == 2 { l.o[match odir { CellDir::TR => 0, CellDir::BR => 1, _ => 2 }] = o as i8; }
                    for _ in 0..t.u() {
                        let (kd, i, x) = (t.u(), t.u(), t.i());
                        if kd == 2 { if let Some(a) = ATOM[k as usize] { ch.set_atom(a, SAtom::setting(x & 1)); l.v.push((100, SAtom::setting(x & 1))); } continue; }
                        let i = (i % NIN[k as usize]) as u8;
                        let mut x = legal((k, 0), i, x as f32 / 100.0);
                        if k == MAP && (i == 3 || i == 4) { continue; }
                        let p = pid((k, 0), i);
                        if kd == 0 { let d = p.denorm(x); x = p.norm(d); ch.set_denorm(p.name(), d); } else { ch.set_norm(p.name(), x); }
                        l.v.push((i, SAtom::param(x)));
                    }
                    want.push(l);
                }
                for _ in 0..t.u() {
                    let (at, i, x) = (t.u() % n.max(1), t.u(), t.i());
                    let k = want[at].k;
                    let i = (i % NIN[k as usize]) as u8;
                    if k == MAP && (i == 3 || i == 4) { continue; }
                    let x = legal((k, 0), i, x as f32 / 100.0);
                    ch.params_for_idx(at).set_norm(pid((k, 0), i).name(), x);
                    want[at].v.push((i, SAtom::param(x)));
                }
                let before = params(&m);
                let used = nodes(&md.grid);
                let mut placed: Vec<(usize, usize, Cell)> = vec![];
                version(ops_done() + 1, None);
                // where the chain goes
                let mut path = vec![];
                let (mut x, mut y) = (x0 as i64, y0 as i64);
                for _ in 0..n { path.push((x, y)); let (ox, oy) = dir.as_offs(x.rem_euclid(2) as usize); x += ox as i64; y += oy as i64; }
                let inside = |p: &(i64, i64)| p.0 >= 0 && p.1 >= 0 && p.0 < W as i64 && p.1 < H as i64;
                // the way back into the grid is not defined once a chain left it
                let cut = path.iter().position(|p| !inside(p)).unwrap_or(n);
                let r = op("chain", || m.change_matrix(|m| {
                    if let Err(e) = ch.place(m, x0, y0) { rt::fail("chain", format!("place failed: {:?}", e)); }
                    placed = path[..cut].iter().map(|p| (p.0 as usize, p.1 as usize, m.get_copy(p.0 as usize, p.1 as usize).unwrap())).collect();
                }));
                let mut g = md.grid.clone();
                let mut insts: Vec<Nid> = vec![];
                for (q, (x, y, cell)) in placed.iter().enumerate() {
                    let l = &want[q];
                    let Some(nd) = kind(cell.node_id()) else { rt::fail("chain", format!("cell {},{} is {:?}, the chain has a {} there", x, y, cell.node_id(), NAMES[l.k as usize])) };
                    if nd.0 != l.k { rt::fail("chain", format!("cell {},{} is {:?}, the chain has a {} there", x, y, cell.node_id(), NAMES[l.k as usize])); }
                    if used.contains(&nd) { rt::fail("instance", format!("the chain uses {:?}, which is used by the matrix already", cell.node_id())); }
                    if insts.contains(&nd) { rt::fail("instance", format!("the chain uses {:?} twice", cell.node_id())); }
                    insts.push(nd);
                    g[x * H + y] = Some(MCell { n: nd, i: l.i, o: l.o });
                }
                let v = verdict(&g);
                let got = match &r { Ok(()) => Verdict::Ok, Err(e) => err_kind(e) };
                if v != got { rt::fail("verdict", format!("change_matrix returned {:?}, the cells say {:?}", r, v)); }
                if v == Verdict::Ok { md.grid = g; md.assigned = md.grid.clone(); rt::count("probe_chain", 1); if !used.is_empty() { rt::count("probe_chain_onto_nodes", 1); } } else { rt::count("probe_chain_refused", 1); }
                check_cells(&m, &md.grid, "after a chain was placed");
                // parameters: those of the chain as described, all others untouched
                let after = params(&m);
                let mut exp = before.clone();
                for (q, nd) in insts.iter().enumerate() { for (i, v) in &want[q].v { exp.insert((*nd, *i), format!("{:?}", v)); } }
                for (k, v) in &exp { if (cut == n || used.contains(&k.0) || insts.contains(&k.0)) && after.get(k) != Some(v) { rt::fail("params", format!("parameter {} of {:?} is {:?} after the chain was placed, expected {}", k.1, nid(k.0), after.get(k), v)); } }
                if cut == n { for (k, v) in &after { if exp.get(k) != Some(v) { rt::fail("params", format!("parameter {} of {:?} is {} after the chain was placed, it was not set", k.1, nid(k.0), v)); } } }
                for (q, nd) in insts.iter().enumerate() { for (i, v) in &want[q].v { if *i == 100 { md.at.insert(*nd, v.i()); } else { md.pv.insert((*nd, *i), v.f()); } } }
                // parts of a chain outside of the grid are ignored, the parameters of their nodes are not defined
                if cut < n { for k in after.keys() { if !used.contains(&k.0) && !insts.contains(&k.0) {
                    if k.1 == 100 { md.at.insert(k.0, m.get_param(&nid(k.0).inp_param(ATOM[k.0.0 as usize].unwrap()).unwrap()).unwrap().i()); } else { md.pv.insert(*k, m.get_param(&pid(k.0, k.1)).unwrap().f()); }
                } } }
                rt::count("checks", 1);
                rt::state(insts.iter().fold(n as u64, |a, i| a * 67 + i.0 as u64 * 17 + i.1 as u64));
                settle(&mut m, &mut md);
            }
            "bad" => {
                // mistakes in the description are reported, and the matrix stays as it was
                let mut ch = MatrixCellChain::new(DIRS[t.u() % 6]);
                let k = t.u() % 6;
                let r = op("bad chain", || {
                    match k {
                        0 => { ch.node("nonsense"); }
                        1 => { ch.node_out("nonsense", "sig").set_denorm("freq", 220.0); }
                        2 => { ch.node_out("amp", "nonsense"); }
                        3 => { ch.node_inp("amp", "nonsense").node_out("amp", "sig"); }
                        4 => { ch.node_io("amp", "inp", "sig").set_norm("nonsense", 0.1).node("amp"); }
                        _ => { ch.node("amp").set_denorm("nonsense", 0.1); }
                    }
                    // it does not get better when it is tried again
                    let r = ch.place(&mut m, 1, 1);
                    if r.is_err() { ch.place(&mut m, 1, 1) } else { r }
                });
                if r.is_ok() { rt::fail("bad-chain", format!("kind {}: a wrong description was accepted", k)); }
                check_cells(&m, &md.grid, "after a wrong chain");
                rt::count("probe_bad_chain", 1);
            }
            "place" => {
                let (x, y) = (t.u() % W, t.u() % H);
                let cl = MCell { n: (t.u() as u8 % 6, t.u() as u8 % 8), i: [t.i() as i8, t.i() as i8, t.i() as i8], o: [t.i() as i8, t.i() as i8, t.i() as i8] };
                let mut g = md.grid.clone();
                g[x * H + y] = Some(cl);
                if verdict(&g) != Verdict::Ok { continue; }
                let r: Result<(), MatrixError> = op("place", || m.change_matrix(|m| m.place(x, y, cl.cell())));
                if r.is_err() { rt::fail("verdict", format!("a valid change was refused: {:?}", r)); }
                md.grid = g; md.assigned = md.grid.clone();
                settle(&mut m, &mut md);
            }
            "empty" => {
                let (x, y) = (t.u() % W, t.u() % H);
                let _ = op("empty", || m.change_matrix(|m| m.place(x, y, Cell::empty(NodeId::Nop))));
                md.grid[x * H + y] = None; md.assigned = md.grid.clone();
                settle(&mut m, &mut md);
            }
            "set" => {
                let n = (t.u() as u8 % 6, t.u() as u8 % 8);
                let i = (t.u() % NIN[n.0 as usize]) as u8;
                if n.0 == MAP && (i == 3 || i == 4) { continue; }
                let x = legal(n, i, t.f() / 100.0);
                version(ops_done() + 1, None);
                op("set", || m.set_param(pid(n, i), x.into()));
                md.pv.insert((n, i), x);
                settle(&mut m, &mut md);
            }
            "clear" => {
                version(ops_done() + 1, None);
                md = Model::new();
                op("clear", || m.clear());
                settle(&mut m, &mut md);
                rt::count("op_clear", 1);
            }
            "sleep" => rt::sleep_us(t.u() as u64),
            "stall" => { let ns = t.u() as u64 * 1000; HOST.with(|h| h.cmds.push(Cmd::Stall(ns))); }
            _ => {}
        }
    }
    let before = ST.with(|s| s.compared);
    wait_frames(500);
    if ST.with(|s| s.compared) == before { rt::fail("stuck", "no block after the last change was executed".to_string()); }
    audio.stop();
}
