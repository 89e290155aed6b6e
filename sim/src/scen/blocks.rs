//! P15: the block program that is shown is the code that plays.
use super::world::*;
use crate::case::{Case, Tok};
use crate::rng::Rng;
use crate::rt;
use crate::runner::PropDef;
use hexodsp::matrix::{Cell, Matrix};
use hexodsp::nodes::NodeExecutor;
use hexodsp::wblockdsp::{BlockCodeView, BlockFun};
use hexodsp::matrix_repr::MatrixRepr;
use hexodsp::*;
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub const P15: PropDef = PropDef {
    id: "P15", gen, run, quick: 6000, thorough: 120000,
    rule: "one evaluation = one block of one Code node compared sample by sample with a reference interpreter of the shown blocks, or one block edit compared with the reference grid; a run is distinct by (state history hash, interleaving hash)",
    real: super::REAL_ENGINE, stub: super::STUB_ENGINE,
    assumptions: &["fewer than 128 code changes are pending in one Code node (limit of the queue in synfx-dsp-jit)", "the JIT back end (synfx-dsp-jit, cranelift) computes what its syntax tree says", "phase, s&h and atom blocks are not part of the generated programs"],
};
const K: usize = 2;
const TYPES: &[(&str, usize, u32)] = &[("zero", 1, 1), ("\u{3c0}", 1, 1), ("2\u{3c0}", 1, 1), ("value", 1, 9), ("->", 1, 4), ("->2", 2, 6), ("->3", 3, 4), ("set", 1, 7), ("get", 1, 9), ("+", 2, 4), ("-", 2, 6), ("*", 2, 4), ("/", 2, 4), ("/%", 2, 6), ("sin", 1, 2), ("accum", 2, 4), ("s&h~", 2, 3)];
const GETS: &[&str] = &["in1", "in2", "alpha", "beta", "delta", "gamma", "x", "y", "*p", "&sig1", "&sig2", "PI", "srate", "israte"];
const SETS: &[&str] = &["&sig1", "&sig2", "x", "y", "*p", "in1", "alpha"];

// ---------------------------------------------------------------- generator
fn rand_type(r: &mut Rng) -> (&'static str, String) {
    if r.chance(1, 60) { return ("if", "-".to_string()); }
    let w: Vec<u32> = TYPES.iter().map(|t| t.2).collect();
    let t = TYPES[r.weighted(&w)].0;
    let l = match t {
        "value" => if r.chance(1, 40) { "abc".into() } else { format!("{}", (r.range(-40, 40) as f64) / *r.pick(&[1.0, 8.0, 10.0])) },
        "get" => (*r.pick(GETS)).into(),
        "set" => if r.chance(1, 30) { "&foo".into() } else { (*r.pick(SETS)).into() },
        _ => "-".to_string(),
    };
    (t, l)
}
const GW: i64 = 5;
const GH: i64 = 7;
fn gen_edit(c: &mut Case, r: &mut Rng, k: usize) {
    let xy = |r: &mut Rng| format!("{} {}", r.range(0, GW - 1), r.range(0, GH - 1));
    if r.chance(1, 12) {
        // a block with several outputs that feeds several inputs of the next one
        let (x, y, d) = (r.range(1, 2), r.range(0, GH - 2), r.range(-1, 1).max(0));
        let f = *r.pick(&["->2", "->2", "->3", "/%"]);
        let srcs = if f == "/%" { 2 } else { 1 };
        for i in 0..srcs { let (t, l) = if r.chance(1, 2) { ("value", format!("{}", r.range(-30, 30))) } else { ("get", r.pick(GETS).to_string()) }; c.op(format!("put {} 0 {} {} {} {}", k, x - 1, y + i, t, l)); }
        c.op(format!("put {} 0 {} {} {} -", k, x, y, f));
        if f == "/%" && r.chance(1, 2) { c.op(format!("shift {} 0 {} {} 0 {}", k, x, y, r.below(2))); }
        c.op(format!("put {} 0 {} {} {} -", k, x + 1, y + d, r.pick(&["-", "/", "/%", "accum", "s&h~", "+"])));
        if r.chance(1, 2) { c.op(format!("shift {} 0 {} {} 0 0", k, x + 1, y + d)); }
        if r.chance(1, 3) { let (t, l) = rand_type(r); c.op(format!("fit {} {} {} {}", k, r.u64() % 100000, t, l)); }
        return;
    }
    let a = if r.chance(1, 20) { r.range(1, 4) } else { 0 };
    match r.below(22) {
        0..=5 => { let (t, l) = rand_type(r); let p = xy(r); c.op(format!("put {} {} {} {} {}", k, a, p, t, l)); }
        6..=11 => { let (t, l) = rand_type(r); c.op(format!("fit {} {} {} {}", k, r.u64() % 100000, t, l)); }
        12 => { let p = xy(r); c.op(format!("rm {} {} {}", k, a, p)); }
        13 | 14 => { let (p, q) = (xy(r), xy(r)); let a2 = if r.chance(1, 12) { r.range(0, 4) } else { a }; c.op(format!("{} {} {} {} {} {}", r.pick(&["move", "clone"]), k, a, p, a2, q)); }
        15 => { let (p, q) = (xy(r), xy(r)); let a2 = if r.chance(1, 12) { r.range(0, 4) } else { a }; c.op(format!("chain {} {} {} {} {}", k, a, p, a2, q)); }
        16 | 17 => { let p = xy(r); c.op(format!("split {} {} {} {}", k, a, p, r.pick(&["->", "->", "none", "nope"]))); }
        18 | 19 => { let p = xy(r); c.op(format!("shift {} {} {} {} {}", k, a, p, r.below(3), r.below(2))); }
        20 => c.op(format!("snap {}", k)),
        _ => c.op(format!("restore {}", k)),
    }
}
fn gen(c: &mut Case, r: &mut Rng) {
    let (a, b) = *r.pick(&[(64, 64), (1, 64), (32, 32), (1, 7), (100, 128)]);
    c.set("bmin", a); c.set("bmax", b);
    c.set("sr", *r.pick(&[44100, 48000, 96000, 8000]));
    c.set("id1", *r.pick(&[1, 1, 1, 5, 12, 31]));
    c.op("node 0 1 1");
    if r.chance(1, 2) { c.op("node 1 2 3"); }
    let k0 = r.below(K);
    for _ in 0..r.range(4, 14) { gen_edit(c, r, k0); }
    c.op(format!("check {}", k0));
    c.op("wait 200");
    for _ in 0..r.range(2, 16) {
        let k = if r.chance(3, 4) { k0 } else { r.below(K) };
        match r.below(16) {
            0..=7 => { for _ in 0..r.range(1, 4) { gen_edit(c, r, k); } if r.chance(3, 4) { c.op(format!("check {}", k)); } }
            8 => c.op(format!("node {} {} {}", k, r.below(4), r.below(4))),
            9 => c.op(format!("unnode {}", k)),
            10 => if r.chance(1, 2) { c.op("clear") } else { c.op("reload") },
            11 => c.op(format!("srate {}", *r.pick(&[44100, 48000, 96000, 22050]))),
            12 => { let (a, b) = *r.pick(&[(128, 128), (1, 64), (1, 1), (16, 40)]); c.op(format!("mode {} {}", a, b)); }
            13 => c.op(format!("stall {}", r.range(1000, 100000))),
            14 => c.op(format!("param {} {} {}", k, r.below(6), r.range(-100, 100))),
            _ => {}
        }
        if r.chance(1, 2) { c.op(format!("wait {}", r.range(1, 400))); }
    }
    for k in 0..K { c.op(format!("check {}", k)); }
    c.op("wait 300");
}

// ---------------------------------------------------------------- reference interpreter
#[derive(Clone, Debug, PartialEq)]
struct B { id: u64, typ: String, lbl: String, rows: i64, inputs: Vec<Option<String>>, outputs: Vec<Option<String>>, contains: Vec<Option<u64>> }
type Grid = BTreeMap<(i64, i64, i64), B>;
fn ports(v: &Value) -> Vec<Option<String>> { v.as_array().map(|a| a.iter().map(|p| p.as_str().map(|s| s.to_string())).collect()).unwrap_or_default() }
fn grid(bf: &BlockFun) -> Grid {
    let v = bf.save_snapshot().serialize();
    let mut g = Grid::new();
    for (ai, a) in v["areas"].as_array().unwrap().iter().enumerate() {
        for b in a["blocks"].as_array().unwrap() {
            let k = &b["block"];
            g.insert((ai as i64, b["x"].as_i64().unwrap(), b["y"].as_i64().unwrap()), B {
                id: k["id"].as_u64().unwrap_or(0), typ: k["typ"].as_str().unwrap_or("").into(), lbl: k["lbl"].as_str().unwrap_or("").into(), rows: k["rows"].as_i64().unwrap_or(0),
                inputs: ports(&k["inputs"]), outputs: ports(&k["outputs"]), contains: k["contains"].as_array().map(|a| a.iter().map(|x| x.as_u64()).collect()).unwrap_or_default(),
            });
        }
    }
    g
}
fn areas(bf: &BlockFun) -> i64 { bf.save_snapshot().serialize()["areas"].as_array().unwrap().len() as i64 }
/// Origin of the block that covers a cell.
fn at(g: &Grid, a: i64, x: i64, y: i64) -> Option<(i64, i64, i64)> { g.range((a, x, i64::MIN)..=(a, x, y)).next_back().filter(|(o, b)| o.2 + b.rows > y).map(|(o, _)| *o) }
fn port(p: &[Option<String>], row: i64) -> Option<&str> { if row < 0 { None } else { p.get(row as usize).and_then(|p| p.as_deref()) } }
struct Prog { blocks: Vec<B>, ins: Vec<Vec<(String, Option<(usize, String)>)>>, sinks: Vec<(usize, Option<String>)>, uses_p: bool, epoch: u64 }
/// None: does not compile.
fn program(g: &Grid, epoch: u64) -> Option<Prog> {
    let ok_var = |n: &str, set: bool| if n.starts_with('&') { n == "&sig1" || n == "&sig2" } else if n.starts_with('$') { !set } else { !n.starts_with('%') };
    let root: Vec<_> = g.iter().filter(|(o, _)| o.0 == 0).collect();
    let mut p = Prog { blocks: vec![], ins: vec![], sinks: vec![], uses_p: false, epoch };
    let index: HashMap<(i64, i64), usize> = root.iter().enumerate().map(|(i, (o, _))| ((o.1, o.2), i)).collect();
    let mut sinks = vec![];
    for (i, (o, b)) in root.iter().enumerate() {
        match b.typ.as_str() {
            "if" => return None,
            "value" => { if b.lbl.parse::<f64>().is_err() { return None; } }
            "get" | "set" => { if !ok_var(&b.lbl, b.typ == "set") { return None; } if b.lbl == "*p" { p.uses_p = true; } }
            _ => {}
        }
        let mut ins = vec![];
        for r in 0..b.rows { if let Some(n) = port(&b.inputs, r) {
            let src = at(g, 0, o.1 - 1, o.2 + r).and_then(|s| { let sb = &g[&s]; port(&sb.outputs, o.2 + r - s.2).map(|on| (index[&(s.1, s.2)], on.to_string())) });
            ins.push((n.to_string(), src));
        } }
        p.ins.push(ins);
        let mut outs = 0;
        for r in 0..b.rows { if let Some(n) = port(&b.outputs, r) {
            outs += 1;
            let used = at(g, 0, o.1 + 1, o.2 + r).map_or(false, |d| port(&g[&d].inputs, o.2 + r - d.2).is_some());
            if !used { sinks.push(((o.2 + r, o.1), i, Some(n.to_string()))); }
        } }
        if outs == 0 { sinks.push(((o.2, o.1), i, None)); }
        p.blocks.push((*b).clone());
    }
    sinks.sort();
    p.sinks = sinks.into_iter().map(|s| (s.1, s.2)).collect();
    Some(p)
}
#[derive(Clone, Debug, Default)]
struct State { mem: BTreeMap<(u64, u64, bool), f64>, p: f64 }
impl State {
    fn same(&self, o: &State) -> bool { self.p.to_bits() == o.p.to_bits() && self.mem.len() == o.mem.len() && self.mem.iter().zip(&o.mem).all(|(a, b)| a.0 == b.0 && a.1.to_bits() == b.1.to_bits()) }
}
struct Ev<'a> { p: &'a Prog, s: &'a mut State, memo: Vec<Option<[f64; 2]>>, vars: HashMap<String, f64>, sr: f64 }
impl<'a> Ev<'a> {
    fn input(&mut self, b: usize, name: &str, nth: usize) -> f64 {
        let src = if name.is_empty() { self.p.ins[b].get(nth) } else { self.p.ins[b].iter().find(|i| i.0 == name) }.and_then(|i| i.1.clone());
        match src { Some((i, o)) => self.out(i, &o), None => 0.0 }
    }
    fn out(&mut self, b: usize, o: &str) -> f64 {
        let k = (o == "re") as usize;
        if let Some(m) = self.memo[b] { return m[k]; }
        let t = self.p.blocks[b].typ.clone();
        let key = (self.p.epoch, self.p.blocks[b].id, t == "accum");
        let v = match t.as_str() {
            "zero" => [0.0; 2],
            "\u{3c0}" => [std::f64::consts::PI; 2],
            "2\u{3c0}" => [std::f64::consts::TAU; 2],
            "value" => [self.p.blocks[b].lbl.parse().unwrap_or(0.0); 2],
            "->" | "->2" | "->3" | "sin" => { let v = self.input(b, "", 0); [if t == "sin" { v.sin() } else { v }; 2] }
            "get" => [match self.p.blocks[b].lbl.as_str() { "*p" => self.s.p, "PI" => std::f64::consts::PI, "srate" => self.sr, "israte" => 1.0 / self.sr, n => *self.vars.get(n).unwrap_or(&0.0) }; 2],
            "+" | "*" => { let (a, c) = (self.input(b, "", 0), self.input(b, "", 1)); [if t == "+" { a + c } else { a * c }; 2] }
            "-" | "/" | "/%" => { let (a, c) = (self.input(b, "a", 0), self.input(b, "b", 0)); match t.as_str() { "-" => [a - c; 2], "/" => [a / c; 2], _ => [a / c, a % c] } }
            "accum" => { let (i, r) = (self.input(b, "in", 0), self.input(b, "re", 0)); let m = self.s.mem.entry(key).or_insert(0.0); if r > 0.5 { *m = 0.0 } else { *m += i } [*m; 2] }
            "s&h~" => { let (i, r) = (self.input(b, "in", 0), self.input(b, "se", 0)); let m = self.s.mem.entry(key).or_insert(0.0); if r > 0.5 { *m = i } [*m; 2] }
            _ => [0.0; 2],
        };
        self.memo[b] = Some(v);
        v[k]
    }
}
fn frame(p: &Prog, s: &mut State, inp: [f64; 6], sr: f64) -> [f64; 3] {
    let vars = ["in1", "in2", "alpha", "beta", "delta", "gamma"].iter().zip(inp).map(|(n, v)| (n.to_string(), v)).collect();
    let mut e = Ev { p, s, memo: vec![None; p.blocks.len()], vars, sr };
    let mut res = 0.0;
    for (b, o) in &p.sinks {
        match o {
            Some(o) => res = e.out(*b, o),
            None => { let v = e.input(*b, "", 0); match p.blocks[*b].lbl.as_str() { "*p" => e.s.p = v, n => { e.vars.insert(n.to_string(), v); } } }
        }
    }
    [res, *e.vars.get("&sig1").unwrap_or(&0.0), *e.vars.get("&sig2").unwrap_or(&0.0)]
}

// ---------------------------------------------------------------- audio side
/// What the Code node may run: a version can be running once its operation started and must be once it returned.
struct Ver { start: usize, end: usize, fresh: bool, prog: Option<Rc<Prog>> }
#[derive(Clone)]
#[derive(Debug)]
struct Hyp { v: usize, s: State }
#[derive(Default)]
struct Inst { vers: Vec<Ver>, hyps: Vec<Hyp>, sr: f32, sr_gen: usize, last: usize, lost: bool }
#[derive(Default)]
struct St { inst: [Inst; K], ids: [usize; K] }
static ST: Shared<St> = Shared::new();
fn close(a: f32, b: f64) -> bool { let b = b as f32; a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-5 * (1.0 + a.abs().max(b.abs())) }
fn step(st: &mut State, vers: &[Ver], from: usize, to: usize) {
    for v in &vers[from + 1..=to] {
        if v.fresh { *st = State::default(); }
        match &v.prog { Some(p) => { if !p.uses_p { st.p = 0.0; } } None => st.p = 0.0 }
    }
}
fn on_exec(exec: &mut NodeExecutor, b: &Blk) {
    let started = b.started_after;
    ST.with(|st| {
        let p = exec.get_prog();
        for o in p.prog.iter() {
            let NodeId::Code(k) = o.node.id() else { continue };
            let Some(k) = st.ids.iter().position(|i| *i == k as usize) else { continue };
            let Some(ins) = st.inst.get_mut(k as usize) else { continue };
            let inp: Vec<&[f32]> = (0..6).map(|i| p.cur_inp[o.in_idxlen.0 + i].slice(b.n)).collect();
            let got: Vec<&[f32]> = (0..3).map(|i| p.out[o.out_idxlen.0 + i].slice(b.n)).collect();
            // nodes that are not in the program learn about a new rate when they are back
            if (ins.last + 1 == b.no && ins.sr_gen != b.sr_gen) || ins.sr != b.sr {
                if ins.sr != 0.0 { for h in ins.hyps.iter_mut() {
                    // the state of the blocks that are in the program is reset
                    h.s.p = 0.0;
                    if let Some(p) = &ins.vers[h.v].prog { for b in &p.blocks { for a in [false, true] { h.s.mem.remove(&(p.epoch, b.id, a)); } } }
                } }
            }
            ins.sr = b.sr; ins.sr_gen = b.sr_gen; ins.last = b.no;
            let lo = ins.vers.iter().rposition(|v| v.end <= b.done).unwrap_or(0);
            let hi = ins.vers.iter().rposition(|v| v.start <= started).unwrap_or(0);
            if ins.lost { match ins.vers[lo..=hi].iter().rposition(|v| v.fresh) { Some(0) if hi == lo => { ins.lost = false; ins.hyps = vec![Hyp { v: lo, s: State::default() }]; } _ => continue } }
            let (mut next, mut why) = (vec![], String::new());
            for h in &ins.hyps {
                for v in lo.max(h.v)..=hi {
                    let mut s = h.s.clone();
                    step(&mut s, &ins.vers, h.v, v);
                    let mut bad = None;
                    for f in 0..b.n {
                        let w = match &ins.vers[v].prog { Some(p) => frame(p, &mut s, [0, 1, 2, 3, 4, 5].map(|i| inp[i][f] as f64), b.sr as f64), None => [0.0; 3] };
                        if let Some(i) = (0..3).find(|i| !close(got[*i][f], w[*i])) { bad = Some((f, i, got[i][f], w[i])); break; }
                    }
                    match bad {
                        None => { if ins.vers[v].prog.is_some() { rt::count("probe_code_runs", 1); } if !next.iter().any(|n: &Hyp| n.v == v && n.s.same(&s)) { next.push(Hyp { v, s }) } }
                        Some((f, i, g, w)) => why = format!("frame {}: output {} is {} instead of {}", f, ["sig", "sig1", "sig2"][i], g, w),
                    }
                }
            }
            rt::log(|| format!("code {} range {}..{} got {:?} hyps {:?} -> {:?}", k, lo, hi, &got[0][0], ins.hyps, next));
            rt::count("checks", 1);
            if next.is_empty() && !ins.lost { rt::fail("code", format!("Code {} does not compute what its blocks say ({} program(s) possible): {}", k, hi + 1 - lo.min(hi), why)); }
            rt::state(next.first().map_or(0, |h| h.v) as u64 * 31 + got[0][0].to_bits() as u64);
            // too many possible states: check again from the next new node on
            if next.len() > 40 { next.clear(); ins.lost = true; rt::count("probe_lost_track", 1); }
            ins.hyps = next;
        }
    })
}

// ---------------------------------------------------------------- control side
fn same(a: &Grid, b: &Grid, what: &str) {
    if a != b {
        let d: Vec<String> = a.iter().filter(|(k, v)| b.get(k) != Some(v)).map(|(k, v)| format!("{:?} {}#{} missing or changed", k, v.typ, v.id)).chain(b.iter().filter(|(k, _)| a.get(k).is_none()).map(|(k, v)| format!("{:?} {}#{} appeared", k, v.typ, v.id))).take(4).collect();
        rt::fail("blocks", format!("{}: {}", what, d.join(", ")));
    }
}
fn free(g: &Grid, a: i64, x: i64, y: i64, rows: i64) -> bool { (0..rows).all(|r| at(g, a, x, y + r).is_none()) }
/// All sub areas of a block.
fn sub_areas(g: &Grid, b: &B, out: &mut BTreeSet<i64>) { for c in b.contains.iter().flatten() { if out.insert(*c as i64) { for (o, b2) in g { if o.0 == *c as i64 { sub_areas(g, b2, out); } } } } }
fn chain(g: &Grid, o: (i64, i64, i64)) -> BTreeSet<(i64, i64, i64)> {
    let mut seen = BTreeSet::new();
    let mut todo = vec![o];
    while let Some(o) = todo.pop() {
        if !seen.insert(o) { continue; }
        let b = &g[&o];
        for r in 0..b.rows {
            if port(&b.inputs, r).is_some() { if let Some(s) = at(g, o.0, o.1 - 1, o.2 + r) { if port(&g[&s].outputs, o.2 + r - s.2).is_some() { todo.push(s); } } }
            if port(&b.outputs, r).is_some() { if let Some(s) = at(g, o.0, o.1 + 1, o.2 + r) { if port(&g[&s].inputs, o.2 + r - s.2).is_some() { todo.push(s); } } }
        }
    }
    seen
}
const EMPTY_TYPES: &[&str] = &["nope"];
/// One edit of the block program, compared with what it should do to the grid.
fn edit(bf: &mut BlockFun, w: &str, t: &mut Tok, snap: &mut Option<(hexodsp::wblockdsp::BlockFunSnapshot, Grid)>) {
    let g = grid(bf);
    let na = areas(bf);
    let rows_of = |ty: &str| if ty == "if" { 1 } else { TYPES.iter().find(|x| x.0 == ty).map(|x| x.1 as i64).unwrap_or(1) };
    let check_ids = |g2: &Grid| { let ids: BTreeSet<u64> = g2.values().map(|b| b.id).collect(); if ids.len() != g2.len() { rt::fail("blocks", format!("after '{}' two blocks have the same id", w)); } };
    match w {
        "put" | "fit" => {
            let (a, x, y, ty, lbl);
            if w == "put" { a = t.i(); x = t.i(); y = t.i(); ty = t.s(); lbl = t.s(); }
            else {
                // next to a port of an existing block
                let mut r = Rng::new(t.u() as u64); ty = t.s(); lbl = t.s(); a = 0;
                let mut spots = vec![];
                for (o, b) in g.iter().filter(|(o, _)| o.0 == 0) { for row in 0..b.rows { for (px, has) in [(o.1 - 1, port(&b.inputs, row).is_some()), (o.1 + 1, port(&b.outputs, row).is_some())] { for d in 0..rows_of(ty) { if has && px >= 0 && o.2 + row - d >= 0 && free(&g, 0, px, o.2 + row - d, rows_of(ty)) { spots.push((px, o.2 + row - d)); } } } } }
                let p = if spots.is_empty() { (2, 2) } else { *r.pick(&spots) };
                x = p.0; y = p.1;
            }
            let ok = a < na && free(&g, a, x, y, rows_of(ty)) && !EMPTY_TYPES.contains(&ty);
            let res = bf.instanciate_at(a as usize, x, y, ty, if lbl == "-" { None } else { Some(lbl.to_string()) });
            if res.is_ok() != ok { rt::fail("blocks", format!("instanciate_at({}, {}, {}, {}) returned {:?}", a, x, y, ty, res)); }
            let mut g2 = grid(bf);
            check_ids(&g2);
            if ok { match g2.remove(&(a, x, y)) { Some(b) if b.typ == ty && (lbl == "-" || b.lbl == lbl) && b.rows == rows_of(ty) => {} b => rt::fail("blocks", format!("instanciate_at made {:?} instead of {} [{}]", b, ty, lbl)) } }
            same(&g, &g2, "instanciate_at");
        }
        "rm" => {
            let (a, x, y) = (t.i(), t.i(), t.i());
            let o = at(&g, a, x, y);
            let res = bf.remove_at(a as usize, x, y);
            if res.is_ok() != o.is_some() { rt::fail("blocks", format!("remove_at({}, {}, {}) returned {:?}", a, x, y, res)); }
            let mut e = g.clone();
            if let Some(o) = o { e.remove(&o); }
            same(&e, &grid(bf), "remove_at");
        }
        "move" | "clone" => {
            let (a, x, y, a2, x2, mut y2) = (t.i(), t.i(), t.i(), t.i(), t.i(), t.i());
            let res = if w == "move" { bf.move_block_from_to(a as usize, x, y, a2 as usize, x2, y2) } else { bf.clone_block_from_to(a as usize, x, y, a2 as usize, x2, y2) };
            let mut e = g.clone();
            let mut ok = false;
            if let Some(o) = at(&g, a, x, y) {
                let b = g[&o].clone();
                if y > o.2 { y2 = (y2 - (y - o.2)).max(0); }
                let mut subs = BTreeSet::new();
                sub_areas(&g, &b, &mut subs);
                let mut e2 = e.clone();
                if w == "move" { e2.remove(&o); }
                if a2 < na + if w == "clone" && b.typ == "if" { 2 } else { 0 } && (w == "clone" || !subs.contains(&a2)) && free(&e2, a2, x2, y2, b.rows) {
                    ok = true;
                    e = e2;
                    if w == "move" { e.insert((a2, x2, y2), b); }
                    else if res.is_ok() {
                        let g2 = grid(bf);
                        match g2.get(&(a2, x2, y2)) { Some(n) if n.typ == b.typ && n.lbl == b.lbl && n.inputs == b.inputs && n.outputs == b.outputs && n.rows == b.rows => { e.insert((a2, x2, y2), n.clone()); } n => rt::fail("blocks", format!("clone_block_from_to made {:?} of {:?}", n, b)) }
                        check_ids(&g2);
                    }
                }
            }
            if res.is_ok() != ok { rt::fail("blocks", format!("{} ({}, {}, {}) -> ({}, {}, {}) returned {:?}", w, a, x, y, a2, x2, y2, res)); }
            same(&e, &grid(bf), &format!("{} ({}, {}, {}) -> ({}, {}, {}), which returned {:?}", w, a, x, y, a2, x2, y2, res));
        }
        "chain" => {
            let (a, x, y, a2, x2, y2) = (t.i(), t.i(), t.i(), t.i(), t.i(), t.i());
            let res = bf.move_block_chain_from_to(a as usize, x, y, a2 as usize, x2, y2);
            let g2 = grid(bf);
            match (&res, at(&g, a, x, y)) {
                (Ok(()), Some(o)) => {
                    // everything moved by one and the same offset
                    let ch = chain(&g, o);
                    let id = g[&o].id;
                    let Some((n, _)) = g2.iter().find(|(_, b)| b.id == id) else { rt::fail("blocks", format!("moving a chain lost block {:?}", g[&o])) };
                    let (dx, dy) = (n.1 - o.1, n.2 - o.2);
                    if n.0 != a2 { rt::fail("blocks", "the chain was moved to the wrong area".to_string()); }
                    let mut e = g.clone();
                    for c in &ch { e.remove(c); }
                    for c in &ch { if !free(&e, a2, c.1 + dx, c.2 + dy, g[c].rows) && !ch.contains(&(a2, c.1 + dx, c.2 + dy)) { rt::fail("blocks", "a chain was moved onto other blocks".to_string()); } }
                    for c in &ch { e.insert((a2, c.1 + dx, c.2 + dy), g[c].clone()); }
                    same(&e, &g2, "move_block_chain_from_to");
                    if a == a2 && !(dx - (x2 - x)).abs().le(&1) { rt::fail("blocks", format!("the chain was moved by {} instead of {} columns", dx, x2 - x)); }
                }
                (Ok(()), None) => rt::fail("blocks", "a chain was moved where there is no block".to_string()),
                (Err(_), _) => same(&g, &g2, "move_block_chain_from_to, which was refused"),
            }
        }
        "split" => {
            let (a, x, y, f) = (t.i(), t.i(), t.i(), t.s());
            let res = bf.split_block_chain_after(a as usize, x, y, if f == "none" { None } else { Some(f) });
            let mut g2 = grid(bf);
            let mut e = g.clone();
            if res.is_ok() {
                let Some(o) = at(&g, a, x, y) else { rt::fail("blocks", "a chain was split where there is no block".to_string()) };
                let ch = chain(&g, o);
                for c in &ch { if c.1 > x { e.remove(c); } }
                for c in &ch { if c.1 > x { e.insert((c.0, c.1 + 1, c.2), g[c].clone()); } }
                if f != "none" {
                    // fillers where a connection was cut
                    for c in &ch { if c.1 == x + 1 { for r in 0..g[c].rows { if port(&g[c].inputs, r).is_some() && c.2 + r != y {
                        if ch.iter().any(|s| s.1 == x && port(&g[s].outputs, c.2 + r - s.2).is_some()) {
                            let k = (a, x + 1, c.2 + r);
                            match g2.get(&k) { Some(n) if n.typ == f => { e.insert(k, n.clone()); } n => rt::fail("blocks", format!("no filler block at {:?} but {:?}", k, n)) }
                        }
                    } } } }
                }
                check_ids(&g2);
            } else if f == "nope" && false { g2.clear(); }
            if f == "nope" && res.is_ok() { rt::fail("blocks", "an unknown filler type was accepted".to_string()); }
            same(&e, &g2, "split_block_chain_after");
        }
        "shift" => {
            let (a, x, y, row, out) = (t.i(), t.i(), t.i(), t.u(), t.i() == 1);
            let o = at(&g, a, x, y);
            let row = row % o.map(|o| g[&o].rows.max(1) as usize).unwrap_or(1);
            bf.shift_port(a as usize, x, y, row, out);
            let mut e = g.clone();
            if let Some(b) = o.and_then(|o| e.get_mut(&o)) { if b.rows > 1 {
                let v = if out { &mut b.outputs } else { &mut b.inputs };
                while (v.len() as i64) < b.rows { v.push(None); }
                let n = v.len();
                let p = v.remove(row);
                v.insert((row + 1) % n, p);
            } }
            same(&e, &grid(bf), "shift_port");
        }
        "snap" => *snap = Some((bf.save_snapshot(), g)),
        "restore" => if let Some((s, e)) = snap { bf.load_snapshot(s); same(e, &grid(bf), "load_snapshot"); },
        _ => {}
    }
    bf.recalculate_area_sizes();
    rt::count("checks", 1);
    rt::count(&format!("op_{}", w), 1);
}

fn run(c: &Case) {
    host_init();
    let (conf, mut exec) = new_node_engine();
    exec.no_logging();
    let mut m = Matrix::new(conf, 4, 4);
    ST.init(St::default());
    ST.with(|s| s.ids = [0, c.c("id1").clamp(1, 31) as usize]);
    ST.with(|s| for i in s.inst.iter_mut() { i.vers.push(Ver { start: 0, end: 0, fresh: true, prog: None }); i.hyps.push(Hyp { v: 0, s: State::default() }); });
    HOST.with(|h| { h.keep = false; h.on_exec = Some(Box::new(on_exec)); });
    let audio = spawn_audio(exec, AudioCfg { sr: c.c("sr").max(8000) as f32, min: c.c("bmin").max(1) as usize, max: c.c("bmax").max(1) as usize, seed: c.seed ^ 5, sleep: true });
    let mut snaps: [Option<(hexodsp::wblockdsp::BlockFunSnapshot, Grid)>; K] = [None, None];
    let mut made = [false; K];      // the node exists
    let mut gens = [0u64; K];       // generation of the last version that was checked
    let mut grids: [Option<Grid>; K] = [Some(Grid::new()), Some(Grid::new())];
    let mut epoch = [0u64; K];
    let mut pending = 0;
    for o in &c.ops {
        let mut t = Tok::new(o);
        let w = t.s();
        match w {
            "put" | "fit" | "rm" | "move" | "clone" | "chain" | "split" | "shift" | "snap" | "restore" => {
                let k = t.u() % K;
                let bf = m.get_block_function(ids()[k]).unwrap();
                op(w, || { let mut bf = bf.lock().unwrap(); edit(&mut bf, w, &mut t, &mut snaps[k]); });
            }
            "check" => {
                let k = t.u() % K;
                if pending > 100 { wait_blocks(3); pending = 0; }
                let bf = m.get_block_function(ids()[k]).unwrap();
                let (g, gen) = { let bf = bf.lock().unwrap(); (grid(&bf), bf.generation()) };
                let p = program(&g, epoch[k]);
                let changed = gen != gens[k] || grids[k].as_ref() != Some(&g);
                gens[k] = gen;
                grids[k] = Some(g);
                let ok = p.is_some();
                let n = HOST.with(|h| h.ops_started) + 1;
                if changed && ok { if made[k] { ST.with(|s| s.inst[k].vers.push(Ver { start: n, end: usize::MAX, fresh: false, prog: p.map(Rc::new) })); } pending += 1; }
                let res = op("check", || m.check_block_function(ids()[k]));
                if changed && ok && made[k] { ST.with(|s| s.inst[k].vers.last_mut().unwrap().end = n); }
                if changed && res.is_ok() != ok { rt::fail("compile", format!("the block program {} but check_block_function returned {:?}", if ok { "is valid" } else { "cannot be compiled" }, res)); }
                if !changed && res.is_err() { rt::fail("compile", format!("the block program did not change but check_block_function returned {:?}", res)); }
                if changed && !ok { rt::count("fault_bad_program", 1); }
            }
            "node" => {
                let (k, x, y) = (t.u() % K, t.u() % 4, t.u() % 4);
                op("node", || {
                    let id = NodeId::Code(ids()[k] as u8);
                    let _ = m.change_matrix(|m| { m.place(x, y, Cell::empty(id).input(id.inp("in2"), id.inp("in1"), id.inp("beta"))); if y > 0 && m.get(x, y - 1).map_or(false, |c| c.is_empty()) { m.place(x, y - 1, Cell::empty(NodeId::Inp(0)).out(None, None, Some(0))); } });
                    note_new(&m, &mut made, &mut gens, &mut epoch);
                    let _ = m.sync();
                });
                settle_new(&made);
            }
            "unnode" => {
                let k = t.u() % K;
                op("unnode", || {
                    let mut v = vec![];
                    m.for_each(|x, y, c| if c.node_id() == NodeId::Code(ids()[k] as u8) { v.push((x, y)) });
                    for (x, y) in v { let _ = m.change_matrix(|m| m.place(x, y, Cell::empty(NodeId::Nop))); }
                    let _ = m.sync();
                });
            }
            "clear" => { op("clear", || m.clear()); made = [false; K]; wait_blocks(3); rt::count("op_clear", 1); }
            "reload" => {
                op("reload", || {
                    let mut repr = m.to_repr();
                    let s = repr.serialize().to_string();
                    let repr = MatrixRepr::deserialize(&s).unwrap_or_else(|e| rt::fail("reload", format!("{:?}", e)));
                    for k in 0..K { let _ = k; }
                    made = [false; K];
                    let mut present = [false; K];
                    m.for_each(|_, _, c| if let NodeId::Code(i) = c.node_id() { for j in 0..K { if ids()[j] <= i as usize { present[j] = true; } } });
                    begin_new(&present, &mut made, &mut gens, &mut epoch);
                    let _ = m.from_repr(&repr);
                });
                for k in 0..K { gens[k] = 0; }
                settle_new(&made);
                rt::count("op_reload", 1);
            }
            "param" => {
                let (k, i, v) = (t.u() % K, t.u(), t.f());
                op("param", || if let Some(p) = NodeId::Code(ids()[k] as u8).inp_param_by_idx(i) { m.set_param(p, SAtom::param(v / 100.0)); });
            }
            "srate" => { let s = t.u() as f32; HOST.with(|h| h.cmds.push(Cmd::SampleRate(s))); rt::count("fault_rate_change", 1); }
            "mode" => { let (a, b) = (t.u().max(1), t.u().max(1)); HOST.with(|h| h.cmds.push(Cmd::Mode(a, b))); }
            "stall" => { let ns = t.u() as u64 * 1000; HOST.with(|h| h.cmds.push(Cmd::Stall(ns))); }
            "wait" => { wait_frames(t.u() as u64); pending = 0; }
            _ => {}
        }
    }
    audio.stop();
}
fn ids() -> [usize; K] { ST.with(|s| s.ids) }
/// A Code node that is placed for the first time (since the last clear) starts empty.
fn note_new(m: &Matrix, made: &mut [bool; K], gens: &mut [u64; K], epoch: &mut [u64; K]) {
    let mut present = [false; K];
    m.for_each(|_, _, c| if let NodeId::Code(i) = c.node_id() { for j in 0..K { if ids()[j] <= i as usize { present[j] = true; } } });
    begin_new(&present, made, gens, epoch);
}
fn begin_new(present: &[bool; K], made: &mut [bool; K], gens: &mut [u64; K], epoch: &mut [u64; K]) {
    for k in 0..K { if present[k] && !made[k] {
        made[k] = true; gens[k] = 0; epoch[k] += 1;
        let n = HOST.with(|h| h.ops_started);
        ST.with(|s| s.inst[k].vers.push(Ver { start: n, end: usize::MAX, fresh: true, prog: None }));
    } }
}
fn settle_new(made: &[bool; K]) {
    let n = HOST.with(|h| h.ops_done);
    for k in 0..K { if made[k] { ST.with(|s| if let Some(v) = s.inst[k].vers.last_mut() { if v.end == usize::MAX { v.end = n; } }); } }
}
