//! P22: a SynthConstructor plays the graph that was described with the build API.
use super::graph::*;
use super::world::*;
use crate::case::{Case, Tok};
use crate::rng::Rng;
use crate::rt;
use crate::runner::PropDef;
use hexodsp::build;
use hexodsp::build::{ConstructorNodeBuilder, ConstructorNodeOutputPort};
use hexodsp::*;
use std::collections::{BTreeMap, BTreeSet};

pub const P22: PropDef = PropDef {
    id: "P22", gen, run, quick: 14000, thorough: 150000,
    rule: "one evaluation = one audio block compared with the reference interpreter (outputs and all inputs of the probe nodes); a run is distinct by (state history hash, interleaving hash)",
    real: "SynthConstructor, the build API, NodeConfigurator, NodeExecutor, NodeProg, all DSP nodes involved, drop thread, ring buffers, std mutexes (all real code)", stub: super::STUB_ENGINE,
    assumptions: &["parameter values are compared once their 10 ms ramp is over", "what was described stays until it is described differently or cleared", "after a graph with a cycle was refused the graph is cleared before the next one"],
};
const NI: usize = 6;

/// One handle of the build API.
#[derive(Clone)]
enum Hd { R(build::Rust1x1), Amp(build::Amp), Mix(build::Mix3), Map(build::Map), Inp(build::Inp), Out(build::Out) }
macro_rules! fields {
    ($node: expr, $what: ident, $i: expr, [$($n: literal $f: ident),*], $arg: tt) => { match $i { $($n => $node.$what().$f $arg,)* _ => $node } }
}
macro_rules! per_kind {
    ($s: expr, $what: ident, $i: expr, $arg: tt) => {
        match $s {
            Hd::R(n) => Hd::R(fields!(n, $what, $i, [0 inp, 1 alpha, 2 beta, 3 delta, 4 gamma], $arg)),
            Hd::Amp(n) => Hd::Amp(fields!(n, $what, $i, [0 inp, 1 gain, 2 att], $arg)),
            Hd::Mix(n) => Hd::Mix(fields!(n, $what, $i, [0 ch1, 1 ch2, 2 ch3, 3 vol1, 4 vol2, 5 vol3, 6 ovol], $arg)),
            Hd::Map(n) => Hd::Map(fields!(n, $what, $i, [0 inp, 1 atv, 2 offs, 3 imin, 4 imax, 5 min, 6 max], $arg)),
            Hd::Inp(n) => Hd::Inp(fields!(n, $what, $i, [0 vol], $arg)),
            Hd::Out(n) => Hd::Out(fields!(n, $what, $i, [0 ch1, 1 ch2, 2 vol], $arg)),
        }
    }
}
impl Hd {
    fn new(n: Nid) -> Hd { match n.0 { R => Hd::R(build::rust1x1(n.1)), AMP => Hd::Amp(build::amp(n.1)), MIX => Hd::Mix(build::mix3(n.1)), MAP => Hd::Map(build::map(n.1)), INP => Hd::Inp(build::inp(n.1)), _ => Hd::Out(build::out(n.1)) } }
    fn set(self, i: u8, v: f32) -> Hd { per_kind!(self, set, i, (v)) }
    fn set_mod(self, i: u8, v: f32, a: f32) -> Hd { per_kind!(self, set_mod, i, (v, a)) }
    fn input(self, i: u8, p: &dyn ConstructorNodeOutputPort) -> Hd { per_kind!(self, input, i, (p)) }
    fn atom(self, v: i64) -> Hd { match self { Hd::Amp(n) => Hd::Amp(n.set().neg_att(v)), Hd::Map(n) => Hd::Map(n.set().clip(v)), Hd::Out(n) => Hd::Out(n.set().mono(v)), h => h } }
    fn port(&self, o: u8) -> Option<Box<dyn ConstructorNodeOutputPort>> {
        Some(match self { Hd::R(n) => Box::new(n.output().sig()), Hd::Amp(n) => Box::new(n.output().sig()), Hd::Mix(n) => Box::new(n.output().sig()), Hd::Map(n) => Box::new(n.output().sig()), Hd::Inp(n) => if o == 0 { Box::new(n.output().sig1()) } else { Box::new(n.output().sig2()) }, Hd::Out(_) => return None })
    }
    fn b(&self) -> &dyn ConstructorNodeBuilder { match self { Hd::R(n) => n, Hd::Amp(n) => n, Hd::Mix(n) => n, Hd::Map(n) => n, Hd::Inp(n) => n, Hd::Out(n) => n } }
}
#[derive(Clone)]
enum MOp { Set(u8, f32, Option<f32>), Atom(i64), Input(u8, Nid, u8) }
struct Pool { h: BTreeMap<Nid, Hd>, ops: BTreeMap<Nid, Vec<MOp>> }
impl Pool {
    fn new() -> Self { Pool { h: BTreeMap::new(), ops: BTreeMap::new() } }
    fn with(&mut self, n: Nid, f: impl FnOnce(Hd) -> Hd) { let h = self.h.remove(&n).unwrap_or_else(|| Hd::new(n)); self.h.insert(n, f(h)); self.ops.entry(n).or_default(); }
    fn reach(&self, root: Nid) -> Vec<Nid> {
        let mut v = vec![root];
        let mut i = 0;
        while i < v.len() { for o in self.ops.get(&v[i]).into_iter().flatten() { if let MOp::Input(_, s, _) = o { if !v.contains(s) { v.push(*s); } } } i += 1; }
        v
    }
}
/// What the SynthConstructor knows.
struct Sc { known: BTreeSet<Nid>, edges: BTreeMap<(Nid, u8), (Nid, u8)>, pv: BTreeMap<(Nid, u8), f32>, mo: BTreeMap<(Nid, u8), f32>, at: BTreeMap<Nid, i64>, played: Option<Vec<(Nid, u8, Nid, u8)>>, pnodes: BTreeSet<Nid> }
impl Sc {
    fn new() -> Self { Sc { known: BTreeSet::new(), edges: BTreeMap::new(), pv: BTreeMap::new(), mo: BTreeMap::new(), at: BTreeMap::new(), played: Some(vec![]), pnodes: BTreeSet::new() } }
    fn elist(&self) -> Vec<(Nid, u8, Nid, u8)> { self.edges.iter().map(|(k, v)| (k.0, k.1, v.0, v.1)).collect() }
    fn order(ns: &BTreeSet<Nid>, es: &[(Nid, u8, Nid, u8)]) -> Option<Vec<Nid>> {
        let mut left = ns.clone();
        let mut out = vec![];
        while !left.is_empty() {
            let free: Vec<Nid> = left.iter().filter(|n| !es.iter().any(|e| e.0 == **n && left.contains(&e.2))).copied().collect();
            if free.is_empty() { return None; }
            for f in free { left.remove(&f); out.push(f); }
        }
        Some(out)
    }
    fn snap(&self) -> Snap {
        let es = self.played.clone().unwrap_or_default();
        let order = Sc::order(&self.pnodes, &es).unwrap_or_default();
        let (mut pv, mut mo, mut at) = (BTreeMap::new(), BTreeMap::new(), BTreeMap::new());
        for n in &order {
            for i in 0..NIN[n.0 as usize] as u8 { pv.insert((*n, i), self.pv.get(&(*n, i)).copied().unwrap_or_else(|| pid(*n, i).norm_def())); if let Some(m) = self.mo.get(&(*n, i)) { mo.insert((*n, i), *m); } }
            if let Some(a) = ATOM[n.0 as usize] { at.insert(*n, self.at.get(n).copied().unwrap_or_else(|| nid(*n).inp_param(a).unwrap().as_atom_def().i())); }
        }
        Snap { order, edges: es, pv, mo, at }
    }
    /// Applies a description. Returns whether a new graph is needed.
    fn walk(&mut self, p: &Pool, root: Nid) -> bool {
        let mut need = false;
        for n in p.reach(root) {
            self.known.insert(n);
            // the last description of a parameter counts
            let mut last: BTreeMap<u8, (f32, Option<f32>)> = BTreeMap::new();
            for o in p.ops.get(&n).into_iter().flatten() {
                match o {
                    MOp::Set(i, v, a) => { last.insert(*i, (*v, *a)); }
                    MOp::Atom(x) => { self.at.insert(n, *x); }
                    MOp::Input(i, s, o) => { if self.edges.insert((n, *i), (*s, *o)) != Some((*s, *o)) { need = true; } self.known.insert(*s); }
                }
            }
            for (i, (v, a)) in last {
                self.pv.insert((n, i), v);
                let had = self.mo.contains_key(&(n, i));
                match a { Some(a) => { self.mo.insert((n, i), a); } None => { self.mo.remove(&(n, i)); } }
                if had != a.is_some() { need = true; }
            }
        }
        need
    }
}

fn rand_nid(r: &mut Rng) -> Nid { let k = *r.pick(&[R, R, R, AMP, AMP, MIX, MIX, MAP, INP]); (k, r.below(if k == INP { 2 } else if k == R { NR } else { NI }) as u8) }
fn rand_in(r: &mut Rng, n: Nid) -> u8 { loop { let i = if r.chance(1, 2) { r.below(NIN[n.0 as usize].min(3)) } else { r.below(NIN[n.0 as usize]) } as u8; if !(n.0 == MAP && (i == 3 || i == 4)) { return i; } } }
fn gen(c: &mut Case, r: &mut Rng) {
    c.set("sr", *r.pick(&[44100, 48000]));
    let (a, b) = *r.pick(&[(128, 128), (1, 128), (64, 64), (1, 9)]);
    c.set("bmin", a); c.set("bmax", b);
    c.set("pre", r.below(2) as i64);
    // nodes in an order without cycles (usually)
    let mut ns: Vec<Nid> = vec![];
    for _ in 0..r.range(1, 12) { let n = rand_nid(r); if !ns.contains(&n) { ns.push(n); } }
    ns.push((OUT, 0));
    let link = |c: &mut Case, r: &mut Rng, ns: &Vec<Nid>| {
        let to = if r.chance(1, 4) { ns.len() - 1 } else { r.below(ns.len()) };
        let cyc = r.chance(1, 40);
        if to == 0 && !cyc { return; }
        let from = if cyc { r.below(ns.len() - 1) } else { r.below(to) };
        let (t, f) = (ns[to], ns[from]);
        if NOUT[f.0 as usize] == 0 { return; }
        let i = rand_in(r, t);
        c.op(format!("in {} {} {} {} {} {}", t.0, t.1, i, f.0, f.1, r.below(NOUT[f.0 as usize])));
    };
    for _ in 0..r.range(1, 16) { link(c, r, &ns); }
    c.op("upload 5 0");
    for _ in 0..r.range(3, 24) {
        let n = *r.pick(&ns);
        match r.weighted(&[20, 16, 8, 10, 22, 24, 3, 3, 6, 3, 4, 4]) {
            0 => c.op(format!("set {} {} {} {}", n.0, n.1, rand_in(r, n), r.range(-100, 100))),
            1 => c.op(format!("mod {} {} {} {} {}", n.0, n.1, rand_in(r, n), r.range(-100, 100), r.range(-100, 100))),
            2 => c.op(format!("atom {} {} {}", n.0, n.1, r.below(2))),
            3 => link(c, r, &ns),
            4 => { let n = if r.chance(1, 2) { (OUT, 0) } else { n }; c.op(format!("upload {} {}", n.0, n.1)) }
            5 => { let n = if r.chance(1, 2) { (OUT, 0) } else { n }; c.op(format!("update {} {}", n.0, n.1)) }
            6 => c.op("clear"),
            7 => { c.op("fresh"); for _ in 0..r.below(4) { link(c, r, &ns); } }
            8 => c.op(format!("sleep {}", *r.pick(&[10, 300, 4000]))),
            9 => c.op(format!("stall {}", r.range(1000, 30000))),
            10 => { let n = rand_nid(r); if !ns.contains(&n) { ns.insert(0, n); } }
            _ => {
                // two nodes swap their order
                if ns.len() < 4 { continue; }
                let k = 1 + r.below(ns.len() - 3);
                let (z, a, b) = (ns[r.below(k)], ns[k], ns[k + 1]);
                if NIN[a.0 as usize] == 0 || NIN[b.0 as usize] == 0 || [z, a, b].iter().any(|n| NOUT[n.0 as usize] == 0) { continue; }
                let (i, j) = (rand_in(r, b), rand_in(r, a));
                c.op(format!("in {} {} {} {} {} 0", b.0, b.1, i, a.0, a.1));
                c.op(format!("upload {} {}", b.0, b.1));
                c.op(format!("in {} {} {} {} {} 0", b.0, b.1, i, z.0, z.1));
                c.op(format!("in {} {} {} {} {} 0", a.0, a.1, j, b.0, b.1));
                c.op(format!("{} {} {}", if r.chance(1, 2) { "upload" } else { "update" }, a.0, a.1));
                ns.swap(k, k + 1);
            }
        }
    }
    c.op("update 5 0");
}
fn legal(k: Nid, i: u8, x: f32) -> f32 { if matches!((k.0, i), (AMP, 1) | (MIX, 3..) | (INP, 0) | (OUT, 2)) { x.abs() * 0.9 } else { x } }

fn run(c: &Case) {
    host_init();
    ST.init(St { extra: true, ..Default::default() });
    let mut sc = SynthConstructor::new();
    let mut exec = sc.executor().unwrap_or_else(|| rt::fail("synth", "no executor".to_string()));
    if sc.executor().is_some() { rt::fail("synth", "a second executor was handed out".to_string()); }
    exec.no_logging();
    HOST.with(|h| { h.keep = false; h.on_exec = Some(Box::new(on_exec)); });
    let dyns = |sc: &SynthConstructor| for k in 0..NR as u8 { sc.set_dynamic_node1x1(k as usize, dyn_node(k)); };
    dyns(&sc);
    let mut p = Pool::new();
    let mut md = Sc::new();
    version(0, Some(md.snap()));
    let sr = c.c("sr").max(8000) as f32;
    let mut held = Some(exec);
    let mut audio = None;
    let cfg = || AudioCfg { sr, min: c.c("bmin").max(1) as usize, max: c.c("bmax").max(1) as usize, seed: c.seed ^ 5, sleep: true };
    if c.c("pre") == 0 { audio = Some(spawn_audio(held.take().unwrap(), cfg())); wait_blocks(1); }
    let mut poisoned = false;
    let node = |t: &mut Tok| -> Nid { let k = t.u() as u8 % 6; (k, t.u() as u8 % if k == OUT { 1 } else if k == INP { 2 } else { 8 }) };
    for o in &c.ops {
        let mut t = Tok::new(o);
        match t.s() {
            "set" => { let n = node(&mut t); let i = t.u() as u8 % NIN[n.0 as usize] as u8; let d = pid(n, i).denorm(legal(n, i, t.f() / 100.0)); p.with(n, |h| h.set(i, d)); p.ops.get_mut(&n).unwrap().push(MOp::Set(i, pid(n, i).norm(d), None)); }
            "mod" => { let n = node(&mut t); let i = t.u() as u8 % NIN[n.0 as usize] as u8; let d = pid(n, i).denorm(legal(n, i, t.f() / 100.0)); let a = t.f() / 100.0; p.with(n, |h| h.set_mod(i, d, a)); p.ops.get_mut(&n).unwrap().push(MOp::Set(i, pid(n, i).norm(d), Some(a))); }
            "atom" => { let n = node(&mut t); let x = t.i() & 1; if ATOM[n.0 as usize].is_some() { p.with(n, |h| h.atom(x)); p.ops.get_mut(&n).unwrap().push(MOp::Atom(x)); } }
            "in" => {
                let (n, i) = (node(&mut t), t.u() as u8); let i = i % NIN[n.0 as usize] as u8;
                let (f, o) = (node(&mut t), t.u() as u8);
                if NOUT[f.0 as usize] == 0 { continue; }
                let o = o % NOUT[f.0 as usize] as u8;
                p.with(f, |h| h);
                let port = p.h[&f].port(o).unwrap();
                p.with(n, |h| h.input(i, &*port));
                p.ops.get_mut(&n).unwrap().push(MOp::Input(i, f, o));
            }
            w @ ("upload" | "update") => {
                if poisoned { continue; }
                let n = node(&mut t);
                p.with(n, |h| h);
                let (e0, k0) = (md.edges.clone(), md.known.clone());
                let need = md.walk(&p, n) || w == "upload";
                let es = md.elist();
                let cyc = Sc::order(&md.known, &es).is_none();
                version(ops_done() + 1, None);
                let hd = p.h[&n].clone();
                let r = op(w, || if w == "upload" { sc.upload(hd.b()).map(|_| true) } else { sc.update_params(hd.b()) });
                if cyc && need {
                    // refused, what was played before goes on (its parameters may have changed)
                    if r.is_ok() { rt::fail("synth", format!("{} of a graph with a cycle returned {:?}", w, r)); }
                    if w == "upload" { rt::count("probe_cycle", 1); }
                    md.edges = e0; md.known = k0;
                    poisoned = true;
                    continue;
                }
                match r {
                    Err(e) => rt::fail("synth", format!("{} of a valid graph failed: {:?}", w, e)),
                    Ok(b) => {
                        if need && !b { rt::fail("synth", "the description needs a new graph, but update_params did not upload it".to_string()); }
                        if b || w == "upload" { md.played = Some(es); md.pnodes = md.known.clone(); rt::count("probe_uploaded", 1); } else { rt::count("probe_params_only", 1); }
                    }
                }
                dyns(&sc);
                if audio.is_some() { wait_frames((sr * 0.010) as u64 + 2 * 128 + 40); }
                version(ops_done() + 1, Some(md.snap()));
                op("settled", || ());
                rt::state(md.pnodes.len() as u64 * 100 + md.edges.len() as u64);
                if audio.is_none() { audio = Some(spawn_audio(held.take().unwrap(), cfg())); wait_blocks(2); }
            }
            "clear" => {
                md = Sc::new();
                version(ops_done() + 1, None);
                op("clear", || sc.clear());
                dyns(&sc);
                p = Pool::new();
                poisoned = false;
                version(ops_done() + 1, Some(md.snap()));
                op("cleared", || ());
                rt::count("op_clear", 1);
            }
            // the same nodes are described anew
            "fresh" => { p = Pool::new(); if poisoned { md = Sc::new(); version(ops_done() + 1, None); op("clear", || sc.clear()); dyns(&sc); version(ops_done() + 1, Some(md.snap())); op("cleared", || ()); poisoned = false; } }
            "sleep" => rt::sleep_us(t.u() as u64),
            "stall" => { let ns = t.u() as u64 * 1000; HOST.with(|h| h.cmds.push(Cmd::Stall(ns))); }
            _ => {}
        }
    }
    if audio.is_none() { audio = Some(spawn_audio(held.take().unwrap(), cfg())); }
    op("poll", || sc.poll());
    wait_frames(300);
    let before = ST.with(|s| s.compared);
    wait_frames(300);
    if !poisoned && ST.with(|s| s.compared) == before { rt::fail("stuck", "no block after the last change was executed".to_string()); }
    audio.unwrap().stop();
}
