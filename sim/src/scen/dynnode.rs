//! P16: a Rust1x1 node runs the dynamic node that was set last.
use super::patch;
use super::world::*;
use crate::case::{Case, Tok};
use crate::rng::Rng;
use crate::rt;
use crate::runner::PropDef;
use hexodsp::matrix::{Cell, Matrix};
use hexodsp::matrix_repr::MatrixRepr;
use hexodsp::nodes::NodeExecutor;
use hexodsp::*;

pub const P16: PropDef = PropDef {
    id: "P16", gen, run, quick: 10000, thorough: 500000,
    rule: "one evaluation = one block of one Rust1x1 node compared sample by sample with what the dynamic node that has to run there computes; a run is distinct by (state history hash, interleaving hash)",
    real: super::REAL_ENGINE, stub: super::STUB_ENGINE,
    assumptions: &["a dynamic node that is set while there is no Rust1x1 node is only kept for the first one (documented)"],
};
const K: usize = 3;
struct Ver { start: usize, end: usize, tag: u32, fresh: bool }
#[derive(Default)]
struct Inst { vers: Vec<Ver>, at: usize, count: u64, last: usize, blk: usize }
#[derive(Default)]
struct St { inst: [Inst; K], audio: i32, made: usize, dropped: usize, nodes: usize }
static ST: Shared<St> = Shared::new();

/// A dynamic node with state, whose output tells everything about it.
struct Dyn { tag: u32, sr: f32, count: u64 }
impl Dyn { fn new(tag: u32) -> Box<Dyn> { ST.with(|s| s.made += 1); Box::new(Dyn { tag, sr: 0.0, count: 0 }) } }
fn sample(tag: u32, count: u64, sr: f32, i: [f32; 5]) -> f32 { tag as f32 + (count % 5) as f32 * 0.125 + sr * 1e-6 + i[0] * 0.1 + i[1] * 0.05 + i[2] * 0.025 + i[3] * 0.0125 + i[4] * 0.00625 }
impl DynamicNode1x1 for Dyn {
    fn set_sample_rate(&mut self, sr: f32) { self.sr = sr; self.count = 0; }
    fn reset(&mut self) { self.count = 0; }
    fn process(&mut self, inp: &[f32], out: &mut [f32], ctx: &DynNode1x1Context) {
        let (a, b, g, d) = (ctx.alpha_slice(), ctx.beta_slice(), ctx.gamma_slice(), ctx.delta_slice());
        if [out.len(), a.len(), b.len(), g.len(), d.len()].iter().any(|l| *l != inp.len()) { rt::fail("slices", format!("the slices of the dynamic node have different lengths: {:?}", [inp.len(), out.len(), a.len(), b.len(), g.len(), d.len()])); }
        for i in 0..inp.len() { out[i] = sample(self.tag, self.count, self.sr, [inp[i], a[i], b[i], d[i], g[i]]); self.count += 1; }
        ctx.led_value().set(self.tag as f32);
        ctx.phase_value().set((self.count % 1000) as f32);
    }
}
impl Drop for Dyn {
    fn drop(&mut self) {
        ST.with(|s| { s.dropped += 1; if s.audio != 0 && rt::me() == s.audio { rt::fail("drop", format!("dynamic node {} is dropped in the audio thread", self.tag)); } });
    }
}

fn gen(c: &mut Case, r: &mut Rng) {
    let (a, b) = *r.pick(&[(128, 128), (1, 128), (64, 64), (1, 7), (1, 1), (127, 127)]);
    c.set("bmin", a); c.set("bmax", b);
    c.set("sr", *r.pick(&[44100, 48000, 96000, 22050, 8000]));
    if r.chance(1, 2) { c.op(format!("set {}", r.below(K))); }
    c.op(format!("node {} {}", r.below(K), r.u64() % 100000));
    for _ in 0..r.range(3, 24) {
        let (k, s) = (r.below(K), r.u64() % 100000);
        match r.below(14) {
            0..=3 => { for _ in 0..r.range(1, 4) { c.op(format!("set {}", k)); if r.chance(1, 2) { c.op(format!("wait {}", r.range(1, 300))); } } }
            4 | 5 => c.op(format!("node {} {}", k, s)),
            6 => c.op(format!("del {}", s)),
            7 => c.op(format!("srate {}", *r.pick(&[44100, 48000, 96000, 192000, 22050]))),
            8 => { let (a, b) = *r.pick(&[(128, 128), (1, 128), (1, 1), (16, 40)]); c.op(format!("mode {} {}", a, b)); }
            9 => match r.below(3) { 0 => c.op("clear"), 1 => c.op("reload"), _ => c.op(format!("stall {}", r.range(1000, 200000))) },
            10 => c.op(format!("other {}", s)),
            11 => c.op(format!("param {} {} {}", k, r.below(5), r.range(-100, 100))),
            12 => c.op(format!("led {}", k)),
            _ => c.op(format!("wait {}", r.range(1, 600))),
        }
    }
    for k in 0..K { c.op(format!("led {}", k)); }
}

fn on_exec(exec: &mut NodeExecutor, b: &Blk) {
    ST.with(|st| {
        st.audio = rt::me();
        let p = exec.get_prog();
        for o in p.prog.iter() {
            let NodeId::Rust1x1(k) = o.node.id() else { continue };
            let Some(ins) = st.inst.get_mut(k as usize) else { continue };
            let inp: Vec<&[f32]> = (0..5).map(|i| p.cur_inp[o.in_idxlen.0 + i].slice(b.n)).collect();
            let got = p.out[o.out_idxlen.0].slice(b.n);
            let lo = ins.vers.iter().rposition(|v| v.end <= b.done).unwrap_or(0).max(ins.at);
            let hi = ins.vers.iter().rposition(|v| v.start <= b.started_after).unwrap_or(0);
            rt::count("checks", 1);
            let mut why = String::new();
            let mut found = None;
            for v in lo..=hi.max(lo) {
                let tag = ins.vers[v].tag;
                // state is kept while the dynamic node stays, and starts again with a new sample rate
                let counts: &[u64] = if v == ins.at { &[ins.count, 0] } else { &[0] };
                for &c in counts {
                    let bad = (0..b.n).find(|&i| got[i] != if tag == 0 { 0.0 } else { sample(tag, c + i as u64, b.sr, [0, 1, 2, 3, 4].map(|j| inp[j][i])) });
                    match bad {
                        None => { found = Some((v, if tag == 0 { 0 } else { c + b.n as u64 })); break; }
                        Some(i) => why = format!("frame {}: {} instead of {}", i, got[i], sample(tag, c + i as u64, b.sr, [0, 1, 2, 3, 4].map(|j| inp[j][i]))),
                    }
                }
                if found.is_some() { break; }
            }
            let Some((v, c)) = found else { rt::fail("dynnode", format!("Rust1x1 {} does not run one of the dynamic nodes {:?} at {} Hz: {}", k, &ins.vers[lo..=hi.max(lo)].iter().map(|v| v.tag).collect::<Vec<_>>(), b.sr, why)) };
            // a restart of the state needs a reason
            if v == ins.at && c == b.n as u64 && ins.count % 5 != 0 && ins.blk == b.sr_gen && ins.last + 1 == b.no && ins.vers[v].tag != 0 { rt::fail("state", format!("dynamic node {} of Rust1x1 {} lost its state", ins.vers[v].tag, k)); }
            ins.at = v; ins.count = c; ins.last = b.no; ins.blk = b.sr_gen;
            if ins.vers[v].tag != 0 { rt::count("probe_dyn", 1); }
            rt::state(k as u64 * 1009 + ins.vers[v].tag as u64 * 31 + c % 64);
        }
    })
}
const W: usize = 4;
const H: usize = 5;
fn put(m: &mut Matrix, x: usize, y: usize, c: Cell) { if x < W && y < H { let _ = m.change_matrix(|m| m.place(x, y, c)); } }
/// Nodes that do not exist yet get what was set before, once.
fn begin(m: &Matrix, made: &mut [bool; K], ever: &mut [bool; K]) {
    let mut present = [false; K];
    m.for_each(|_, _, c| if let NodeId::Rust1x1(i) = c.node_id() { for j in 0..K.min(i as usize + 1) { present[j] = true; } });
    for k in 0..K { if present[k] && !made[k] {
        made[k] = true;
        if ever[k] { let n = HOST.with(|h| h.ops_started); ST.with(|s| s.inst[k].vers.push(Ver { start: n, end: usize::MAX, tag: 0, fresh: true })); }
        ever[k] = true;
    } }
}
fn end() { let n = ops_done(); ST.with(|s| for i in s.inst.iter_mut() { for v in i.vers.iter_mut() { if v.end == usize::MAX { v.end = n; } } }); }
fn run(c: &Case) {
    host_init();
    let (conf, mut exec) = new_node_engine();
    exec.no_logging();
    let mut m = Matrix::new(conf, W, H);
    ST.init(St::default());
    ST.with(|s| for i in s.inst.iter_mut() { i.vers.push(Ver { start: 0, end: 0, tag: 0, fresh: true }); });
    HOST.with(|h| { h.keep = false; h.on_exec = Some(Box::new(on_exec)); });
    let audio = spawn_audio(exec, AudioCfg { sr: c.c("sr").max(8000) as f32, min: c.c("bmin").max(1) as usize, max: c.c("bmax").max(1) as usize, seed: c.seed ^ 5, sleep: true });
    let (mut made, mut ever, mut tag) = ([false; K], [false; K], 0u32);
    for o in &c.ops {
        let mut t = Tok::new(o);
        let w = t.s();
        match w {
            "set" => {
                let k = t.u() % K;
                tag += 1;
                let n = HOST.with(|h| h.ops_started) + 1;
                let d = Dyn::new(tag);
                // (after the first node is gone it reaches nobody but the old node)
                let v = ST.with(|s| { let v = &mut s.inst[k].vers; v.push(Ver { start: n, end: usize::MAX, tag, fresh: false }); v.len() - 1 });
                op("set", || m.set_dynamic_node1x1(k, d));
                ST.with(|s| s.inst[k].vers[v].end = n);
            }
            "node" => {
                let (k, mut r) = (t.u() % K, Rng::new(t.u() as u64));
                op("node", || {
                    let id = NodeId::Rust1x1(k as u8);
                    let (x, y) = (r.below(W), 1 + r.below(H - 1));
                    let ins = ["inp", "alpha", "beta", "delta", "gamma"];
                    let (a, b, d) = (*r.pick(&ins), *r.pick(&ins), *r.pick(&ins));
                    put(&mut m, x, y, Cell::empty(id).input(id.inp(a), id.inp(b), id.inp(d)).out(None, None, if r.chance(1, 2) { id.out("sig") } else { None }));
                    let s = *r.pick(&[NodeId::Inp(0), NodeId::Sin(0), NodeId::Sin(1)]);
                    if r.chance(3, 4) && m.get(x, y - 1).map_or(false, |c| c.is_empty()) { put(&mut m, x, y - 1, Cell::empty(s).out(None, None, Some(0))); }
                    if x > 0 && r.chance(1, 2) { let yy = if x % 2 == 0 { y - 1 } else { y }; if m.get(x - 1, yy).map_or(false, |c| c.is_empty()) { put(&mut m, x - 1, yy, Cell::empty(s).out(Some(0), Some(0), None)); } }
                    begin(&m, &mut made, &mut ever);
                    let _ = m.sync();
                });
                end();
            }
            "del" => { let mut r = Rng::new(t.u() as u64); op("del", || {
                let mut v = vec![]; m.for_each(|x, y, c| if !c.is_empty() { v.push((x, y)) });
                if !v.is_empty() { let (x, y) = *r.pick(&v); put(&mut m, x, y, Cell::empty(NodeId::Nop)); let _ = m.sync(); }
            }); }
            "other" => { let mut r = Rng::new(t.u() as u64); op("other", || { let n = patch::node(*r.pick(&["sin", "amp", "noise"]), r.below(3) as u8); let c = patch::rand_cell(&mut r, n); let (x, y) = (r.below(W), r.below(H)); if m.get(x, y).map_or(false, |c| c.is_empty()) { put(&mut m, x, y, c); } let _ = m.sync(); }); }
            "clear" => { op("clear", || m.clear()); made = [false; K]; rt::count("op_clear", 1); }
            "reload" => {
                op("reload", || {
                    let mut repr = m.to_repr();
                    let s = repr.serialize().to_string();
                    let repr = MatrixRepr::deserialize(&s).unwrap_or_else(|e| rt::fail("reload", format!("{:?}", e)));
                    made = [false; K];
                    begin(&m, &mut made, &mut ever);
                    let _ = m.from_repr(&repr);
                });
                end();
                rt::count("op_reload", 1);
            }
            "param" => { let (k, i, v) = (t.u() % K, t.u(), t.f()); op("param", || if let Some(p) = NodeId::Rust1x1(k as u8).inp_param_by_idx(i) { m.set_param(p, SAtom::param(v / 100.0)); }); }
            "srate" => { let s = t.u() as f32; HOST.with(|h| h.cmds.push(Cmd::SampleRate(s))); rt::count("fault_rate_change", 1); }
            "mode" => { let (a, b) = (t.u().max(1), t.u().max(1)); HOST.with(|h| h.cmds.push(Cmd::Mode(a, b))); }
            "stall" => { let ns = t.u() as u64 * 1000; HOST.with(|h| h.cmds.push(Cmd::Stall(ns))); rt::count("fault_audio_stall", 1); }
            "led" => {
                let k = t.u() % K;
                wait_blocks(3);
                // the last block is recent: the node is in the graph
                let (tag, last) = ST.with(|s| { let i = &s.inst[k]; (i.vers[i.at].tag, i.last) });
                let now = HOST.with(|h| h.nblocks);
                if made[k] && last > 0 && last + 1 >= now && tag != 0 {
                    let v = op("led", || m.led_value_for(&NodeId::Rust1x1(k as u8)));
                    rt::count("checks", 1);
                    if v != tag as f32 { rt::fail("led", format!("the LED of Rust1x1 {} shows {}, the dynamic node sets it to {}", k, v, tag)); }
                }
            }
            "wait" => wait_frames(t.u() as u64),
            _ => {}
        }
    }
    let exec = audio.stop();
    ST.with(|s| s.audio = 0);
    drop(m); drop(exec);
    let mut g = 0;
    while ST.with(|s| s.made != s.dropped) { rt::sleep_us(1000); g += 1; if g > 5000 { let (a, b) = ST.with(|s| (s.made, s.dropped)); rt::fail("leak", format!("{} of {} dynamic nodes were dropped 5 s after the engine", b, a)); } }
}
