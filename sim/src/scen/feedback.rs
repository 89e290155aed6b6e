//! P14: FbRd plays what FbWr got 3.14 ms ago.
use super::patch;
use super::world::*;
use crate::case::{Case, Tok};
use crate::rng::Rng;
use crate::rt;
use crate::runner::PropDef;
use hexodsp::matrix::{Cell, Matrix};
use hexodsp::nodes::NodeExecutor;
use hexodsp::*;
use std::collections::BTreeMap;

pub const P14: PropDef = PropDef {
    id: "P14", gen, run, quick: 10000, thorough: 500000,
    rule: "one evaluation = one block of one FbRd compared sample by sample with the recorded input of its FbWr; a run is distinct by (state history hash, interleaving hash)",
    real: super::REAL_ENGINE, stub: super::STUB_ENGINE,
    assumptions: &["the delay in frames is 3.14 ms rounded down or up, and at least the maximum block size", "sample rates up to 192 kHz"],
};
const K: usize = 3;
struct St { rec: [BTreeMap<u64, f32>; K], ids: [u8; K], clearing: bool }
static ST: Shared<St> = Shared::new();

fn gen(c: &mut Case, r: &mut Rng) {
    let (a, b) = *r.pick(&[(128, 128), (1, 128), (64, 64), (1, 7), (100, 128), (127, 127)]);
    c.set("bmin", a); c.set("bmax", b);
    c.set("sr", *r.pick(&[44100, 48000, 96000, 192000, 384000, 22050, 8000]));
    for i in 0..K { c.set(&format!("id{}", i), *r.pick(&[0, 1, 2, 3, 4, 5, 8, 16, 32, 64, 100, 128, 200, 255])); }
    c.op(format!("{} 0 {}", if r.chance(1, 2) { "pair" } else { "loop" }, r.u64() % 100000));
    for _ in 0..r.range(2, 16) {
        let (k, s) = (r.below(K), r.u64() % 100000);
        match r.below(12) {
            0 => c.op(format!("wr {} {}", k, s)),
            1 => c.op(format!("rd {} {}", k, s)),
            2 => c.op(format!("pair {} {}", k, s)),
            3 => c.op(format!("loop {} {}", k, s)),
            4 | 5 => c.op(format!("del {}", s)),
            6 => c.op(format!("srate {}", *r.pick(&[44100, 48000, 96000, 192000, 384000, 22050, 88200]))),
            7 => { let (a, b) = *r.pick(&[(128, 128), (1, 128), (1, 1), (16, 40)]); c.op(format!("mode {} {}", a, b)); }
            8 => if r.chance(1, 2) { c.op("clear") } else { c.op(format!("stall {}", r.range(1000, 200000))) },
            9 => c.op(format!("other {}", s)),
            10 => c.op(format!("shift {}", s)),
            _ => c.op(format!("wait {}", r.range(1, 600))),
        }
    }
    c.op("wait 400");
}

fn on_exec(exec: &mut NodeExecutor, b: &Blk) {
    ST.with(|st| {
        let p = exec.get_prog();
        if st.clearing && p.prog.is_empty() { for m in st.rec.iter_mut() { m.clear(); } return; }
        for o in p.prog.iter() {
            if let NodeId::FbWr(k) = o.node.id() {
                let buf = p.cur_inp[o.in_idxlen.0].slice(b.n);
                let Some(i) = st.ids.iter().position(|i| *i == k) else { continue };
                let m = &mut st.rec[i];
                for (i, v) in buf.iter().enumerate() { m.insert(b.frame0 + i as u64, *v); }
                while m.len() > 3000 { m.pop_first(); }
            }
        }
        let d = b.sr as f64 * 3.14 / 1000.0;
        let ds = [(d.floor() as u64).max(128), (d.ceil() as u64).max(128)];
        for o in p.prog.iter() {
            if let NodeId::FbRd(k) = o.node.id() {
                let got = p.out[o.out_idxlen.0].slice(b.n);
                let Some(i) = st.ids.iter().position(|i| *i == k) else { continue };
                let m = &st.rec[i];
                let want = |d: u64, i: usize| (b.frame0 + i as u64).checked_sub(d).and_then(|t| m.get(&t).copied()).unwrap_or(0.0);
                let bad = |d: u64| (0..b.n).find(|i| (got[*i] - want(d, *i)).abs() > 1e-5 * (1.0 + got[*i].abs()));
                rt::count("checks", 1);
                if let (Some(i), Some(_)) = (bad(ds[0]), bad(ds[1])) {
                    rt::fail("feedback", format!("FbRd {} plays {} instead of {}, what FbWr {} got {} frames (3.14 ms at {} Hz) before frame {}", k, got[i], want(ds[0], i), k, ds[0], b.sr, b.frame0 + i as u64));
                }
                if got.iter().any(|x| *x != 0.0) { rt::count("probe_moving", 1); }
                rt::state(ds[0] * 7 + (got[0] != 0.0) as u64);
            }
        }
    })
}
const W: usize = 4;
const H: usize = 6;
fn put(m: &mut Matrix, x: usize, y: usize, c: Cell) { if x < W && y < H { let _ = m.change_matrix(|m| m.place(x, y, c)); } }
fn run(c: &Case) {
    host_init();
    let (conf, mut exec) = new_node_engine();
    exec.no_logging();
    let mut m = Matrix::new(conf, W, H);
    let mut ids = [0, 1, 2];
    for i in 0..K { let v = c.c(&format!("id{}", i)) as u8; if !ids.contains(&v) { ids[i] = v; } }
    ST.init(St { ids, rec: Default::default(), clearing: false });
    HOST.with(|h| { h.keep = false; h.on_exec = Some(Box::new(on_exec)); });
    let audio = spawn_audio(exec, AudioCfg { sr: c.c("sr").max(8000) as f32, min: c.c("bmin").max(1) as usize, max: c.c("bmax").max(1) as usize, seed: c.seed ^ 5, sleep: true });
    let inp = NodeId::Inp(0);
    for o in &c.ops {
        let mut t = Tok::new(o);
        let w = t.s();
        match w {
            "wr" | "rd" | "pair" | "loop" => {
                let (k, mut r) = (t.u() % K, Rng::new(t.u() as u64));
                let (wr, rd) = (NodeId::FbWr(ids[k]), NodeId::FbRd(ids[k]));
                op(w, || {
                    let (x, y) = (r.below(W), r.below(H - 1));
                    if w == "wr" || w == "pair" {
                        put(&mut m, x, y, Cell::empty(inp).out(None, None, Some(r.below(2) as u8)));
                        put(&mut m, x, y + 1, Cell::empty(wr).input(Some(0), None, None));
                    }
                    let (x, y) = if w == "pair" { (r.below(W), r.below(H - 1)) } else { (x, y) };
                    if w == "rd" || w == "pair" { put(&mut m, x, y, Cell::empty(rd).out(None, None, Some(0))); }
                    if w == "loop" {
                        // inp + 0.5 * feedback
                        let mix = NodeId::Mix3(k as u8);
                        let (x, y) = (r.below(W - 1), r.below(H - 3));
                        put(&mut m, x, y, Cell::empty(rd).out(None, None, Some(0)));
                        put(&mut m, x, y + 1, Cell::empty(mix).input(mix.inp("ch1"), mix.inp("ch2"), mix.inp("ch3")).out(None, None, Some(0)));
                        put(&mut m, x, y + 2, Cell::empty(wr).input(Some(0), None, None));
                        if x > 0 { put(&mut m, x - 1, y + 1 - (x % 2).min(1), Cell::empty(inp).out(Some(0), Some(0), None)); }
                        let p = mix.inp_param("vol1").unwrap(); m.set_param(p, SAtom::param(0.5));
                    }
                    let _ = m.sync();
                });
            }
            "del" => { let mut r = Rng::new(t.u() as u64); op("del", || {
                let mut v = vec![]; m.for_each(|x, y, c| if !c.is_empty() { v.push((x, y)) });
                if !v.is_empty() { let (x, y) = *r.pick(&v); put(&mut m, x, y, Cell::empty(NodeId::Nop)); let _ = m.sync(); }
            }); }
            // nodes that change the order and the indices of the others
            "other" => { let mut r = Rng::new(t.u() as u64); op("other", || { let n = patch::node(*r.pick(&["sin", "amp", "mix3", "noise"]), r.below(3) as u8); let c = patch::rand_cell(&mut r, n); put(&mut m, r.below(W), r.below(H), c); let _ = m.sync(); }); }
            "shift" => { let mut r = Rng::new(t.u() as u64); op("shift", || { let (x, y) = (r.below(W), r.below(H)); let _ = m.change_matrix(|m| { if let Some(c) = m.get_copy(x, y) { m.place(r.below(W), r.below(H), c); } }); let _ = m.sync(); }); }
            "srate" => { let s = t.u() as f32; HOST.with(|h| h.cmds.push(Cmd::SampleRate(s))); rt::count("fault_rate_change", 1); }
            "mode" => { let (a, b) = (t.u().max(1), t.u().max(1)); HOST.with(|h| h.cmds.push(Cmd::Mode(a, b))); }
            "stall" => { let ns = t.u() as u64 * 1000; HOST.with(|h| h.cmds.push(Cmd::Stall(ns))); }
            "clear" => { ST.with(|s| s.clearing = true); op("clear", || m.clear()); wait_blocks(3); ST.with(|s| s.clearing = false); rt::count("op_clear", 1); }
            "wait" => wait_frames(t.u() as u64),
            _ => {}
        }
    }
    audio.stop();
}
