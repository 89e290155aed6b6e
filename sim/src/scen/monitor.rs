//! P17: the signal monitor shows the minima and maxima of what the monitored cell really computes.
use super::patch;
use super::world::*;
use crate::case::{Case, Tok};
use crate::rng::Rng;
use crate::rt;
use crate::runner::PropDef;
use hexodsp::matrix::{Cell, Matrix};
use hexodsp::monitor::MON_SIG_CNT;
use hexodsp::nodes::NodeExecutor;
use hexodsp::*;

pub const P17: PropDef = PropDef {
    id: "P17", gen, run, quick: 2500, thorough: 120000,
    rule: "one evaluation = one monitored signal whose entries are compared with the minima and maxima of the recorded signal; a run is distinct by (state history hash, interleaving hash)",
    real: super::REAL_ENGINE, stub: super::STUB_ENGINE,
    assumptions: &["one entry covers 900 samples (3 s at 48 kHz in 160 entries)", "an entry is at most 35 ms older than the newest complete stretch (the monitor thread sleeps 10 ms), blocks have at least 32 frames"],
};
const WIN: usize = 900;
/// What is monitored: since when, and what was recorded.
#[derive(Default)]
struct Sess { op: usize, next: usize, target: Option<Cell>, known: bool, dirty: bool, rec: [Vec<f32>; MON_SIG_CNT], frames: usize, in_prog: bool }
#[derive(Default)]
struct St { s: Sess, gap: bool }
static ST: Shared<St> = Shared::new();
const W: usize = 4;
const H: usize = 4;

fn gen(c: &mut Case, r: &mut Rng) {
    let (a, b) = *r.pick(&[(128, 128), (128, 128), (64, 64), (32, 128), (100, 127)]);
    c.set("bmin", a); c.set("bmax", b);
    c.set("sr", *r.pick(&[44100, 48000, 96000]));
    if r.chance(1, 4) { c.op(format!("mon {} {}", r.below(W), r.below(H))); }
    for _ in 0..r.range(1, 5) { c.op(format!("cell {}", r.u64() % 100000)); }
    c.op(format!("pick {}", r.u64() % 100000));
    for _ in 0..r.range(2, 12) {
        let s = r.u64() % 100000;
        match r.below(16) {
            0 | 1 => c.op(format!("cell {}", s)),
            2 => c.op(format!("edit {}", s)),
            3 => c.op(format!("del {}", s)),
            4 | 5 => c.op(format!("pick {}", s)),
            6 => c.op(format!("mon {} {}", r.below(W), r.below(H))),
            7 => match r.below(4) { 0 => c.op("none"), 1 => c.op("clear"), 2 => c.op(format!("reload {}", s)), _ => c.op(format!("odd {}", s)) },
            8 => c.op(format!("param {}", s)),
            9 => c.op(format!("srate {}", *r.pick(&[44100, 48000, 96000]))),
            10 => c.op(format!("stall {}", r.range(1000, 300000))),
            11 => c.op(format!("mstall {}", *r.pick(&[20000, 60000, 2000000, 5000000]))),
            12 => { let (a, b) = *r.pick(&[(128, 128), (32, 32), (32, 128), (33, 33)]); c.op(format!("mode {} {}", a, b)); }
            13 => c.op(format!("fast {}", r.range(1, 20))),
            14 => c.op(format!("wait {}", r.range(1, 3000))),
            _ => c.op("look"),
        }
        if r.chance(1, 2) { c.op("look"); }
    }
    c.op("look");
}

fn on_exec(exec: &mut NodeExecutor, b: &Blk) {
    ST.with(|st| {
        let gap = st.gap;
        let s = &mut st.s;
        if b.done < s.op || b.started >= s.next { return; }
        s.frames += b.n;
        if gap { s.dirty = true; }
        let Some(t) = s.target else { return };
        let p = exec.get_prog();
        let Some(o) = p.prog.iter().find(|o| o.node.id() == t.node_id()) else { s.in_prog = false; return };
        let (ins, outs) = ports(&t);
        for i in 0..3 {
            if let Some(k) = ins[i] { let k = o.in_idxlen.0 + k as usize; if k < o.in_idxlen.1 { s.rec[i].extend_from_slice(p.cur_inp[k].slice(b.n)); } }
            if let Some(k) = outs[i] { let k = o.out_idxlen.0 + k as usize; if k < o.out_idxlen.1 { s.rec[3 + i].extend_from_slice(p.out[k].slice(b.n)); } }
        }
        rt::count("frames_recorded", b.n as u64);
    })
}
fn ports(c: &Cell) -> ([Option<u8>; 3], [Option<u8>; 3]) {
    use CellDir::*;
    ([c.local_port_idx(T), c.local_port_idx(TL), c.local_port_idx(BL)], [c.local_port_idx(TR), c.local_port_idx(BR), c.local_port_idx(B)])
}
/// Minimum and maximum of the WIN samples before every position.
fn windows(s: &[f32]) -> Vec<(f32, f32)> {
    use std::collections::VecDeque;
    let (mut lo, mut hi): (VecDeque<usize>, VecDeque<usize>) = Default::default();
    let mut out = Vec::with_capacity(s.len());
    for i in 0..s.len() {
        while lo.back().map_or(false, |j| s[*j] >= s[i]) { lo.pop_back(); }
        while hi.back().map_or(false, |j| s[*j] <= s[i]) { hi.pop_back(); }
        lo.push_back(i); hi.push_back(i);
        if lo[0] + WIN <= i { lo.pop_front(); }
        if hi[0] + WIN <= i { hi.pop_front(); }
        out.push((s[lo[0]], s[hi[0]]));
    }
    out
}
fn begin() { let n = HOST.with(|h| h.ops_started); ST.with(|s| { s.s = Sess { op: usize::MAX, next: n, ..Default::default() } }); }
fn session(target: Option<Cell>, known: bool) {
    let n = ops_done();
    ST.with(|s| s.s = Sess { op: n, next: usize::MAX, target, known, in_prog: true, ..Default::default() });
}
fn read(m: &mut Matrix, i: usize) -> Vec<(f32, f32)> { let s = m.get_minmax_monitor_samples(i); (0..s.len()).map(|k| *s.at(k)).collect() }

fn run(c: &Case) {
    host_init();
    let (conf, mut exec) = new_node_engine();
    exec.no_logging();
    let mut m = Matrix::new(conf, W, H);
    ST.init(St::default());
    HOST.with(|h| { h.keep = false; h.on_exec = Some(Box::new(on_exec)); });
    let mut sr = c.c("sr").max(8000) as f64;
    let audio = spawn_audio(exec, AudioCfg { sr: sr as f32, min: c.c("bmin").max(32) as usize, max: c.c("bmax").max(32) as usize, seed: c.seed ^ 5, sleep: true });
    // the monitored position (None: nothing was chosen yet)
    let mut pos: Option<(usize, usize)> = None;
    for o in &c.ops {
        let mut t = Tok::new(o);
        let w = t.s();
        let mut cells: Option<bool> = None;
        match w {
            "cell" => {
                let mut r = Rng::new(t.u() as u64);
                op("cell", || { begin(); rand_place(&mut m, &mut r); });
                cells = Some(true);
            }
            "edit" => { let mut r = Rng::new(t.u() as u64); op("edit", || { begin(); patch::edit(&mut m, &mut r, W, H); let _ = m.sync(); }); cells = Some(true); }
            "del" => {
                let mut r = Rng::new(t.u() as u64);
                op("del", || { begin(); if let Some((x, y)) = some_cell(&m, &mut r) { m.place(x, y, Cell::empty(NodeId::Nop)); } let _ = m.sync(); });
                cells = Some(true);
            }
            "pick" => {
                let mut r = Rng::new(t.u() as u64);
                if let Some((x, y)) = some_cell(&m, &mut r) { let c = m.get_copy(x, y).unwrap(); op("pick", || { begin(); m.monitor_cell(c) }); pos = Some((x, y)); cells = Some(true); }
            }
            "mon" => {
                let (x, y) = (t.u() % W, t.u() % H);
                let c = m.get_copy(x, y).unwrap();
                op("mon", || { begin(); m.monitor_cell(c) });
                pos = Some((x, y)); cells = Some(true);
            }
            "odd" => {
                // a cell with other ports than the one in the matrix: shown until the next edit
                let mut r = Rng::new(t.u() as u64);
                if let Some((x, y)) = some_cell(&m, &mut r) {
                    let at = m.get_copy(x, y).unwrap();
                    let c = patch::rand_cell(&mut r, at.node_id()).with_pos_of(at);
                    op("odd", || { begin(); m.monitor_cell(c) });
                    pos = Some((x, y));
                    session(Some(c), true);
                }
            }
            "none" => { op("none", || { begin(); m.monitor_cell(Cell::empty(NodeId::Nop)) }); pos = None; session(None, true); }
            "clear" => { op("clear", || { begin(); m.clear() }); pos = None; session(None, true); rt::count("op_clear", 1); }
            "reload" => {
                op("reload", || {
                    begin();
                    let mut repr = m.to_repr();
                    let s = repr.serialize().to_string();
                    let repr = MatrixRepr::deserialize(&s).unwrap_or_else(|e| rt::fail("reload", format!("{:?}", e)));
                    let _ = m.from_repr(&repr);
                });
                pos = None; session(None, false);
            }
            "param" => {
                // (does not change what is monitored)
                let mut r = Rng::new(t.u() as u64);
                if let Some((x, y)) = some_cell(&m, &mut r) {
                    let ps = patch::params(m.get_copy(x, y).unwrap().node_id());
                    if !ps.is_empty() { let p = *r.pick(&ps); if !p.is_atom() { let v = patch::rand_value(&mut r, &p); m.set_param(p, v); } }
                }
            }
            "srate" => { sr = t.u() as f64; let s = sr as f32; HOST.with(|h| h.cmds.push(Cmd::SampleRate(s))); rt::count("fault_rate_change", 1); wait_blocks(2); }
            "mode" => { let (a, b) = (t.u().max(32), t.u().max(32)); HOST.with(|h| h.cmds.push(Cmd::Mode(a, b))); }
            "stall" => { let ns = t.u() as u64 * 1000; HOST.with(|h| h.cmds.push(Cmd::Stall(ns))); rt::count("fault_audio_stall", 1); }
            "mstall" => {
                // the monitor thread does not run for a while: entries are late, and some are lost
                let us = t.u() as u64;
                rt::count("fault_monitor_stall", 1);
                ST.with(|s| { s.gap = true; s.s.dirty = true; });
                let audio = HOST.with(|h| h.audio_tid);
                for id in 1..rt::nthreads() { if id != audio { rt::stall(id, us * 1000); } }
                let n = frames();
                while frames() < n + (us as f64 * 1e-6 * sr) as u64 + (0.05 * sr) as u64 { rt::sleep_us(2000); }
                ST.with(|s| { s.gap = false; });
                // from here on a new stretch
                let (tg, k) = ST.with(|s| (s.s.target, s.s.known));
                session(tg, k);
            }
            "fast" => {
                // the monitored cell changes all the time
                for i in 0..t.u() {
                    let mut r = Rng::new(i as u64 ^ c.seed);
                    if let Some((x, y)) = some_cell(&m, &mut r) { let c = m.get_copy(x, y).unwrap(); op("pick", || { begin(); m.monitor_cell(c) }); pos = Some((x, y)); cells = Some(true); rt::sleep_us(r.below(9000) as u64); }
                }
            }
            "look" => look(&mut m, sr),
            "wait" => wait_frames(t.u() as u64),
            _ => {}
        }
        if cells.is_some() {
            match pos { Some((x, y)) => { let c = m.get_copy(x, y).unwrap(); session(if c.is_empty() { None } else { Some(c) }, true); } None => session(None, false) }
        }
    }
    let exec = audio.stop();
    drop(m); drop(exec);
}
use hexodsp::matrix_repr::MatrixRepr;
fn some_cell(m: &Matrix, r: &mut Rng) -> Option<(usize, usize)> {
    let mut v = vec![]; m.for_each(|x, y, c| if !c.is_empty() { v.push((x, y)) });
    if v.is_empty() { None } else { Some(*r.pick(&v)) }
}
/// A node whose signal changes all the time, and something behind it.
fn rand_place(m: &mut Matrix, r: &mut Rng) {
    let (x, y) = (r.below(W), r.below(H - 1));
    let src = patch::node(*r.pick(&["inp", "sin", "noise", "bosc", "sin", "inp", "tslfo", "rndwk"]), r.below(3) as u8);
    let n = if r.chance(2, 3) { patch::node(*r.pick(&["amp", "mix3", "sin", "delay", "sfilter", "allp"]), r.below(3) as u8) } else { patch::rand_node(r) };
    let (c1, c2) = (patch::rand_cell(r, src), patch::rand_cell(r, n));
    let (o, i) = (r.below(patch::n_out(src).max(1)) as u8, r.below(patch::n_in(n).max(1)) as u8);
    let both = r.chance(2, 3);
    let _ = m.change_matrix(|m| {
        if both && patch::n_in(n) > 0 {
            m.place(x, y, c1.out(None, None, Some(o)));
            m.place(x, y + 1, c2.input(Some(i), None, None));
        } else { m.place(x, y + 1, c2); }
    });
    let _ = m.sync();
}
fn look(m: &mut Matrix, sr: f64) {
    let fresh = (0.035 * sr) as usize + 256;
    let need = 2 * WIN + fresh;
    let mut g = 0;
    while ST.with(|s| s.s.frames) < need { rt::sleep_us(3000); g += 1; if g > 100_000 { rt::fail("harness", "no frames"); } }
    let (known, dirty, inp) = ST.with(|s| (s.s.known, s.s.dirty, s.s.in_prog));
    if !known || dirty || !inp { return; }
    let (l0, rec0) = ST.with(|s| (s.s.frames, [0, 1, 2, 3, 4, 5].map(|i: usize| s.s.rec[i].len())));
    // signals that are not monitored add nothing
    let before: Vec<Vec<(f32, f32)>> = (0..MON_SIG_CNT).map(|i| read(m, i)).collect();
    if ST.with(|s| s.s.target.is_none()) || rec0.iter().any(|l| *l == 0) { while ST.with(|s| s.s.frames) < l0 + 1000 + fresh { rt::sleep_us(3000); } }
    let after: Vec<Vec<(f32, f32)>> = (0..MON_SIG_CNT).map(|i| read(m, i)).collect();
    let recs = ST.with(|s| s.s.rec.clone());
    let tg = ST.with(|s| s.s.target);
    let name = tg.map_or("nothing".to_string(), |c| format!("{:?}", c));
    if rec0.iter().all(|l| *l == 0) { rt::count("probe_nothing_monitored", 1); }
    for i in 0..MON_SIG_CNT {
        rt::count("checks", 1);
        if recs[i].is_empty() {
            if let Some(k) = (0..before[i].len()).find(|k| before[i][*k] != after[i][*k] && !(before[i][*k].0.is_nan())) { rt::fail("unmonitored", format!("signal {} gets new entries ({}: {:?} -> {:?}) while {} is monitored", i, k, before[i][k], after[i][k], name)); }
            continue;
        }
        let s = &recs[i];
        let e = &before[i];
        // (a node was replaced in between)
        if s.len() < rec0[i] || rec0[i] < need { continue; }
        if s.iter().any(|v| v.is_nan() || v.abs() > 99.0) { continue; }
        let win = windows(s);
        let n = e.len();
        let (mut best, mut why) = (0, String::new());
        let mut ok = false;
        for p in (rec0[i] - WIN - fresh)..=s.len() {
            if p < WIN { continue; }
            let mut k = 0;
            while p >= WIN * (k + 1) && k < n {
                let x = win[p - WIN * k - 1];
                if e[n - 1 - k] != x { if k >= best { best = k; why = format!("entry {} is {:?}, the samples before {} have {:?}", n - 1 - k, e[n - 1 - k], p - WIN * k, x); } break; }
                k += 1;
            }
            if !(p >= WIN * (k + 1) && k < n) { ok = true; break; }
        }
        if !ok { rt::fail("monitor", format!("signal {} of {}: the last entries {:?} are not the minima and maxima of the last {} samples ({})", i, name, &e[n.saturating_sub(4)..], s.len(), why)); }
        let varied = s.iter().any(|v| *v != s[0]);
        rt::count(if varied { "probe_varied" } else { "probe_constant" }, 1);
        rt::state(i as u64 * 7919 + (e[n - 1].0.to_bits() as u64 >> 8));
    }
}
