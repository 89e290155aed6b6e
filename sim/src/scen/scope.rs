//! P20: the oscilloscope shows the signal: gapless windows, aligned signals, the chosen time range and trigger.
use super::patch;
use super::world::*;
use crate::case::{Case, Tok};
use crate::rng::Rng;
use crate::rt;
use crate::runner::PropDef;
use hexodsp::matrix::{Cell, Matrix};
use hexodsp::*;
use std::sync::Arc;

pub const P20: PropDef = PropDef {
    id: "P20", gen, run, quick: 9000, thorough: 300000,
    rule: "one evaluation = one displayed signal of a scope (512 points) compared with the recorded input; a run is distinct by (state history hash, interleaving hash)",
    real: super::REAL_ENGINE, stub: super::STUB_ENGINE,
    assumptions: &["displays are compared when the settings were constant for two sweeps", "below one sample per point the time range may be up to twice the chosen one (every sample takes the same whole number of points)"],
};
const N: usize = 512;
const W: usize = 6;
const H: usize = 5;
const FR: f32 = (1 << 23) as f32;

fn gen(c: &mut Case, r: &mut Rng) {
    let (a, b) = *r.pick(&[(128, 128), (64, 64), (1, 128), (100, 127), (128, 128), (7, 30)]);
    c.set("bmin", a); c.set("bmax", b);
    c.set("sr", *r.pick(&[44100, 48000, 96000, 192000]));
    c.set("sig", *r.pick(&[10, 11, 11, 12, 12, 13]));
    c.op(format!("setup {} {} {} {} {} {}", r.below(3), r.u64() % 1000, r.below(4), r.below(4), r.below(TIMES.len()), r.below(THR.len())));
    for _ in 0..r.range(2, 9) {
        let s = r.u64() % 100000;
        match r.below(17) {
            0 | 1 => c.op(format!("time {}", r.below(TIMES.len()))),
            2 | 3 => c.op(format!("src {}", r.below(3))),
            4 => c.op(format!("thr {}", r.below(THR.len()))),
            5 => c.op(format!("view {} {} {}", r.below(3), r.range(-100, 100), r.range(0, 100))),
            6 => c.op(format!("edit {}", s)),
            7 => c.op(format!("plug {}", r.below(3))),
            8 => c.op(format!("srate {}", *r.pick(&[44100, 48000, 96000, 192000]))),
            9 => c.op(format!("stall {}", r.range(1000, 50000))),
            10 => { let (a, b) = *r.pick(&[(128, 128), (1, 30), (1, 128), (33, 33)]); c.op(format!("mode {} {}", a, b)); }
            11 => c.op(format!("peek {}", r.range(1, 4))),
            12 | 13 => c.op("trig"),
            14 => c.op(format!("setup {} {} {} {} {} {}", r.below(3), r.u64() % 1000, r.below(4), r.below(4), r.below(TIMES.len()), r.below(THR.len()))),
            15 => c.op("freeze"),
            _ => c.op(format!("wait {}", r.range(1, 3000))),
        }
        if r.chance(3, 5) { c.op("look"); }
    }
    c.op("look");
}
const TIMES: [f32; 12] = [1.0, 2.0, 3.5, 5.3, 6.0, 11.0, 11.7, 15.0, 25.0, 40.0, 100.0, 250.0];
const THR: [f32; 5] = [0.0, -0.5, 0.3, 0.9, 1.0];

#[derive(Clone, Default)]
struct Cfg { k: u8, conn: [Option<u8>; 3], trig: Option<u8>, src: i64, ms: f32, thr: f32, view: [(f32, f32); 3], trig_knob: f32 }
struct W1 { sr: f32, sig: u8, cfg: Cfg, since: u64, fresh: bool, maxwin: u64, mixed: bool }
impl W1 {
    fn n(&self) -> f64 { self.cfg.ms as f64 * self.sr as f64 / 1000.0 }
    /// frames of one sweep (at most)
    fn sweep(&self) -> u64 { let n = self.n(); (if n < N as f64 { 2.0 * n } else { n }) as u64 + 8 }
    fn sig(&self, s: Option<u8>, f: u64) -> f32 { match s { Some(ch) => ramp_signal(self.sig, ch as usize, f), None => 0.0 } }
    fn period(&self) -> u64 { match self.sig { 11 => 5000, 12 => 700, _ => 40 } }
    fn trigger(&self, f: u64) -> f32 { if self.cfg.src == 2 { match self.cfg.trig { Some(c) => self.sig(Some(c), f), None => self.cfg.trig_knob } } else { self.sig(self.cfg.conn[0], f) } }
    /// the signal passes the threshold upwards at that frame
    fn crossing(&self, f: u64) -> bool { f > 0 && self.trigger(f) > self.cfg.thr + 0.0001 && self.trigger(f - 1) <= self.cfg.thr + 0.0001 }
    fn changed(&mut self) { self.since = frames() + 256; self.fresh = false; let s = self.sweep(); self.maxwin = self.maxwin.max(s / N as u64 + 3); }
}
fn sc(k: u8) -> NodeId { NodeId::Scope(k) }
fn p(k: u8, n: &str) -> ParamId { sc(k).inp_param(n).unwrap() }

/// Puts the scope at (2, 2) and the input to the chosen edges around it, a second cell of it at (4, 2) gets the trigger.
fn place(m: &mut Matrix, w: &mut W1, seed: usize) {
    let inp = |s: u8| Cell::empty(NodeId::Inp(0)).out(if s % 3 == 0 { Some(s / 3) } else { None }, if s % 3 == 1 { Some(s / 3) } else { None }, if s % 3 == 2 { Some(s / 3) } else { None });
    // which edge the signals come in by: 0 T, 1 TL, 2 BL
    let perm = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][seed % 6];
    let mut ins = [None; 3];
    let c = &w.cfg;
    for i in 0..3 {
        let (pos, edge) = match perm[i] { 0 => ((2, 1), 2u8), 1 => ((1, 1), 1), _ => ((1, 2), 0) };
        match c.conn[i] { Some(ch) => { m.place(pos.0, pos.1, inp(ch * 3 + edge)); ins[perm[i]] = Some(i as u8); } None => m.place(pos.0, pos.1, Cell::empty(NodeId::Nop)) }
    }
    m.place(2, 2, Cell::empty(sc(c.k)).input(ins[0], ins[1], ins[2]));
    match c.trig {
        Some(ch) => { m.place(4, 1, inp(ch * 3 + 2)); m.place(4, 2, Cell::empty(sc(c.k)).input(Some(4), None, None)); }
        None => { m.place(4, 1, Cell::empty(NodeId::Nop)); m.place(4, 2, Cell::empty(NodeId::Nop)); }
    }
}
fn run(c: &Case) {
    host_init();
    let (conf, mut exec) = new_node_engine();
    exec.no_logging();
    let mut m = Matrix::new(conf, W, H);
    let sig = (c.c("sig").max(10) as u8).min(13);
    HOST.with(|h| { h.keep = false; h.wild = sig; });
    let sr = c.c("sr").max(8000) as f32;
    let audio = spawn_audio(exec, AudioCfg { sr, min: c.c("bmin").max(1) as usize, max: c.c("bmax").max(1) as usize, seed: c.seed ^ 5, sleep: true });
    let mut w = W1 { sr, sig, cfg: Cfg::default(), since: 0, fresh: false, maxwin: 3, mixed: false };
    let mut h: Option<Arc<ScopeHandle>> = None;
    let mut seed = 0;
    for o in &c.ops {
        let mut t = Tok::new(o);
        let cmd = t.s();
        if h.is_none() && cmd != "setup" { continue; }
        let k = w.cfg.k;
        match cmd {
            "setup" => {
                let k = t.u() as u8 % 3;
                seed = t.u();
                let (i3, tr, ti, th) = (t.u(), t.u(), t.u() % TIMES.len(), t.u() % THR.len());
                let mut cf = Cfg { k, conn: [Some(0), Some(1), [None, Some(0), Some(1), None][i3 % 4]], trig: if tr == 3 { Some(0) } else { None }, src: (tr % 3) as i64, view: [(0.0, 1.0); 3], ..Default::default() };
                if tr == 3 { cf.src = 2; }
                cf.thr = THR[th];
                op("setup", || {
                    m.clear();
                    let tp = p(k, "time");
                    let v = tp.norm(TIMES[ti]);
                    cf.ms = tp.denorm(v);
                    m.set_param(tp, v.into());
                    m.set_param(p(k, "thrsh"), cf.thr.into());
                    m.set_param(p(k, "tsrc"), SAtom::setting(cf.src));
                    w.cfg = cf;
                    place(&mut m, &mut w, seed);
                    m.sync().unwrap();
                });
                w.changed();
                w.fresh = true;
                w.mixed = false;
                h = m.get_scope_handle(k as usize);
            }
            "time" => { let tp = p(k, "time"); let v = tp.norm(TIMES[t.u() % TIMES.len()]); w.cfg.ms = tp.denorm(v); op("time", || m.set_param(tp, v.into())); ramp(&w); w.changed(); }
            "src" => { w.cfg.src = t.i() % 3; let s = w.cfg.src; op("src", || m.set_param(p(k, "tsrc"), SAtom::setting(s))); ramp(&w); w.changed(); }
            "thr" => { w.cfg.thr = THR[t.u() % THR.len()]; let s = w.cfg.thr; op("thr", || m.set_param(p(k, "thrsh"), s.into())); ramp(&w); w.changed(); }
            "view" => {
                let i = t.u() % 3;
                let (a, b) = (t.i() as f32 / 100.0, t.i() as f32 / 100.0);
                let (po, pg) = (p(k, ["off1", "off2", "off3"][i]), p(k, ["gain1", "gain2", "gain3"][i]));
                w.cfg.view[i] = (po.denorm(a), pg.denorm(b));
                op("view", || { m.set_param(po, a.into()); m.set_param(pg, b.into()); });
                ramp(&w);
            }
            "edit" => {
                // other parts of the patch
                let mut r = Rng::new(t.u() as u64);
                op("edit", || {
                    let n = patch::rand_node(&mut r);
                    if !matches!(n, NodeId::Scope(_) | NodeId::Inp(_)) { let c = patch::rand_cell(&mut r, n); let _ = m.change_matrix(|m| m.place(0, r.below(H), c)); let _ = m.sync(); }
                });
            }
            "plug" => {
                let i = t.u() % 3;
                w.cfg.conn[i] = match w.cfg.conn[i] { Some(_) => None, _ => Some((i % 2) as u8) };
                if i == 1 { w.mixed = true; }
                op("plug", || { place(&mut m, &mut w, seed); m.sync().unwrap(); });
                ramp(&w);
                w.changed();
            }
            "srate" => { w.sr = t.u() as f32; let s = w.sr; HOST.with(|h| h.cmds.push(Cmd::SampleRate(s))); wait_blocks(3); rt::count("fault_rate_change", 1); w.changed(); }
            "mode" => { let (a, b) = (t.u().max(1), t.u().max(1)); HOST.with(|h| h.cmds.push(Cmd::Mode(a, b))); }
            "stall" => { let ns = t.u() as u64 * 1000; HOST.with(|h| h.cmds.push(Cmd::Stall(ns))); }
            "trig" => {
                // the trigger button
                if w.cfg.trig.is_some() || w.cfg.src != 2 { continue; }
                for v in [-1.0f32, 1.0] {
                    let f0 = frames();
                    op("trig", || m.set_param(p(k, "trig"), v.into()));
                    w.cfg.trig_knob = v;
                    ramp(&w);
                    if v < 0.0 { wait_frames(w.sweep() + 300); continue; }
                    let f1 = frames();
                    wait_frames(w.sweep() + 300);
                    w.changed();
                    if w.cfg.thr + 0.0001 >= v || w.cfg.conn[1].is_none() { continue; }
                    let a = show(h.as_ref().unwrap());
                    let s = windows(&w, &a[1]);
                    rt::count("probe_button", 1);
                    if s.iter().any(|x| x.0 < f0 || x.1 > f1 + w.sweep() + 300) { rt::fail("trigger", format!("the trigger was set at frame {}..{}, but the recording starts at {:?} and ends at {:?} of {}", f0, f1, s[0], s[N - 1], frames())); }
                }
            }
            "freeze" => {
                // without trigger the recorded signal stays
                if w.cfg.src == 0 || (w.cfg.src == 2 && w.cfg.trig.is_some()) || (w.cfg.src == 1 && w.cfg.thr < 1.0 && w.cfg.conn[0].is_some()) { continue; }
                if w.cfg.src == 1 && w.cfg.conn[0].is_none() && w.cfg.thr < 0.0 { continue; }
                wait_frames(3 * w.sweep() + 900);
                let a = show(h.as_ref().unwrap());
                wait_frames(w.sweep() + 600);
                let b = show(h.as_ref().unwrap());
                rt::count("probe_frozen", 1);
                for i in 0..3 { for j in 0..N { if a[i][j] != b[i][j] { rt::fail("frozen", format!("signal {} point {} went from {:?} to {:?} without a trigger", i, j, a[i][j], b[i][j])); } } }
            }
            "peek" => for _ in 0..t.u() {
                // while the recording goes on
                // (a point might have been recorded while the signal was plugged in)
                if w.mixed { break; }
                let h = h.as_ref().unwrap();
                let mw = w.maxwin;
                for j in 0..N {
                    let (a, b) = h.read(1, j);
                    let (hi, lo) = (frame(a), frame(b));
                    if !whole(a) || !whole(b) || lo > hi || hi - lo > mw || hi > frames() + 128 { rt::fail("torn", format!("point {} is {:?}, that are the frames {}..{} of {}", j, (a, b), lo, hi, frames())); }
                    if j % 64 == 0 { rt::op_point(); }
                }
                rt::count("probe_peek", 1);
                rt::sleep_us(500);
            },
            "look" => look(&w, h.as_ref().unwrap(), &m),
            "wait" => wait_frames(t.u() as u64),
            _ => {}
        }
    }
    let exec = audio.stop();
    drop(m); drop(exec);
}
fn ramp(w: &W1) { wait_frames((w.sr * 0.02) as u64 + 300); }
fn show(h: &ScopeHandle) -> Vec<Vec<(f32, f32)>> { rt::atomically(|| (0..3).map(|i| (0..N).map(|j| h.read(i, j)).collect()).collect()) }
// (the gain of the input node is not exactly one)
fn gain() -> f64 { let p = NodeId::Inp(0).inp_param("vol").unwrap(); p.denorm(p.norm_def()) as f64 }
fn at(v: f32) -> f64 { v as f64 * FR as f64 / gain() }
fn frame(v: f32) -> u64 { at(v).round() as u64 }
fn whole(v: f32) -> bool { v >= 0.0 && (at(v) - at(v).round()).abs() < 0.25 }
/// The frames every point stands for.
fn windows(_w: &W1, a: &[(f32, f32)]) -> Vec<(u64, u64)> {
    a.iter().enumerate().map(|(j, (hi, lo))| {
        let (x, y) = (frame(*lo), frame(*hi));
        if !(whole(*lo) && whole(*hi)) || x > y { rt::fail("window", format!("point {} of the signal 2 is {:?}, which never was a minimum and maximum of it", j, (hi, lo))); }
        (x, y)
    }).collect()
}
fn look(w: &W1, h: &ScopeHandle, m: &Matrix) {
    let _ = m;
    let auto = w.cfg.src == 0 || (w.cfg.thr < 1.0 && w.sig != 10 && match w.cfg.src { 1 => w.cfg.conn[0].is_some(), _ => w.cfg.trig.is_some() });
    // (with a trigger that does not come again the old signal stays)
    if !auto && !w.fresh { return; }
    let need = if w.fresh { w.sweep() + 300 } else { 3 * w.sweep() + 4 * w.period() + 600 };
    let mut g = 0;
    while frames() < w.since + need { rt::sleep_us(2000); g += 1; if g > 1_000_000 { rt::fail("harness", "no frames"); } }
    pause();
    let now = frames();
    let a = show(h);
    let act = [h.is_active(0), h.is_active(1), h.is_active(2)];
    let og = [h.get_offs_gain(0), h.get_offs_gain(1), h.get_offs_gain(2)];
    let thr = h.get_threshold();
    resume();
    let cf = &w.cfg;
    for i in 0..3 {
        if act[i] != cf.conn[i].is_some() { rt::fail("active", format!("signal {} is shown as active: {}, connected: {:?}", i, act[i], cf.conn[i])); }
        if (og[i].0 - cf.view[i].0).abs() > 1e-5 || (og[i].1 - cf.view[i].1).abs() > 1e-4 { rt::fail("view", format!("signal {} has offset and gain {:?}, set were {:?}", i, og[i], cf.view[i])); }
    }
    match (cf.src, thr) { (0, None) => {} (1..=2, Some(t)) if (t - cf.thr).abs() < 1e-5 => {} _ => rt::fail("view", format!("the threshold is shown as {:?} with source {} and threshold {}", thr, cf.src, cf.thr)) }
    if cf.conn[1].is_none() { return; }
    let win = windows(w, &a[1]);
    // the beginning of the older recording
    let mut seam = N;
    for j in 1..N { if win[j].0 < win[j - 1].0 { if seam < N { rt::fail("order", format!("points {} and {} both jump back", seam, j)); } seam = j; } }
    let spb = w.n() / N as f64;
    let over = spb < 1.0;
    for j in 1..N {
        if j == seam { continue; }
        let (p, q) = (win[j - 1], win[j]);
        if !(p.1 + 1 == q.0 || (over && p == q)) { rt::fail("gap", format!("points {} and {} are the frames {:?} and {:?} (seam {}, {} samples per point)", j - 1, j, p, q, seam, spb)); }
    }
    if over {
        // every sample takes the same number of points
        let (mut j, mut copies) = (0, 0);
        while j < N {
            let e = (j + 1..N).find(|e| win[*e] != win[j] || *e == seam).unwrap_or(N);
            if j == 0 { copies = e; }
            if e != N && e - j != copies { rt::fail("width", format!("the sample at point {} has {} points, the first one has {}", j, e - j, copies)); }
            j = e;
        }
    } else {
        for j in 0..N { let l = (win[j].1 - win[j].0 + 1) as f64; if l < spb.floor() - 0.5 || l > spb.ceil() + 1.5 { rt::fail("width", format!("point {} stands for the frames {:?}, expected about {}", j, win[j], spb)); } }
    }
    for i in [0, 2] {
        for j in 0..N {
            let (lo, hi) = win[j];
            let (mut mn, mut mx) = (f32::MAX, f32::MIN);
            for f in lo..=hi { let v = w.sig(cf.conn[i], f); mn = mn.min(v); mx = mx.max(v); }
            if (a[i][j].0 - mx).abs() > 1e-5 || (a[i][j].1 - mn).abs() > 1e-5 { rt::fail("signal", format!("signal {} point {} (frames {}..{}) is {:?}, the maximum and minimum are {:?}", i, j, lo, hi, a[i][j], (mx, mn))); }
        }
        rt::count("checks", 1);
    }
    rt::count("checks", 1);
    let full = w.n();
    if seam == N {
        let l = (win[N - 1].1 - win[0].0 + 1) as f64;
        if l < full - 3.0 || l > (if over { 2.0 * full } else { full }) + 4.0 { rt::fail("range", format!("{} ms ({} samples) are to be shown, but it is {} samples", cf.ms, full, l)); }
        rt::count("probe_complete", 1);
    }
    let head = if seam < N { win[seam - 1].1 } else { win[N - 1].1 };
    rt::state((seam as u64) << 20 | win[0].0);
    if cf.src == 0 {
        if head + spb as u64 + 3 < now { rt::fail("stale", format!("the newest point is at frame {}, now it is {}", head, now)); }
        if seam < N && win[N - 1].1 + 1 != win[0].0 { rt::fail("gap", format!("the last point ends at frame {}, the next recording starts at {}", win[N - 1].1, win[0].0)); }
        rt::count("probe_free", 1);
        return;
    }
    if w.fresh { rt::count("probe_first", 1); return; }
    // triggered: the recording starts where the signal passes the threshold
    let start = win[0].0;
    if !(w.crossing(start) || (start > 0 && w.crossing(start - 1))) { rt::fail("trigger", format!("the recording starts at frame {} (trigger signal {:?}), the threshold is {}", start, (start.saturating_sub(3)..start + 2).map(|f| w.trigger(f)).collect::<Vec<_>>(), cf.thr)); }
    // and at the first chance after the recording before
    let (e, till) = if seam < N { (win[N - 1].1, start - 1) } else { (win[N - 1].1, now.saturating_sub(spb as u64 + 4)) };
    if let Some(f) = (e + spb as u64 + 3..till.max(e + spb as u64 + 3)).find(|f| w.crossing(*f)) { rt::fail("trigger", format!("the recording before ended at frame {}, the next one (at {}) missed the trigger at frame {}", e, if seam < N { start } else { now }, f)); }
    rt::count(if over { "probe_triggered_fast" } else { "probe_triggered" }, 1);
}
