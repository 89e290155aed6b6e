//! P24: frequencies and times are what the parameters say, at every sample rate and after every change of it.
use super::patch;
use super::world::*;
use crate::case::{Case, Tok};
use crate::rng::Rng;
use crate::rt;
use crate::runner::PropDef;
use hexodsp::matrix::{Cell, Matrix};
use hexodsp::nodes::NodeExecutor;
use hexodsp::*;

pub const P24: PropDef = PropDef {
    id: "P24", gen, run, quick: 5000, thorough: 150000,
    rule: "one evaluation = one frequency or time measured in the output of a node and compared with its parameters; a run is distinct by (state history hash, interleaving hash)",
    real: super::REAL_ENGINE, stub: super::STUB_ENGINE,
    assumptions: &["frequencies are measured over at least 15 periods below an eighth of the sample rate, within 0.5 % and two samples", "times are measured within 1 % and three samples (envelopes, delays), 10 % (filters)"],
};
const KINDS: &[&str] = &["sin", "bosc", "vosc", "tslfo", "ad", "adsr", "delay", "allp", "comb", "sampl", "lp1p", "butter", "formfm", "hp1p", "pole2", "oneshot"];
#[derive(Default)]
struct St { level: f32, rec: bool, target: Option<NodeId>, inp: Vec<f32>, out: Vec<f32>, sr: f32, gap: bool, last: usize }
static ST: Shared<St> = Shared::new();

fn gen(c: &mut Case, r: &mut Rng) {
    let (a, b) = *r.pick(&[(128, 128), (64, 64), (17, 101), (100, 128)]);
    c.set("bmin", a); c.set("bmax", b);
    c.set("sr", rate(r));
    c.set("kind", r.below(KINDS.len()) as i64);
    c.set("inst", if r.chance(3, 4) { 0 } else { r.range(1, 3) });
    c.op(format!("in {}", r.u64() % 100000));
    for _ in 0..r.range(1, 5) {
        for _ in 0..r.range(0, 4) {
            match r.below(9) {
                0..=2 => c.op(format!("rate {}", rate(r))),
                3 => { c.op("out"); if r.chance(2, 3) { c.op(format!("wait {}", r.range(1, 500))); c.op(format!("rate {}", rate(r))); if r.chance(1, 2) { c.op(format!("wait {}", r.range(1, 500))); } } c.op(format!("in {}", r.u64() % 100000)); }
                4 => { c.op("clear"); if r.chance(1, 2) { c.op(format!("rate {}", rate(r))); } c.op(format!("in {}", r.u64() % 100000)); }
                5 => c.op(format!("in {}", r.u64() % 100000)),
                6 => { let (a, b) = *r.pick(&[(128, 128), (64, 64), (17, 101), (100, 128)]); c.op(format!("mode {} {}", a, b)); }
                7 => c.op(format!("stall {}", r.range(1000, 100000))),
                _ => c.op(format!("wait {}", r.range(1, 2000))),
            }
        }
        c.op("measure");
    }
}
fn rate(r: &mut Rng) -> i64 { *r.pick(&[44100, 48000, 96000, 22050, 88200, 32000, 192000]) }

fn on_exec(exec: &mut NodeExecutor, b: &Blk) {
    ST.with(|s| {
        if !s.rec { return; }
        if s.last != 0 && s.last + 1 != b.no { s.gap = true; }
        s.last = b.no;
        if s.sr == 0.0 { s.sr = b.sr; }
        if s.sr != b.sr { s.gap = true; }
        let p = exec.get_prog();
        let Some(o) = p.prog.iter().find(|o| Some(o.node.id()) == s.target) else { s.gap = true; return };
        // the input that is driven is the first or second one
        let k = match o.node.id() { NodeId::Ad(_) | NodeId::Adsr(_) | NodeId::Sampl(_) => 1, _ => 0 };
        s.inp.extend_from_slice(p.cur_inp[o.in_idxlen.0 + k].slice(b.n));
        s.out.extend_from_slice(p.out[o.out_idxlen.0].slice(b.n));
    })
}
/// What the node is set to: a frequency in Hz, or times in ms.
#[derive(Clone, Copy, Debug, Default)]
struct Par { f: f64, a: f64, d: f64, r: f64, len: usize, srate: f64 }

fn run(c: &Case) {
    host_init();
    let (conf, mut exec) = new_node_engine();
    exec.no_logging();
    let mut m = Matrix::new(conf, 3, 3);
    ST.init(St::default());
    HOST.with(|h| { h.keep = false; h.on_exec = Some(Box::new(on_exec)); });
    let audio = spawn_audio(exec, AudioCfg { sr: c.c("sr").max(8000) as f32, min: c.c("bmin").max(1) as usize, max: c.c("bmax").max(1) as usize, seed: c.seed ^ 5, sleep: true });
    let kind = KINDS[c.c("kind").max(0) as usize % KINDS.len()];
    let name = match kind { "lp1p" | "hp1p" | "pole2" => "sfilter", "butter" => "biqfilt", "oneshot" => "sampl", k => k };
    let id = patch::node(name, c.c("inst").clamp(0, 5) as u8);
    ST.with(|s| s.target = Some(id));
    let src = NodeId::Rust1x1(0);
    let mut par = Par::default();
    let mut there = false;
    let mut sr = c.c("sr").max(8000) as f64;
    for o in &c.ops {
        let mut t = Tok::new(o);
        let w = t.s();
        match w {
            "in" => {
                let mut r = Rng::new(t.u() as u64);
                let port = match kind { "ad" | "oneshot" => "trig", "adsr" => "gate", "delay" | "allp" | "comb" | "lp1p" | "hp1p" | "pole2" | "butter" => "inp", _ => "" };
                op("in", || {
                    if kind == "butter" || kind == "pole2" { m.place(1, 0, Cell::empty(NodeId::Sin(7)).out(None, None, Some(0))); } else { m.place(1, 0, Cell::empty(src).out(None, None, src.out("sig"))); }
                    m.place(1, 1, Cell::empty(id).input(if port.is_empty() { None } else { id.inp(port) }, None, None).out(None, None, Some(0)));
                    par = set(&mut m, kind, id, &mut r);
                    m.sync().unwrap_or_else(|e| rt::fail("harness", format!("{:?}", e)));
                });
                wait_blocks(3);
                op("dyn", || m.set_dynamic_node1x1(0, Box::new(|_: &[f32], out: &mut [f32], _: &DynNode1x1Context| { let l = ST.with(|s| s.level); for s in out.iter_mut() { *s = l; } })));
                wait_blocks(3);
                there = true;
            }
            "out" => { op("out", || { m.place(1, 1, Cell::empty(NodeId::Nop)); let _ = m.sync(); }); there = false; }
            "clear" => { op("clear", || m.clear()); there = false; }
            "rate" => { sr = t.u().max(8000) as f64; HOST.with(|h| h.cmds.push(Cmd::SampleRate(sr as f32))); rt::count("fault_rate_change", 1); }
            "mode" => { let (a, b) = (t.u().max(1), t.u().max(1)); HOST.with(|h| h.cmds.push(Cmd::Mode(a, b))); }
            "stall" => { let ns = t.u() as u64 * 1000; HOST.with(|h| h.cmds.push(Cmd::Stall(ns))); rt::count("fault_audio_stall", 1); }
            "wait" => wait_frames(t.u() as u64),
            "measure" if there => measure(kind, id, &par, sr),
            _ => {}
        }
    }
    let exec = audio.stop();
    drop(m); drop(exec);
}
fn set(m: &mut Matrix, kind: &str, id: NodeId, r: &mut Rng) -> Par {
    let mut p = Par::default();
    let mut v = |n: NodeId, nm: &str, x: f64| { let p = n.inp_param(nm).unwrap(); m.set_param(p, SAtom::param(p.norm(x as f32))); };
    match kind {
        "sin" | "bosc" | "vosc" => { p.f = *r.pick(&[55.0, 110.0, 440.0, 441.0, 1000.0, 1760.0, 2600.0]); if r.chance(1, 2) { p.f = 40.0 * 2f64.powf(r.range(0, 600) as f64 / 100.0); } v(id, "freq", p.f); let d = *r.pick(&[0.0, 0.0, 12.0, -12.0, 7.0, 0.5]); v(id, "det", d); p.f *= 2f64.powf(d / 12.0); if kind == "bosc" { v(id, "pw", *r.pick(&[0.5, 0.3, 0.7])); m.set_param(id.inp_param("wtype").unwrap(), SAtom::setting(r.range(0, 3))); } if kind == "vosc" { m.set_param(id.inp_param("ovrsmpl").unwrap(), SAtom::setting(r.range(0, 1))); } }
        "formfm" => { p.f = *r.pick(&[55.0, 110.0, 220.0, 440.0]); v(id, "freq", p.f); }
        "tslfo" => { p.a = *r.pick(&[2.0, 5.0, 11.0, 25.0]); p.f = 1000.0 / p.a; v(id, "time", p.a); v(id, "rev", *r.pick(&[0.5, 0.2, 0.8])); }
        "ad" | "adsr" => {
            let mult = *r.pick(&[0, 0, 0, 1, 1, 2]);
            let k = [1.0, 10.0, 100.0][mult as usize];
            p.a = *r.pick(&[2.0, 5.0, 20.0, 60.0]); p.d = *r.pick(&[3.0, 10.0, 25.0, 70.0]); p.r = *r.pick(&[4.0, 15.0, 50.0]);
            if r.chance(1, 2) { p.a = r.range(10, 900) as f64 / 10.0; p.d = r.range(10, 900) as f64 / 10.0; }
            v(id, "atk", p.a / k); v(id, "dcy", p.d / k);
            if kind == "adsr" { v(id, "rel", p.r / k); v(id, "sus", 0.5); }
            v(id, "ashp", if r.chance(1, 2) { 0.5 } else { r.range(30, 70) as f64 / 100.0 });
            m.set_param(id.inp_param("mult").unwrap(), SAtom::setting(mult));
        }
        "delay" => { p.a = if r.chance(1, 15) { *r.pick(&[900.0, 2500.0, 4900.0]) } else { *r.pick(&[2.0, 7.5, 20.0, 55.0, 120.0]) }; v(id, "time", p.a); v(id, "fb", 0.0); v(id, "mix", 1.0); }
        "allp" => { p.a = if r.chance(1, 15) { 900.0 } else { *r.pick(&[2.0, 7.5, 20.0, 50.0]) }; v(id, "time", p.a); v(id, "g", 0.0); }
        "comb" => { p.a = *r.pick(&[2.0, 7.5, 20.0, 50.0]); v(id, "time", p.a); v(id, "g", 0.5); m.set_param(id.inp_param("mode").unwrap(), SAtom::setting(r.range(0, 1))); }
        "lp1p" => { p.f = *r.pick(&[30.0, 80.0, 200.0]); v(id, "freq", p.f); m.set_param(id.inp_param("ftype").unwrap(), SAtom::setting(*r.pick(&[0, 1]))); }
        "hp1p" => { p.f = *r.pick(&[30.0, 80.0, 200.0]); v(id, "freq", p.f); m.set_param(id.inp_param("ftype").unwrap(), SAtom::setting(*r.pick(&[2, 3]))); }
        "pole2" => {
            // two octaves into the stop band
            p.f = *r.pick(&[80.0, 110.0, 220.0]);
            let t = *r.pick(&[4, 5, 8, 9]);
            v(id, "freq", p.f); v(id, "res", 0.4);
            p.a = if t == 4 || t == 8 { 4.0 } else { 0.25 };
            v(NodeId::Sin(7), "freq", p.f * p.a);
            m.set_param(id.inp_param("ftype").unwrap(), SAtom::setting(t));
        }
        "oneshot" => {
            p.len = *r.pick(&[400usize, 1000, 3000]); p.srate = *r.pick(&[22050.0, 44100.0, 48000.0]);
            let f = *r.pick(&[440.0, 440.0, 220.0, 880.0]);
            v(id, "freq", f);
            let (offs, len) = *r.pick(&[(0.0, 1.0), (0.0, 1.0), (0.25, 1.0), (0.0, 0.5), (0.25, 0.5), (0.75, 0.5)]);
            v(id, "offs", offs); v(id, "len", len);
            p.d = p.len as f64 * f64::min(1.0 - offs, len) / p.srate * 440.0 / f * 1000.0;
            let mut d = vec![0.8f32; p.len + 1];
            d[0] = p.srate as f32;
            m.set_param(id.inp_param("sample").unwrap(), SAtom::audio("mem", std::sync::Arc::new(d)));
            m.set_param(id.inp_param("pmode").unwrap(), SAtom::setting(1));
            m.set_param(id.inp_param("dir").unwrap(), SAtom::setting(r.range(0, 1)));
        }
        "butter" => { p.f = *r.pick(&[220.0, 440.0, 1000.0]); v(id, "freq", p.f); v(NodeId::Sin(7), "freq", p.f); m.set_param(id.inp_param("ftype").unwrap(), SAtom::setting(0)); m.set_param(id.inp_param("order").unwrap(), SAtom::setting({ p.len = r.below(4); p.len as i64 })); }
        "sampl" => {
            p.len = *r.pick(&[50usize, 100, 333]); p.srate = *r.pick(&[8000.0, 22050.0, 44100.0, 48000.0]);
            let (f, d) = (*r.pick(&[440.0, 440.0, 220.0, 880.0, 500.0]), *r.pick(&[0.0, 0.0, 12.0, -7.0]));
            v(id, "freq", f); v(id, "det", d);
            p.f = p.srate / p.len as f64 * f / 440.0 * 2f64.powf(d / 12.0);
            let mut d = vec![p.srate as f32];
            for i in 0..p.len { d.push((i as f32 / p.len as f32 * std::f32::consts::TAU).sin()); }
            m.set_param(id.inp_param("sample").unwrap(), SAtom::audio("mem", std::sync::Arc::new(d)));
            m.set_param(id.inp_param("dir").unwrap(), SAtom::setting(r.range(0, 1)));
        }
        _ => {}
    }
    p
}
fn level(l: f32) { ST.with(|s| s.level = l); }
fn measure(kind: &str, id: NodeId, p: &Par, sr: f64) {
    let ms = |t: f64| (t * sr / 1000.0) as u64;
    // parameters have arrived and everything before is over
    level(0.0);
    wait_blocks(2);
    // (a ramp that began at a higher rate takes its samples)
    wait_frames(2500 + ms(40.0 + match kind { "ad" => p.a + p.d, "adsr" => p.a + p.d + p.r, "delay" | "allp" => p.a, "comb" => p.a * 12.0, "lp1p" | "hp1p" => 2000.0 / p.f, "pole2" => 100.0, "oneshot" => p.d, "butter" => 40.0, _ => 0.0 } * 1.3));
    ST.with(|s| { s.inp.clear(); s.out.clear(); s.sr = 0.0; s.gap = false; s.last = 0; s.rec = true; });
    let stop = || ST.with(|s| { s.rec = false; (std::mem::take(&mut s.inp), std::mem::take(&mut s.out), s.gap, s.sr as f64) });
    match kind {
        "sin" | "bosc" | "vosc" | "tslfo" | "sampl" | "butter" | "formfm" => wait_frames(ms(18.0 * 1000.0 / p.f).max(ms(20.0))),
        "ad" => { level(1.0); wait_frames(ms((p.a + p.d) * 1.2 + 10.0)); }
        "adsr" => { level(1.0); wait_frames(ms((p.a + p.d) * 1.2 + 10.0)); level(0.0); wait_frames(ms(p.r * 1.2 + 10.0)); }
        "lp1p" | "hp1p" => { level(1.0); wait_frames(ms(2000.0 / p.f)); }
        "oneshot" => { level(1.0); wait_frames(ms(p.d * 1.2 + 10.0)); }
        "pole2" => wait_frames(ms(4000.0 / (p.f * p.a))),
        _ => { level(1.0); wait_frames(ms(p.a * 1.3 + 10.0)); }
    }
    let (inp, out, gap, rsr) = stop();
    level(0.0);
    if gap || rsr != sr { rt::count("probe_gap", 1); return; }
    let bad = |what: String| -> ! { rt::fail("timing", format!("{} at {} Hz: {} ({:?})", id, sr, what, p)) };
    rt::count("checks", 1); rt::count(&format!("probe_{}", kind), 1);
    rt::state((sr as u64) << 8 ^ p.f.to_bits() ^ p.a.to_bits());
    let up = inp.iter().position(|x| *x > 0.5);
    let near = |got: f64, want: f64, rel: f64, abs: f64| (got - want).abs() <= want * rel + abs;
    match kind {
        "sin" | "bosc" | "vosc" | "tslfo" | "sampl" => {
            let (lo, hi) = if kind == "tslfo" { (0.3, 0.7) } else { (-0.1, 0.1) };
            let mut on = out[0] > hi;
            let mut e = vec![];
            for (i, x) in out.iter().enumerate() { if on { if *x < lo { on = false; } } else if *x > hi { on = true; e.push(i); } }
            if e.len() < 3 { bad(format!("only {} periods in {} samples", e.len(), out.len())); }
            let n = (e.len() - 1) as f64;
            let period = (e[e.len() - 1] - e[0]) as f64 / n;
            if !near(period, sr / p.f, 0.005, 2.0 / n) { bad(format!("the frequency is {} Hz, it should be {}", sr / period, p.f)); }
        }
        "formfm" => {
            // the same again after each period
            let t = sr / p.f;
            let Some(k) = (1..12).find(|k| { let x = t * *k as f64; (x - x.round()).abs() < 0.05 }) else { return };
            let lag = (t * k as f64).round() as usize;
            let (mut d, mut a) = (0f64, 0f64);
            for i in 0..out.len() - lag { d += (out[i] - out[i + lag]).abs() as f64; a += out[i].abs() as f64; }
            if !(d < a * 0.25) { bad(format!("not periodic: {} of {}", d, a)); }
        }
        "pole2" => {
            let rms = |v: &[f32]| (v.iter().map(|x| (*x as f64).powi(2)).sum::<f64>() / v.len() as f64).sqrt();
            let (a, b) = (rms(&inp), rms(&out));
            if !near(b / a, 1.0 / 15.5, 0.3, 0.0) { bad(format!("two octaves beyond its cutoff the filter passes {}", b / a)); }
        }
        "butter" => {
            let pk = |v: &[f32]| v.iter().fold(0f32, |a, x| a.max(x.abs())) as f64;
            let (a, b) = (pk(&inp), pk(&out));
            if !near(b / a, 0.7071f64.powi(p.len as i32 + 1), 0.1, 0.0) { bad(format!("at its cutoff the filter passes {}", b / a)); }
        }
        _ => {
            let Some(up) = up else { bad("no edge".into()) };
            let o = &out[up..];
            match kind {
                "ad" | "adsr" => {
                    let (pk, top) = o.iter().enumerate().fold((0, -9f32), |a, (i, x)| if *x > a.1 { (i, *x) } else { a });
                    if top < 0.9 { bad(format!("the highest point is {}", top)); }
                    if !near(pk as f64, p.a * sr / 1000.0, 0.02, 3.0) { bad(format!("the attack takes {} ms", pk as f64 * 1000.0 / sr)); }
                    if kind == "ad" {
                        let end = o[pk..].iter().position(|x| *x < 1e-4).unwrap_or_else(|| bad("does not end".into()));
                        if !near(end as f64, p.d * sr / 1000.0, 0.02, 3.0) { bad(format!("the decay takes {} ms", end as f64 * 1000.0 / sr)); }
                    } else {
                        let end = o[pk..].iter().position(|x| (*x - 0.5).abs() < 1e-4).unwrap_or_else(|| bad("does not sustain".into()));
                        if !near(end as f64, p.d * sr / 1000.0, 0.02, 3.0) { bad(format!("the decay takes {} ms", end as f64 * 1000.0 / sr)); }
                        let down = inp[up..].iter().position(|x| *x < 0.25).unwrap_or_else(|| bad("no edge".into()));
                        let end = o[down..].iter().position(|x| *x < 1e-4).unwrap_or_else(|| bad("does not release".into()));
                        if !near(end as f64, p.r * sr / 1000.0, 0.02, 3.0) { bad(format!("the release takes {} ms", end as f64 * 1000.0 / sr)); }
                    }
                }
                "delay" | "allp" => {
                    let e = o.iter().position(|x| *x > 0.5).unwrap_or_else(|| bad("nothing comes out".into()));
                    if !near(e as f64, p.a * sr / 1000.0, 0.005, 2.0) { bad(format!("the delay is {} ms", e as f64 * 1000.0 / sr)); }
                }
                "comb" => {
                    let e = (0..o.len()).position(|i| o[i] - inp[up + i] > 0.25).unwrap_or_else(|| bad("no echo".into()));
                    if !near(e as f64, p.a * sr / 1000.0, 0.005, 2.0) { bad(format!("the echo comes after {} ms", e as f64 * 1000.0 / sr)); }
                }
                "oneshot" => {
                    let a = o.iter().position(|x| *x > 0.4).unwrap_or_else(|| bad("nothing is played".into()));
                    let e = o[a..].iter().position(|x| *x < 0.4).unwrap_or_else(|| bad("does not end".into()));
                    if !near(e as f64, p.d * sr / 1000.0, 0.005, 4.0) { bad(format!("the sample takes {} ms", e as f64 * 1000.0 / sr)); }
                }
                "hp1p" => {
                    let e = o.iter().position(|x| *x < 0.368).unwrap_or_else(|| bad("does not fall".into()));
                    if !near(e as f64, sr / (std::f64::consts::TAU * p.f), 0.1, 2.0) { bad(format!("falls in {} ms", e as f64 * 1000.0 / sr)); }
                }
                "lp1p" => {
                    let e = o.iter().position(|x| *x > 0.632).unwrap_or_else(|| bad("does not rise".into()));
                    if !near(e as f64, sr / (std::f64::consts::TAU * p.f), 0.1, 2.0) { bad(format!("rises in {} ms", e as f64 * 1000.0 / sr)); }
                }
                _ => {}
            }
        }
    }
}
