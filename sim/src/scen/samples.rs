//! P19: samples are played as they are in the file, or not at all.
use super::patch;
use super::world::*;
use crate::case::{Case, Tok};
use crate::rng::Rng;
use crate::rt;
use crate::runner::PropDef;
use hexodsp::matrix::{Cell, Matrix};
use hexodsp::matrix_repr::MatrixRepr;
use hexodsp::nodes::NodeExecutor;
use hexodsp::*;
use std::collections::BTreeMap;

pub const P19: PropDef = PropDef {
    id: "P19", gen, run, quick: 8000, thorough: 400000,
    rule: "one evaluation = one load of a sample file compared with what the file contains, or one block of a Sampl node compared with its sample; a run is distinct by (state history hash, interleaving hash)",
    real: "Matrix, NodeConfigurator, SampleLibrary, hound, std::fs, NodeExecutor, Sampl (all real code)", stub: "disk (simulated files behind open/read/lseek/close with injected faults), audio driver, OS scheduler, clocks",
    assumptions: &["a file that was read successfully once is not read again by the same matrix (documented: the library stores the samples)", "the signal is compared exactly where the sample has the sample rate of the engine and the default pitch, loop mode"],
};
const K: usize = 3;
/// What a Sampl node may play, by the operations between which it was changed.
struct Ver { start: usize, end: usize, data: Vec<f32> }
#[derive(Default)]
struct Inst { vers: Vec<Ver>, at: usize, pos: Vec<usize>, last: usize, exact: bool, restart: usize, trans: usize }
#[derive(Default)]
struct St { inst: [Inst; K], sr: f32 }
static ST: Shared<St> = Shared::new();
const W: usize = 3;
const H: usize = 3;
const NAMES: [&str; 6] = ["/simdisk/a.wav", "/simdisk/kick 1.wav", "/simdisk/\u{fc}.wav", "/simdisk/x/a.wav", "/simdisk/A.wav", "/simdisk/x/kick 1.wav"];

/// A WAV file and what it has to sound like (None: it is not a complete WAV file, or nobody knows).
#[derive(Clone)]
enum Want { Data(Vec<f32>), Broken, Unknown }
fn wav(r: &mut Rng, sr: u32) -> (Vec<u8>, Want) {
    let ch = *r.pick(&[1usize, 1, 1, 2, 2, 3, 6]);
    let n = *r.pick(&[0usize, 1, 2, 3, 5, 64, 200, 700, 900]);
    let rate = if r.chance(3, 4) { sr } else { *r.pick(&[8000u32, 44100, 11025, 96000, 1, 0]) };
    let fmt = r.below(6);
    let (tag, bits) = match fmt { 0 => (3u16, 32u16), 1 | 2 | 3 => (1, 16), 4 => (1, 8), _ => (1, 24) };
    let mut body = vec![];
    let mut want = vec![rate as f32];
    for i in 0..n {
        for c in 0..ch {
            let v = r.u64();
            let w = match bits {
                32 => { let f = ((v % 4001) as f32 - 2000.0) / 2000.0; body.extend_from_slice(&f.to_le_bytes()); f }
                16 => { let s = match v % 9 { 0 => i16::MIN, 1 => i16::MAX, _ => v as i16 }; body.extend_from_slice(&s.to_le_bytes()); s as f32 / 32768.0 }
                8 => { let s = v as u8; body.push(s); (s as f32 - 128.0) / 128.0 }
                _ => { let s = ((v as i32) << 8) >> 8; body.extend_from_slice(&s.to_le_bytes()[..3]); s as f32 / 8388608.0 }
            };
            if c == 0 && i < 60 * rate as usize { want.push(w); }
        }
    }
    let mut f = vec![];
    f.extend_from_slice(b"RIFF"); f.extend_from_slice(&((36 + body.len()) as u32).to_le_bytes()); f.extend_from_slice(b"WAVE");
    if r.chance(1, 6) { f.extend_from_slice(b"LIST"); f.extend_from_slice(&10u32.to_le_bytes()); f.extend_from_slice(b"0123456789"); }
    f.extend_from_slice(b"fmt "); f.extend_from_slice(&16u32.to_le_bytes());
    f.extend_from_slice(&tag.to_le_bytes()); f.extend_from_slice(&(ch as u16).to_le_bytes()); f.extend_from_slice(&rate.to_le_bytes());
    let ba = ch as u32 * bits as u32 / 8;
    f.extend_from_slice(&(rate.wrapping_mul(ba)).to_le_bytes()); f.extend_from_slice(&(ba as u16).to_le_bytes()); f.extend_from_slice(&bits.to_le_bytes());
    f.extend_from_slice(b"data"); f.extend_from_slice(&(body.len() as u32).to_le_bytes());
    let head = f.len();
    f.extend_from_slice(&body);
    let mut want = Want::Data(want);
    match r.below(12) {
        0 if !body.is_empty() => { let l = head + r.below(body.len()); f.truncate(l); want = if n < 60 * rate as usize { Want::Broken } else { Want::Unknown }; }
        1 => { let l = r.below(head); f.truncate(l); want = Want::Broken; }
        2 => { for _ in 0..r.range(1, 4) { let p = r.below(head); f[p] = match r.below(3) { 0 => 0, 1 => 255, _ => r.u64() as u8 }; } want = Want::Unknown; }
        3 => { f = (0..r.below(200)).map(|_| r.u64() as u8).collect(); want = Want::Broken; }
        4 if r.chance(1, 2) => { let p = head - 8 - 16 + 2; f[p] = 0; f[p + 1] = 0; want = Want::Unknown; }
        5 => { f.extend_from_slice(b"junk\x04\0\0\0abcd"); }
        _ => {}
    }
    (f, want)
}

fn gen(c: &mut Case, r: &mut Rng) {
    let (a, b) = *r.pick(&[(128, 128), (1, 128), (64, 64), (1, 7), (127, 127)]);
    c.set("bmin", a); c.set("bmax", b);
    c.set("sr", *r.pick(&[44100, 48000, 96000]));
    for f in 0..NAMES.len() { if r.chance(3, 4) { c.op(format!("put {} {}", f, r.u64() % 100000)); } }
    for k in 0..K { if k == 0 || r.chance(1, 2) { c.op(format!("node {} {}", k, r.u64() % 100000)); } }
    for _ in 0..r.range(3, 24) {
        let s = r.u64() % 100000;
        match r.below(16) {
            0..=4 => {
                if r.chance(1, 3) { for _ in 0..r.range(1, 3) { c.op(format!("fault {} {} {}", r.below(6), *r.pick(&[1, 1, 2, 3]), *r.pick(&[5, 4, 13, 24, 12]))); } }
                c.op(format!("set {} {}", r.below(K), r.below(NAMES.len())));
            }
            5 => c.op(format!("put {} {}", r.below(NAMES.len()), s)),
            6 => c.op(format!("del {}", r.below(NAMES.len()))),
            7 => c.op(format!("mem {} {}", r.below(K), s)),
            8 => c.op(format!("none {}", r.below(K))),
            9 => c.op(format!("node {} {}", r.below(K), s)),
            10 => c.op(format!("edit {}", s)),
            11 => match r.below(4) { 0 => c.op("clear"), 1 => c.op(format!("stall {}", r.range(1000, 100000))), _ => { if r.chance(1, 2) { c.op(format!("fault {} {} {}", r.below(20), *r.pick(&[1, 2, 3]), *r.pick(&[5, 4]))); } c.op("reload") } },
            12 => { let (a, b) = *r.pick(&[(128, 128), (1, 128), (1, 1), (16, 40)]); c.op(format!("mode {} {}", a, b)); }
            _ => c.op(format!("wait {}", r.range(1, 900))),
        }
    }
    c.op("wait 300");
}

fn on_exec(exec: &mut NodeExecutor, b: &Blk) {
    ST.with(|st| {
        let p = exec.get_prog();
        for o in p.prog.iter() {
            let NodeId::Sampl(k) = o.node.id() else { continue };
            let Some(ins) = st.inst.get_mut(k as usize) else { continue };
            rt::count("checks", 1);
            // while a clear or reload is going on, there are old or new players
            let trans = b.done < ins.restart && b.started_after >= ins.restart;
            if b.started_after >= ins.restart && ins.trans != ins.restart { ins.pos.clear(); ins.trans = ins.restart; ins.exact = true; }
            let lo = ins.vers.iter().rposition(|v| v.end <= b.done).unwrap_or(0).max(ins.at);
            let hi = ins.vers.iter().rposition(|v| v.start <= b.started).unwrap_or(0).max(lo);
            let none = vec![];
            let have: &Vec<f32> = match &p.atoms[o.at_idxlen.0] { SAtom::AudioSample((_, Some(d))) => d, _ => &none };
            let Some(v) = (lo..=hi).find(|v| ins.vers[*v].data == *have) else {
                // (what is being loaded is known when the operation is over)
                if ins.vers[hi].end == usize::MAX { ins.pos.clear(); ins.last = 0; ins.exact = false; continue; }
                rt::fail("sample", format!("Sampl {} has a sample with {} values ({:?}), it was given {:?}", k, have.len(), &have[..have.len().min(5)], (lo..=hi).map(|v| ins.vers[v].data.iter().take(5).cloned().collect::<Vec<_>>()).collect::<Vec<_>>()))
            };
            let out = p.out[o.out_idxlen.0].slice(b.n);
            let changed = v != ins.at;
            ins.at = v;
            let n = have.len().saturating_sub(1);
            if n < 2 {
                if let Some(x) = out.iter().find(|x| **x != 0.0) { rt::fail("silence", format!("Sampl {} has no sample and plays {}", k, x)); }
                rt::count("probe_silent", 1);
                ins.last = b.no;
                continue;
            }
            let d = &have[1..];
            if have[0] != b.sr { ins.exact = false; }
            let m = d.iter().fold(0f32, |a, x| a.max(x.abs()));
            if let Some(x) = out.iter().find(|x| !(x.abs() <= m * 1.6 + 1e-6)) { rt::fail("range", format!("Sampl {} plays {}, the loudest sample is {}", k, x, m)); }
            if trans { ins.pos.clear(); ins.last = 0; continue; }
            if ins.exact {
                let fits = |s: usize| (0..b.n).all(|i| out[i] == d[(s + i) % n]);
                // all the positions it may have
                let all = !(!changed && ins.last + 1 == b.no) || ins.pos.is_empty();
                let next: Vec<usize> = if all { (0..n).filter(|s| fits(*s)).collect() } else { ins.pos.iter().map(|s| *s % n).filter(|s| fits(*s)).collect() };
                if next.is_empty() { rt::fail("sound", format!("Sampl {} plays {:?} in a block of {}, that is not a stretch of its sample of {} values ({} possible positions)", k, &out[..b.n.min(6)], b.n, n, ins.pos.len())); }
                if next.len() == 1 { rt::count("probe_exact", 1); }
                ins.pos = next.iter().map(|s| (s + b.n) % n).collect();
            } else { ins.pos.clear(); rt::count("probe_resampled", 1); }
            ins.last = b.no;
            rt::state(k as u64 * 131 + v as u64);
        }
    })
}
fn start(k: usize, data: Vec<f32>) { let n = HOST.with(|h| h.ops_started); ST.with(|s| s.inst[k].vers.push(Ver { start: n, end: usize::MAX, data })); }
fn restart() { let n = HOST.with(|h| h.ops_started); ST.with(|s| for i in s.inst.iter_mut() { i.restart = n; }); }
fn end() { let n = ops_done(); ST.with(|s| for i in s.inst.iter_mut() { for v in i.vers.iter_mut() { if v.end == usize::MAX { v.end = n; } } }); }

fn run(c: &Case) {
    host_init();
    rt::disk::reset();
    let (conf, mut exec) = new_node_engine();
    exec.no_logging();
    let mut m = Matrix::new(conf, W, H);
    let sr = c.c("sr").max(8000) as u32;
    ST.init(St::default());
    ST.with(|s| for i in s.inst.iter_mut() { i.exact = true; i.vers.push(Ver { start: 0, end: 0, data: vec![] }); });
    HOST.with(|h| { h.keep = false; h.on_exec = Some(Box::new(on_exec)); });
    let audio = spawn_audio(exec, AudioCfg { sr: sr as f32, min: c.c("bmin").max(1) as usize, max: c.c("bmax").max(1) as usize, seed: c.seed ^ 5, sleep: true });
    let mut files: BTreeMap<usize, Want> = BTreeMap::new();
    let mut cache: BTreeMap<usize, Vec<f32>> = BTreeMap::new();
    // what the parameter of each node is set to
    let mut set: [Option<(String, Vec<f32>)>; K] = [None, None, None];
    for o in &c.ops {
        let mut t = Tok::new(o);
        let w = t.s();
        match w {
            "put" => { let (f, mut r) = (t.u() % NAMES.len(), Rng::new(t.u() as u64)); let (d, w) = wav(&mut r, sr); rt::disk::put(NAMES[f], &d); files.insert(f, w); }
            "del" => { let f = t.u() % NAMES.len(); rt::disk::del(NAMES[f]); files.remove(&f); }
            "fault" => { let (at, k, e) = (t.u() as u64, t.i() as i32, t.i() as i32); rt::disk::fault(rt::disk::ops() + at, k, e); continue; }
            "set" => {
                let (k, f) = (t.u() % K, t.u() % NAMES.len());
                let hard = hard();
                let p = NodeId::Sampl(k as u8).inp_param("sample").unwrap();
                // the operation is the version boundary: what it will be is known afterwards
                op("set", || {
                    let n = HOST.with(|h| h.ops_started);
                    // the result may show before the operation is over
                    ST.with(|s| s.inst[k].vers.push(Ver { start: n, end: usize::MAX, data: guess(&files, &cache, f) }));
                    m.set_param(p, SAtom::audio_unloaded(NAMES[f]));
                });
                let failed = hard_since(hard);
                let got = judge(&mut m, k, f, failed, &files, &mut cache, 1);
                ST.with(|s| s.inst[k].vers.last_mut().unwrap().data = got.clone());
                set[k] = Some((NAMES[f].to_string(), got));
                end();
            }
            "mem" => {
                let (k, mut r) = (t.u() % K, Rng::new(t.u() as u64));
                let n = *r.pick(&[0usize, 1, 2, 3, 50, 500]);
                let v: Vec<f32> = (0..n).map(|i| if i == 0 { if r.chance(2, 3) { sr as f32 } else { *r.pick(&[22050.0, 1.0, 0.0]) } } else { ((r.u64() % 2001) as f32 - 1000.0) / 1000.0 }).collect();
                let a = SAtom::audio("mem", std::sync::Arc::new(v.clone()));
                op("mem", || { start(k, v.clone()); m.set_param(NodeId::Sampl(k as u8).inp_param("sample").unwrap(), a) });
                set[k] = Some(("mem".into(), v));
                end();
            }
            "none" => { let k = t.u() % K; op("none", || { start(k, vec![]); m.set_param(NodeId::Sampl(k as u8).inp_param("sample").unwrap(), SAtom::audio_unloaded("")) }); set[k] = None; end(); }
            "node" => {
                let (k, mut r) = (t.u() % K, Rng::new(t.u() as u64));
                op("node", || { let n = NodeId::Sampl(k as u8); m.place(r.below(W), r.below(H), Cell::empty(n).out(None, None, Some(0))); let _ = m.sync(); });
            }
            "edit" => { let mut r = Rng::new(t.u() as u64); op("edit", || {
                let (x, y) = (r.below(W), r.below(H));
                let c = if r.chance(1, 2) { Cell::empty(NodeId::Nop) } else { let n = patch::node(*r.pick(&["sin", "amp", "out", "sampl"]), r.below(3) as u8); let n = if let NodeId::Out(_) = n { NodeId::Out(0) } else { n }; patch::rand_cell(&mut r, n) };
                // (nothing modulates the players)
                let c = if let NodeId::Sampl(_) = c.node_id() { c.input(None, None, None) } else { c };
                m.place(x, y, c); let _ = m.sync();
            }); }
            "clear" => {
                op("clear", || { for k in 0..K { start(k, vec![]); } restart(); m.clear(); });
                end();
                for k in 0..K { set[k] = None; }
                rt::count("op_clear", 1);
            }
            "reload" => {
                let mut repr = m.to_repr();
                let s = repr.serialize().to_string();
                // (what was in memory only is not a file)
                let hard = hard();
                let repr = MatrixRepr::deserialize(&s).unwrap_or_else(|e| rt::fail("reload", format!("{:?}", e)));
                op("reload", || {
                    restart();
                    for k in 0..K {
                        // until the samples are loaded there are none
                        start(k, vec![]);
                        let d = match &set[k] { Some((p, _)) => NAMES.iter().position(|n| n == p).map_or(vec![], |f| guess(&files, &cache, f)), None => vec![] };
                        start(k, d);
                    }
                    let _ = m.from_repr(&repr);
                });
                let failed = hard_since(hard);
                let mut errs = 0;
                while m.pop_error().is_some() { errs += 1; }
                let mut bad = 0;
                for k in 0..K {
                    let p = NodeId::Sampl(k as u8).inp_param("sample").unwrap();
                    let got = match m.get_param(&p) { Some(SAtom::AudioSample((_, Some(d)))) => (*d).clone(), _ => vec![] };
                    if let Some((path, _)) = set[k].clone() {
                        match NAMES.iter().position(|n| *n == path) {
                            Some(f) => { if got.is_empty() { bad += 1; } verdict(&m, k, f, &got, failed > 0, &files, &cache); if !got.is_empty() { cache.insert(f, got.clone()); } }
                            None => { bad += 1; if !got.is_empty() { rt::fail("load", "a sample appears that is not in a file"); } }
                        }
                        set[k] = Some((path, got.clone()));
                    } else if !got.is_empty() { rt::fail("load", format!("Sampl {} has a sample it was never given", k)); }
                    ST.with(|s| s.inst[k].vers.last_mut().unwrap().data = got);
                }
                rt::count("checks", 1);
                if errs != bad { rt::fail("error", format!("{} samples could not be loaded, {} errors were reported", bad, errs)); }
                end();
                rt::count("op_reload", 1);
            }
            "mode" => { let (a, b) = (t.u().max(1), t.u().max(1)); HOST.with(|h| h.cmds.push(Cmd::Mode(a, b))); }
            "stall" => { let ns = t.u() as u64 * 1000; HOST.with(|h| h.cmds.push(Cmd::Stall(ns))); rt::count("fault_audio_stall", 1); }
            "wait" => wait_frames(t.u() as u64),
            _ => {}
        }
        rt::disk::clear_faults();
    }
    for i in 1..4 { let n = rt::disk::fired(i); if n > 0 { rt::count(["", "fault_io_error", "fault_short_read", "fault_half_read"][i as usize], n); } }
    let exec = audio.stop();
    drop(m); drop(exec);
}
fn hard() -> u64 { rt::disk::fired(1) }
/// Injected errors since then (short reads and interrupts are no errors, but errors 4 count here too).
fn hard_since(h: u64) -> u64 { rt::disk::fired(1) - h }
fn guess(files: &BTreeMap<usize, Want>, cache: &BTreeMap<usize, Vec<f32>>, f: usize) -> Vec<f32> { if let Some(d) = cache.get(&f) { return d.clone(); } match files.get(&f) { Some(Want::Data(d)) => d.clone(), _ => vec![] } }
fn verdict(_m: &Matrix, k: usize, f: usize, got: &Vec<f32>, failed: bool, files: &BTreeMap<usize, Want>, cache: &BTreeMap<usize, Vec<f32>>) {
    let bad = |w: &str| -> ! { rt::fail("load", format!("{}: Sampl {} got {} values {:?} for {}", w, k, got.len(), &got[..got.len().min(6)], NAMES[f])) };
    if let Some(d) = cache.get(&f) { if got != d { bad("not the sample that was loaded before"); } return; }
    match files.get(&f) {
        Some(Want::Data(d)) => if got != d && !(got.is_empty() && failed) { bad(&format!("the file contains {} values {:?}", d.len(), &d[..d.len().min(6)])); },
        Some(Want::Unknown) => rt::count("probe_odd_file", 1),
        Some(Want::Broken) => { if !got.is_empty() { bad("the file is not complete"); } rt::count("probe_broken_file", 1); }
        None => { if !got.is_empty() { bad("there is no such file"); } rt::count("probe_no_file", 1); }
    }
}
fn judge(m: &mut Matrix, k: usize, f: usize, failed: u64, files: &BTreeMap<usize, Want>, cache: &mut BTreeMap<usize, Vec<f32>>, _n: usize) -> Vec<f32> {
    rt::count("checks", 1);
    let p = NodeId::Sampl(k as u8).inp_param("sample").unwrap();
    let (path, got) = match m.get_param(&p) { Some(SAtom::AudioSample((p, d))) => (p, d.map_or(vec![], |d| (*d).clone())), x => rt::fail("load", format!("the parameter of Sampl {} is {:?}", k, x)) };
    if path != NAMES[f] { rt::fail("load", format!("the parameter of Sampl {} has the path {:?}, it was set to {:?}", k, path, NAMES[f])); }
    verdict(m, k, f, &got, failed > 0, files, cache);
    let mut errs = vec![];
    while let Some(e) = m.pop_error() { errs.push(e); }
    if errs.len() != got.is_empty() as usize { rt::fail("error", format!("loading {} gives {} values and the errors {:?}", NAMES[f], got.len(), errs)); }
    if !got.is_empty() { cache.insert(f, got.clone()); rt::count("probe_loaded", 1); }
    got
}
