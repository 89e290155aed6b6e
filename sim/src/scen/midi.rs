//! P10: every MIDI event takes effect exactly once, in order, at its sample.
use super::world::*;
use crate::case::{Case, Tok};
use crate::rng::Rng;
use crate::rt;
use crate::runner::PropDef;
use hexodsp::matrix::{Cell, Matrix, MatrixObserver};
use hexodsp::nodes::{HxMidiEvent, HxTimedEvent, NodeExecutor};
use hexodsp::*;
use std::sync::Arc;

pub const P10: PropDef = PropDef {
    id: "P10", gen, run, quick: 6000, thorough: 60000,
    rule: "one evaluation = one sample of one output of a MidiP or MidiCC node compared with the reference model, or one event reported to the observer; a run is distinct by (state history hash, interleaving hash)",
    real: super::REAL_ENGINE, stub: super::STUB_ENGINE,
    assumptions: &["at most 64 events are injected between two audio blocks", "hosts hand events to the engine in the order of their frames, with EventWindowing", "MIDI learn polls handle_graph_events before 512 events are waiting"],
};

/// The reference model of the two MIDI nodes.
#[derive(Clone, Debug, PartialEq)]
enum Nd {
    P { chan: u8, gmode: i64, glen: f32, next: i8, note: u8, gate: u8, vel: f32, trig: u32, ms: f32 },
    C { chan: u8, cc: [u8; 3], slew: f32, tgt: [f32; 3], cur: [f32; 3] },
}
#[derive(Clone, Debug, PartialEq)]
struct Cand { inj: usize, fed: usize, nodes: Vec<Nd> }
struct St { sr: f32, idx: Vec<usize>, cands: Vec<Cand>, timed: Vec<(u64, HxMidiEvent)>, inj: Vec<(usize, HxMidiEvent)>, loose: bool, skip: bool, noecho: bool, echo: Vec<HxMidiEvent> }
static ST: Shared<St> = Shared::new();

fn is_cc(e: &HxMidiEvent) -> bool { matches!(e, HxMidiEvent::CC { .. }) }
impl Nd {
    fn fresh(&self) -> Nd {
        match self.clone() {
            Nd::P { chan, gmode, glen, .. } => Nd::P { chan, gmode, glen, next: 0, note: 0, gate: 0, vel: 0.0, trig: 0, ms: 0.0 },
            Nd::C { chan, cc, slew, .. } => Nd::C { chan, cc, slew, tgt: [0.0; 3], cur: [0.0; 3] },
        }
    }
    /// The three outputs of one block.
    fn block(&mut self, n: usize, notes: &[(usize, HxMidiEvent)], ccs: &[(usize, HxMidiEvent)], sr: f32) -> [Vec<f32>; 3] {
        let mut o = [vec![0.0; n], vec![0.0; n], vec![0.0; n]];
        let mut k = 0;
        match self {
            Nd::P { chan, gmode, glen, next, note, gate, vel, trig, ms } => for f in 0..n {
                if *next > 0 { *gate = 1; } else if *next < 0 { *gate = 0; }
                *next = 0;
                while k < notes.len() && notes[k].0 <= f {
                    match notes[k].1 {
                        HxMidiEvent::NoteOn { channel, note: nt, vel: v } if channel == *chan => {
                            if *gate > 0 { *next = 1; *gate = 0; } else { *gate = 1; }
                            *trig = ((sr * 2.0) / 1000.0).ceil() as u32;
                            *ms = 0.0001;
                            *note = nt;
                            *vel = v;
                        }
                        HxMidiEvent::NoteOff { channel, note: nt } if channel == *chan => if *note == nt { *next = -1; },
                        _ => (),
                    }
                    k += 1;
                }
                o[0][f] = (*note as f32 - 69.0) / 120.0;
                o[1][f] = match *gmode {
                    1 => if *trig > 0 { *trig -= 1; 1.0 } else { 0.0 },
                    2 => if *next > 0 { *gate = 0; 0.0 } else {
                        let g = if *ms > 0.0 { *ms += 1000.0 / sr; if *ms - 0.0001 > *glen { *ms = 0.0; } 1.0 } else { 0.0 };
                        *gate = g as u8;
                        g
                    },
                    _ => *gate as f32,
                };
                o[2][f] = *vel;
            },
            Nd::C { chan, cc, slew, tgt, cur } => for f in 0..n {
                while k < ccs.len() && ccs[k].0 <= f {
                    if let HxMidiEvent::CC { channel, cc: c, value } = ccs[k].1 { if channel == *chan { if let Some(i) = cc.iter().position(|x| *x == c) { tgt[i] = value; } } }
                    k += 1;
                }
                for i in 0..3 {
                    if *slew < 0.11 { cur[i] = tgt[i]; } else { let d = 1000.0 / sr / *slew; cur[i] = tgt[i].min(cur[i] + d).max(cur[i] - d); }
                    o[i][f] = cur[i];
                }
            },
        }
        o
    }
}

fn on_exec(exec: &mut NodeExecutor, b: &Blk) {
    ST.with(|s| {
        if s.skip { return; }
        let outs: Vec<Vec<Vec<f32>>> = s.idx.iter().map(|i| (0..3).map(|o| node_out(exec, *i, o, b.n).unwrap_or_default()).collect()).collect();
        if outs.iter().any(|o| o[0].len() != b.n) { rt::fail("midi-graph", "a MIDI node is missing in the running graph"); }
        let lo = s.inj.iter().take_while(|x| x.0 <= b.done).count();
        let hi = s.inj.iter().take_while(|x| x.0 <= b.started).count();
        let mut next: Vec<Cand> = vec![];
        let mut why = String::new();
        for c in &s.cands {
            let from = if s.loose { c.inj } else { lo.max(c.inj) };
            for k in from..=hi.max(from) {
                if k - c.inj > 64 { continue; }
                let mut c2 = c.clone();
                let (mut notes, mut ccs) = (vec![], vec![]);
                for (_, e) in &s.inj[c.inj..k] { if is_cc(e) { ccs.push((0, *e)) } else { notes.push((0, *e)) } }
                c2.inj = k;
                while c2.fed < s.timed.len() && s.timed[c2.fed].0 < b.frame0 + b.n as u64 {
                    let (f, e) = s.timed[c2.fed];
                    c2.fed += 1;
                    let t = f.saturating_sub(b.frame0) as usize;
                    if is_cc(&e) { ccs.push((t, e)) } else { notes.push((t, e)) }
                    if ccs.len() == 1024 || notes.len() == 512 { break; }
                }
                let mut ok = true;
                for (i, nd) in c2.nodes.iter_mut().enumerate() {
                    let want = nd.block(b.n, &notes, &ccs, s.sr);
                    for o in 0..3 { for f in 0..b.n {
                        if ok && (want[o][f] - outs[i][o][f]).abs() > 2e-5 {
                            ok = false;
                            if why.is_empty() { why = format!("frame {} of the block at {}: output {} of node {} is {}, the events give {} ({:?}; notes {:?} ccs {:?})", f, b.frame0, o, i, outs[i][o][f], want[o][f], nd, &notes[..notes.len().min(6)], &ccs[..ccs.len().min(6)]); }
                        }
                    } }
                }
                if ok && !next.contains(&c2) { next.push(c2); }
            }
        }
        rt::count("checks", (b.n * 3 * s.idx.len()) as u64);
        if next.is_empty() { rt::fail("midi", why); }
        rt::state(next[0].fed as u64 * 131 + next[0].inj as u64);
        s.cands = next;
    })
}

struct Obs;
impl MatrixObserver for Obs {
    fn update_prop(&self, _key: &str) {}
    fn update_monitor(&self, _cell: &Cell) {}
    fn update_param(&self, _p: &ParamId) {}
    fn update_matrix(&self) {}
    fn update_all(&self) {}
    fn midi_event(&self, e: HxMidiEvent) { ST.with(|s| s.echo.push(e)); }
}
fn same(a: &HxMidiEvent, b: &HxMidiEvent) -> bool { format!("{:?}", a) == format!("{:?}", b) }

fn gen(c: &mut Case, r: &mut Rng) {
    let (a, b) = *r.pick(&[(128, 128), (1, 128), (64, 64), (1, 4), (16, 100)]);
    c.set("bmin", a); c.set("bmax", b);
    c.set("sr", *r.pick(&[44100, 44100, 48000, 96000, 22050]));
    c.set("chans", r.range(1, 3)); c.set("chb", *r.pick(&[0, 0, 3, 13])); c.set("nb", *r.pick(&[60, 60, 0, 125])); c.set("cb", *r.pick(&[0, 0, 61, 122])); c.set("nseed", r.range(0, 1 << 30));
    let n = r.range(6, 40);
    let (stall, flood, storm, clear) = (r.chance(1, 3), r.chance(1, 4), r.chance(1, 8), r.chance(1, 4));
    let inj = if r.chance(1, 2) { 25 } else { 0 };
    for _ in 0..n {
        let s = r.u64() % 1_000_000_000;
        match r.weighted(&[40, inj, 8, 15, 8, if stall { 5 } else { 0 }, if flood { 4 } else { 0 }, if storm { 3 } else { 0 }, if clear { 2 } else { 0 }]) {
            0 => { let k = r.range(1, 30); let sp = if b == 4 { *r.pick(&[1, 2, 5, 30]) } else { *r.pick(&[1, 2, 5, 60, 700]) }; c.op(format!("midi {} {} {}", k, sp, s)); }
            1 => { let k = r.range(1, 12); c.op(format!("inject {} {}", k, s)); }
            2 => c.op(format!("sync {}", s)),
            3 => { let us = *r.pick(&[100, 700, 3000, 20000]); c.op(format!("sleep {}", us)); }
            4 => c.op("poll"),
            5 => { let us = r.range(2000, 100000); c.op(format!("stall {}", us)); }
            6 => { let k = r.range(300, 900); c.op(format!("flood {} {}", k, s)); }
            7 => { let k = r.range(400, 1800); c.op(format!("midi {} 1 {}", k, s)); }
            _ => c.op("recreate"),
        }
    }
}

fn event(r: &mut Rng, (chb, nb, cb): (i64, u8, u8), chans: i64, uniq: f32) -> HxMidiEvent {
    let channel = if r.chance(1, 20) { r.below(16) as u8 } else { r.range(chb, chb + chans - 1) as u8 };
    match r.below(10) {
        0..=3 => HxMidiEvent::NoteOn { channel, note: nb + r.below(3) as u8, vel: uniq },
        4..=6 => HxMidiEvent::NoteOff { channel, note: nb + r.below(3) as u8 },
        _ => HxMidiEvent::CC { channel, cc: cb + r.below(6) as u8, value: uniq },
    }
}

fn place(m: &mut Matrix, nodes: &[(NodeId, Nd)]) {
    for (i, (id, nd)) in nodes.iter().enumerate() {
        let p = |s: &str| id.inp_param(s).unwrap();
        match nd {
            Nd::P { chan, gmode, .. } => { m.set_param(p("chan"), SAtom::setting(*chan as i64)); m.set_param(p("gmode"), SAtom::setting(*gmode)); m.set_param(p("glen"), SAtom::param(0.25)); }
            Nd::C { chan, cc, slew, .. } => { m.set_param(p("chan"), SAtom::setting(*chan as i64)); for k in 0..3 { m.set_param(p(["cc1", "cc2", "cc3"][k]), SAtom::setting(cc[k] as i64)); } m.set_param(p("slew"), SAtom::param(if *slew > 0.0 { 0.2 } else { 0.0 })); }
        }
        m.place(i, 0, Cell::empty(*id));
    }
    m.place(6, 3, Cell::empty(NodeId::Amp(9)));
    op("sync", || m.sync().unwrap());
    let idx = nodes.iter().map(|(id, _)| m.unique_index_for(id).unwrap()).collect();
    ST.with(|s| s.idx = idx);
}
fn settle(m: &mut Matrix) {
    let mut g = 0;
    loop {
        op("poll", || m.handle_graph_events());
        wait_blocks(1);
        let ok = ST.with(|s| s.cands.iter().any(|c| c.fed == s.timed.len() && c.inj == s.inj.len()));
        if ok { break; }
        g += 1;
        let last = ST.with(|s| s.timed.last().map(|e| e.0).unwrap_or(0));
        if frames() < last + 4000 { continue; }
        if g > 3000 { rt::fail("midi-lost", ST.with(|s| format!("events are not delivered: {} of {} timed, {} of {} injected", s.cands[0].fed, s.timed.len(), s.cands[0].inj, s.inj.len()))); }
    }
    wait_blocks(1);
}

fn run(c: &Case) {
    host_init();
    let sr = c.c("sr") as f32;
    let (chb, chans, nb, cb) = (c.c("chb"), c.c("chans"), c.c("nb") as u8, c.c("cb") as u8);
    let (conf, mut exec) = new_node_engine();
    exec.no_logging();
    let mut m = Matrix::new(conf, 7, 4);
    m.set_observer(Arc::new(Obs));
    let mut r = Rng::new(c.c("nseed") as u64);
    let mut nodes: Vec<(NodeId, Nd)> = vec![];
    for i in 0..r.range(1, 3) as u8 {
        let glen = NodeId::MidiP(i).inp_param("glen").unwrap().denorm(0.25);
        nodes.push((NodeId::MidiP(i), Nd::P { chan: r.range(chb, chb + chans - 1) as u8, gmode: r.range(0, 2), glen, next: 0, note: 0, gate: 0, vel: 0.0, trig: 0, ms: 0.0 }));
    }
    for i in 0..r.range(0, 2) as u8 {
        let o = cb + r.below(3) as u8;
        let slew = if r.chance(1, 3) { NodeId::MidiCC(i).inp_param("slew").unwrap().denorm(0.2) } else { 0.0 };
        nodes.push((NodeId::MidiCC(i), Nd::C { chan: r.range(chb, chb + chans - 1) as u8, cc: [o, o + 1, o + 2], slew, tgt: [0.0; 3], cur: [0.0; 3] }));
    }
    ST.init(St { sr, idx: vec![], cands: vec![Cand { inj: 0, fed: 0, nodes: nodes.iter().map(|n| n.1.clone()).collect() }], timed: vec![], inj: vec![], loose: false, skip: true, noecho: false, echo: vec![] });
    HOST.with(|h| { h.keep = false; h.on_exec = Some(Box::new(on_exec)); });
    let audio = spawn_audio(exec, AudioCfg { sr, min: c.c("bmin") as usize, max: c.c("bmax") as usize, seed: c.seed ^ 5, sleep: true });
    wait_blocks(2);
    place(&mut m, &nodes);
    wait_blocks(3);
    ST.with(|s| s.skip = false);
    let mut uid = 0u32;
    let mut uniq = move || { uid += 1; (uid % 8191 + 1) as f32 / 8192.0 };
    let mut extra = 0u8;
    for o in &c.ops {
        let mut t = Tok::new(o);
        match t.s() {
            "midi" => {
                let (n, sp, mut r) = (t.u(), t.u().max(1), Rng::new(t.u() as u64));
                // the observer can not miss events as long as fewer than 512 are waiting
                op("poll", || m.handle_graph_events());
                let pending = || ST.with(|s| s.timed.len() - s.cands.iter().map(|c| c.fed).min().unwrap());
                let mut g = 0;
                while pending() > 0 && pending() + n > 300 { wait_blocks(1); op("poll", || m.handle_graph_events()); g += 1; if g > 200_000 { rt::fail("midi-lost", "events are not delivered"); } }
                if n > 300 { ST.with(|s| s.noecho = true); rt::count("fault_midi_storm", 1); }
                let evs: Vec<HxMidiEvent> = (0..n).map(|_| event(&mut r, (chb, nb, cb), chans, uniq())).collect();
                HOST.with(|h| {
                    let mut f = h.midi.last().map(|e| e.0).unwrap_or(0).max(h.frames + 256);
                    ST.with(|s| for e in &evs { f += r.below(sp) as u64; h.midi.push((f, HxTimedEvent::new_timed(0, *e))); s.timed.push((f, *e)); });
                });
                rt::count("op_midi", n as u64);
            }
            "inject" => {
                let (n, mut r) = (t.u(), Rng::new(t.u() as u64));
                let mut g = 0;
                while ST.with(|s| { let k = s.cands.iter().map(|c| c.inj).min().unwrap(); s.inj.len() - k }) + n > 60 { wait_blocks(1); op("poll", || m.handle_graph_events()); g += 1; if g > 2000 { rt::fail("midi-lost", "injected events are not delivered"); } }
                for _ in 0..n {
                    let e = event(&mut r, (chb, nb, cb), chans, uniq());
                    rt::atomically(|| { let k = HOST.with(|h| h.ops_started) + 1; ST.with(|s| s.inj.push((k, e))); });
                    op("inject", || m.inject_midi_event(e));
                }
                rt::count("op_inject", n as u64);
            }
            "sync" => {
                let mut r = Rng::new(t.u() as u64);
                extra = (extra + 1) % 4;
                for x in 0..7 { let n = if r.chance(1, 2) { NodeId::Amp(extra) } else { NodeId::Nop }; m.place(x, 2, Cell::empty(n)); }
                op("sync", || m.sync().unwrap());
            }
            "sleep" => rt::sleep_us(t.u() as u64),
            "poll" => op("poll", || m.handle_graph_events()),
            "stall" => { let ns = t.u() as u64 * 1000; HOST.with(|h| h.cmds.push(Cmd::Stall(ns))); }
            "flood" => {
                let (n, mut r) = (t.u(), Rng::new(t.u() as u64));
                settle(&mut m);
                ST.with(|s| s.loose = true);
                HOST.with(|h| h.paused = true);
                rt::count("fault_queue_flood", 1);
                let p = NodeId::Amp(9).inp_param("gain").unwrap();
                let at = r.below(n);
                for i in 0..n {
                    op("param", || m.set_param(p, SAtom::param((i % 100) as f32 / 100.0)));
                    if i >= at && i < at + 20 {
                        let e = event(&mut r, (chb, nb, cb), chans, uniq());
                        rt::atomically(|| { let k = HOST.with(|h| h.ops_started) + 1; ST.with(|s| s.inj.push((k, e))); });
                        op("inject", || m.inject_midi_event(e));
                    }
                }
                HOST.with(|h| h.paused = false);
                settle(&mut m);
                ST.with(|s| s.loose = false);
            }
            _ => {
                settle(&mut m);
                ST.with(|s| s.skip = true);
                op("clear", || m.clear());
                place(&mut m, &nodes);
                wait_blocks(3);
                ST.with(|s| { let (i, f) = (s.inj.len(), s.timed.len()); s.cands = vec![Cand { inj: i, fed: f, nodes: nodes.iter().map(|n| n.1.fresh()).collect() }]; s.skip = false; });
            }
        }
    }
    settle(&mut m);
    wait_blocks(2);
    op("poll", || m.handle_graph_events());
    let _ = audio.stop();
    op("poll", || m.handle_graph_events());
    // the observer saw each event once, in order: its list is a merge of both sources
    ST.with(|s| {
        let (a, b): (Vec<_>, Vec<_>) = (s.inj.iter().map(|x| x.1).collect(), s.timed.iter().map(|x| x.1).collect());
        if s.noecho { return; }
        rt::count("checks", s.echo.len() as u64);
        if s.echo.len() != a.len() + b.len() { rt::fail("midi-echo", format!("{} events were played, {} were reported to the observer", a.len() + b.len(), s.echo.len())); }
        let mut fr: Vec<usize> = vec![0]; // number of injected events so far
        for (k, e) in s.echo.iter().enumerate() {
            let mut nx = vec![];
            for i in fr {
                let j = k - i;
                if i < a.len() && same(&a[i], e) && !nx.contains(&(i + 1)) { nx.push(i + 1); }
                if j < b.len() && same(&b[j], e) && !nx.contains(&i) { nx.push(i); }
            }
            if nx.is_empty() { rt::fail("midi-echo", format!("event {} reported to the observer is out of order, lost or doubled: {:?}", k, e)); }
            fr = nx;
        }
    });
}
