//! P07: the pattern the UI shows is the pattern that plays.
use super::world::*;
use crate::case::{Case, Tok};
use crate::rng::Rng;
use crate::rt;
use crate::runner::PropDef;
use hexodsp::dsp::tracker::UIPatternModel;
use hexodsp::matrix::{Cell, Matrix};
use hexodsp::*;

pub const DEF: PropDef = PropDef {
    id: "P07", gen, run, quick: 1200, thorough: 60000,
    rule: "one evaluation = one tracker column compared over one audio block with the reference pattern model; a run is distinct by (state history hash, interleaving hash)",
    real: super::REAL_ENGINE, stub: super::STUB_ENGINE,
    assumptions: &["the UI calls check_pattern_data regularly, as documented", "samples closer than 1e-3 rows to a row boundary are not compared", "gate outputs of value columns are not compared (their meaning is not documented)"],
};

const COLS: usize = 6;
#[derive(Clone, Copy, PartialEq, Debug)]
enum Ty { Value, Note, Step, Gate }
/// The UI side of one pattern.
#[derive(Clone)]
struct Pat { ty: [Ty; COLS], data: Vec<[Option<u16>; COLS]>, rows: usize }
impl Pat { fn new() -> Self { Pat { ty: [Ty::Value; COLS], data: vec![[None; COLS]; 256], rows: 256 } } }
/// What one column has to play.
#[derive(Clone, PartialEq)]
struct Col { ty: Ty, cells: Vec<Option<u16>>, rows: usize }
struct Tr {
    pat: Pat,
    /// versions of each column, oldest first; a block plays one of them
    vers: Vec<Vec<Col>>,
    rows: Vec<usize>,
    /// index of the version that played last
    at: [usize; COLS],
    at_rows: [usize; COLS],
    settled: bool,
    idx: usize,
}
struct St { tr: Vec<Tr>, probe_idx: usize, skip: bool, nodes: usize }
static ST: Shared<St> = Shared::new();

fn col(p: &Pat, c: usize) -> Col { Col { ty: p.ty[c], cells: (0..256).map(|r| p.data[r][c]).collect(), rows: p.rows } }
/// the control value a row holds (value, whether a cell is set in it)
fn row_value(c: &Col, row: usize) -> (f32, bool) {
    let set = c.cells[row].is_some();
    match c.ty {
        Ty::Note => {
            let v = (0..=row).rev().find_map(|r| c.cells[r]).map(|v| ((v as i32 - 69) as f32 * 0.1 / 12.0).clamp(-1.0, 1.0)).unwrap_or(0.0);
            (v, set)
        }
        Ty::Step => ((0..=row).rev().find_map(|r| c.cells[r]).map(|v| (v & 0xFFF) as f32 / 4095.0).unwrap_or(0.0), set),
        Ty::Value => {
            let f = |v: u16| (v & 0xFFF) as f32 / 4095.0;
            if row >= c.rows { return (f32::NAN, set); }
            if let Some(v) = c.cells[row] { return (f(v), set); }
            if row == c.rows - 1 { return (0.0, set); }
            // linear between the previous and the next set row; 0 at the edges
            let (pi, pv) = (0..row).rev().find_map(|r| c.cells[r].map(|v| (r, f(v)))).unwrap_or((0, 0.0));
            let (ni, nv) = (row + 1..c.rows).find_map(|r| c.cells[r].map(|v| (r, f(v)))).unwrap_or((c.rows - 1, 0.0));
            let x = (row - pi) as f32 / (ni - pi) as f32;
            (if pi == row { pv } else { pv * (1.0 - x) + nv * x }, set)
        }
        Ty::Gate => (0.0, set),
    }
}
/// Expected (value, gate) of one sample; None: not specified. Gate columns with a probability may also be silent.
fn expect(c: &Col, rows: usize, phase: f32, cache: &mut Vec<Option<(f32, bool)>>) -> Option<(f32, Option<f32>, bool)> {
    let rp = phase * (rows as f32 - 0.00001);
    let fr = rp.fract();
    if fr < 1e-3 || fr > 0.999 { return None; }
    let line = rp.floor() as usize % rows;
    let mut rv = |r: usize| { if cache[r].is_none() { cache[r] = Some(row_value(c, r)); } cache[r].unwrap() };
    match c.ty {
        Ty::Note | Ty::Step => { let (v, s) = rv(line); Some((v, Some(s as u8 as f32), false)) }
        Ty::Value => {
            let prev = if line == 0 { rows - 1 } else { line - 1 };
            let (a, b) = (rv(prev).0, rv(line).0);
            if !a.is_finite() || !b.is_finite() { return None; }
            Some((a * (1.0 - fr) + b * fr, None, false))
        }
        Ty::Gate => {
            let Some(g) = c.cells[line] else { return Some((0.0, Some(0.0), false)) };
            if g & 0xF000 != 0 { return Some((0.0, Some(0.0), false)); }
            let pw = ((g & 0xF) + 1) as f32 / 16.0;
            let div = (16 - ((g >> 4) & 0xF)) as f32;
            let sub = (fr * div).fract();
            if (sub - pw).abs() < 5e-3 || sub < 5e-3 || (sub > 0.995 && pw < 1.0) { return None; }
            Some((if sub <= pw { 1.0 } else { 0.0 }, Some(1.0), (g >> 8) & 0xF != 0xF))
        }
    }
}
fn plays(c: &Col, rows: usize, ph: &[f32], v: &[f32], g: &[f32]) -> Result<usize, String> {
    let mut cache = vec![None; 256];
    let mut n = 0;
    for i in 0..ph.len() {
        if rows == 0 { if v[i] != 0.0 || g[i] != 0.0 { return Err("output without rows".into()); } n += 1; continue; }
        let Some((ev, eg, maybe)) = expect(c, rows, ph[i], &mut cache) else { continue };
        n += 1;
        if let Some(eg) = eg { if g[i] != eg { return Err(format!("gate {} instead of {} at phase {} ({:?} column, {} rows)", g[i], eg, ph[i], c.ty, rows)); } }
        if (v[i] - ev).abs() > 2e-3 && !(maybe && v[i] == 0.0) { return Err(format!("{} instead of {} at phase {} ({:?} column, {} rows)", v[i], ev, ph[i], c.ty, rows)); }
    }
    Ok(n)
}

fn on_exec(exec: &mut hexodsp::nodes::NodeExecutor, b: &Blk) {
    ST.with(|st| {
        if st.skip { return; }
        let pi = st.probe_idx;
        let Some(ph) = node_out(exec, pi, 0, b.n) else { return };
        for (t, tr) in st.tr.iter_mut().enumerate() {
            for c in 0..COLS {
                let (Some(v), Some(g)) = (node_out(exec, tr.idx, c, b.n), node_out(exec, tr.idx, COLS + c, b.n)) else { continue };
                if tr.settled {
                    rt::count("checks", 1);
                    let last = tr.vers[c].last().unwrap();
                    match plays(last, tr.pat.rows, &ph, &v, &g) {
                        Ok(n) => rt::count("probe_samples", n as u64),
                        Err(e) => rt::fail("pattern", format!("tracker {} column {} plays {}, long after the last edit", t, c, e)),
                    }
                    continue;
                }
                // some version, not older than what played before, with some number of rows used so far
                let mut ok = false;
                let mut err = String::new();
                'o: for vi in tr.at[c]..tr.vers[c].len() {
                    let last_rows = tr.at_rows[c];
                    for rw in std::iter::once(last_rows).chain(tr.rows.iter().rev().copied()) {
                        match plays(&tr.vers[c][vi], rw, &ph, &v, &g) {
                            Ok(_) => { tr.at[c] = vi; tr.at_rows[c] = rw; ok = true; break 'o; }
                            Err(e) => if err.is_empty() { err = e; },
                        }
                    }
                }
                rt::count("checks", 1);
                rt::count("probe_moving", 1);
                if !ok { rt::fail("pattern-mix", format!("tracker {} column {} plays something no version of the pattern since the last played one holds: {}", t, c, err)); }
                rt::state(tr.at[c] as u64 + 1000 * (c as u64 + 6 * t as u64));
            }
        }
    })
}

fn gen(c: &mut Case, r: &mut Rng) {
    let (a, b) = *r.pick(&[(128, 128), (32, 128), (64, 64), (16, 100)]);
    c.set("bmin", a); c.set("bmax", b);
    let nt = r.range(1, 2);
    c.set("trackers", nt);
    c.set("gui", r.below(2) as i64);
    let rows = *r.pick(&[1, 2, 4, 8, 16, 16, 64, 255, 256]);
    let n = r.range(8, 40);
    let stalls = r.chance(1, 3);
    let clears = r.chance(1, 4);
    for t in 0..nt { if r.chance(4, 5) { c.op(format!("rows {} {}", t, rows)); } }
    let single = r.chance(1, 3);
    let n = if single { r.range(3, 14) } else { n };
    for _ in 0..n {
        // an edit on its own has to arrive too
        if single && r.chance(2, 3) { c.op("settle"); }
        let t = r.range(0, nt - 1);
        let cl = r.below(COLS);
        match r.weighted(&[40, 6, 8, 8, 30, 10, if stalls { 6 } else { 0 }, if clears { 3 } else { 0 }, 6, 3]) {
            0 => {
                let row = if r.chance(1, 6) { r.below(256) as i64 } else { r.range(0, rows - 1) };
                let v = match r.below(5) { 4 => *r.pick(&[0, 0, 0xFFF, 1, 0x1000, 0xFFFF]), 0 => r.range(0, 127), 1 => r.range(0, 0xFFF), 2 => 0xF00 | r.range(0, 255), _ => if r.chance(1, 6) { r.range(0, 0xFFFF) } else { r.range(0, 0xFFF) } };
                c.op(format!("cell {} {} {} {}", t, row, cl, v));
            }
            1 => { let row = r.range(0, rows - 1); c.op(format!("del {} {} {}", t, row, cl)); }
            2 => { let ty = r.below(4); c.op(format!("type {} {} {}", t, cl, ty)); }
            3 => { let rw = *r.pick(&[0, 1, 2, 3, 4, 7, 16, 100, 255, 256]); c.op(format!("rows {} {}", t, rw)); }
            4 => { c.op(format!("check {}", t)); }
            5 => { let us = *r.pick(&[300, 3000, 9000]); c.op(format!("sleep {}", us)); }
            6 => { let us = r.range(5000, 300000); c.op(format!("stall {}", us)); let k = r.range(10, 90); let s = r.u64() % 100000; c.op(format!("storm {} {} {}", t, k, s)); }
            7 => c.op("clear"),
            8 => { let k = r.range(3, 12); let s = r.u64() % 100000; c.op(format!("fill {} {} {}", t, k, s)); }
            _ => c.op("sync"),
        }
    }
}

fn record(t: usize, cols: &[usize]) {
    ST.with(|st| {
        let tr = &mut st.tr[t];
        tr.settled = false;
        for &c in cols { let v = col(&tr.pat, c); if tr.vers[c].last() != Some(&v) { tr.vers[c].push(v); } }
        let rw = tr.pat.rows;
        if !tr.rows.contains(&rw) { tr.rows.push(rw); }
        // the comparison stays cheap: forget versions that were certainly overwritten
    })
}
type PD = std::sync::Arc<std::sync::Mutex<hexodsp::dsp::tracker::PatternData>>;
fn edit(pd: &PD, t: usize, what: &str, a: &[i64]) {
    let mut g = pd.lock().unwrap();
    let cols: Vec<usize> = match what {
        "cell" => { let (row, c, v) = (a[0] as usize % 256, a[1] as usize % COLS, a[2] as u16); ST.with(|s| s.tr[t].pat.data[row][c] = Some(v)); record(t, &[c]); g.set_cell_value(row, c, v); return; }
        "del" => { let (row, c) = (a[0] as usize % 256, a[1] as usize % COLS); ST.with(|s| s.tr[t].pat.data[row][c] = None); record(t, &[c]); g.clear_cell(row, c); return; }
        "type" => {
            let (c, ty) = (a[0] as usize % COLS, [Ty::Value, Ty::Note, Ty::Step, Ty::Gate][a[1] as usize % 4]);
            ST.with(|s| s.tr[t].pat.ty[c] = ty); record(t, &[c]);
            match ty { Ty::Value => g.set_col_value_type(c), Ty::Note => g.set_col_note_type(c), Ty::Step => g.set_col_step_type(c), Ty::Gate => g.set_col_gate_type(c) }
            return;
        }
        _ => { let r = (a[0] as usize).min(256); ST.with(|s| s.tr[t].pat.rows = r); g.set_rows(r); (0..COLS).collect() }
    };
    record(t, &cols);
}

fn place(m: &mut Matrix, nt: usize) {
    m.place(0, 0, Cell::empty(NodeId::Rust1x1(0)).out(None, None, Some(0)));
    for t in 0..nt {
        let ts = NodeId::TSeq(t as u8);
        if t == 0 { m.place(0, 1, Cell::empty(ts).input(ts.inp("clock"), None, None)); }
        else { m.place(2, t * 2 - 1, Cell::empty(NodeId::Rust1x1(0)).out(None, None, Some(0))); m.place(2, t * 2, Cell::empty(ts).input(ts.inp("clock"), None, None)); }
        m.set_param(ts.inp_param("cmode").unwrap(), SAtom::setting(2));
    }
    op("sync", || m.sync().unwrap());
    m.set_dynamic_node1x1(0, Box::new(move |_i: &[f32], out: &mut [f32], _c: &DynNode1x1Context| {
        let f = frames();
        for (k, o) in out.iter_mut().enumerate() {
            let mut z = (f + k as u64).wrapping_mul(0x9E3779B97F4A7C15);
            z = (z ^ (z >> 29)).wrapping_mul(0xBF58476D1CE4E5B9);
            *o = ((z >> 40) as f32) / 16777216.0;
        }
    }));
    ST.with(|st| {
        st.probe_idx = m.unique_index_for(&NodeId::Rust1x1(0)).unwrap();
        for t in 0..nt { st.tr[t].idx = m.unique_index_for(&NodeId::TSeq(t as u8)).unwrap(); }
    });
}

fn settle(m: &mut Matrix, nt: usize, blocks: usize) {
    for _ in 0..COLS + 1 { for t in 0..nt { op("check", || m.check_pattern_data(t)); } wait_blocks(1); }
    wait_blocks(66);
    for _ in 0..COLS + 1 { for t in 0..nt { op("check", || m.check_pattern_data(t)); } wait_blocks(1); }
    wait_blocks(3);
    ST.with(|s| for t in s.tr.iter_mut() { for c in 0..COLS { t.at[c] = t.vers[c].len() - 1; t.at_rows[c] = t.pat.rows; } t.settled = true; });
    wait_blocks(blocks);
}

fn run(c: &Case) {
    host_init();
    let nt = c.c("trackers").max(1) as usize;
    let (conf, mut exec) = new_node_engine();
    exec.no_logging();
    let mut m = Matrix::new(conf, 4, 6);
    ST.init(St { tr: (0..nt).map(|_| { let p = Pat::new(); Tr { vers: (0..COLS).map(|k| vec![col(&p, k)]).collect(), rows: vec![256], pat: p, at: [0; COLS], at_rows: [256; COLS], settled: false, idx: 0 } }).collect(), probe_idx: 0, skip: false, nodes: nt });
    place(&mut m, nt);
    HOST.with(|h| { h.keep = false; h.on_exec = Some(Box::new(on_exec)); });
    let audio = spawn_audio(exec, AudioCfg { sr: 44100.0, min: c.c("bmin") as usize, max: c.c("bmax") as usize, seed: c.seed ^ 5, sleep: true });
    wait_blocks(2);
    let pds: Vec<PD> = (0..nt).map(|t| m.get_pattern_data(t).unwrap()).collect();
    // edits come from the same thread, or from a GUI thread of their own
    let (tx, rx) = std::sync::mpsc::channel::<Vec<(String, usize, Vec<i64>)>>();
    let gui = if c.c("gui") != 0 {
        let pds = pds.clone();
        Some(std::thread::spawn(move || { rt::name("gui"); while let Ok(l) = rx.recv() { for (w, t, a) in l { if let Err(m) = rt::catch(|| edit(&pds[t], t, &w, &a)) { rt::fail("ui-panic", format!("pattern edit {} {:?} panicked: {}", w, a, m)); } rt::op_point(); } } }))
    } else { None };
    let act = |l: Vec<(String, usize, Vec<i64>)>| {
        if gui.is_some() { let _ = tx.send(l); } else { for (w, t, a) in l { op(&w, || edit(&pds[t], t, &w, &a)); } }
    };
    for o in &c.ops {
        let mut t = Tok::new(o);
        match t.s() {
            "check" => { let k = t.u() % nt; op("check", || m.check_pattern_data(k)); rt::count("op_check", 1); }
            "sleep" => rt::sleep_us(t.u() as u64),
            "stall" => { let ns = t.u() as u64 * 1000; HOST.with(|h| h.cmds.push(Cmd::Stall(ns))); }
            "storm" => {
                // edits and checks faster than the audio thread takes them
                let (k, n, mut r) = (t.u() % nt, t.u(), Rng::new(t.u() as u64));
                for _ in 0..n {
                    let cl = r.below(COLS) as i64;
                    act(vec![("cell".into(), k, vec![r.range(0, 7), cl, r.range(0, 0xFFF)])]);
                    op("check", || m.check_pattern_data(k));
                }
                rt::count("fault_update_storm", 1);
            }
            "fill" => {
                let (k, n, mut r) = (t.u() % nt, t.u(), Rng::new(t.u() as u64));
                let l = (0..n).map(|_| ("cell".to_string(), k, vec![r.range(0, 15), r.below(COLS) as i64, r.range(0, 0xFFF)])).collect();
                act(l);
            }
            "clear" => {
                // the nodes are deleted and created again, the patterns stay
                ST.with(|s| s.skip = true);
                op("clear", || m.clear());
                place(&mut m, nt);
                // until it is sent again the new tracker is empty
                wait_blocks(3);
                ST.with(|s| {
                    for t in s.tr.iter_mut() { for k in 0..COLS { let v = Col { ty: Ty::Value, cells: vec![None; 256], rows: 256 }; t.vers[k] = vec![v, col(&t.pat, k)]; } let rw = t.pat.rows; t.rows = vec![256, rw]; t.at = [0; COLS]; t.at_rows = [256; COLS]; t.settled = false; }
                    s.skip = false;
                });
                rt::count("op_recreate", 1);
            }
            "sync" => { op("sync", || m.sync().unwrap()); }
            "settle" => { if gui.is_none() { settle(&mut m, nt, 4); } }
            w => {
                let k = t.u() % nt;
                let a: Vec<i64> = (0..4).map(|_| t.i()).collect();
                act(vec![(w.to_string(), k, a)]);
                rt::count("op_edit", 1);
            }
        }
    }
    drop(tx);
    if let Some(g) = gui { let _ = g.join(); }
    // the UI keeps polling; every column has to arrive
    settle(&mut m, nt, 8);
    // what the UI shows is the same
    for t in 0..nt {
        let pat = ST.with(|s| s.tr[t].pat.clone());
        let mut g = pds[t].lock().unwrap();
        if g.rows() != pat.rows { rt::fail("ui-pattern", format!("pattern {} shows {} rows, set {}", t, g.rows(), pat.rows)); }
        for c in 0..COLS {
            if g.is_col_note(c) != (pat.ty[c] == Ty::Note) || g.is_col_gate(c) != (pat.ty[c] == Ty::Gate) || g.is_col_step(c) != (pat.ty[c] == Ty::Step) { rt::fail("ui-pattern", format!("column {} of pattern {} has another type", c, t)); }
            for r in 0..256 {
                let want = pat.data[r][c].map(|v| format!("{:03x}", v));
                let got = g.get_cell(r, c).map(|s| s.to_string());
                if got != want { rt::fail("ui-pattern", format!("pattern {} row {} column {} shows {:?}, set {:?}", t, r, c, got, want)); }
            }
        }
    }
    audio.stop();
}
