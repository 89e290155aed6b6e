//! Random patch contents: cells, parameters, patterns, block functions, properties.
use crate::rng::Rng;
use hexodsp::dsp::tracker::UIPatternModel;
use hexodsp::matrix::{Cell, Matrix};
use hexodsp::*;
use serde_json::Value;

pub const NODES: &[&str] = &["amp", "mix3", "mux9", "smap", "map", "quant", "cqnt", "tseq", "code", "rust1x1", "sampl", "sin", "bosc", "vosc", "bowstri", "midip", "midicc", "exta", "extb", "extc", "extd", "exte", "extf", "inp", "out", "fbwr", "fbrd", "scope", "ad", "adsr", "tslfo", "rndwk", "delay", "allp", "comb", "noise", "formfm", "sfilter", "fvafilt", "biqfilt", "pverb", "test"];

pub fn node(name: &str, inst: u8) -> NodeId { NodeId::from_str(name).to_instance(inst as usize) }
pub fn n_in(n: NodeId) -> usize { (0..40).take_while(|i| n.inp_param_by_idx(*i).is_some()).count() }
pub fn n_out(n: NodeId) -> usize { (0..40u8).take_while(|i| n.out_name_by_idx(*i).is_some()).count() }
/// All parameters (inputs first, then atoms).
pub fn params(n: NodeId) -> Vec<ParamId> {
    let mut v: Vec<ParamId> = (0..40).filter_map(|i| n.inp_param_by_idx(i)).collect();
    for i in 0..40 { if let Some(p) = n.atom_param_by_idx(i) { v.push(p); } }
    v
}
/// Nodes left out in this run (one simulated run is one process).
pub static NO_BLOCKS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub static NO_FVA: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn rand_node(r: &mut Rng) -> NodeId {
    let mut nm = *r.pick(NODES);
    if nm == "fvafilt" && NO_FVA.load(std::sync::atomic::Ordering::Relaxed) { nm = "sfilter"; }
    let inst = if matches!(nm, "out") { 0 } else { r.below(3) as u8 };
    node(nm, inst)
}
/// A cell with random, distinct ports.
pub fn rand_cell(r: &mut Rng, n: NodeId) -> Cell {
    let (ni, no) = (n_in(n), n_out(n));
    let mut i = [None; 3];
    let mut o = [None; 3];
    let mut used = vec![];
    for d in 0..3 {
        if ni > 0 && r.chance(2, 3) { let k = r.below(ni) as u8; if !used.contains(&k) { used.push(k); i[d] = Some(k); } }
        if no > 0 && r.chance(2, 3) { o[d] = Some(r.below(no) as u8); }
    }
    Cell::empty(n).input(i[0], i[1], i[2]).out(o[0], o[1], o[2])
}
pub fn rand_value(r: &mut Rng, p: &ParamId) -> SAtom {
    if p.is_atom() {
        let def = p.as_atom_def();
        match def {
            SAtom::AudioSample(_) => SAtom::audio_unloaded(*r.pick(&["", "kick.wav", "dir/loop 1.wav", "\u{fc}ml\u{e4}ut \"q\".wav"])),
            SAtom::Param(_) => SAtom::param(r.range(0, 100) as f32 / 100.0),
            SAtom::Setting(_) => { let (a, b) = p.setting_min_max().unwrap_or((0, 1)); if b > a { SAtom::setting(r.range(a, b)) } else { SAtom::setting(r.range(0, 4095)) } }
            d => d,
        }
    } else {
        let ((a, b), _) = p.param_min_max().unwrap_or(((0.0, 1.0), (0.0, 0.0)));
        SAtom::param(a + (b - a) * r.range(0, 100) as f32 / 100.0)
    }
}
pub const PROPS: &[&str] = &["a", "b", "\u{fc}", "", "long key with \"quotes\""];
pub fn rand_atom(r: &mut Rng) -> SAtom {
    match r.below(5) {
        0 => SAtom::setting(r.range(-1_000_000_000_000, 1_000_000_000_000)),
        1 => SAtom::param(r.range(-10000, 10000) as f32 / 128.0),
        2 => SAtom::str(r.pick(&["", "a", "\u{1F3B9} \"x\"\n\\", "long long text with spaces"])),
        3 => SAtom::audio_unloaded(r.pick(&["", "x.wav"])),
        _ => { let n = if r.chance(3, 4) { 8 } else { r.range(1, 12) as usize }; let v: Vec<f32> = (0..n).map(|_| r.range(-100, 100) as f32 / 64.0).collect(); SAtom::micro(&v) }
    }
}
pub const BLOCKS: &[(&str, Option<&str>)] = &[("zero", None), ("\u{3c0}", None), ("value", Some("0.25")), ("value", Some("3.5")), ("->", None), ("->2", None), ("->3", None), ("set", Some("&sig1")), ("set", Some("&sig2")), ("set", Some("*a")), ("get", Some("in1")), ("get", Some("*a")), ("get", Some("alpha")), ("if", None), ("+", None), ("*", None), ("-", None), ("accum", None), ("s&h~", None), ("/%", None), ("phase", None)];

/// One random edit of the patch. Returns a short description.
pub fn edit(m: &mut Matrix, r: &mut Rng, w: usize, h: usize) -> &'static str {
    match r.weighted(&[30, 25, 10, 6, 14, 10, 5]) {
        0 => {
            let n = rand_node(r);
            let c = rand_cell(r, n);
            let (x, y) = (r.below(w), r.below(h));
            let _ = m.change_matrix(|m| m.place(x, y, c));
            let _ = m.sync();
            "cell"
        }
        1 => {
            let n = if r.chance(1, 5) { rand_node(r) } else { let mut v = vec![]; m.for_each(|_, _, c| if !c.is_empty() { v.push(c.node_id()) }); if v.is_empty() { rand_node(r) } else { *r.pick(&v) } };
            let ps = params(n);
            if !ps.is_empty() { let p = *r.pick(&ps); let v = rand_value(r, &p); m.set_param(p, v); }
            "param"
        }
        2 => {
            let n = { let mut v = vec![]; m.for_each(|_, _, c| if !c.is_empty() { v.push(c.node_id()) }); if v.is_empty() { rand_node(r) } else { *r.pick(&v) } };
            let ni = n_in(n);
            if ni > 0 { let p = n.inp_param_by_idx(r.below(ni)).unwrap(); let a = if r.chance(1, 4) { None } else { Some(r.range(-100, 100) as f32 / 100.0) }; let _ = m.set_param_modamt(p, a); }
            "modamt"
        }
        3 => { let k = *r.pick(PROPS); let a = rand_atom(r); m.set_prop(k, a); "prop" }
        4 => {
            let id = match r.below(30) { 0 => 126 + r.below(3), 1 | 2 => *r.pick(&[5, 15, 16, 17, 31, 32, 33, 63, 64, 90]), _ => r.below(3) };
            if let Some(pd) = m.get_pattern_data(id) {
                let mut pd = pd.lock().unwrap();
                for _ in 0..r.range(1, 6) { pattern_edit(&mut *pd, r); }
            }
            if r.chance(2, 3) { for _ in 0..8 { m.check_pattern_data(id); } }
            "pattern"
        }
        5 => {
            let id = r.below(3);
            if NO_BLOCKS.load(std::sync::atomic::Ordering::Relaxed) { return "block"; }
            if let Some(bf) = m.get_block_function(id) {
                let mut bf = bf.lock().unwrap();
                for _ in 0..r.range(1, 4) {
                    let (b, u) = *r.pick(BLOCKS);
                    let (x, y) = (r.range(0, 7), r.range(0, 7));
                    if r.chance(1, 5) { let _ = bf.remove_at(0, x, y); } else { let _ = bf.instanciate_at(0, x, y, b, u.map(|s| s.to_string())); }
                    bf.recalculate_area_sizes();
                }
            }
            if r.chance(1, 2) { let _ = m.check_block_function(id); }
            "block"
        }
        _ => { let (x, y) = (r.below(w), r.below(h)); m.place(x, y, Cell::empty(NodeId::Nop)); let _ = m.sync(); "empty" }
    }
}
pub fn pattern_edit(pd: &mut dyn UIPatternModel, r: &mut Rng) {
    let col = r.below(6);
    match r.below(9) {
        0 => pd.set_rows(if r.chance(1, 4) { *r.pick(&[0, 0, 1, 255, 256, 1000]) } else { r.range(1, 256) as usize }),
        1 => pd.set_col_note_type(col),
        2 => pd.set_col_step_type(col),
        3 => pd.set_col_value_type(col),
        4 => pd.set_col_gate_type(col),
        5 => pd.clear_cell(r.below(16), col),
        6 => { pd.set_cursor(r.below(256), r.below(6)); pd.set_edit_step(r.below(17)); }
        _ => { let v = if r.chance(1, 8) { r.below(0x10000) } else { r.below(0x1000) } as u16; pd.set_cell_value(if r.chance(1, 4) { r.below(256) } else { r.below(16) }, col, v); let _ = pd.get_cell(r.below(16), col).map(|s| s.len()); }
    }
}

/// The patch as a canonical JSON value.
pub fn canon_text(t: &str) -> Value {
    let mut v: Value = serde_json::from_str(t).unwrap_or(Value::Null);
    if let Some(Value::Array(bf)) = v.get_mut("block_funs") {
        for b in bf.iter_mut() {
            let mut empty = true;
            if let Some(Value::Array(areas)) = b.get_mut("areas") {
                for a in areas.iter_mut() {
                    if let Some(Value::Array(bl)) = a.get_mut("blocks") {
                        if !bl.is_empty() { empty = false; }
                        bl.sort_by_key(|x| (x["x"].as_i64().unwrap_or(0), x["y"].as_i64().unwrap_or(0)));
                    }
                }
            }
            // a block function without any block is as good as none
            if empty { *b = Value::Null; }
        }
        while bf.last() == Some(&Value::Null) { bf.pop(); }
    }
    if let Some(Value::Array(p)) = v.get_mut("patterns") { while p.last() == Some(&Value::Null) { p.pop(); } }
    v
}
pub fn canon(m: &mut Matrix) -> Value { canon_text(std::str::from_utf8(&save_patch_to_mem(m)).unwrap()) }
/// The first difference between two patches.
pub fn diff(a: &Value, b: &Value, path: &str, tol: f64) -> Option<String> {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => {
            let (x, y) = (x.as_f64().unwrap_or(0.0), y.as_f64().unwrap_or(0.0));
            if x == y || (tol > 0.0 && path.starts_with(".params") && (x - y).abs() <= tol * (1.0 + x.abs().max(y.abs()))) { None } else { Some(format!("{}: {} / {}", path, x, y)) }
        }
        (Value::Array(x), Value::Array(y)) => {
            if x.len() != y.len() { return Some(format!("{}: {} / {} entries: {:.200} / {:.200}", path, x.len(), y.len(), a.to_string(), b.to_string())); }
            x.iter().zip(y).enumerate().find_map(|(i, (p, q))| diff(p, q, &format!("{}[{}]", path, i), tol))
        }
        (Value::Object(x), Value::Object(y)) => {
            for k in x.keys().chain(y.keys()) {
                match (x.get(k), y.get(k)) { (Some(p), Some(q)) => if let Some(d) = diff(p, q, &format!("{}.{}", path, k), tol) { return Some(d); }, (p, q) => return Some(format!("{}.{}: {:?} / {:?}", path, k, p, q)) }
            }
            None
        }
        _ => if a == b { None } else { Some(format!("{}: {:.200} / {:.200}", path, a.to_string(), b.to_string())) },
    }
}
