//! P04: saving a patch is atomic under crashes and I/O errors.
//! P05: loading a saved patch reproduces the saved state, whatever was loaded before.
//! P06: damaged patch files are refused or loaded, but never take the engine down.
use super::patch;
use super::world::*;
use crate::case::{Case, Tok};
use crate::rng::Rng;
use crate::rt;
use crate::runner::PropDef;
use hexodsp::matrix::Matrix;
use hexodsp::matrix_repr::MatrixDeserError;
use hexodsp::*;
use serde_json::{json, Value};

pub const P04: PropDef = PropDef {
    id: "P04", gen: gen4, run: run4, quick: 4000, thorough: 120000,
    rule: "one evaluation = one save, fault or crash followed by reading the patch file back and comparing it with the patches saved so far; a run is distinct by (state history hash, interleaving hash)",
    real: "Matrix, MatrixRepr, serde_json, std::fs (real code down to the libc calls)", stub: "the file system (simulated disk with a volatile cache, a journal of unsynced writes and directory operations)",
    assumptions: &["fsync makes the data and the directory entry of the file durable", "unsynced writes, truncations and renames can be lost, reordered or torn at a crash"],
};
pub const P05: PropDef = PropDef {
    id: "P05", gen: gen5, run: run5, quick: 2500, thorough: 60000,
    rule: "one evaluation = one saved patch loaded into another engine with its own history and compared completely (cells, parameters, modulation, atoms, patterns, block functions, properties)",
    real: super::REAL_ENGINE, stub: super::STUB_ENGINE,
    assumptions: &["parameter values go through denormalise/normalise: compared with a relative tolerance of 2e-3"],
};
pub const P06: PropDef = PropDef {
    id: "P06", gen: gen6, run: run6, quick: 2500, thorough: 60000,
    rule: "one evaluation = one damaged patch file loaded into a running engine, followed by audio blocks, UI calls and a good patch; a run is distinct by (state history hash, interleaving hash)",
    real: super::REAL_ENGINE, stub: super::STUB_ENGINE,
    assumptions: &["damage: truncation, byte flips, changed, removed, duplicated and wrongly typed JSON values, read errors and short reads"],
};

const W: usize = 6;
const H: usize = 6;
const F: &str = "/simdisk/p.hxy";

// ------------------------------------------------------------------ P04
fn gen4(c: &mut Case, r: &mut Rng) {
    c.pa = 0;
    let n = r.range(4, 14);
    for _ in 0..n {
        match r.weighted(&[20, 20, 8, 12, 8]) {
            0 => c.op(format!("edit {}", r.u64() % 1000000)),
            1 => c.op("save"),
            2 => { let k = *r.pick(&[1, 1, 2, 3]); let at = r.below(6); let e = *r.pick(&[5, 28, 4, 30]); c.op(format!("fault {} {} {}", k, at, e)); c.op("save"); }
            3 => { let at = r.below(7); let mode = r.below(4); c.op(format!("edit {}", r.u64() % 1000000)); c.op(format!("crash {} {} {}", at, mode, r.u64() % 100000)); c.op("save"); c.op("recover"); }
            _ => { let mode = r.below(4); c.op(format!("pull {} {}", mode, r.u64() % 100000)); c.op("recover"); }
        }
    }
    c.op("save");
    c.op("verify");
}
/// Keeps the engine of a crashed process: its threads are gone for the simulation's purpose.
fn run4(c: &Case) {
    host_init();
    let (conf, mut exec) = new_node_engine();
    exec.no_logging();
    let mut m = Matrix::new(conf, W, H);
    // contents the file may have after a crash; the last one is what a reader sees now
    let mut possible: Vec<Option<Value>> = vec![None];
    let mut visible: Option<Value> = None;
    let mut saves = 0u64;
    let verify = |possible: &mut Vec<Option<Value>>, visible: &mut Option<Value>, crashed: bool, what: &str| {
        rt::count("checks", 1);
        let got = match rt::disk::get(F) {
            None => None,
            Some(b) => match std::str::from_utf8(&b).ok().and_then(|s| serde_json::from_str::<Value>(s).ok().map(|_| patch::canon_text(s))) {
                Some(v) => Some(v),
                None => rt::fail("torn-patch", format!("{}: the patch file holds {} bytes that are no complete patch", what, b.len())),
            },
        };
        if crashed {
            if !possible.iter().any(|p| *p == got) { rt::fail("lost-patch", format!("{}: the patch file holds a state that is neither the last durable one nor one of the {} saved since", what, possible.len())); }
            *possible = vec![got.clone()];
            *visible = got;
        } else if got != *visible {
            rt::fail("lost-patch", format!("{}: the patch file does not hold the last successfully saved patch ({})", what, match (&got, &*visible) { (Some(a), Some(b)) => patch::diff(b, a, "", 0.0).unwrap_or_default(), (a, b) => format!("file: {}, expected: {}", a.is_some(), b.is_some()) }));
        }
        // and it can be loaded
        if visible.is_some() {
            match rt::catch(|| matrix_repr::MatrixRepr::read_from_file(F)) {
                Ok(Ok(_)) => {}
                Ok(Err(e)) => rt::fail("torn-patch", format!("{}: reading the patch back failed: {:?}", what, e)),
                Err(p) => rt::fail("ui-panic", p),
            }
        }
    };
    for o in &c.ops {
        let mut t = Tok::new(o);
        match t.s() {
            "edit" => { let mut r = Rng::new(t.u() as u64); for _ in 0..r.range(1, 6) { op("edit", || patch::edit(&mut m, &mut r, W, H)); } rt::count("op_edit", 1); }
            "fault" => { let (k, at, e) = (t.i() as i32, t.u() as u64, t.i() as i32); rt::disk::fault(rt::disk::ops() + at, k, e); }
            "crash" => { let (at, mode, s) = (t.u() as i64, t.i() as i32, t.u() as u64); rt::disk::crash_at(rt::disk::ops() as i64 + at, mode, s); }
            "pull" => { let (mode, s) = (t.i() as i32, t.u() as u64); rt::disk::crash_now(mode, s); }
            "save" => {
                if rt::disk::crashed() { continue; }
                saves += 1;
                m.set_prop("save", SAtom::setting(saves as i64));
                let now = patch::canon(&mut m);
                let r = op("save", || save_patch_to_file(&mut m, F));
                rt::disk::clear_faults();
                rt::count("op_save", 1);
                rt::state(saves ^ (r.is_ok() as u64) << 20 ^ (rt::disk::crashed() as u64) << 21);
                if rt::disk::crashed() { possible.push(Some(now)); rt::count("fault_crash_in_save", 1); continue; }
                match r {
                    Ok(()) => { visible = Some(now.clone()); possible.push(Some(now)); }
                    Err(_) => { rt::count("probe_save_error", 1); possible.push(Some(now)); }
                }
                verify(&mut possible, &mut visible, false, if saves > 0 { "after save" } else { "" });
            }
            "recover" => { if rt::disk::crashed() { rt::disk::recover(); verify(&mut possible, &mut visible, true, "after a crash"); } }
            "verify" => { if !rt::disk::crashed() { verify(&mut possible, &mut visible, false, "at the end"); } }
            _ => {}
        }
    }
    for i in 0..8 { let n = rt::disk::fired(i); if n > 0 { rt::count(["probe_0", "fault_io_error", "fault_short_io", "fault_half_io", "probe_fsync", "fault_process_crash", "fault_power_loss", "fault_torn_write"][i as usize], n); } }
    drop(exec);
}

// ------------------------------------------------------------------ P05
fn gen5(c: &mut Case, r: &mut Rng) {
    c.set("file", r.below(2) as i64);
    c.set("audio", r.below(2) as i64);
    let n = r.range(2, 5);
    for _ in 0..n {
        let who = r.below(2);
        for _ in 0..r.range(3, 25) { c.op(format!("edit {} {}", who, r.u64() % 1000000)); }
        match r.weighted(&[6, 2, 1, 2]) {
            0 => c.op(format!("transfer {}", r.below(2))),
            1 => c.op(format!("reload {}", r.below(2))),
            2 => c.op(format!("clear {}", r.below(2))),
            _ => c.op(format!("sleep {}", r.range(10, 5000))),
        }
    }
    c.op(format!("transfer {}", r.below(2)));
}
fn same_state(a: &mut Matrix, b: &mut Matrix, what: &str) {
    rt::count("checks", 1);
    let (va, vb) = (patch::canon(a), patch::canon(b));
    if let Some(d) = patch::diff(&va, &vb, "", 2e-3) { rt::fail("roundtrip", format!("{}: saved and loaded patch differ at {}", what, d)); }
    // through the API, not just as text
    for k in patch::PROPS {
        let (p, q) = (a.get_prop(k), b.get_prop(k));
        let eq = match (p, q) { (Some(SAtom::AudioSample((x, _))), Some(SAtom::AudioSample((y, _)))) => x == y, (x, y) => x == y };
        if !eq { rt::fail("roundtrip", format!("{}: the property {:?} is {:?}, saved was {:?}", what, k, q, p)); }
    }
    for x in 0..W { for y in 0..H {
        let (p, q) = (a.get_copy(x, y), b.get_copy(x, y));
        let f = |c: Option<Cell>| c.filter(|c| !c.is_empty()).map(|c| (c.node_id(), [CellDir::T, CellDir::TL, CellDir::BL, CellDir::TR, CellDir::BR, CellDir::B].map(|d| c.local_port_idx(d)), c.pos()));
        if f(p) != f(q) { rt::fail("roundtrip", format!("{}: cell {},{} is {:?}, saved was {:?}", what, x, y, f(q), f(p))); }
        if let Some(c) = p.filter(|c| !c.is_empty()) {
            for pid in patch::params(c.node_id()) {
                let (v, w) = (a.get_param(&pid), b.get_param(&pid));
                let eq = match (&v, &w) { (Some(SAtom::Param(x)), Some(SAtom::Param(y))) => { let (x, y) = (pid.denorm(*x), pid.denorm(*y)); (x - y).abs() <= 4e-3 * (1.0 + x.abs()) }, (Some(SAtom::AudioSample((x, _))), Some(SAtom::AudioSample((y, _)))) => x == y, (x, y) => x == y };
                if !eq { rt::fail("roundtrip", format!("{}: parameter {} of {:?} is {:?}, saved was {:?}", what, pid.name(), c.node_id(), w, v)); }
                if a.get_param_modamt(&pid) != b.get_param_modamt(&pid) { rt::fail("roundtrip", format!("{}: modulation of {} of {:?}", what, pid.name(), c.node_id())); }
            }
        }
    } }
    for id in [0, 1, 2, 5, 15, 16, 17, 31, 32, 33, 63, 64, 90, 126, 127, 128] {
        if id > 2 && !a.has_tracker(id) && !b.has_tracker(id) { continue; }
        let (p, q) = match (a.get_pattern_data(id), b.get_pattern_data(id)) { (Some(p), Some(q)) => (p, q), _ if id > 2 => continue, _ => panic!("harness: no pattern {}", id) };
        use hexodsp::dsp::tracker::UIPatternModel;
        let (mut p, mut q) = (p.lock().unwrap(), q.lock().unwrap());
        if p.is_unset() && q.is_unset() { continue; }
        for row in 0..256 { for col in 0..6 {
            let (s, t) = (p.get_cell(row, col).map(|s| s.to_string()), q.get_cell(row, col).map(|s| s.to_string()));
            if s != t { rt::fail("roundtrip", format!("{}: pattern {} shows {:?} at row {} column {}, saved was {:?}", what, id, t, row, col, s)); }
        } }
    }
}
fn run5(c: &Case) {
    host_init();
    let (conf_a, mut ea) = new_node_engine();
    let (conf_b, mut eb) = new_node_engine();
    ea.no_logging(); eb.no_logging();
    let mut ms = [Matrix::new(conf_a, W, H), Matrix::new(conf_b, W, H)];
    HOST.with(|h| h.keep = false);
    let audio = if c.c("audio") == 1 { Some(spawn_audio(eb, AudioCfg { sr: 44100.0, min: 64, max: 128, seed: c.seed, sleep: true })) } else { None };
    for o in &c.ops {
        let mut t = Tok::new(o);
        match t.s() {
            "edit" => { let w = t.u() % 2; let mut r = Rng::new(t.u() as u64); let k = op("edit", || patch::edit(&mut ms[w], &mut r, W, H)); rt::count(&format!("op_{}", k), 1); }
            "transfer" | "reload" => {
                let reload = o.starts_with("reload");
                let from = t.u() % 2;
                let file = c.c("file") == 1;
                let (x, y) = ms.split_at_mut(1);
                let (a, b) = if from == 0 { (&mut x[0], &mut y[0]) } else { (&mut y[0], &mut x[0]) };
                let before = patch::canon(a);
                let data = if file { op("save", || save_patch_to_file(a, F)).unwrap_or_else(|e| rt::fail("save", format!("{}", e))); vec![] } else { op("save", || save_patch_to_mem(a)) };
                if let Some(d) = patch::diff(&before, &patch::canon(a), "", 0.0) { rt::fail("roundtrip", format!("saving changed the patch: {}", d)); }
                if reload {
                    // loading into the very same engine
                    let r = op("load", || if file { load_patch_from_file(a, F) } else { load_patch_from_mem(a, &data) });
                    if let Err(e) = r { if !matches!(e, MatrixDeserError::MatrixError(_)) { rt::fail("roundtrip", format!("loading a saved patch failed: {:?}", e)); } }
                    if let Some(d) = patch::diff(&before, &patch::canon(a), "", 2e-3) { rt::fail("roundtrip", format!("reload: saved and loaded patch differ at {}", d)); }
                    rt::count("checks", 1);
                } else {
                    let r = op("load", || if file { load_patch_from_file(b, F) } else { load_patch_from_mem(b, &data) });
                    if let Err(e) = r { rt::fail("roundtrip", format!("loading a saved patch failed: {:?}", e)); }
                    same_state(a, b, "transfer");
                    // saving again gives the same patch
                    let again = op("save", || save_patch_to_mem(b));
                    if let Some(d) = patch::diff(&patch::canon(b), &patch::canon_text(std::str::from_utf8(&again).unwrap()), "", 0.0) { rt::fail("roundtrip", format!("unstable: {}", d)); }
                }
            }
            "clear" => { let w = t.u() % 2; op("clear", || ms[w].clear()); }
            "sleep" => rt::sleep_us(t.u() as u64),
            _ => {}
        }
        for m in ms.iter_mut() { m.update_filters(); }
    }
    if let Some(a) = audio { wait_frames(300); a.stop(); }
    drop(ea);
}

// ------------------------------------------------------------------ P06
fn gen6(c: &mut Case, r: &mut Rng) {
    c.set("file", r.below(2) as i64);
    for _ in 0..r.range(4, 16) { c.op(format!("edit {}", r.u64() % 1000000)); }
    for _ in 0..r.range(1, 4) { c.op(format!("damage {} {}", r.below(8), r.u64() % 1000000)); if r.chance(1, 2) { c.op(format!("edit {}", r.u64() % 1000000)); } }
}
fn paths(v: &Value, cur: Vec<String>, out: &mut Vec<Vec<String>>) {
    out.push(cur.clone());
    match v {
        Value::Array(a) => { let n = a.len(); for (i, x) in a.iter().enumerate() { if n > 40 && x.is_null() { continue; } if n > 40 && i > 6 && i < n - 2 && cur.iter().any(|c| c == "data") { continue; } let mut p = cur.clone(); p.push(i.to_string()); paths(x, p, out); } }
        Value::Object(o) => for (k, x) in o { let mut p = cur.clone(); p.push(k.clone()); paths(x, p, out); },
        _ => {}
    }
}
fn at<'a>(v: &'a mut Value, p: &[String]) -> Option<&'a mut Value> {
    let mut c = v;
    for k in p { c = match c { Value::Array(a) => a.get_mut(k.parse::<usize>().ok()?)?, Value::Object(o) => o.get_mut(k)?, _ => return None }; }
    Some(c)
}
fn odd_value(r: &mut Rng) -> Value {
    match r.below(19) {
        0 => Value::Null, 1 => json!(true), 2 => json!(-1), 3 => json!(0), 4 => json!(1), 5 => json!(255), 6 => json!(256), 7 => json!(1_000_000), 8 => json!(i64::MAX), 9 => json!(i64::MIN),
        10 => json!(1e300), 11 => json!(-0.5), 12 => json!("x"), 13 => json!([]), 14 => json!({}), 15 => json!(32), 16 => json!(r.below(300)), 17 => json!(-2), _ => json!([1, "a", null]),
    }
}
fn damage(text: &[u8], kind: usize, r: &mut Rng) -> Vec<u8> {
    match kind {
        0 => { let n = r.below(text.len() + 1); text[..n].to_vec() }
        1 => { let mut t = text.to_vec(); for _ in 0..r.range(1, 4) { let i = r.below(t.len()); t[i] ^= 1 << r.below(8); } t }
        2 => { let mut t = text.to_vec(); let i = r.below(t.len()); let n = r.below(600).min(t.len() - i); for b in &mut t[i..i + n] { *b = 0; } t }
        _ => {
            let Ok(mut v) = serde_json::from_slice::<Value>(text) else { return text.to_vec() };
            for _ in 0..r.range(1, 3) {
                let mut ps = vec![];
                paths(&v, vec![], &mut ps);
                // sections first, so that small ones are met as often as big ones
                let sec = *r.pick(&["cells", "params", "atoms", "props", "patterns", "block_funs", "", "VERSION"]);
                let cand: Vec<&Vec<String>> = ps.iter().filter(|p| sec.is_empty() || p.first().map(|s| s == sec).unwrap_or(false)).collect();
                if cand.is_empty() { continue; }
                let p = (*r.pick(&cand)).clone();
                match r.below(5) {
                    0 | 1 => if let Some(x) = at(&mut v, &p) { *x = odd_value(r); },
                    2 => if let Some(x) = at(&mut v, &p) { match x { Value::Number(n) => { let f = n.as_f64().unwrap_or(0.0); *x = json!((f + *r.pick(&[1.0, -1.0, 7.0, 250.0, 65536.0, -300.0])) as i64); } Value::Array(a) => { let e = a.last().cloned().unwrap_or(json!(1)); for _ in 0..r.range(1, 300) { a.push(e.clone()); } } Value::String(s) => { s.push('x'); } _ => *x = odd_value(r) } },
                    3 => { if p.is_empty() { continue; } let (k, par) = (p.last().unwrap().clone(), p[..p.len() - 1].to_vec()); match at(&mut v, &par) { Some(Value::Array(a)) => { let i = k.parse::<usize>().unwrap_or(0); if i < a.len() { a.remove(i); } } Some(Value::Object(o)) => { o.remove(&k); } _ => {} } }
                    _ => { let q = (*r.pick(&cand)).clone(); let y = at(&mut v, &q).cloned(); if let (Some(x), Some(y)) = (at(&mut v, &p), y) { *x = y; } }
                }
            }
            v.to_string().into_bytes()
        }
    }
}
fn run6(c: &Case) {
    host_init();
    let (conf, mut exec) = new_node_engine();
    exec.no_logging();
    let mut m = Matrix::new(conf, W, H);
    HOST.with(|h| h.keep = false);
    let audio = spawn_audio(exec, AudioCfg { sr: 44100.0, min: 32, max: 128, seed: c.seed, sleep: true });
    let mut good = save_patch_to_mem(&mut m);
    let mut damaged = false;
    let mut fired = (0, 0);
    for o in &c.ops {
        let mut t = Tok::new(o);
        match t.s() {
            "edit" => { let mut r = Rng::new(t.u() as u64); op("edit", || patch::edit(&mut m, &mut r, W, H)); }
            "damage" => {
                let (k, mut r) = (t.u(), Rng::new(t.u() as u64));
                // the good patch to go back to is from before the first damage
                let cur = save_patch_to_mem(&mut m);
                if !damaged { good = cur.clone(); damaged = true; }
                let before = patch::canon(&mut m);
                let bad = damage(&cur, k, &mut r);
                rt::count(["fault_truncated", "fault_bit_flip", "fault_zeroed_sectors", "fault_json"][k.min(3)], 1);
                let file = c.c("file") == 1;
                if file { rt::disk::put(F, &bad); match r.below(4) { 0 => rt::disk::fault(rt::disk::ops() + r.below(4) as u64, 1, 5), 1 => rt::disk::fault(rt::disk::ops() + r.below(4) as u64, 2, 0), _ => {} } }
                let res = op("load damaged", || if file { load_patch_from_file(&mut m, F) } else { load_patch_from_mem(&mut m, &bad) });
                rt::disk::clear_faults();
                rt::count("checks", 1);
                rt::count("fault_read_error", rt::disk::fired(1) - fired.0); rt::count("fault_short_read", rt::disk::fired(2) - fired.1);
                fired = (rt::disk::fired(1), rt::disk::fired(2));
                // what is no JSON, or of a later version, is refused
                let json = serde_json::from_slice::<Value>(&bad).ok();
                let later = json.as_ref().map_or(false, |v| v.get("VERSION").and_then(|v| v.as_i64()).map_or(false, |v| v > 2));
                if (json.is_none() || later) && matches!(&res, Ok(()) | Err(MatrixDeserError::MatrixError(_))) { rt::fail("damaged-load", format!("a file {} was loaded ({:?})", if later { "of a later version" } else { "that is no JSON" }, res)); }
                if later { rt::count("probe_later_version", 1); }
                match &res {
                    Ok(()) => rt::count("probe_loaded", 1),
                    Err(MatrixDeserError::MatrixError(_)) => rt::count("probe_refused_graph", 1),
                    Err(_) => {
                        rt::count("probe_refused", 1);
                        // a file that can not be read leaves the current patch alone
                        if let Some(d) = patch::diff(&before, &patch::canon(&mut m), "", 0.0) { rt::fail("damaged-load", format!("loading failed with {:?} but changed the current patch: {}", res, d)); }
                    }
                }
                rt::state(k as u64 ^ (res.is_ok() as u64) << 8 ^ (bad.len() as u64) << 9);
                // the UI keeps going
                op("ui", || {
                    for id in 0..4 { if m.has_tracker(id) { for _ in 0..7 { m.check_pattern_data(id); } } let _ = m.check_block_function(id); }
                    let mut ns = vec![];
                    m.for_each(|_, _, c| if !c.is_empty() { ns.push(c.node_id()) });
                    for n in ns { m.led_value_for(&n); m.phase_value_for(&n); for p in patch::params(n) { m.get_param(&p); } for i in 0..patch::n_out(n) as u8 { m.out_fb_for(&n, i); } }
                    m.update_output_feedback();
                    m.update_filters();
                    let _ = m.to_repr().serialize();
                });
                wait_frames(300);
            }
            _ => {}
        }
    }
    // and a good patch can still be loaded
    op("load good", || load_patch_from_mem(&mut m, &good)).unwrap_or_else(|e| if !matches!(e, MatrixDeserError::MatrixError(_)) { rt::fail("damaged-load", format!("loading the good patch failed: {:?}", e)) });
    if let Some(d) = patch::diff(&patch::canon_text(std::str::from_utf8(&good).unwrap()), &patch::canon(&mut m), "", 2e-3) { rt::fail("damaged-load", format!("the good patch loaded after a damaged one differs at {}", d)); }
    wait_frames(400);
    audio.stop();
}
