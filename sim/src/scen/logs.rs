//! P11: log messages arrive whole and in order.
use super::world::*;
use crate::case::{Case, Tok};
use crate::rng::Rng;
use crate::rt;
use crate::runner::PropDef;
use std::io::Write;

pub const P11: PropDef = PropDef {
    id: "P11", gen, run, quick: 25000, thorough: 600000,
    rule: "one evaluation = one log message received or missing, compared with what its thread wrote; a run is distinct by (state history hash, interleaving hash)",
    real: "the thread logger of HexoDSP: thread local loggers, ring buffers, global receiver with its mutex (all real code)", stub: "OS scheduler, clocks and timers",
    assumptions: &["messages do not contain the byte 0xFF (no UTF-8 text does)"],
};
const NAMES: [&str; 4] = ["audio", "worker", "gui", "other"];
/// `outstanding`: bytes that may still be in the queue, `done`: those of them whose `log` call has returned.
struct W { sent: Vec<(String, bool)>, outstanding: usize, done: usize, got: Vec<String> }
struct St { w: Vec<W> }
static ST: Shared<St> = Shared::new();

fn gen(c: &mut Case, r: &mut Rng) {
    let nt = r.range(1, 4);
    c.set("threads", nt);
    let big = r.chance(1, 2);
    for _ in 0..r.range(5, 60) {
        if r.chance(1, 5) { c.op(format!("get {}", r.range(0, 2000))); continue; }
        let len = if big { *r.pick(&[0, 1, 20, 400, 505, 509, 510, 511, 512, 513, 600, 3000]) } else if r.chance(1, 4) { 1 } else { r.range(0, 60) };
        let us = *r.pick(&[0, 0, 0, 50, 1000]);
        c.op(format!("msg {} {} {} {}", r.range(0, nt - 1), len, us, r.range(0, 3)));
    }
}
/// A message whose text tells the writer, the number and the length.
fn text(t: usize, i: usize, len: usize, kind: usize) -> String {
    // (there are at most 60 of them)
    if len == 1 { return ((b'0' + (i % 70) as u8) as char).to_string(); }
    let mut s = format!("{}:{}:", t, i);
    let f = ["x", "\u{fc}", "\u{20ac}", "\u{1f3b9}"][kind % 4];
    while s.len() < len { s.push_str(f); }
    s
}
fn get() {
    let mark: Vec<usize> = ST.with(|s| s.w.iter().map(|w| w.done).collect());
    let mut v: Vec<(String, String)> = vec![];
    op("retrieve", || hexodsp::log::retrieve_log_messages(|n, m| v.push((n.to_string(), m.to_string()))));
    ST.with(|s| {
        for (n, m) in v {
            let t = match NAMES.iter().position(|x| *x == n) { Some(t) if t < s.w.len() => t, _ => rt::fail("log", format!("a message of an unknown thread '{}' arrived: {:?}", n, m)) };
            s.w[t].got.push(m);
        }
        // what was written before the call is out of the queue now
        for (w, k) in s.w.iter_mut().zip(mark) { w.outstanding -= k; w.done -= k; }
    });
}

fn run(c: &Case) {
    host_init();
    let nt = c.c("threads").max(1).min(4) as usize;
    ST.init(St { w: (0..nt).map(|_| W { sent: vec![], outstanding: 0, done: 0, got: vec![] }).collect() });
    let mut lists: Vec<Vec<(usize, u64, usize)>> = vec![vec![]; nt];
    let mut gets = vec![];
    for o in &c.ops {
        let mut t = Tok::new(o);
        if t.s() == "get" { gets.push(t.u() as u64); } else { let k = t.u() % nt; lists[k].push((t.u().min(4000), t.u() as u64, t.u())); }
    }
    let th: Vec<_> = lists.into_iter().enumerate().map(|(t, l)| std::thread::spawn(move || {
        rt::name(NAMES[t]);
        let r = rt::catch(|| {
            hexodsp::log::init_thread_logger(NAMES[t]);
            for (i, (len, us, kind)) in l.into_iter().enumerate() {
                let m = text(t, i, len, kind);
                // at most 512 bytes of a message, and its end mark
                let need = m.len().min(512) + 1;
                let fits = ST.with(|s| { let w = &mut s.w[t]; let f = w.outstanding + need <= 4096; w.outstanding += need; f });
                ST.with(|s| s.w[t].sent.push((m.clone(), fits)));
                hexodsp::log(|w| { let (a, b) = m.split_at(m.find(':').map_or(0, |p| p + 1)); let _ = write!(w, "{}{}", a, b); });
                ST.with(|s| s.w[t].done += need);
                rt::op_point();
                if us > 0 { rt::sleep_us(us); }
            }
        });
        if let Err(m) = r { rt::fail("log-panic", format!("logging panicked: {}", m)); }
    })).collect();
    for us in gets { if us > 0 { rt::sleep_us(us); } get(); }
    for t in th { let _ = t.join(); }
    get(); get();
    ST.with(|s| for (t, w) in s.w.iter().enumerate() {
        let mut k = 0;
        for (m, fits) in &w.sent {
            rt::count("checks", 1);
            let ok = k < w.got.len() && (w.got[k] == *m || (m.len() > 500 && w.got[k].len() >= 480 && w.got[k].len() < m.len() && m.starts_with(&w.got[k])));
            if ok { k += 1; continue; }
            if *fits { rt::fail("log", format!("message {:?} of thread {} did not arrive intact; received here: {:?}", short(m), NAMES[t], w.got.get(k).map(|s| short(s)))); }
            rt::count("fault_queue_full", 1);
        }
        if k < w.got.len() { rt::fail("log", format!("thread {} never wrote this, or not in this order: {:?}", NAMES[t], short(&w.got[k]))); }
        rt::state(k as u64);
    });
}
fn short(s: &str) -> String { let v: Vec<char> = s.chars().collect(); if v.len() > 40 { format!("{}... ({} bytes)", v[..30].iter().collect::<String>(), s.len()) } else { s.to_string() } }
