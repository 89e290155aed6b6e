//! FFI to the simulation runtime (rt/simrt.c, rt/simdisk.c), the tracking
//! allocator, and the per-run result record.
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::BTreeMap;
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_int, c_void};

extern "C" {
    pub fn sim_begin(seed: u64, pa: u32, po: u32, rep: c_int, decs: *const u64, n: c_int);
    pub fn sim_beat(b: *mut u64);
    fn sim_end();
    fn sim_active() -> c_int;
    fn sim_now() -> u64;
    fn sim_steps() -> u64;
    fn sim_switches() -> u64;
    fn sim_ihash() -> u64;
    fn sim_me() -> c_int;
    fn sim_nthreads() -> c_int;
    fn sim_live_threads() -> c_int;
    fn sim_nopreempt(d: c_int);
    fn sim_op_point();
    fn sim_set_max_steps(m: u64);
    fn sim_clock_jump(d: i64);
    fn sim_name(n: *const c_char);
    fn sim_stall(id: c_int, ns: u64);
    fn sim_decisions(buf: *mut u64, max: c_int) -> c_int;
    fn sim_sleep_ns(ns: u64);
    fn sim_rt_enter();
    fn sim_rt_leave();
    fn sim_rt_depth() -> c_int;
    fn sim_rt_pause(v: c_int);
    fn sim_rt_events() -> u64;
    fn sim_rt_what() -> *const c_char;
    fn sim_rt_note(w: *const c_char);
    fn sim_rt_reset();
    fn sim_disk_reset();
    fn sim_disk_put(p: *const c_char, d: *const c_void, l: usize);
    fn sim_disk_get(p: *const c_char, b: *mut c_void, m: usize) -> i64;
    fn sim_disk_del(p: *const c_char) -> c_int;
    fn sim_disk_fault(at: u64, kind: c_int, err: c_int);
    fn sim_disk_clear_faults();
    fn sim_disk_crash_at(at: i64, mode: c_int, seed: u64);
    fn sim_disk_crash_now(mode: c_int, seed: u64);
    fn sim_disk_crashed() -> c_int;
    fn sim_disk_ops() -> u64;
    fn sim_disk_fired(i: c_int) -> u64;
    fn sim_disk_recover();
    fn _exit(c: c_int) -> !;
    fn write(fd: c_int, b: *const c_void, n: usize) -> isize;
}

pub fn now() -> u64 { unsafe { sim_now() } }
pub fn steps() -> u64 { unsafe { sim_steps() } }
pub fn me() -> i32 { unsafe { sim_me() } }
pub fn nthreads() -> i32 { unsafe { sim_nthreads() } }
pub fn live_threads() -> i32 { unsafe { sim_live_threads() } }
pub fn op_point() { unsafe { sim_op_point() } }
pub fn set_max_steps(m: u64) { unsafe { sim_set_max_steps(m) } }
pub fn clock_jump(ns: i64) { unsafe { sim_clock_jump(ns) } }
pub fn sleep_ns(ns: u64) { unsafe { sim_sleep_ns(ns) } }
pub fn sleep_us(us: u64) { unsafe { sim_sleep_ns(us * 1000) } }
pub fn name(n: &str) { let c = CString::new(n).unwrap(); unsafe { sim_name(c.as_ptr()) } }
pub fn stall(id: i32, ns: u64) { unsafe { sim_stall(id, ns) } }
pub fn active() -> bool { unsafe { sim_active() != 0 } }

/// Runs harness code without scheduling points.
pub fn atomically<R>(f: impl FnOnce() -> R) -> R {
    unsafe { sim_nopreempt(1) };
    let r = f();
    unsafe { sim_nopreempt(-1) };
    r
}
/// Marks an audio callback: allocations and system calls inside are recorded.
pub fn rt_section<R>(f: impl FnOnce() -> R) -> R {
    unsafe { sim_rt_enter() };
    let r = f();
    unsafe { sim_rt_leave() };
    r
}
/// Harness code running inside an audio callback (e.g. the input side of the audio driver).
pub fn rt_paused<R>(f: impl FnOnce() -> R) -> R {
    unsafe { sim_rt_pause(1) };
    let r = f();
    unsafe { sim_rt_pause(0) };
    r
}
pub fn rt_events() -> u64 { unsafe { sim_rt_events() } }
pub fn rt_reset() { unsafe { sim_rt_reset(); RT_WHERE.clear(); } }
static mut RT_WHERE: String = String::new();
pub static mut RT_TRACE: bool = false;
/// The innermost functions of HexoDSP on the stack.
fn repo_frames() -> String {
    let b = std::backtrace::Backtrace::force_capture().to_string();
    let mut v: Vec<&str> = b.lines().filter_map(|l| { let l = l.trim(); let i = l.find(": ")?; let n = &l[i + 2..]; if (n.contains("hexodsp::") || n.contains("synfx")) && !n.contains("__rust") { Some(n) } else { None } }).collect();
    v.dedup();
    v.truncate(3);
    v.join(" < ")
}
/// Called at the first event inside an audio callback: remembers which code did it.
#[no_mangle]
pub unsafe extern "C" fn sim_rust_rt_where() {
    if !RT_TRACE { return; }
    RT_TRACE = false;
    atomically(|| rt_paused(|| {
        RT_WHERE = repo_frames();
    }));
    RT_TRACE = true;
}
#[allow(static_mut_refs)]
pub fn rt_what() -> String { unsafe { let w = CStr::from_ptr(sim_rt_what()).to_string_lossy().into_owned(); if RT_WHERE.is_empty() { w } else { format!("{} in {}", w, RT_WHERE) } } }

pub mod disk {
    use super::*;
    pub fn reset() { unsafe { sim_disk_reset() } }
    pub fn put(p: &str, d: &[u8]) { let c = CString::new(p).unwrap(); unsafe { sim_disk_put(c.as_ptr(), d.as_ptr() as *const c_void, d.len()) } }
    pub fn get(p: &str) -> Option<Vec<u8>> {
        let c = CString::new(p).unwrap();
        let mut v = vec![0u8; 1 << 20];
        let n = unsafe { sim_disk_get(c.as_ptr(), v.as_mut_ptr() as *mut c_void, v.len()) };
        if n < 0 { None } else { v.truncate(n as usize); Some(v) }
    }
    pub fn del(p: &str) { let c = CString::new(p).unwrap(); unsafe { sim_disk_del(c.as_ptr()); } }
    pub fn fault(at: u64, kind: i32, err: i32) { unsafe { sim_disk_fault(at, kind, err) } }
    pub fn clear_faults() { unsafe { sim_disk_clear_faults() } }
    pub fn crash_at(at: i64, mode: i32, seed: u64) { unsafe { sim_disk_crash_at(at, mode, seed) } }
    pub fn crash_now(mode: i32, seed: u64) { unsafe { sim_disk_crash_now(mode, seed) } }
    pub fn crashed() -> bool { unsafe { sim_disk_crashed() != 0 } }
    pub fn ops() -> u64 { unsafe { sim_disk_ops() } }
    pub fn fired(i: i32) -> u64 { unsafe { sim_disk_fired(i) } }
    pub fn recover() { unsafe { sim_disk_recover() } }
}

// ------------------------------------------------------------------ allocator

/// Counts live blocks, poisons freed memory and keeps it in quarantine (a write
/// after free is noticed when the block leaves the quarantine), and records any
/// allocator use inside an audio callback.
pub struct SimAlloc;
const QN: usize = 4096;
struct Q { q: [(usize, usize, usize); QN], head: usize, bytes: usize }
static mut QUAR: Q = Q { q: [(0, 0, 0); QN], head: 0, bytes: 0 };
pub static mut LIVE_BLOCKS: i64 = 0;
pub static mut LIVE_BYTES: i64 = 0;
pub static mut POISON: bool = false;
pub static mut WAF: usize = 0;
static mut QLOCK: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if sim_rt_depth() > 0 { sim_rt_note(c"memory allocation".as_ptr()); }
        LIVE_BLOCKS += 1;
        LIVE_BYTES += l.size() as i64;
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if sim_rt_depth() > 0 { sim_rt_note(c"memory deallocation".as_ptr()); }
        LIVE_BLOCKS -= 1;
        LIVE_BYTES -= l.size() as i64;
        if POISON && sim_me() >= 0 && sim_active() != 0 && l.size() <= 65536 {
            sim_nopreempt(1);
            std::ptr::write_bytes(p, 0xD5, l.size());
            let q = &mut *std::ptr::addr_of_mut!(QUAR);
            let old = q.q[q.head];
            q.q[q.head] = (p as usize, l.size(), l.align());
            q.head = (q.head + 1) % QN;
            q.bytes += l.size();
            if old.0 != 0 { release(old); q.bytes -= old.1; }
            sim_nopreempt(-1);
        } else {
            System.dealloc(p, l)
        }
    }
}
unsafe fn release(b: (usize, usize, usize)) {
    let s = std::slice::from_raw_parts(b.0 as *const u8, b.1);
    if s.iter().any(|x| *x != 0xD5) { WAF += 1; }
    System.dealloc(b.0 as *mut u8, Layout::from_size_align_unchecked(b.1, b.2));
}
/// Empties the quarantine; returns the number of blocks written to after they were freed.
pub fn drain_quarantine() -> usize {
    unsafe {
        sim_nopreempt(1);
        let q = &mut *std::ptr::addr_of_mut!(QUAR);
        for i in 0..QN { if q.q[i].0 != 0 { let b = q.q[i]; q.q[i] = (0, 0, 0); release(b); } }
        q.bytes = 0;
        sim_nopreempt(-1);
        WAF
    }
}

// ------------------------------------------------------------------ run result

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub violation: Option<(String, String)>,
    pub decs: Vec<u64>,
    pub steps: u64,
    pub switches: u64,
    pub sim_ns: u64,
    pub ihash: u64,
    pub shash: u64,
    pub loghash: u64,
    pub counts: BTreeMap<String, u64>,
    pub harness_error: Option<String>,
}

static mut RESULT_FD: i32 = -1;
static mut COUNTS: Option<BTreeMap<String, u64>> = None;
static mut SHASH: u64 = 0;
static mut LOGHASH: u64 = 0xcbf29ce484222325;
pub static mut VERBOSE: bool = false;
static mut PANIC_MSG: String = String::new();

#[allow(static_mut_refs)]
pub fn count(k: &str, n: u64) {
    atomically(|| unsafe { *COUNTS.get_or_insert_with(BTreeMap::new).entry(k.to_string()).or_insert(0) += n })
}
/// Feeds the abstract state hash (coverage measure).
pub fn state(h: u64) { unsafe { SHASH = (SHASH ^ h).wrapping_mul(0x100000001b3).rotate_left(5) } }
/// Appends to the event log: only a hash is kept unless verbose.
pub fn log(f: impl FnOnce() -> String) {
    atomically(|| {
        rt_paused(|| {
            let s = f();
            unsafe {
                for b in s.bytes() { LOGHASH = (LOGHASH ^ b as u64).wrapping_mul(0x100000001b3); }
                if VERBOSE { eprintln!("[{:>12}ns t{} s{}] {}", sim_now(), sim_me(), sim_steps(), s); }
            }
        })
    })
}

#[allow(static_mut_refs)]
fn finish(v: Option<(&str, &str)>) -> ! {
    unsafe {
        sim_end();
        let mut out = String::new();
        match v {
            Some((c, m)) => out += &format!("V {}\t{}\n", c, m.replace('\n', " ")),
            None => out += "OK\n",
        }
        out += &format!("S {} {} {} {} {} {}\n", sim_steps(), sim_switches(), sim_now(), sim_ihash(), SHASH, LOGHASH);
        if let Some(c) = &COUNTS { for (k, n) in c { out += &format!("C {} {}\n", k, n); } }
        let mut buf = vec![0u64; 400000];
        let n = sim_decisions(buf.as_mut_ptr(), 200000);
        for i in 0..n as usize { out += &format!("D {} {}\n", buf[2 * i], buf[2 * i + 1]); }
        out += "END\n";
        let b = out.as_bytes();
        let mut o = 0;
        while o < b.len() {
            let r = write(RESULT_FD, b[o..].as_ptr() as *const c_void, b.len() - o);
            if r <= 0 { break; }
            o += r as usize;
        }
        _exit(0)
    }
}
/// Ends the run with a violation.
pub fn fail(class: &str, msg: impl AsRef<str>) -> ! {
    unsafe { sim_nopreempt(1); sim_rt_pause(1); }
    finish(Some((class, msg.as_ref())))
}
pub fn pass() -> ! {
    unsafe { sim_nopreempt(1); sim_rt_pause(1); }
    finish(None)
}

#[no_mangle]
pub unsafe extern "C" fn sim_rust_fail(cls: *const c_char, msg: *const c_char) {
    let c = CStr::from_ptr(cls).to_string_lossy().into_owned();
    let m = CStr::from_ptr(msg).to_string_lossy().into_owned();
    finish(Some((&c, &m)))
}

extern "C" fn on_signal(sig: c_int) {
    extern "C" { fn signal(s: c_int, h: usize) -> usize; }
    unsafe { signal(sig, 0); sim_nopreempt(1); sim_rt_pause(1); }
    let m = if sig == 6 { "abort".to_string() } else { format!("signal {}", sig) };
    finish(Some(("crash", &format!("process died: {} (thread {})", m, me()))))
}

/// Prepares a freshly forked child for one simulated run.
#[allow(static_mut_refs)]
pub fn child_setup(fd: i32) {
    extern "C" { fn signal(s: c_int, h: usize) -> usize; }
    unsafe {
        RESULT_FD = fd;
        if !VERBOSE {
            extern "C" { fn dup2(a: c_int, b: c_int) -> c_int; }
            // the code under test prints; that is not part of the result
            if let Ok(f) = std::fs::OpenOptions::new().write(true).open("/dev/null") { use std::os::fd::AsRawFd; dup2(f.as_raw_fd(), 1); dup2(f.as_raw_fd(), 2); }
        }
        for s in [11, 7, 6, 4, 8] { signal(s, on_signal as usize); }
        std::panic::set_hook(Box::new(|pi| {
            rt_paused(|| {
                let msg = if let Some(s) = pi.payload().downcast_ref::<&str>() { s.to_string() }
                    else if let Some(s) = pi.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
                let loc = pi.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
                PANIC_MSG = format!("{} at {}", msg, loc);
                if !loc.starts_with("/repo/") { PANIC_MSG += &format!(" in {}", atomically(repo_frames)); }
                if VERBOSE { eprintln!("PANIC {}", PANIC_MSG); }
                // A panic on a thread the harness did not start itself can not be caught by it.
                if !CATCHING.with(|c| c.get()) {
                    fail("panic", format!("thread {}: {}", me(), PANIC_MSG));
                }
            })
        }));
    }
}
thread_local! { static CATCHING: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }

/// Runs code of the system under test; a panic becomes Err(message).
#[allow(static_mut_refs)]
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let old = CATCHING.with(|c| c.replace(true));
    let d = unsafe { sim_rt_depth() };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    CATCHING.with(|c| c.set(old));
    r.map_err(|_| unsafe {
        let n = sim_rt_depth() - d;
        for _ in 0..n { sim_rt_leave(); }
        PANIC_MSG.clone()
    })
}
