//! The simulated host: an audio thread driving the real NodeExecutor the way a
//! plugin or JACK host does, and a record of everything it produced.
use crate::rng::Rng;
use crate::rt;
use hexodsp::nodes::{EventWindowing, HxTimedEvent, NodeAudioContext, NodeExecutor};
use std::cell::UnsafeCell;

/// Harness state shared by the simulated threads (only one runs at a time).
pub struct Shared<T>(UnsafeCell<Option<T>>);
unsafe impl<T> Sync for Shared<T> {}
impl<T> Shared<T> {
    pub const fn new() -> Self { Shared(UnsafeCell::new(None)) }
    pub fn init(&self, t: T) { rt::atomically(|| unsafe { *self.0.get() = Some(t) }) }
    pub fn with<R>(&self, f: impl FnOnce(&mut T) -> R) -> R {
        rt::atomically(|| rt::rt_paused(|| unsafe { f((*self.0.get()).as_mut().expect("shared state")) }))
    }
}

#[derive(Clone, Debug)]
pub struct Blk {
    /// operations of the control thread that had returned before the block's update started
    pub done: usize,
    /// operations that had started when the block's update ended
    pub started: usize,
    /// operations that had started when the block was done
    pub started_after: usize,
    pub frame0: u64,
    pub n: usize,
    pub l: Vec<f32>,
    pub r: Vec<f32>,
    pub sr: f32,
    /// how often the sample rate was set
    pub sr_gen: usize,
    pub no: usize,
    pub t: u64,
}

pub struct Host {
    pub ops_started: usize,
    pub ops_done: usize,
    pub stop: bool,
    pub blocks: Vec<Blk>,
    pub keep: bool,
    pub nblocks: usize,
    /// Blocks begun.
    pub begun: usize,
    pub frames: u64,
    pub cmds: Vec<Cmd>,
    pub audio_tid: i32,
    /// events (absolute frame) the host will deliver
    pub midi: Vec<(u64, HxTimedEvent)>,
    pub midi_fed: usize,
    pub on_block: Option<Box<dyn FnMut(&Blk) + Send>>,
    /// like on_block, and may look at the executor
    pub on_exec: Option<Box<dyn FnMut(&mut NodeExecutor, &Blk) + Send>>,
    /// check for allocations, locks and system calls from this block on
    pub rt_check_after: Option<usize>,
    pub paused: bool,
    /// how often the audio thread found itself paused
    pub idle: u64,
    /// kind of abnormal audio input (0: normal)
    pub wild: u8,
}
pub enum Cmd { SampleRate(f32), Stall(u64), Fixed(usize), Mode(usize, usize) }
pub static HOST: Shared<Host> = Shared::new();

pub struct Ctx { pub wild: u8, pub n: usize, pub l: [f32; 128], pub r: [f32; 128], pub f0: u64 }
/// The audio input signal: a deterministic function of the absolute frame.
pub fn input_signal(ch: usize, frame: u64) -> f32 {
    let x = (frame.wrapping_mul(2654435761).wrapping_add(ch as u64 * 977)) >> 3;
    ((x % 2001) as f32 - 1000.0) / 1000.0
}
/// Channel 1 tells the frame, channel 0 is a saw tooth (or the usual signal).
pub fn ramp_signal(kind: u8, ch: usize, frame: u64) -> f32 {
    if ch == 1 { return frame as f32 / (1 << 23) as f32; }
    match kind { 10 => input_signal(0, frame), 11 => -1.0 + 2.0 * (frame % 5000) as f32 / 5000.0, 12 => -1.0 + 2.0 * (frame % 700) as f32 / 700.0, _ => -1.0 + 2.0 * (frame % 37) as f32 / 37.0 }
}
impl NodeAudioContext for Ctx {
    fn nframes(&self) -> usize { self.n }
    fn output(&mut self, c: usize, f: usize, v: f32) { match c { 0 => self.l[f] = v, 1 => self.r[f] = v, _ => {} } }
    fn input(&mut self, c: usize, f: usize) -> f32 {
        let v = input_signal(c, self.f0 + f as u64);
        match self.wild { 0 => v, 10..=19 => ramp_signal(self.wild, c, self.f0 + f as u64), 1 => if f % 17 == 3 { f32::NAN } else { v }, 2 => if f % 13 == 5 { f32::INFINITY } else { v }, 3 => v * 1e30, 4 => v * 1e-41, 5 => if f % 2 == 0 { f32::NEG_INFINITY } else { -v * 1e38 }, _ => v * 100.0 }
    }
}

pub struct AudioCfg { pub sr: f32, pub min: usize, pub max: usize, pub seed: u64, pub sleep: bool }

pub fn host_init() {
    HOST.init(Host { ops_started: 0, ops_done: 0, stop: false, blocks: vec![], keep: true, nblocks: 0, begun: 0, frames: 0, cmds: vec![], audio_tid: -1, midi: vec![], midi_fed: 0, on_block: None, on_exec: None, rt_check_after: None, paused: false, idle: 0, wild: 0 });
}

/// One audio callback on the executor, like a real host does it.
pub fn callback(exec: &mut NodeExecutor, ctx: &mut Ctx, win: &mut EventWindowing) {
    let (f0, n) = (ctx.f0 as usize, ctx.n);
    let r = rt::catch(|| rt::rt_section(|| {
        exec.feed_midi_events_from(|| {
            if win.feed_me() {
                let e = HOST.with(|h| if h.midi_fed < h.midi.len() { h.midi_fed += 1; Some(h.midi[h.midi_fed - 1]) } else { None });
                match e { Some((f, e)) => win.feed(HxTimedEvent::new_timed(f as usize, e.kind())), None => return None }
            }
            win.next_event_in_range(f0, n)
        });
        exec.process(ctx);
    }));
    if let Err(m) = r { rt::fail("audio-panic", format!("the audio callback panicked: {}", m)); }
}

pub fn audio_main(mut exec: NodeExecutor, cfg: AudioCfg) -> NodeExecutor {
    rt::name("audio");
    HOST.with(|h| h.audio_tid = rt::me());
    let mut rng = Rng::new(cfg.seed);
    let mut sr = cfg.sr;
    let (mut sr_gen, mut no) = (1, 1);
    let (mut min, mut max) = (cfg.min, cfg.max);
    rt::atomically(|| exec.set_sample_rate(sr));
    let mut win = EventWindowing::new();
    let mut ctx = Ctx { wild: 0, n: 0, l: [0.0; 128], r: [0.0; 128], f0: 0 };
    loop {
        let mut stall = 0;
        let cmds = HOST.with(|h| std::mem::take(&mut h.cmds));
        for c in cmds {
            match c {
                Cmd::SampleRate(s) => { sr = s; sr_gen += 1; if let Err(m) = rt::catch(|| exec.set_sample_rate(s)) { rt::fail("audio-panic", format!("set_sample_rate panicked: {}", m)); } }
                Cmd::Stall(ns) => stall = ns,
                Cmd::Fixed(n) => { min = n; max = n; }
                Cmd::Mode(a, b) => { min = a; max = b; }
            }
        }
        if stall > 0 { rt::count("fault_audio_stall", 1); rt::sleep_ns(stall); }
        if HOST.with(|h| h.stop) { break; }
        if HOST.with(|h| { if h.paused { h.idle += 1; } h.paused }) { rt::sleep_ns(1_000_000); continue; }
        let n = rng.range(min as i64, max as i64) as usize;
        let f0 = HOST.with(|h| h.frames);
        ctx.n = n; ctx.f0 = f0; ctx.wild = HOST.with(|h| h.wild);
        ctx.l = [0.0; 128]; ctx.r = [0.0; 128];
        let (done, t) = HOST.with(|h| { h.begun = h.nblocks + 1; (h.ops_done, rt::now()) });
        let u = rt::catch(|| rt::rt_section(|| exec.process_graph_updates()));
        if let Err(m) = u { rt::fail("audio-panic", format!("process_graph_updates panicked: {}", m)); }
        let started = HOST.with(|h| h.ops_started);
        callback(&mut exec, &mut ctx, &mut win);
        let started_after = HOST.with(|h| h.ops_started);
        let b = Blk { done, started, started_after, frame0: f0, n, l: ctx.l[..n].to_vec(), r: ctx.r[..n].to_vec(), sr, sr_gen, no, t };
        no += 1;
        rt::log(|| format!("blk {} n {} ops {}..{} l {:?} r {:?}", f0, n, done, started, &b.l[..n.min(3)], &b.r[..n.min(3)]));
        HOST.with(|h| {
            h.frames += n as u64;
            h.nblocks += 1;
            if h.nblocks <= h.rt_check_after.unwrap_or(0) { rt::rt_reset(); }
            if let Some(k) = h.rt_check_after { if h.nblocks == k { unsafe { rt::RT_TRACE = true; } } }
            if h.rt_check_after.is_some() && rt::rt_events() > 0 { rt::fail("rt", format!("the audio callback did: {}", rt::rt_what())); }
            let mut cb = h.on_block.take();
            if let Some(c) = &mut cb { c(&b); }
            h.on_block = cb;
            let mut cb = h.on_exec.take();
            if let Some(c) = &mut cb { c(&mut exec, &b); }
            h.on_exec = cb;
            if h.keep { h.blocks.push(b); }
        });
        if cfg.sleep { rt::sleep_ns((n as f64 / sr as f64 * 1e9) as u64); }
    }
    exec
}

pub struct Audio(std::thread::JoinHandle<NodeExecutor>);
pub fn spawn_audio(exec: NodeExecutor, cfg: AudioCfg) -> Audio { Audio(std::thread::spawn(move || audio_main(exec, cfg))) }
impl Audio {
    pub fn stop(self) -> NodeExecutor {
        HOST.with(|h| h.stop = true);
        self.0.join().unwrap_or_else(|_| rt::fail("harness", "audio thread join"))
    }
}

/// Brackets one operation of the control thread.
pub fn op<R>(label: &str, f: impl FnOnce() -> R) -> R {
    rt::log(|| format!("op {}", label));
    HOST.with(|h| h.ops_started += 1);
    rt::op_point();
    let r = rt::catch(f);
    HOST.with(|h| h.ops_done += 1);
    rt::op_point();
    match r { Ok(r) => r, Err(m) => rt::fail("ui-panic", format!("operation '{}' panicked: {}", label, m)) }
}
/// Lets the audio thread stop between two blocks.
pub fn pause() {
    let n = HOST.with(|h| { h.paused = true; h.idle });
    let mut g = 0;
    while HOST.with(|h| h.idle) == n { rt::sleep_us(900); g += 1; if g > 1_000_000 { rt::fail("harness", "audio does not pause"); } }
}
pub fn resume() { HOST.with(|h| h.paused = false) }
pub fn frames() -> u64 { HOST.with(|h| h.frames) }
pub fn ops_done() -> usize { HOST.with(|h| h.ops_done) }
pub fn wait_frames(n: u64) {
    let f = frames() + n;
    let mut guard = 0;
    while frames() < f {
        rt::sleep_us(700);
        guard += 1;
        if guard > 2_000_000 { rt::fail("harness", "audio does not advance"); }
    }
}
pub fn wait_blocks(n: usize) {
    let f = HOST.with(|h| h.nblocks) + n;
    while HOST.with(|h| h.nblocks) < f { rt::sleep_us(700); }
}

/// The samples of one output of the node with the given index in the running program.
pub fn node_out(exec: &NodeExecutor, idx: usize, out: usize, n: usize) -> Option<Vec<f32>> {
    let p = exec.get_prog();
    let op = p.prog.iter().find(|o| o.idx == idx)?;
    let i = op.out_idxlen.0 + out;
    if i >= op.out_idxlen.1 { return None; }
    Some(p.out[i].slice(n).to_vec())
}
