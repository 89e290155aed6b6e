pub mod world;
pub mod params;
pub mod graph;
pub mod patch;
pub mod persist;
pub mod tracker;
pub mod soak;
pub mod midi;
pub mod logs;
pub mod render;
pub mod feedback;
pub mod blocks;
pub mod dynnode;
pub mod monitor;
pub mod shown;
pub mod samples;
pub mod scope;
pub mod chain;
pub mod synth;
pub mod query;
pub mod timing;
pub mod ending;

use crate::runner::PropDef;
pub const REAL_ENGINE: &str = "Matrix, NodeConfigurator, NodeExecutor, NodeProg, all DSP nodes involved, drop thread, monitor thread, ring buffers, triple buffers, std mutexes (all real code)";
pub const STUB_ENGINE: &str = "audio driver (simulated host thread), OS scheduler, clocks and timers, entropy";
pub static ALL: &[PropDef] = &[
    params::DEF, graph::P02, graph::P03, persist::P04, persist::P05, persist::P06, tracker::DEF, soak::P08, soak::P09, midi::P10, logs::P11, render::P12, render::P13, feedback::P14, blocks::P15, dynnode::P16, monitor::P17, shown::P18, samples::P19, scope::P20, chain::P21, synth::P22, query::P23, timing::P24, ending::P25,
];
