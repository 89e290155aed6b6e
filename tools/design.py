DESIGN = {
"P01": "A probe DSP node (`Rust1x1` dynamic node, five inputs) in up to 20 instances records every sample its inputs carry. Operations: single sets, bursts of up to hundreds, floods beyond the 512-entry queue during an audio stall, graph publishes, new nodes, modulation changes, clear + rebuild; blocks of 1..128 frames. Oracle per block and input: between old and new value (no overshoot), step size at most a ramp's, equal to the last value set after 10 ms + block. The set of allowed values is derived from which operations had started/returned when the block ran. Tests set parameters with no audio thread running.",
"P02": "Random hexagonal grids over probe nodes and simple arithmetic nodes (Amp, Mix3, Map, Inp, Out), including one node placed in many cells; operations: valid and invalid changes, publish, parameter/setting/modulation changes, clear, stalls. Oracle: a ~100 line reference interpreter of the grid (adjacency, topological order, modulation, node arithmetic) computes all probe inputs and the audio output of every block; each block has to match one of the states published between the last publish that had returned before the block and the last that had started.",
"P03": "Same world with many attempted invalid changes (two outputs into one input, cycles, own errors, occupied / out-of-range cluster placement, publish of cyclic matrices). Oracle: verdict computed from the cells by the model; after a refusal cells, input assignments, generation, parameters and the running audio (reference interpreter) are unchanged.",
"P04": "`save_patch_to_file` on the simulated disk, seeded faults at any call: errno, short writes, fsync failure, process crash, power loss (unsynced data lost, torn or reordered; unsynced renames undone). Oracle: the file after every step / recovery is one of the complete saved states allowed by the durability bookkeeping, and parses.",
"P05": "Random edit histories over all node types (cells, parameters, settings, modulation, patterns, block functions, properties) in a source engine; saved (memory or disk), loaded into a fresh, used or running engine. Oracle: full comparison of both engines through the API (cells, params denormalised, modulation, settings, patterns cell by cell, block functions, properties), of the two JSON texts, and of the source before/after saving.",
"P06": "A saved patch is damaged (truncation, bit flips, zeroed sectors, read errors and short reads on the simulated disk, structural JSON damage: values removed, duplicated, retyped, out of range), loaded while audio runs, then used (edits, patterns, block functions, queries, audio), then a good patch is loaded. Oracle: no panic/hang/crash anywhere, an error leaves the old patch, the good patch is complete afterwards.",
"P07": "One or two TSeq nodes are clocked (direct phase mode) by a dynamic node that emits a pseudo-random phase per sample, so every row and sub-row position is visited. Pattern edits come from the UI thread or from a GUI thread of their own, interleaved with check_pattern_data, graph publishes, clear + re-creation, audio stalls and update storms that overflow the 64 entry update ring. Oracle: a reference model of the column types computes value and gate of each sample; while moving, each column has to play one version not older than the previous one; once settled, the last version.",
"P08": "Random histories of all Matrix operations (random cells of all node types, parameters, modulation, samples, micro samples, save/load, clear, clusters, monitors, queries, dynamic nodes, block functions, log messages, graphs with more than 64 edges at a node), while the audio thread runs with random block sizes (1..128), sample rates 8..192 kHz, MIDI storms, stalls, flooded queues and abnormal input signals chained into any input of any node. The allocator poisons and quarantines freed memory (a later write is noticed, a read gives poison). Panics are caught on every thread; a run without a scheduling point for 30 s is a hang; at the end a simple patch has to sound within 4 simulated seconds.",
"P09": "The same histories; every allocator entry point, pthread lock operation, write/read/open/nanosleep and other intercepted system call made between the start and the end of a callback is an event, reported with the innermost HexoDSP functions on the stack. Helper threads are stalled while samples are replaced (queue to the drop thread full), log queues are full, triggers fire.",
'P10': 'Streams of notes and CCs (same-frame clusters, storms of up to 1800 events, several channels) are fed with EventWindowing at random block sizes and sample rates, while the UI injects events, republishes the graph, re-creates the nodes, floods the update queue with the audio thread paused, and polls. Oracle: an executable model of MidiP (MIDI, trigger and gate length mode) and MidiCC (slew) computes every output sample; because an injection may or may not have reached a block, the oracle keeps all candidate histories that the call/return order allows and drops those that do not match; none left is a violation. The events reported to the observer have to be a merge of both sources.',
'P11': 'Up to four threads write self-describing messages of 0 to 3000 bytes (ASCII and multi byte) while the reader polls at random times; the simulated scheduler interleaves writers and the reader at every synchronisation point, with queue-full as the fault. Oracle: per thread, what arrives has to be a subsequence of what was written, with each message whole (or cut at a character border past 480 bytes); a gap is only allowed for a message that may not have fitted, counting all bytes not known to be read at that time. The pre-fix logger (see the fix under P09) violates it.',
'P12': 'The same random patch (chains, or grids where moving sources drive several inputs of the nodes; all node types with loaded samples, patterns and block functions) with a script of parameter, modulation and sync steps and MIDI events is rendered twice: by a fresh engine alone with one division into blocks, and by an engine with a simulated audio thread, another division, and a UI thread that reads everything it can. All output buffers of all nodes are compared bit by bit. Steps fall on block borders of both renderings. Not compared, because they are documented per-block inputs: the parameters of BiqFilt and dcms of Sampl. The reference is the same code, so this decides the independence from blocks and schedules, not what a node should sound like.',
'P13': 'A simulated audio thread plays a random history (edits, chains, other patches, clears, sample rate changes), then the patch under test is loaded, or built by hand in the cleared matrix, with the audio thread paused or running (the first block of the new graph is recognised by its node objects), and the sample rate set before, while or after. What it plays from then on, with a script of parameter changes and MIDI events, is compared bit by bit with a fresh engine that only ever played this patch with the same blocks.',
'P14': 'Random edits place, move, connect and delete FbWr and FbRd cells (also in real feedback loops) among other nodes, while the simulated audio thread plays with changing block sizes and sample rates, stalls and clears. A hook in the host records, per absolute frame, what each FbWr gets and compares each block of each FbRd with the record 3.14 ms back (silence where there is none).',
'P15': 'Random edits of two block programs, with small focused grids (blocks are put next to free ports, forks feed shifted inputs), are compared with a reference grid after each edit: what moved, what stayed, unique ids, no trace of refused edits. The programs are compiled and played in the simulated engine between node edits, reloads, clears, rate changes and stalls; a hook in the host recomputes every sample of every Code node with a reference interpreter of the shown blocks (with their state), and tracks which of the versions that may run at that moment explain the output.',
'P16': 'Random schedules of setting dynamic nodes (before the node exists, many within a block, while stalled, after clears and reloads), graph edits and rate changes. Each dynamic node writes a signal that encodes its number, the told sample rate, the frames it ran so far and its five inputs; a hook in the host recomputes it for every block and allows only the versions between the last returned and the last started call. Drops are counted, and must not happen in the audio thread.',
'P17': 'Random schedules of choosing the monitored cell (also empty cells, positions without a node, ports that differ from the matrix), graph edits, clears, rate changes and stalls of the audio thread and of the monitor thread (also long enough to lose buffers). The host records every monitored port while the choice stands; the entries read are searched in the sliding minima and maxima of the record: some recent stretch of 900 samples must give the newest entry, and the stretches directly before it the entries before. Signals that are not monitored must not get entries.',
'P18': 'Random schedules of edits with many instances, and of reading the values at arbitrary moments while the audio thread runs. The host records what each output ended the last 64 blocks with; the values read must all fit one block between the last complete one at the call and the one in progress at the return. For filtered values the possible readings are kept as intervals. Before the first block of a new graph the values may be 0.',
'P19': 'WAV files with known contents (and truncated, damaged and random ones) on the simulated disk, with failing and short reads injected at arbitrary calls. After each load the parameter must hold exactly the content or nothing, together with exactly one error when it holds nothing; the host checks in each block that each Sampl node has the sample it was given, is silent without one, stays in its range, and at equal sample rates plays a continuing stretch of the looped sample bit by bit.',
'P20': 'The second signal is the frame number itself (scaled to a float exactly), so each displayed point tells which frames it stands for: the windows must be consecutive with a single seam, have the width of the time range and the newest one must be current; the other two signals (ramps, saw teeth, sines) must show exactly the extremes of these frames. Triggered recordings must start at a crossing and not miss one. Looks are taken with the audio thread stopped between two blocks, peeks (only the second signal) at any scheduling point. Time ranges cover both below and above one sample per point; sample rate changes and audio stalls are injected.',
'P21': 'Chains are generated together with a description in the terms of the reference model of P02/P03. After each place the complete grid, the instances chosen, and every parameter and modulation amount of every node is compared with the model; then the reference interpreter of P02 follows the audio blocks, so that what was placed is also what plays. One description out of several contains a mistake (unknown node, port or parameter), which must give an error and leave the matrix alone.',
'P22': 'Graphs are built with the real build API in random order next to a description in the terms of the reference model; the reference interpreter of P02 computes outputs and the inputs of all probe nodes for every audio block, which must be those of the last description that was uploaded before the block (or, while an operation is under way, of one of the two). Shared nodes, long ladders of shared nodes and cycles are generated on purpose.',
'P23': 'A MatrixObserver records what it is told; after every operation the recorded events are applied to a mirror (only what was named is read again) and the mirror is compared with everything that can be read. The queries are compared with a model grid of its own (hexagon geometry, ports, connections, names) for every cell and direction after every operation. Refused operations (occupied places, positions outside of the grid, cycles) and loads of cyclic patches are injected; the audio thread runs in the simulation beside it.',
'P24': 'A small graph of a driver and the measured node is built with random parameters; the history before each measurement contains changes of the sample rate while the audio thread runs, while the node is outside of the graph or cleared, stalls and other block sizes. Each measurement records the output over enough blocks, derives the frequency (crossings or phase wraps over many periods), time (edges of envelopes, echo distance of an impulse) or corner attenuation (RMS of a sine at the corner) and compares it with the denormalized parameter in seconds and Hertz, which is the reference model.',
'P25': "Two kinds of runs. In the first, six engines are created one after another, get the same random history (graphs, samples, JIT code, dynamic nodes, monitoring, MIDI, scopes) and are ended in a random order at a random moment: front end dropped while the audio thread plays on (faults matrix_dropped), executor dropped while the front end is used on (executor_dropped), both orders with audio stopped. Freed memory is poisoned and held back, writes to it are noticed; the simulator counts the live threads after each drop and the time a drop takes. In the second, the same history is repeated seven times on one running engine, each time going back to the same patch. Live memory is counted by the simulator's allocator; it is a violation if it grows in each of the last three repetitions.",
}
