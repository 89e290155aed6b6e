PROPS += [
P("P01", "Every parameter change reaches the DSP code within the smoothing time",
  "After a parameter of a node in the published matrix is set, the running audio code sees exactly the last value set, at the latest 10 ms (plus one block) of audio later, and until then only values between the old and the new one, ramped without a step. This holds for any number of changes, also when many change at once, while graphs are published or cleared, when the audio thread stalls and its message queue overflows. Reading a parameter on the UI side always returns the value last set.",
  ["schedules","histories","fault_sequences"], "all interleavings of parameter changes, graph updates, clears and audio blocks of any size and sample rate, including stalls of the audio thread",
  "The tests set a few parameters with no concurrent audio thread and check some samples; they never overlap changes with ramps, graph swaps, clears or a full queue.",
  ["src/nodes/node_exec.rs","src/nodes/node_conf.rs","src/nodes/node_prog.rs","src/matrix.rs"],
  [m("ParamUpdate messages and smoothers","src/nodes/node_exec.rs: process_param_updates, set_param, process_smoothers"), m("queue to the audio thread with a backlog","src/nodes/node_conf.rs: SharedNodeConf::send")],
  ["inputs of a probe DSP node inside the graph","Matrix::get_param"]),
P("P02", "The audio thread always executes exactly one published matrix state",
  "Every audio block is computed from one complete matrix state that was published before or during that block - never from a mixture and never from a state older than the last publish that had returned - with all connections, modulation amounts, parameters and settings of that state: every node of the matrix runs once per block after all nodes it gets input from. Each output and each input value equals what the matrix' connections prescribe. States are never skipped backwards.",
  ["schedules","histories","inputs"], "all matrices that pass the consistency check, all histories of edits, publishes, modulation changes and clears, all interleavings with audio blocks of any size",
  "The tests check some fixed patches after a settled publish; they never publish while audio runs, and do not compare arbitrary graphs with a reference.",
  ["src/matrix.rs","src/nodes/node_prog.rs","src/nodes/node_exec.rs","src/nodes/node_conf.rs","src/nodes/node_graph_ordering.rs"],
  [m("building the program from cells","src/matrix.rs: sync, build_prog; src/nodes/node_graph_ordering.rs"), m("swapping programs on the audio thread","src/nodes/node_exec.rs: process_graph_updates; src/nodes/node_prog.rs: assign_outputs, swap_previous_outputs")],
  ["audio output per block","inputs of probe nodes in the graph","audio input fed by the host"]),
P("P03", "An invalid matrix change is refused and leaves no trace",
  "A change is refused exactly when it would connect two outputs to one input or create a cycle (or when the change itself reports an error, or a cluster is placed onto an occupied cell or outside of the grid). After a refused change all cells, the input assignments, the generation, all parameters and the running audio are as if the change had never been attempted; publishing a cyclic matrix is refused and keeps the previous graph running.",
  ["inputs","histories","schedules"], "all cell grids and attempted changes, at any point of an editing history, while audio runs",
  "The tests attempt a handful of bad changes on tiny matrices without running audio and check only the cells.",
  ["src/matrix.rs","src/nodes/node_graph_ordering.rs"],
  [m("change_matrix / save_matrix / restore_matrix","src/matrix.rs"), m("check, calculate_order, has duplicate inputs","src/matrix.rs: check; src/nodes/node_graph_ordering.rs: calculate_order")],
  ["Matrix::get_copy, param_input_is_used, get_generation, get_param","audio output per block"]),
P("P04", "Saving a patch is atomic under crashes, power loss and I/O errors",
  "At any moment, and after a process crash, a power loss or an I/O error at any point of saving, the patch file holds a complete, loadable patch: one that was saved earlier or the one being saved, and never an older one than the last that was durable. A save that reports success is what a reader sees from then on; a save that reports an error leaves the previous file readable.",
  ["crash_points","fault_sequences","inputs"], "all crash points and I/O error points of all sequences of saves of arbitrary patches, with lost, reordered and torn unsynced writes",
  "The tests write and read a file once on a healthy disk; no test crashes or injects an I/O error.",
  ["src/matrix_repr.rs"],
  [m("write to a temporary file, sync, rename","src/matrix_repr.rs: write_to_file")],
  ["the bytes of the patch file after each operation and after recovery","MatrixRepr::read_from_file"]),
P("P05", "Loading a saved patch restores exactly the saved state",
  "Loading a patch that was saved from any state, to a file or to memory, into any engine - fresh, running, or with another patch loaded and edited before - gives the same cells, connections, parameters, modulation amounts, settings, patterns, block functions and properties as were saved, with nothing left over from before. Saving never alters the patch, and saving the loaded patch again gives the same content.",
  ["inputs","histories"], "all patches reachable by any editing history, all states of the engine loaded into",
  "The tests round-trip a few small patches into fresh engines.",
  ["src/matrix_repr.rs","src/matrix.rs","src/dsp/tracker/pattern.rs","src/wblockdsp/language.rs","src/nodes/node_conf.rs"],
  [m("to_repr / from_repr","src/matrix.rs, src/dsp/tracker/pattern.rs"), m("JSON (de)serialisation","src/matrix_repr.rs, src/wblockdsp/language.rs"), m("dump_param_values / load_dumped_param_values","src/nodes/node_conf.rs")],
  ["Matrix API of both engines after the load","JSON of both"]),
P("P06", "A damaged patch file never takes the engine down",
  "Loading a patch file or buffer with arbitrary damage - cut off, flipped bits, zeroed sectors, read errors, values changed, removed, duplicated or of the wrong type or range - either fails with an error and leaves the current patch untouched, or loads something; neither the UI thread nor the audio thread panics, hangs or stops processing, then or later. A good patch can be loaded afterwards and is complete.",
  ["inputs","fault_sequences","histories"], "all damages of all patches, with audio running",
  "The tests only load well-formed files.",
  ["src/matrix_repr.rs","src/matrix.rs","src/dsp/tracker/pattern.rs","src/wblockdsp/language.rs","src/nodes/node_conf.rs"],
  [m("checked deserialisation","src/matrix_repr.rs: deserialize; src/wblockdsp/language.rs: deserialize"), m("range checks when the patch is applied","src/matrix.rs: from_repr; src/nodes/node_conf.rs: load_dumped_param_values")],
  ["result of load_patch_from_file/_mem","UI queries, audio callbacks, a following good load"]),
P("P07", "The pattern the UI shows is the pattern that plays",
  "After the UI edits a pattern (cells, column types, number of rows) and keeps polling check_pattern_data, every column of the tracker sequencer plays exactly that pattern: for each clock phase the value and gate outputs are those the pattern prescribes. While edits are under way each column plays one complete version of itself, never older than one it played before; also when the update queue is full, the audio thread stalls, or the tracker node is deleted and created again.",
  ["schedules","histories","fault_sequences"], "all edit histories of all patterns, from any thread, interleaved with polling, graph changes and audio blocks, at every clock phase",
  "The tests check a few fixed patterns with no concurrent edits, queue overflow or re-created nodes.",
  ["src/dsp/tracker/mod.rs","src/dsp/tracker/pattern.rs","src/dsp/tracker/sequencer.rs","src/dsp/node_tseq.rs","src/nodes/node_conf.rs"],
  [m("Tracker / TrackerBackend update queue","src/dsp/tracker/mod.rs: send_one_update, check_updates"), m("pattern columns to playback data","src/dsp/tracker/pattern.rs: get_out_data; src/dsp/tracker/sequencer.rs")],
  ["value and gate outputs of the TSeq node for given clock phases","PatternData queries"]),
P("P08", "No history of calls, audio or MIDI takes the engine down",
  "Whatever sequence of valid Matrix calls, audio blocks, MIDI events, sample rate changes, loads, clears, monitor and query calls is made, no call and no audio callback panics, crashes, hangs or touches freed memory, with any finite parameter values and any audio input (NaN, infinities, denormals and huge values included). Afterwards the engine still works: a new patch plays within a bounded time.",
  ["histories","schedules","inputs","fault_sequences"], "all interleavings of UI calls with audio callbacks, all node types and settings, arbitrary audio input and MIDI, stalls, full queues",
  "Unit tests run each node once with tame input on one thread.",
  ["src/nodes/node_exec.rs","src/nodes/node_conf.rs","src/nodes/node_prog.rs","src/matrix.rs","src/dsp/"],
  [m("graph updates and processing","src/nodes/node_exec.rs: process_graph_updates, process"), m("raw processing buffers","src/dsp/mod.rs: ProcBuf; src/nodes/node_prog.rs"), m("all DSP nodes","src/dsp/node_*.rs: process")],
  ["panics, aborts, endless loops, writes to freed memory","output of a simple patch after the history"]),
P("P09", "The audio callback never allocates, frees, locks or makes system calls",
  "After its first block, no audio callback (process_graph_updates, feed_midi_events_from, process) allocates or frees memory, takes a lock, or makes a system call; whatever the UI thread does meanwhile and however late the helper threads run. Memory that leaves the audio thread is freed by another thread.",
  ["schedules","histories","fault_sequences"], "all interleavings of UI calls with audio callbacks, all node types, queue overflow, late drop and monitor threads",
  "No test looks at what the audio thread does besides its output, and the offending paths need full queues or special triggers.",
  ["src/nodes/node_exec.rs","src/nodes/drop_thread.rs","src/log.rs","src/monitor.rs","src/dsp/"],
  [m("graph updates hand garbage to the drop thread","src/nodes/node_exec.rs: process_graph_updates; src/nodes/drop_thread.rs"), m("logging from the audio thread","src/log.rs"), m("monitor buffers","src/monitor.rs")],
  ["allocator, lock and system calls inside the callback, with the responsible function"],
  note="set_sample_rate may allocate (FbWr/FbRd, delays); hosts call it outside of the callback."),
P("P10", "Every MIDI event takes effect exactly once, in order, at its sample",
  "Each MIDI event the host feeds or the UI injects acts exactly once, in order, at exactly its sample frame, on all MidiP and MidiCC nodes of its channel and on no other, whatever the block sizes and sample rate; re-publishing the graph neither loses nor repeats events nor resets held notes. Events that do not fit into a block or into the full queue of a stalled audio thread come later, not never, and the observer is told of every event once, in order.",
  ["schedules","histories","fault_sequences","inputs"], "all event streams, all block partitions, interleaved with graph publishes, injections, queue overflow and audio stalls",
  "The tests feed a few events in fixed blocks, without graph changes, injection order, overflow or a check of the reported events.",
  ["src/nodes/midi.rs","src/nodes/node_exec.rs","src/nodes/node_conf.rs","src/dsp/node_midip.rs","src/dsp/node_midicc.rs","src/matrix.rs"],
  [m("windowing and feeding of events","src/nodes/midi.rs: EventWindowing, MidiEventPointer; src/nodes/node_exec.rs: feed_midi_events_from"), m("injected events and event reports","src/nodes/node_conf.rs: inject_midi_event, next_event; src/matrix.rs: handle_graph_events"), m("MIDI nodes","src/dsp/node_midip.rs, src/dsp/node_midicc.rs: process")],
  ["pitch, gate, velocity and CC outputs of the nodes, sample by sample","events reported to the MatrixObserver"]),
P("P11", "Log messages of every thread arrive whole, once and in order",
  "Every message a thread writes to its thread logger is delivered by retrieve_log_messages exactly once, unaltered (cut only at a character border if longer than the 512 byte buffer), in the order it was written and under the name of its thread, however the writing and reading threads interleave. A message may be dropped only as a whole, and only if the unread messages of its thread fill the queue.",
  ["schedules","histories","inputs"], "all message texts and lengths, all interleavings of up to four writers and the reader",
  "The one test logs two short messages; it does not write long messages or multi byte characters, fill the queue, or read in the middle of a write.",
  ["src/log.rs"], [m("thread logger","src/log.rs: Log::log, LogReceiver::retrieve_messages")], ["messages passed to the retrieve_log_messages callback"]),
P("P12", "A patch sounds the same whatever block sizes the host uses",
  "Given the same patch, input, MIDI events and parameter changes at the same frames, every output of every node is sample for sample the same however the host divides the time into blocks of 1 to 128 frames and however the audio thread is scheduled. Looking at the patch (LEDs, feedback, monitors, scopes, getters, saving) does not change the sound.",
  ["schedules","inputs","configurations","histories"], "all patches of all node types, all divisions into blocks, all interleavings with a UI that reads",
  "The tests render with the one block size of test_run, without an audio thread.",
  ["src/nodes/node_exec.rs","src/nodes/node_prog.rs","src/dsp/"], [m("block processing","NodeExecutor::process, process_smoothers, every DspNode::process"), m("read access","Matrix: update_filters, monitor_cell, get_scope_handle, save_patch_to_mem")], ["output buffers of all nodes in NodeProg, audio output channels"]),
P("P13", "A patch sounds the same whatever the engine did before it was loaded",
  "A patch that is loaded, or built in the cleared matrix, renders sample for sample what it renders in a fresh engine, for every earlier history of edits, other patches, playing and sample rate changes. This holds also if the audio thread runs while the patch is loaded, and whenever the sample rate is set: before, while or after loading.",
  ["schedules","histories","configurations"], "all patches, all earlier histories, all interleavings of loading, rate changes and the audio thread",
  "The tests render each patch in a new engine at a fixed sample rate.",
  ["src/matrix.rs","src/nodes/node_conf.rs","src/nodes/node_exec.rs","src/global.rs"], [m("state between patches","Matrix::clear, Matrix::from_repr, NodeConfigurator::delete_nodes, NodeExecutor::process_graph_updates, set_sample_rate"), m("global node state","NodeGlobalData: feedback buffers, trackers, code engines")], ["output buffers of all nodes in NodeProg, audio output channels"]),
P("P14", "FbRd plays exactly what FbWr got 3.14 ms before",
  "At every frame FbRd n plays (times its volume) the sample FbWr n got 3.14 ms earlier (but at least 128 frames), and silence if there was none, for every sample rate, division into blocks, order of the nodes in the graph and history of graph edits. Instances are independent of each other, and after clearing the matrix nothing of the old signal is left.",
  ["schedules","histories","configurations"], "all sequences of graph edits, sample rate and block size changes, stalls and clears with up to three instances",
  "One test renders one patch at 44100 Hz with the reader before the writer in the graph.",
  ["src/shared_feedback.rs","src/dsp/node_fbwr_fbrd.rs","src/global.rs"], [m("feedback delay","SharedFeedbackWriter::write, SharedFeedbackReader::read, FbWr, FbRd")], ["input buffer of FbWr and output buffer of FbRd in NodeProg"]),
P("P15", "The block program that is shown is the code that plays",
  "After check_block_function the Code node computes at every sample exactly what the shown blocks and their connections say, with the state of the blocks kept over recompilations, for every program, sequence of edits, sample rate change, new node and reload; a program that is not valid is reported and leaves the old one playing. No edit of the blocks loses, duplicates or changes another block, and an edit that is refused changes nothing.",
  ["programs","histories","schedules"], "all sequences of block edits (put, remove, move, clone, move chains, split, shift ports, undo), node edits, reloads and checks for two Code nodes",
  "The tests compile a handful of fixed programs once, outside of the engine, and call the function a few times.",
  ["src/wblockdsp/compiler.rs","src/wblockdsp/language.rs","src/wblockdsp/definition.rs","src/global.rs","src/dsp/node_code.rs"], [m("block programs","BlockFun, Block2JITCompiler, NodeGlobalData::check_code, Code")], ["input and output buffers of the Code nodes in NodeProg","BlockFun::save_snapshot"]),
P("P16", "A Rust1x1 node runs the dynamic node that was set last",
  "From the return of set_dynamic_node1x1 on Rust1x1 n runs the given node on every block, with its own input slices, the current sample rate told before the first and after every change, its state kept between the blocks, and its LED values shown. Replaced dynamic nodes never run again, are never dropped in the audio thread, and every one is dropped once the engine is gone.",
  ["schedules","histories"], "all sequences of setting dynamic nodes, graph edits, clears, reloads, rate changes and stalls with three instances",
  "The tests set one closure before the engine starts.",
  ["src/dsp/node_rust.rs","src/global.rs","src/matrix.rs"], [m("dynamic nodes","DynNodeHandle::write, DynNodeBuffer::access, Rust1x1::process")], ["output buffer of Rust1x1 in NodeProg","led_value_for","Drop of the dynamic nodes"]),
P("P17", "The signal monitor shows what the monitored cell really computes",
  "For each connected input and output of the monitored cell, the entries get_minmax_monitor_samples returns are the minima and maxima of directly consecutive stretches of 900 samples of the signal the engine computed there, newest last, and the newest entry is at most a few tens of milliseconds older than the newest complete stretch. This holds for every choice of the cell, through graph edits (the cell at the monitored position is followed), rate changes, and again after stalls of the audio or the monitor thread; ports that are not connected, empty cells and a cleared matrix add no entries.",
  ["schedules","histories","fault_sequences"], "all sequences of choosing cells, graph edits, clears, reloads, rate changes, block sizes from 32 and stalls of the audio and the monitor thread",
  "The tests feed the monitor by hand, or wait for one simple patch.",
  ["src/monitor.rs","src/matrix.rs","src/nodes/node_conf.rs","src/nodes/node_exec.rs"], [m("monitor","MonitorBackend, MonitorProcessor, Monitor, NodeConfigurator::monitor, Matrix::remonitor_cell")], ["Matrix::get_minmax_monitor_samples","input and output buffers in NodeProg"]),
P("P18", "Output feedback and LED values are those of the block played last",
  "After update_filters or update_output_feedback, out_fb_for gives for all nodes of the running graph the last sample of each output, all from the same block, which is not older than the block that was complete when the update was called. The LED of an oscillator, mixer, filter or envelope node likewise is the last sample of its output in a block not older than that, and filtered values are the largest negative and positive magnitudes of the last 10 readings, the current one included, no matter in which updates they are asked for.",
  ["schedules","histories"], "all sequences of graph edits, clears, reloads, parameter changes, readings at arbitrary times and block sizes from 1",
  "The tests read a value after the audio was rendered completely in the same thread.",
  ["src/nodes/node_conf.rs","src/nodes/node_exec.rs","src/nodes/node_prog.rs","src/nodes/feedback_filter.rs","src/nodes/visual_sampling_filter.rs"], [m("feedback","NodeProg::out_feedback, NodeConfigurator::update_output_feedback, node_ctx_values, FeedbackFilter")], ["Matrix::out_fb_for","Matrix::led_value_for","Matrix::filtered_led_for","Matrix::filtered_out_fb_for","output buffers in NodeProg"]),
P("P19", "A sample plays exactly what its WAV file contains, or is reported",
  "Setting the sample of a Sampl node to a path either loads the first channel of the complete WAV file at full scale with its sample rate (at most 60 s), which the node then loops sample by sample at default pitch, or reports exactly one error, keeps the path and leaves the node silent: missing, truncated or damaged files and failing or short reads never give wrong or partial samples, a panic, or a change to any other node. After the fault is gone the same path loads, a loaded one keeps its content until the matrix is gone, and loading a patch does the same for every sample in it.",
  ["fault_sequences","inputs","histories"], "all sequences of setting samples, replacing and deleting files, read faults at arbitrary calls, graph edits, clears and reloads; generated WAV files with 1 to 6 channels, 8, 16, 24 and 32 bits",
  "The tests load one intact 16 bit mono file.",
  ["src/sample_lib.rs","src/nodes/node_conf.rs","src/dsp/node_sampl.rs"], [m("samples","SampleLibrary::load, NodeConfigurator::set_param, Sampl::play")], ["get_param","pop_error","atoms and outputs in NodeProg"]),
P("P20", "The oscilloscope shows the signals it got, gapless, aligned and triggered",
  "The 512 points of each connected scope signal are, in order and without gaps, the maxima and minima of consecutive stretches of the audio that was played, all three signals over the same stretches, spanning the chosen time range, with one seam between the current recording and the one before. With a trigger a recording starts where the trigger signal passes the threshold upwards and at the first such chance after the one before ended, without one it stays as it is. Offsets, gains, the threshold and which inputs are connected are shown as set.",
  ["schedules","histories","configurations"], "all sequences of setting up scopes, changing time ranges, triggers, thresholds, views, connections, sample rates and block sizes, graph edits and stalls; reads at arbitrary points",
  "The tests look at single values of one scope with one setting.",
  ["src/dsp/node_scope.rs","src/scope_handle.rs","src/nodes/node_conf.rs"], [m("scope","Scope::process, ScopeHandle::write/read, Matrix::get_scope_handle")], ["ScopeHandle::read","ScopeHandle::is_active","ScopeHandle::get_threshold"]),
P("P21", "A MatrixCellChain is placed as described and touches nothing else",
  "Placing a chain (MatrixCellChain::place) puts exactly the described nodes, connected in the described direction by the named ports, into the named cells, with each described parameter and modulation amount set on the very node that was placed; no node instance that is already in the matrix is reused and parts outside the grid are left out. Nothing else changes: no other cell, and no parameter of any other node that is in use. A mistake in the description (an unknown node, port or parameter name) is reported as an error and neither panics nor changes the matrix.",
  ["inputs","histories"], "all sequences of chains over six node types with random directions, ports, parameters, modulation amounts, instances and mistakes, placed at random positions into a matrix with a history of edits, clears and other chains, while audio is running",
  "The tests place two short chains into an empty matrix.",
  ["src/chain_builder.rs","src/matrix.rs","src/nodes/node_conf.rs"], [m("chain","MatrixCellChain::place, place_now, Matrix::get_unused_instance_node_id")], ["Matrix::get_copy","Matrix::get_param","outputs and inputs in NodeProg"]),
P("P22", "A SynthConstructor plays exactly the graph that was described with the build API",
  "After SynthConstructor::upload (and the initial one) the audio outputs and all node inputs are those of the described graph: every node reachable from what was passed, with the described connections, settings and modulation amounts, whatever order nodes were created in and however often they are shared. update_params brings changed parameters to the running graph without a new upload and uploads it when the connections changed. A graph with a cycle is refused and the one that plays goes on.",
  ["inputs","histories","schedules"], "all sequences of building graphs over six node types from fresh and reused handles, with fan out, sharing, modulation, cycles, changed parameters, uploads, clears and single parameter updates, while audio is running",
  "The tests build a handful of fixed graphs with at most three nodes.",
  ["src/synth_constructor.rs","src/build.rs","src/nodes/node_conf.rs"], [m("synth","SynthConstructor::new, upload, update_params, build::*")], ["outputs and inputs in NodeProg","SynthConstructor::upload result"]),
P("P23", "Observers hear of every change, and the queries agree with what was placed",
  "After every operation an observer that re-reads only what it was told about (parameters, properties, cells, the monitored cell) sees the same matrix as someone who reads everything anew, and whoever follows get_generation notices every change, also when a patch with a refused graph was loaded. All queries (cells and their labels, neighbours, connections, free places and unconnected ports, edge labels, inputs in use, for_each_atom) agree with the cells that were placed and the values that were set, and place_multiple places all of its cells or none.",
  ["inputs","histories","schedules"], "all histories of placing, removing and rewiring cells, parameters, modulation amounts, properties, monitored cells, clears, saves, loads and loads of cyclic patches on grids of up to 5x5, while audio is running",
  "The tests sample a few fixed patches and never look at the neighbours, the observer or the generation after a refused or composite change.",
  ["src/matrix.rs","src/nodes/node_conf.rs","src/cell_dir.rs"], [m("matrix","MatrixObserver, Matrix queries, Cell queries, place_multiple, set_param_modamt, for_each_atom")], ["MatrixObserver callbacks","Matrix query results"]),
P("P24", "Frequencies and times are what the parameters say, at every sample rate",
  "Oscillators, LFOs and looped samples sound at the frequency of their parameters, envelopes rise and fall in their times, delay lines, comb and allpass filters delay by their times, and low passes cut at their frequency, as measured in real time at whatever sample rate the engine runs with. This holds after every history of changes of the sample rate, of the graph and of parameters, for every instance, also when the rate was changed while the node was not part of the graph.",
  ["configurations","histories","inputs","schedules"], "all sample rates from 22050 to 192000 Hz and all histories of rate changes, removals and re-creations of nodes, clears and block sizes before a measurement, for the nodes sin, bosc, vosc, tslfo, ad, adsr, delay, allp, comb, sampl, sfilter, biqfilt and formfm",
  "The tests run at 44100 Hz and never change the sample rate of an engine that is running.",
  ["src/dsp/node_*.rs","src/nodes/node_exec.rs"], [m("nodes/node_exec","set_sample_rate and the creation of nodes"),m("dsp","set_sample_rate of the nodes and their process functions")], ["output samples of the nodes"]),
P("P25", "Engines end cleanly in every order, and memory is given back",
  "Matrix and NodeExecutor may be dropped in any order and at any time: the audio thread plays on without touching freed memory when the front end is gone, the front end can be used on when the executor is gone, dropping either never hangs, and afterwards no thread of the engine is running. Repeating the same history, with new engines or on one engine, does not make the used memory grow.",
  ["histories","schedules","fault_sequences"], "all histories of edits, parameters, samples, code, dynamic nodes, monitoring, loads and clears before the end, all orders and moments of dropping both halves, six or more repetitions",
  "The tests let both halves go at the end of a test function, with the audio thread already over, and never look at memory or threads.",
  ["src/nodes/node_exec.rs","src/nodes/drop_thread.rs","src/nodes/node_prog.rs","src/monitor.rs","src/global.rs"], [m("nodes/drop_thread","DropThread"),m("monitor","Monitor and its thread"),m("nodes/node_prog","Drop of NodeProg and ModOp"),m("global","NodeGlobalData")], ["live threads","live memory","memory after free"]),
]
NA = []
