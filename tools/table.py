KC = "contract-based deductive verification: Kani function contracts and contract harnesses on the real crate; bounded native contract runs for the engine level"
KV = "contract-based deductive verification: Verus contracts, invariants and lemmas on functions extracted from the current source (unbounded); bounded native contract runs on the real crate"
KKV = "contract-based deductive verification: Kani function contracts and contract harnesses on the real crate, Verus contracts on functions extracted from the current source (unbounded); bounded native contract runs for the engine level"
PROPS = [
dict(id="P01", title="Nodes run after the nodes they take their input from",
 statement="For every acyclic graph the computed order contains every node of the graph exactly once and every node comes after all nodes it gets input from; a graph with a cycle (also one through several cells of the same node) is rejected, yields no order, and leaves the running program as it was. The order depends only on the nodes and edges that were added since the last clear, not on what was there before. A path query that gives an answer gives the right one.",
 over=["inputs","histories","programs"], quant="all graphs: any number of nodes and edges, any order of insertion, repeated edges, reuse after clear",
 why="tests order six small graphs; a wrong counter only shows for particular degrees, duplicate edges or reuse",
 files=["src/nodes/node_graph_ordering.rs","src/matrix.rs","src/nodes/node_conf.rs"],
 mech=[("graph","NodeGraphOrdering::add_node, add_edge, clear, Node::add_edge"),("Kahn's algorithm","NodeGraphOrdering::calculate_order"),("path search","NodeGraphOrdering::has_path"),("program","Matrix::sync, Matrix::check")],
 obs=["NodeGraphOrdering::calculate_order","Matrix::sync","NodeProg::prog"], hook=None,
 tech=KV, level="proof", cfg=dict(kani=False),
 note="Proved without bound by Verus: all functions of NodeGraphOrdering and its Node (order is a topological order of exactly the added graph; rejection implies that no ranking of the nodes exists; path answers; termination). Bounded: the same functions and Matrix::sync as compiled, on random graphs.",
 bounds={"order_small":"20000 graphs of up to 7 nodes","order_large":"300 graphs of up to 301 nodes","matrix_order":"300 matrices of up to 5x5 cells, up to 4 changes each"},
 assume=["NodeId is abstracted to u64 in the Verus proof (derived Eq and Hash of NodeId agree)","fewer than usize::MAX nodes"]),
dict(id="P02", title="Every node owns its own ports, and port numbers map exactly",
 statement="After any sequence of node creations each node of the graph has its own contiguous block of output, input, atom and modulator slots, sized to the node's ports; blocks of different nodes never overlap and together cover the whole program. A local port number translates to exactly the slot at that offset inside the node's own block, and a port number the node does not have translates to nothing. A modulator slot exists for exactly the inputs that have a modulation amount.",
 over=["inputs","histories","configurations"], quant="all blocks, port numbers and node instances; all sequences of node creations (at most 256 node instances, the engine's limit)",
 why="tests build a handful of small graphs; overlap or off by one needs particular combinations of node port counts",
 files=["src/nodes/node_conf.rs","src/nodes/node_prog.rs","src/nodes/mod.rs"],
 mech=[("local to global port translation","NodeInstance::in_local2global, out_local2global, mod_in_local2global (src/nodes/node_conf.rs)"),("port assignment","NodeConfigurator::rebuild_node_ports (src/nodes/node_conf.rs)")],
 obs=["NodeProg::prog","NodeConfigurator::add_prog_node"], hook="contracts on NodeInstance",
 tech=KKV, level="proof",
 note="Proved without bound by Verus: create_node, rebuild_node_ports, add_prog_node, set_prog_node_exec_connection, all of NodeInstance: every node gets exactly its block of outputs, inputs, atoms and modulators, modulators for exactly the inputs with an amount, parameters and atoms are those of the ports at their slots with their kept or default value; as lemmas blocks are disjoint, cover the program, and different ports have different slots; a connection is made between exactly the slots asked for. Kani, on the compiled crate: the three translations, the operation record and disjointness. Complete enumeration: what is assumed of the table of nodes. Bounded: the whole rebuild as compiled (engine_layout*).",
 bounds={"node_table":"all kinds of nodes (complete)","engine_layout":"1..8 random nodes, 1..3 rebuilds","engine_layout_large":"120..200 random nodes"},
 assume=["at most 256 node instances (node index is u8 in the program)","HashMap is a map","node_factory makes a node of the kind asked for and never a Nop","NodeProg::new makes a program of the given sizes (bounded: engine_layout)"]),
dict(id="P03", title="The running program connects exactly what the graph connects",
 statement="In the audio thread every connected input reads exactly the output it was connected to, every unconnected input reads its own parameter, and a modulated connection delivers parameter + amount * output for every frame of the block. Connection flags of a node are set for exactly its connected ports. Swapping in a new program never leaves an input reading a buffer of the old program or lets two programs own the same buffer.",
 over=["inputs","histories","programs"], quant="all graphs, ports, modulation amounts, sample values and program swaps",
 why="tests check the audio of a few fixed graphs; a wrong flag or stale buffer only shows for particular port numbers or swap histories",
 files=["src/nodes/node_prog.rs","src/nodes/node_conf.rs","src/dsp/mod.rs"],
 mech=[("edges and flags","NodeProg::append_edge, NodeOp::set_in_idx_connected_flag, set_out_idx_connected_flag"),("buffer assignment","NodeProg::assign_outputs, unlock_buffers, swap_previous_outputs"),("modulation","ModOpIn::process")],
 obs=["NodeProg::cur_inp","NodeOp::in_connected"], hook="contracts on the flag setters, conn_bit",
 tech=KKV, level="proof",
 note="Proved without bound by Verus: append_op, append_edge, initialize_input_buffers, assign_outputs, unlock_buffers, swap_previous_outputs, the modulation operation over a block and the port flags: after assign_outputs every input of every operation holds the buffer its connections say and every modulator its parameter and output; after a swap no buffer is shared or lost and no old one is held. Kani, on the compiled crate: flag contracts, flag frame lemma, modulation law per frame. Bounded: the compiled program and whole engine graphs.",
 bounds={"modop_block":"random full blocks of 128 frames","append_op_once":"3 operations","append_edge_exact":"2 operations","assign_and_swap":"up to 5 nodes, 8 edges, two programs","engine_wiring":"2..7 random nodes, up to 8 edges, 2 uploads"},
 assume=["ProcBuf is a pointer to 128 samples: contracts of read, write and fill over a tracked memory (unsafe code)","copy_from_slice and mem::swap: assumed contracts","ports of different nodes are disjoint (P02)","f32 operations are functions of their operands"]),
dict(id="P04", title="Geometry of the hexagonal grid",
 statement="Stepping in a direction and then in the opposite direction returns to the same cell, the six directions lead to six different neighbours, and the direction between two adjacent cells is exactly the step that leads from one to the other. A path between two cells consists of steps which, followed from the first cell, end in the second. Edge numbers 0..5 and directions correspond one to one, and a direction is an input or output edge, never both.",
 over=["inputs"], quant="all cells and directions (coordinates below 2^31; paths between cells of the 256x256 grid a patch can address)",
 why="tests look at some neighbours around a few cells; parity of columns and the grid border double every case",
 files=["src/cell_dir.rs"],
 mech=[("neighbour offsets","CellDir::offs_pos, as_offs, flip, from, are_adjacent"),("paths","CellDir::path_from_to")],
 hook="contracts on CellDir", tech=KKV, level="proof",
 note="Kani, on the compiled crate, for all inputs: direction/edge/offset/adjacency contracts. Proved without bound by Verus: from, flip, as_offs, offs_pos and path_from_to (every step of a path leads to an existing cell, between cells of the 256x256 grid the path always ends in the target), there and back, six different neighbours, a direction is determined by the two cells. Complete enumeration: the float distances the path search compares are exact. Bounded: path_from_to as compiled.",
 bounds={"p04_distance_exact":"all distances of columns and rows below 4096, up to 2047 apart (complete)","p04_path_reaches":"4000 random pairs of cells"},
 assume=["f32 additions and comparisons of whole numbers below 2^24 are exact"]),
dict(id="P05", title="The matrix connects neighbouring cells, and rejected changes leave no trace",
 statement="A cell placed in the matrix is stored at exactly its position with its ports and changes no other cell; positions outside of the matrix are ignored. An output edge and the facing input edge of the neighbouring cell are connected exactly if both have a port set, and all queries about neighbours, free cells, connections and used inputs agree with that. Checking a matrix accepts it exactly if no input has two connections and there is no cycle, and names the conflicting outputs. A change that is rejected (or fails) leaves every cell and the used inputs as they were before. A chain of nodes is placed along its direction with unused instances, connected as described and with its parameters set on those nodes.",
 over=["inputs","histories"], quant="all grids, positions, cells, ports, changes and chains",
 why="tests place a few cells; grid borders, column parity and rollbacks multiply the cases",
 files=["src/matrix.rs","src/chain_builder.rs","src/cell_dir.rs"],
 mech=[("cells","Cell::set_io_dir, clear_io_dir, has_dir_set, local_port_idx, offs_dir"),("grid","Matrix::place, get, get_adjacent, get_adjacent_output, adjacent_edge_has_input, get_connections"),("validation","Matrix::check, change_matrix, change_matrix_err, place_multiple"),("chains","MatrixCellChain::place")],
 obs=["Matrix::get","Matrix::check","Matrix::param_input_is_used"], hook="contracts on Cell, Matrix::verif_grid (cfg(kani))",
 tech=KKV, level="proof", cfg=dict(native_mult=5),
 note="Proved without bound by Verus for grids up to 256x256: every query about a cell, its neighbours, free and unconnected edges and connections is exactly what the cells say (offset of the neighbour, both ports set), place stores the cell at exactly its position; the edges, graph and used inputs are exactly the pairs of facing ports; check accepts exactly if no input has two connections and the graph is acyclic (ordering: P01) and names a pair that conflicts; change_matrix, change_matrix_err and restore_matrix put every cell and used input back; place_multiple; MatrixCellChain::place (positions, kinds, unused and different instances, parameters). Kani, on the compiled crate: contracts of the port setters and cell builders, place/get/neighbours on grids of up to 3x3 arbitrary cells. Bounded: the same on whole engines, and the resulting program.",
 bounds={"grid_queries":"1500 matrices of up to 7x7","check_result":"1200 matrices of up to 4x4","rollback":"1200 matrices of up to 4x4, two changes each","chains":"600 chains of up to 4 nodes","sync_program":"120 matrices"},
 assume=["the change given to change_matrix keeps the size and does not itself save or restore the matrix (nested change_matrix)","NodeGraphOrdering: the contracts proved by the check of P01","HashMap and HashSet as maps and sets; Vec::clone","unused_instance_node_id gives an unused instance of the kind, below 255","Matrix::set_param keeps the cells (P06)","the Kani grid proofs use grids of up to 3x3 cells"]),
dict(id="P06", title="Parameter changes arrive exactly where they were set, smoothly and without loss",
 statement="A parameter value set by the frontend reaches exactly the input it was set for and no other: the input moves in a straight ramp of 10 ms from the value it currently has and is then exactly the value that was set. A new value during the ramp, a new graph during the ramp, and values set before the node exists or is uploaded lose nothing and never jump. If more parameters change at once than can be smoothed, the others get their value at once instead of losing it. Settings (atoms) and modulation amounts take effect with the next block at exactly their port, and a modulated input reads parameter + amount * signal. Reading a parameter, setting or modulation amount back gives the value last set, or the default.",
 over=["inputs","histories"], quant="all parameters, values, orders of changes, uploads, deletions and block sizes, as long as fewer than 512 updates are queued for the audio thread",
 why="tests set a parameter and look at the end value; the order of changes, uploads and blocks is a history",
 files=["src/util.rs","src/nodes/node_exec.rs","src/nodes/node_conf.rs"],
 mech=[("ramp","Smoother::set, next, set_sample_rate"),("dispatch","NodeExecutor::set_param, process_smoothers, process_graph_updates"),("frontend","NodeConfigurator::set_param, get_param, set_param_modamt, rebuild_node_ports, upload_prog")],
 obs=["NodeProg::inp","NodeProg::cur_inp","NodeProg::atoms"], hook="contracts on Smoother, Smoother::verif_new/verif_state",
 tech=KKV, level="proof",
 note="Proved without bound by Verus: all of Smoother (a ramp of any length is a straight line of exactly its length and then exactly the target, split over blocks in any way), set_param and process_smoothers (the input set starts from its present value and no other input, smoother or buffer changes; at most one smoother per input; every input that does not move shows exactly its parameter; nothing is lost if all smoothers are in use), set_modamt. Kani, on the compiled crate: contracts of Smoother::set/next, one step from any state, a whole ramp of up to 4 samples for all values. Bounded: the ramp at real sample rates and whole engine histories against a reference model of every input.",
 bounds={"ramp_shape":"3000 ramps, 1 to 200 kHz","engine_params":"120 histories of up to 40 steps, up to 8 nodes","matrix_params":"60 histories of a three node matrix"},
 assume=["ProcBuf is a pointer to 128 samples: contracts of write and fill over a tracked memory (unsafe code)","Vec::retain and iter_mut().find(): assumed contracts","f32 operations are functions of their operands; the ramp length is a function of the sample rate (bounded: ramp_shape)","blocks of 1 to 128 frames","at most 512 updates between two audio blocks (size of the ring buffer)"]),
dict(id="P07", title="MIDI events reach the nodes exactly once, in order, at their frame",
 statement="Every MIDI event given to the engine is delivered to the node programs exactly once, in its order of arrival, at the frame of the block it belongs to, whatever the block sizes are; injected events come first, in injection order, at frame 0. Each event is classified as note or control change exactly, reported to the frontend, and the MIDI nodes output pitch, velocity, gate and controller values of exactly the events on their channel and controller from the frame of the event on.",
 over=["inputs","histories"], quant="all events, timings, block sizes and histories of blocks; events sorted by time",
 why="tests send a few fixed events in aligned blocks; windows at block borders and several events per frame are combinations",
 files=["src/nodes/midi.rs","src/nodes/node_exec.rs","src/dsp/node_midip.rs","src/dsp/node_midicc.rs"],
 mech=[("windowing","EventWindowing::feed, next_event_in_range"),("per frame delivery","MidiEventPointer::next_at"),("collection","NodeExecutor::feed_midi_events_from")],
 obs=["GraphEvent::MIDI","outputs of MidiP/MidiCC"], hook="verif_* accessors, exec_midi",
 tech=KKV, level="proof",
 note="Proved without bound by Verus: every function of src/nodes/midi.rs, the collection of the events of a block (each event in exactly one list, in order, none lost unless a list is full), and MidiP and MidiCC frame by frame for all gate modes (each event at its frame, only the own channel and controllers). Kani, on the compiled crate: classification, windowing and pointer contracts. Bounded: event lists and MIDI nodes in the engine.",
 assume=["synfx-dsp's TrigSignal, GateSignal and SlewValue are functions of their state and arguments","the event source is a closure that is asked until it returns None","fewer than 512 events are injected per block (the engine keeps 64)","f32 operations are functions of their operands"],
 bounds={"engine_midi":"up to 6 blocks, 30 events","midi_cc_node":"up to 12 events in 500 frames","midi_note_node":"up to 10 events in 500 frames","pointer_all_frames":"3 events, 4 frames (unwound)"}),
dict(id="P08", title="The sequencer plays exactly what is in the tracker pattern",
 statement="Editing a tracker pattern changes exactly the edited cell, column type or row count, ignores positions outside of the pattern, and saving and loading a pattern gives the same pattern. Every row of a note or step column plays the pitch or value of the last set cell up to that row, with the gate high exactly in the rows that are set. A value column plays straight lines between the set cells (the first and last row are 0 if they are empty) with the gate high exactly in the last row. A gate column plays the pulses its cells encode (gate length, ratcheting, probability) and nothing in empty rows. The position in the pattern selects the row exactly. Every edit reaches the audio thread, whatever the order of edits, transfers and audio blocks, also if the transfer queue is full or the sequencer node is created later or again; patterns of different sequencers never mix.",
 over=["inputs","histories","schedules"], quant="all patterns (256 rows, 6 columns, cells of 12 bits), positions in 0..1, all interleavings of edits, transfers and blocks in one thread",
 why="tests look at a few patterns; interpolation over arbitrary gaps, row counts and update orders are combinations",
 files=["src/dsp/tracker/pattern.rs","src/dsp/tracker/sequencer.rs","src/dsp/tracker/mod.rs","src/dsp/node_tseq.rs"],
 mech=[("pattern model","PatternData::set_cell_value, clear_cell, set_rows, set_col_*_type, to_repr, from_repr"),("output data","PatternData::sync_out_data"),("sequencer","PatternSequencer::col_get_at_phase, col_interpolate_at_phase, col_gate_at_phase"),("transfer","Tracker::send_one_update, get_backend, TrackerBackend::check_updates")],
 obs=["PatternData::get_out_data","TrackerBackend::get_col_at_phase","outputs of TSeq"], hook="PatternData::verif_cell, verif_dirty",
 tech=KKV, level="proof",
 note="Proved without bound by Verus at the real pattern size: every edit (exact cell, frame, modified flag), the output data of all four column types including the interpolation between arbitrary set cells, save/load round trip; the transfer to the audio thread (Tracker::send_one_update, get_backend, TrackerBackend::check_updates: after any interleaving every column is marked as modified, or under way, or there with its type, rows and data; when nothing is marked or under way the audio thread has the pattern); the sequencer (set_col, col_get_at_phase, col_interpolate_at_phase, col_gate_at_phase, get_col_at_phase: every frame plays value, line or pulse of exactly the row of its position, one random number per row). Proved by Kani for all inputs on patterns of 4 rows, on the compiled crate with real float arithmetic (MAX_PATTERN_LEN and MAX_COLS are 4 and 2 under cfg(kani) only): row selection, gate pulses, change_value. Bounded: exact float values, transfer as compiled, probabilities, the TSeq node in phase mode.",
 bounds={"pattern_model":"3000 edit histories","updates_arrive":"1500 histories of edits and transfers","sequencer_model":"3000 patterns","gate_probability":"40 x 10240 rows","tseq_node":"150 histories of three sequencers"},
 assume=["f32 operations are uninterpreted total functions in the Verus proof (the exact values are checked by the native runs)","the ring buffer is a queue of limited size (assumed contract); the pattern in the mutex does not change during a call","PatternSequencer::new makes 6 columns of 256 rows","the table of sixteenths and floor() are functions (exact: Kani, bounded)","the display string of a cell (get_cell) is not part of the Verus proof","sequencer proofs use patterns of 4 rows (hook under cfg(kani))"]),
dict(id="P09", title="Saving and loading a patch gives the same patch",
 statement="A patch that is saved and loaded again, into a fresh engine or into one in use, is the same patch: the same cells with the same ports at the same positions, the same parameter values (up to rounding), modulation amounts, settings, properties, tracker patterns and block functions, and nothing of the patch that was loaded before remains. The loaded patch plays the same. Every node, port, parameter and setting is found again by the name it is saved with. Documents of version 1 load their parameters as they are. A document that is no patch (broken JSON, unknown version, node, parameter or value) is refused with an error and changes nothing, no document makes the engine panic, and cells outside of the matrix are left out. A file that is saved holds the patch, and a save that fails says so and leaves the previous file as it was.",
 over=["inputs","histories","fault_sequences"], quant="all patches with finite parameter values (block functions in a document are those of a saved patch), all previous states, all documents otherwise; a failing write to the new file",
 why="tests save one or two patches and load them into a fresh engine",
 files=["src/matrix_repr.rs","src/matrix.rs","src/nodes/node_conf.rs","src/dsp/tracker/pattern.rs"],
 mech=[("documents","MatrixRepr::serialize, deserialize, CellRepr, PatternRepr, serialize_atom, deserialize_atom"),("cells","Cell::to_repr, from_repr"),("patterns","PatternData::is_unset, to_repr, from_repr"),("matrix","Matrix::to_repr, from_repr"),("parameters","NodeConfigurator::dump_param_values, load_dumped_param_values"),("files","MatrixRepr::write_to_file, read_from_file")],
 obs=["Matrix::to_repr","Matrix::from_repr","load_patch_from_mem","save_patch_to_file"], hook=None,
 tech=KKV, level="proof", cfg=dict(native_mult=3),
 note="Proved without bound by Verus: the saved form of a cell is that cell, the saved form of a pattern loaded into any other pattern gives exactly that pattern, a pattern is left out exactly if it is as a new one. Kani: the cell contract on the compiled crate. Complete enumeration: names of all nodes, ports, parameters and settings. Bounded: whole patches through the JSON text, files, malformed documents, and the sound of the loaded patch.",
 bounds={"names_exhaustive":"all nodes, ports and parameters (complete)","save_load":"160 pairs of patches of up to 40 changes on a 4x4 matrix","bad_documents":"700 changed documents","files":"60 histories of up to 5 saves"},
 assume=["serde_json is correct","micro samples have 8 values","block functions in a document are those of a saved patch"]),
dict(id="P10", title="Block functions: blocks never overlap, moves lose nothing, and the program follows the connections",
 statement="After any sequence of adding, removing, moving, cloning, splitting, shifting, chain moves, loading and saving, no two blocks of an area overlap, every cell of a block finds exactly that block and its port, every block keeps its type, label, ports and sub areas, and only the blocks that were meant to change did. Blocks are never moved or cloned into their own sub areas, every area that contains blocks has exactly one parent, and an operation that fails changes nothing. The size of an area covers its blocks. A saved block function loaded again is the same. The code that runs computes exactly what the drawn blocks and their connections say, whenever the Code node or the block function was created or changed.",
 over=["inputs","histories","programs"], quant="all block functions, positions, block types and sequences of operations (split fillers are one row high and have no sub areas; documents are those of saved block functions)",
 why="tests draw some fixed block functions; overlaps and lost blocks need particular neighbours, row counts and nested areas",
 files=["src/wblockdsp/language.rs","src/wblockdsp/compiler.rs","src/global.rs"],
 mech=[("areas","BlockArea::set_block_at, remove_at, ref_at, find_port_at, update_origin_map, check_space_at"),("moves","BlockFun::move_block_from_to, clone_block_from_to, move_block_chain_from_to, remove_at, area_is_subarea_of"),("program","BlockFun::generate_tree, Block2JITCompiler::compile, NodeGlobalData::check_code")],
 obs=["BlockFun::save_snapshot","BlockCodeView","output of the Code node"], hook=None,
 tech=KV, level="proof", cfg=dict(kani=False),
 note="Proved without bound by Verus: the areas (every cell of a block maps to exactly its block; setting, removing, finding, space checks), the sub area search, removing and moving blocks between areas (nothing lost, no overlap, no cycle, errors change nothing). Bounded: all operations in sequence against a reference model, and the output of the compiled code against an interpreter of the drawn blocks.",
 bounds={"block_histories":"5000 histories","block_programs":"200 programs with changes, several Code nodes"},
 assume=["termination of the walk through sub areas (all_sub_areas_of) is not proved","coordinates are below 2^44 and blocks have 1 to 2^44 rows","cloning of blocks and the language are external"]),
dict(id="P11", title="Signal monitors show the min/max of exactly the monitored signal",
 statement="Each of the six monitor slots shows, per data point, exactly the minimum and maximum of a run of consecutive samples of the port that was selected for it, in the order they were played, with no sample lost, repeated or taken from another slot, whatever the block sizes are. Slots without a selected port are not fed, and selecting a node that does not exist shows nothing. Monitor buffers are neither lost nor duplicated on their way between the audio thread and the monitor.",
 over=["inputs","histories","schedules"], quant="all signals, all block sizes, all interleavings of feeding and draining in one thread",
 why="tests feed one fixed signal in fixed blocks",
 files=["src/monitor.rs","src/nodes/node_exec.rs","src/nodes/node_conf.rs"],
 mech=[("buffering","MonitorBuf::feed, next_sample_for_signal, reset"),("min/max","MinMaxMonitorSamples::push, MonitorProcessor::process"),("recycling","MonitorBackend::check_recycle, send_mon_buf")],
 obs=["NodeConfigurator::get_minmax_monitor_samples"], hook="verif_monitor_pair, contracts on the ring of samples",
 tech=KKV, level="proof",
 note="Proved without bound by Verus: buffers, feeding, min/max of any number of samples in any portions, recycling, all queued buffers of all six signals, and as a lemma over these contracts that the display shows the newest runs of the signal in order. Kani, on the compiled crate: sample ring contracts, buffer feed/read, min/max step. Bounded: processor over long histories, whole engine with the thread.",
 bounds={"feed_any":"random buffers","processor_model":"up to 1500 steps","engine_monitor":"one Amp node, all slot choices"},
 assume=["ringbuf delivers what was accepted, once and in order","f32 min and max are functions of their operands in the Verus proof (exact values: Kani)","the thread and the mutex between processor and display"]),
dict(id="P12", title="LED and output feedback show the node's own recent values",
 statement="The LED value and the output values reported for a node are those of that node and that port, and nothing for nodes or ports that do not exist. The filtered display value of a signal is the largest negative and the largest positive excursion among the last ten displayed frames of that very signal, updates once per display frame, and does not change when asked again in the same frame.",
 over=["inputs","histories"], quant="all values, all interleavings of queries and display frames",
 why="tests look at one signal; the window wraps after ten frames and is shared by a table of signals",
 files=["src/nodes/visual_sampling_filter.rs","src/nodes/feedback_filter.rs","src/nodes/node_conf.rs"],
 mech=[("window","VisualSamplingFilter::get"),("table of filters","FeedbackFilter::get_led, get_out, trigger_recalc"),("values","NodeConfigurator::led_value_for, out_fb_for")],
 hook="VisualSamplingFilter::verif_new/verif_state", tech=KKV, level="proof",
 note="Proved without bound by Verus: the filter and the table of filters (each call changes exactly the filter of its own node and port), and over these contracts that after any number of display frames the window is the last ten samples. Kani, on the compiled crate, for all inputs: one call from any state (position, recalc flag, window contents), window bounds and that the values are attained. Bounded: the table of filters and the engine values.",
 bounds={"filter_model":"120 operations on 9 signals","engine_feedback":"up to 6 Amp nodes"},
 assume=["HashMap::entry finds the value of the key","f32 max, abs and >= are functions of their operands in the Verus proof (exact values: Kani)","NodeId is abstracted to u64 in the Verus proof","the first frame of a signal asked for the first time may show (0, 0)"]),
dict(id="P13", title="Feedback connections delay by a fixed number of samples",
 statement="A signal written to a feedback instance is read by the reader of the same instance exactly one fixed delay later (3.14 ms in whole samples, but at least one maximum block of 128), sample for sample, independent of block sizes, of whether the reader or the writer runs first, and of the sample rate. Different feedback instances never mix, and before the first sample arrives the reader outputs silence.",
 over=["inputs","histories","schedules"], quant="all signals, all interleavings of reader and writer within one block, all block sizes, sample rates up to 200 kHz",
 why="tests run one order at one block size",
 files=["src/shared_feedback.rs","src/global.rs","src/dsp/node_fbwr_fbrd.rs"],
 mech=[("shared ring","SharedFeedback, SharedFeedbackReader::read, SharedFeedbackWriter::write")],
 hook="SharedFeedback::verif_with_delay", tech=KKV, level="proof",
 note="Proved without bound by Verus: the line, reader, writer and the buffer of an instance over shared memory, and over these contracts that the n-th sample read is the one written one delay earlier (silence before), whoever runs first in each block, and that instances have different buffers. Kani, on the compiled crate, for all inputs: ring position arithmetic for every sample rate, and all interleavings of reader/writer over a short ring. Bounded: long histories and the FbWr/FbRd nodes.",
 bounds={"interleavings":"ring of a few samples (unwound)","buffer_model":"random histories","node_delay":"up to 1200 samples","late_start":"known finding","writer_gone":"known finding","sample_rate":"known finding"},
 assume=["AtomicFloat and Arc are shared memory cells","HashMap is a map","the length of 3.14 ms in samples is a function of the sample rate in the Verus proof (Kani: exact)"]),
dict(id="P14", title="The scope shows exactly the recorded samples",
 statement="What the scope node records for a signal at a position is what the scope display reads for that signal and position, positions and signals never mix, and positions beyond the display are ignored. Threshold, offset, gain and activity shown for a signal are the ones set for it. A recording shows, per point, one sample or the maximum and minimum of the consecutive samples that fall on that point, in order, of the connected signal or else of the parameter; when the display is full the next recording starts at once, or with a trigger after the frame in which the trigger input rises above the threshold, and until then the display stays as it is.",
 over=["inputs","histories"], quant="all signals, positions, values and settings",
 why="tests compare a few positions of one signal",
 files=["src/scope_handle.rs","src/dsp/node_scope.rs"],
 mech=[("storage","ScopeHandle::write, write_oversampled, read, write_copies"),("recording","Scope::process")],
 hook="SCOPE_SAMPLES is 8 under cfg(kani)", tech=KKV, level="proof",
 note="Proved without bound by Verus: every function of the scope display over shared memory cells, at its real size, and the whole Scope node: after any block the display, position, run maxima and minima, settings and trigger state are those of the recording of that block's frames; as lemmas a point is the maximum and minimum of exactly the samples since the previous point, and the recording does not depend on the block sizes. Kani, on the compiled crate with a display of 8 points: storage, settings, oversampled writes. Bounded: the compiled Scope node against a reference recording.",
 bounds={"handle_model":"30 writes","scope_node":"constant signals","scope_recording":"one or two Scope nodes, up to 6000 frames, any trigger source, three sample rates"},
 assume=["AtomicFloat, AtomicFloatPair and AtomicBool are shared memory cells","Kani uses a display of 8 positions instead of 512 (hook under cfg(kani))","f32 operations, casts and denormalizations are functions of their operands","CustomTrigger of synfx-dsp is a function of its state and input","the first point after the creation of a node includes the value 0"]),
dict(id="P15", title="What is heard does not depend on the block size",
 statement="The samples that come out of a graph are the same for every sequence of block sizes from 1 to 128 frames; excepted are random sources, the controls that a node reads once per block (all of BiqFilt, the declick time of Sampl) and changes from outside while it runs. Amp, Mix3, Mux9, Map, SMap, Inp and Out compute in every frame exactly their law of that frame's inputs, write nothing else, and Comb, AllP, Delay, Ad, TsLFO, FbWr and FbRd hand exactly their inputs of each frame, once and in order, to the filter, delay line, envelope, LFO or feedback line they are made of. No node panics.",
 over=["inputs","histories","configurations"], quant="all input signals, parameter and setting values within their ranges, node states, and sequences of block sizes",
 why="tests run every node with one fixed block size; an effect at a block border needs other sizes",
 files=["src/dsp/node_amp.rs","src/dsp/node_mix3.rs","src/dsp/node_mux9.rs","src/dsp/node_map.rs","src/dsp/node_smap.rs","src/dsp/node_delay.rs","src/dsp/node_sampl.rs","src/dsp/mod.rs","src/nodes/node_exec.rs"],
 mech=[("frame loops","DspNode::process of all nodes"),("block loop","NodeExecutor::process")],
 obs=["output of NodeExecutor::process"], hook=None,
 tech=KV, level="proof", cfg=dict(native_mult=2, kani=False),
 note="Proved without bound by Verus on the extracted process functions of 14 nodes, for all buffers, settings, states and block sizes: the law of every frame, nothing else written, and the block independence of the stateful ones as a lemma. Bounded: all other nodes and whole graphs, 128 frame blocks against random blocks, bit for bit; the laws as compiled.",
 bounds={"node_blocks":"2000 graphs of one node between Inp and Out, up to 1500 frames","graph_blocks":"600 graphs of up to 5 nodes","node_laws":"1200 graphs of one of Amp, Mix3, Map, SMap, Mux9"},
 assume=["f32 operations are functions of their operands (which ones is left open)","the objects of synfx-dsp are functions of their state and arguments","clamp does not panic (bounds are ordered and not NaN)","input and output buffers do not overlap (P03)","denormalization is left open, except where it is the identity"]),
]
