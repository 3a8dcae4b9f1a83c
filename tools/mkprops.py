#!/usr/bin/env python3
# Writes /verif/properties.jsonl from the table below (one place to edit the wording).
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,title)
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
ENG="rs/main/src/lib.rs"; MK="rs/main/src/util.rs"; ERR="rs/main/src/error.rs"
PAR="rs/parser/src/lib.rs"; NOD="rs/parser/src/nodes.rs"; PEST="rs/parser/src/glicol.pest"
S="rs/synth/src/"; N=S+"node/"
p("C01","A rejected update changes nothing you can hear or query",
 "When an update is refused (syntax error, unknown reference, unknown sample), the engine keeps playing exactly what it played before: every later block of audio, and the effect of every later accepted update or message, is the same as if the refused update had never been sent.",
 ["histories","programs"],"every history of up to 3 updates over a pool of accepted and refused programs, every position of refused updates, every later continuation in the pool",
 "The engine tests only apply three hand-written accepted updates; no test ever sends a refused one and listens afterwards, and the claim is over all interleavings of refused updates with accepted ones.",
 [ENG,MK],[("roll back of added nodes and of the chain index",ENG+":clean_up"),("reference check before the graph is touched",ENG+":update_with_code")],
 ["Engine::update_with_code result","Engine::next_block output"],
 state=[("chain index","which graph node implements which position of which chain",ENG)])
p("C02","After an update the engine plays the new program, whatever was played before",
 "After an accepted update the sound that comes out is the one the submitted text describes, independent of the sequence of programs that was loaded before it. For programs whose nodes have no memory the output equals that of a fresh engine given only the last program.",
 ["histories","programs"],"every ordered pair (and, deeper, triple) of programs drawn from all chains up to length 4 over a small node alphabet, including reordered, duplicated, inserted, removed and renamed nodes and chains; the same edits made up to 150 times in a row, and single edits at every place of long chains and of programs with up to 40 chains",
 "Existing tests compare the stored syntax tree after 3 additions and removals; none renders audio after an update, and the number of old/new pairs is quadratic in the program space.",
 [ENG,NOD],[("diff of the old and new chain, insertion and removal lists",ENG+":update_with_code"),("references reported by an unchanged node",NOD+":all_references")],
 ["Engine::next_block output after update_with_code"],
 state=[("chain index","position of every node in its chain",ENG)])
p("C03","Nodes the edit did not touch keep running without a glitch",
 "A node whose text and position relative to its unchanged neighbours are not changed by an update keeps its internal state: oscillator phase, delay line contents, envelope position and sequencer position go on as if no update had happened. Only nodes that are new or changed start fresh.",
 ["histories","programs"],"all pairs of chains up to length 4 over stateful nodes where one edit (insert, delete, replace, add or remove a chain) is applied, at every block position in a window; long chains, many chains and long histories of edits in large families",
 "No test renders sound across an update; the property quantifies over all edits and all times at which they are made.",
 [ENG],[("re-use of equal nodes during an update",ENG+":update_with_code")],["Engine::next_block output around an update"])
p("C04","References and chains are routed as written",
 "A chain is the left-to-right composition of its nodes, a reference stands for the output of the named chain wherever that chain appears in the text, and the audible output is the sum of exactly the chains whose name has no tilde. A prefix reference with two dots stands for every chain whose name starts with that prefix.",
 ["programs"],"all programs of up to 3 chains of up to 3 nodes over an alphabet of sources, operators and references to any of the chains, with every declaration order; programs of up to several hundred chains, long chains and prefix references in large families",
 "Tests listen to single sine chains only; routing errors depend on which combination of reference, chain order and channel count a program uses.",
 [ENG,MK,S+"graph.rs",S+"context.rs"],[("reference list returned for each node",MK+":makenode"),("edge creation and input order",ENG+":update_with_code"),("input order message",S+"context.rs:connect")],
 ["Engine::next_block output"])
p("C05","Every node runs exactly once per block, after everything it listens to",
 "In one rendered block each node from which the output is reachable is processed exactly once, after all of its sources unless they depend on it, and it sees exactly the outputs of its sources; nodes that do not feed the output are not processed. This holds for every wiring, including diamonds, parallel edges, self loops and feedback cycles.",
 ["programs","configurations"],"every directed graph on up to 4 probe nodes (all 2^16 adjacency matrices, including self loops), with edges inserted in different orders, plus parallel edges, rendered for several blocks; chains, fans, trees and layered graphs of up to a thousand nodes",
 "Tests build straight-line graphs; scheduling mistakes appear only on particular wirings.",
 [S+"graph.rs",S+"context.rs"],[("depth first post order walk over reversed edges",S+"graph.rs:process")],["order and contents of node process calls seen by probe nodes","AudioContext::next_block output"])
p("C06","A control message changes the addressed parameter of one node and nothing else",
 "A message names a chain, a position and a parameter; after it the addressed node behaves as if it had been written with the new value, and every other node is unaffected. Messages that do not address an existing node are ignored and the commands in one message string are applied in order.",
 ["inputs","histories"],"all message strings of up to 2 commands over all chains, positions (in and out of range), parameter numbers and values in a grid, at every block of a window, on programs covering every node kind; one message to every place of programs with up to 40 chains and of long chains",
 "There is no test of the message interface at all; the space is the product of addresses, parameters, values and times.",
 [ENG,S+"lib.rs"],[("message decoding",ENG+":send_msg"),("per node message handlers",N)],["Engine::send_msg, then Engine::next_block output"])
p("C07","The syntax tree says what the text says",
 "For every node kind and every spelling of its parameters the parser returns that node kind with exactly the written values, references, symbols and code, in the written order, under the written chain name, and nothing else.",
 ["inputs","programs"],"every node kind and alias crossed with a grid of number spellings, references, patterns and code blocks, and all chains of up to 3 of them",
 "The parser tests check one or two spellings per node (and the larger test file does not compile), so the mapping of most parameter forms is never evaluated.",
 [PAR,NOD,PEST,"rs/parser/src/util.rs"],[("grammar",PEST),("tree construction",NOD)],["glicol_parser::get_ast result"])
p("C08","Layout and comments do not change the meaning of a program",
 "Inserting or removing optional blanks, tabs, commas, bars, line breaks between nodes, semicolons, blank lines or comments where the language allows them yields the same syntax tree, and the order in which chains are written does not matter.",
 ["inputs","programs"],"all ways to fill the separators of a set of programs from an alphabet of separators, up to 3 simultaneous changes, and all permutations of up to 4 chains",
 "Tests use one layout each.",
 [PEST,PAR],[("whitespace, separator and comment rules",PEST)],["glicol_parser::get_ast result"])
p("C09","The parser accepts exactly the language",
 "A text is accepted if and only if it is a program of the language: every short token string is accepted or refused as an independently written recogniser decides, and an accepted text is consumed completely.",
 ["inputs"],"all token strings up to a length bound over several token alphabets, decided by an independent recogniser; also all single token insertions, deletions and substitutions in a pool of valid programs",
 "Tests contain a handful of valid programs and almost no invalid ones.",
 [PEST,PAR,NOD],[("grammar",PEST)],["glicol_parser::get_ast Ok or Err"])
p("C10","A refused program is explained: kind, offending name and place are right",
 "The error reports a syntax error with a position inside the text, at the damaged chain or later and not after the first wrong token, or names the unknown reference or sample that is actually missing; the packed error text given to hosts agrees with it.",
 ["inputs","programs"],"every single-token corruption of a pool of programs and every placement of a missing reference or sample in programs of up to 3 chains",
 "No test looks at an error value.",
 [ERR,ENG,"rs/parser/src/util.rs"],[("error type and rendering",ERR),("reference check",ENG+":update_with_code")],["EngineError value","get_error_info text"])
p("C11","Rendering is a function of the inputs",
 "Two engines given the same sequence of calls produce identical samples, and the order in which chains are declared does not change the result beyond rounding.",
 ["histories","programs"],"all histories of up to 3 program updates (4 in the thorough tier) over a pool of programs, with a reseed and live input, executed on twin engines and compared bit for bit; all permutations of chain declarations; every program of the pool next to 1..40 (120) silent chains, and loops under every pair of 12 chain names, so that every table order shows",
 "One run of a test cannot show that another run gives the same result; the order of hash maps varies from build to build and with their contents.",
 [ENG,S+"graph.rs"],[("hash map based chain index and input tables",ENG)],["Engine::next_block output of twin engines"])
p("C12","The block size is not audible",
 "Rendering the same program with different engine block sizes gives the same sample stream, for all programs without feedback or per-block random choices, with or without live input, across messages, tempo changes and updates at common block boundaries. Blocks have at least 2 samples.",
 ["configurations","programs"],"block sizes from 2 to 256 crossed with a pool covering every node kind, over enough samples to pass several bars, events and buffer wraps",
 "Every test uses one block size.",
 [ENG,S+"graph.rs",N],[("per node sample counters carried across blocks",N)],["Engine::<N>::next_block output"])
p("C13","A sequence plays every note at its place in the bar, every bar",
 "A sequence divides the bar evenly among its space-separated groups and each group evenly among its notes; at each such moment, in every bar, exactly one sample is emitted carrying the pitch ratio of the written note number or the current value of the referenced chain, and all other samples are zero.",
 ["programs","configurations"],"all sequences of up to 3 groups of up to 3 symbols from notes, rests and references, crossed with tempo and sample rate, over several bars; sequences of 1 to 25 different references in 4 orders, also after an edit",
 "No test renders a sequence.",
 [N+"sequencer/seq.rs",NOD,MK],[("event times computed by the parser",NOD+":Seq"),("step counter modulo bar length",N+"sequencer/seq.rs")],["Engine::next_block output"])
p("C14","Speed and tempo scale every sequenced time",
 "A speed node in front of a sequence and the engine tempo scale the bar length by exactly their ratio, from the moment they are set, for sequences, sample patterns, arrangements, cutoff patterns and breakpoint curves alike.",
 ["configurations","histories"],"speeds and tempi from a grid, tempo changes at every block of a window before, between and after updates",
 "No test sets the tempo.",
 [ENG,N+"sequencer/seq.rs",N+"sequencer/speed.rs",N+"sequencer/arrange.rs",N+"sampling/psampler.rs"],[("tempo message to all nodes",ENG+":set_bpm"),("speed signal convention",N+"sequencer/speed.rs")],["Engine::set_bpm, then Engine::next_block output"])
p("C15","Oscillators have the stated waveform and frequency",
 "Sine, saw, square and triangle oscillators emit their waveform at the written frequency with continuous phase and stay within -1 and 1, also for negative frequencies (the wave runs backwards) and for frequencies above the sample rate, and when the frequency is a reference they follow the referenced signal sample by sample.",
 ["inputs","configurations"],"frequencies from minus 15 to 30 times the sample rate and sample rates from a grid, and all modulation input strings up to a length bound over a small alphabet",
 "Tests check a single sine chain for one block.",
 [N+"oscillator/"],[("phase accumulators",N+"oscillator/")],["Engine::next_block output"])
p("C16","Add and multiply act sample by sample on every channel",
 "Multiplying or adding a number or a reference acts on each sample of each channel; a mono operand applies to both channels and a stereo operand per channel.",
 ["programs","inputs"],"all operator chains up to length 3 over mono and stereo operands and all input strings up to a length bound",
 "One test multiplies one mono sine by a number.",
 [N+"operator/"],[("channel selection",N+"operator/mod.rs")],["Engine::next_block output"])
p("C17","Pan, balance and mix place signals in the stereo field as documented",
 "Panning keeps power with the square-root law between full left and full right, positions beyond a side count as that side, balance takes its left and right inputs as written, and mix adds all its inputs per channel.",
 ["programs","inputs"],"pan positions from a grid that reaches beyond the sides and as references, all ordered pairs of mono and stereo sources for balance, all lists of up to 3 sources for mix, over all input strings up to a length bound",
 "No test covers these nodes.",
 [N+"effect/pan.rs",N+"effect/balance.rs",N+"sum.rs"],[("channel handling",N+"effect/")],["Engine::next_block output"])
p("C18","Delays return the input exactly the stated time later",
 "A delay of n samples or t milliseconds outputs silence for that long and then the input, sample by sample, on both channels; a delay controlled by a reference returns the input from the referenced number of milliseconds ago.",
 ["inputs","configurations"],"all delay lengths in a range around block boundaries, all input strings up to a length bound, modulation strings over a small alphabet",
 "No test covers delays.",
 [N+"delay/"],[("ring buffer",N+"delay/")],["Engine::next_block output"])
p("C19","Envelopes follow their gate or trigger",
 "The percussive envelope rises for the attack time and falls for the decay time after each trigger, the creation of the node counting as the first, restarting when retriggered; the sustained envelope goes through attack, decay, sustain and release as its gate opens and closes, and never jumps when the gate is held.",
 ["inputs","configurations"],"all gate and trigger strings up to a length bound, crossed with a grid of times from zero to 20 seconds (1.1 million samples)",
 "No test covers envelopes; correctness depends on when triggers arrive relative to running stages.",
 [N+"envelope/"],[("stage counters",N+"envelope/")],["Engine::next_block output"])
p("C20","Samples play from the trigger, at the trigger's pitch, on the right channels",
 "A trigger starts the named sample from its beginning at a rate equal to the trigger value times the ratio of sample rates; it plays to the end once, with the stored channels, and a new trigger starts it again while earlier ones ring out, adding up. A sample pattern triggers the named samples at the written times of every cycle.",
 ["inputs","programs"],"all trigger strings up to a length bound over several pitches, samples of every length up to 4 in mono and stereo with different sample rates, all patterns of up to 3 events, chosen ones of up to 64",
 "No test loads a sample.",
 [N+"sampling/",ENG,MK],[("playback cursor",N+"sampling/")],["Engine::add_sample, Engine::next_block output"])
p("C21","Filters are the stated linear filters",
 "Low pass, high pass, one pole and all pass filters are linear in their input and equal the documented difference equation for their cutoff and resonance; a cutoff given by a reference or a pattern behaves like the corresponding constant while it does not change.",
 ["inputs","configurations"],"all input strings up to a length bound, grids of cutoff, resonance and delay, modulation and patterns, chosen ones of up to 64 events",
 "No test covers filters.",
 [N+"filter/"],[("difference equations",N+"filter/")],["Engine::next_block output"])
p("C22","Signal sources emit the documented values",
 "A constant emits its value, an impulse train emits a single one per period starting at once, noise is a reproducible sequence in the range -1 to 1 determined by its seed, and a choice emits only listed values.",
 ["inputs","configurations"],"grids of values, frequencies, seeds, sample rates and choice lists, over several thousand samples; the seed set before each kind of edit of a running program",
 "Tests cover none of these sources.",
 [N+"signal/",N+"sequencer/choose.rs"],[("period counter, seeded generator",N+"signal/")],["Engine::next_block output"])
p("C23","Breakpoint curves pass through their points and interpolate between them",
 "A breakpoint curve has the written value at each written time, moves linearly in between, holds the last value after the last point, and repeats every cycle when it loops.",
 ["programs","configurations"],"all curves of up to 3 points over a grid of times and values in every time unit, cycle lengths and looping flags; chosen curves of up to 64 points",
 "No test covers it.",
 [N+"signal/points.rs",NOD],[("segment search and interpolation",N+"signal/points.rs")],["Engine::next_block output"])
p("C24","An arrangement plays each section for its number of bars, then starts over",
 "An arrangement passes through exactly one of its sources at a time, each for the written number of bars in the written order, and repeats from the first after the last.",
 ["programs","configurations"],"all arrangements of up to 3 sections with lengths from a grid, crossed with tempo and sample rate, over more than two repeats; chosen ones of up to 129 sections",
 "No test covers it.",
 [N+"sequencer/arrange.rs"],[("bar counter",N+"sequencer/arrange.rs")],["Engine::next_block output"])
p("C25","Ready-made drums and synths equal the patches they abbreviate",
 "Each drum and synth node produces the same sound as the documented chain it stands for, for every trigger input and parameter.",
 ["inputs","configurations"],"all trigger strings up to a length bound over several pitches, grids of decay and attack values",
 "No test covers them.",
 [N+"compound/"],[("inner graph",N+"compound/")],["Engine::next_block output"])
p("C26","Pattern and message synths play every requested note once",
 "A pattern synth plays each listed note at its listed time with the documented envelope, a message synth plays a note for each message sent to it, and overlapping notes add up.",
 ["histories","inputs"],"all patterns of up to 3 notes over a grid of times and pitches, chosen ones of up to 65; all message histories up to length 3 at all block positions in a window",
 "No test covers them.",
 [N+"synth/",MK],[("event table",N+"synth/")],["Engine::next_block output"])
p("C27","The plate reverb is a stable linear stereo effect with a dry path",
 "The plate reverb is linear in its input, its mix parameter interpolates between the dry signal and the wet signal, its response to an impulse dies away, and it equals the documented network.",
 ["inputs","configurations"],"all input strings up to a length bound at block boundaries, a grid of mixes, impulse responses over seconds",
 "No test covers it.",
 [N+"effect/plate.rs"],[("inner graph",N+"effect/plate.rs")],["Engine::next_block output"])
p("C28","Script nodes compute the script",
 "A script node evaluates its script for each block and an expression node for each sample, seeing the documented variables, and the values they return are the output; broken scripts give silence or an error, not a crash, and a script that fails or answers too little is silent for that block; a script sent by message that does not compile leaves the running one.",
 ["programs","inputs"],"all expressions up to a size bound over a small alphabet, compared with an independent evaluator, over all input strings up to a length bound; every variable of scripts and expressions kept from block to block, scripts whose answer changes its length or fails by itself or by message; lists of up to 66 assignments",
 "No test covers script nodes.",
 [N+"dynamic/",NOD],[("script scope",N+"dynamic/")],["Engine::next_block output"])
p("C29","Reset gives back a new engine",
 "After a reset the engine behaves like a newly created one at the same sample rate: same output, same answers to updates and messages, same handling of live input, whatever happened before.",
 ["histories"],"all histories of up to 3 calls before the reset and up to 2 after it, over the operation alphabet of the engine; an engine nothing was set on is one at 44100 Hz, 120 beats per minute and seed 42",
 "No test calls reset.",
 [ENG,S+"context.rs"],[("field by field reset",ENG+":reset")],["Engine API after reset"])
p("C30","Long live-coding sessions do not grow the engine",
 "The memory and the number of graph nodes and connections held by the engine depend on the current program only, not on how many updates, refused updates, messages or blocks were processed before, also for nodes that are kept through all of them.",
 ["histories"],"all cycles of up to 3 programs over the program pool repeated many times, with refused updates and messages interleaved",
 "Tests do at most 3 updates.",
 [ENG,S+"context.rs"],[("removal of replaced nodes",ENG+":update_with_code"),("reset of the input order of kept nodes",ENG+":update_with_code")],["live heap bytes, graph node count and edge count after each update"])
p("C31","Any program and any call sequence is survived",
 "No program text, message string, sample, tempo, seed or call order makes the engine panic, hang or emit a block of the wrong size; a program it cannot run is refused with an error. Scripts that never end and delays longer than the machine's memory are excluded.",
 ["inputs","programs","histories"],"every node kind at every position of a chain with extreme parameters, all short programs of the grammar, all short message strings, and histories of up to 3 calls",
 "Tests exercise a few well-formed programs.",
 [ENG,MK,N,PAR],[("result types instead of panics",ENG)],["absence of panic; block shape"])
p("C32","Live input reaches the program unchanged, in the block it is given",
 "Samples handed in for a block appear as the input chain of that same block, left and right separately, and are usable wherever a reference is; without live input the input chain is silent or holds the last block.",
 ["inputs","programs"],"all input block strings up to a length bound, mono and stereo, in programs that reference the input in every way and across updates",
 "No test feeds input.",
 [ENG],[("copy into the input node",ENG+":next_block")],["Engine::next_block output"])
p("C33","The browser entry points agree with the engine",
 "Through the exported functions used by the web player, rendering, updating, messaging, adding samples and setting tempo give exactly what the engine gives: left half then right half of the block, and an update reports success or the encoded error in its fixed-size answer without writing outside it.",
 ["histories","inputs"],"all histories of up to 3 exported calls over an operation alphabet, compared with a twin engine; a grid of rates, tempi and seeds before and after the text, samples of every length in 5 formats, up to 199 messages and chains at once; error texts of every length around the answer size",
 "The web crate has no tests and does not even build on the host.",
 ["rs/wasm/src/lib.rs"],[("static engine and raw buffers",  "rs/wasm/src/lib.rs")],["exported functions"])
p("C34","The ring between editor and audio thread loses, repeats and tears nothing",
 "For one writer and one reader running concurrently on shared memory, what is read is exactly a prefix of what was written, in order, each element once, under every interleaving of their shared memory accesses; reads never return more than was available and counts never exceed the capacity.",
 ["schedules"],"every interleaving of the shared memory accesses of writer and reader scripts of 2 operations (with counts) and 3 operations (without) on rings of 1 to 3 elements (3 operations with counts, and rings of up to 5 elements, in the thorough tier), all chunk sizes up to one more than the capacity, all fills and wrap-around positions; and all words of up to 3 operations on native memory for three element types and capacities up to 5",
 "There is no test of the JavaScript side, and a sequential test would not show a race.",
 ["js/npm/ringbuf.js"],[("atomic read and write indices","js/npm/ringbuf.js")],["RingBuffer push and pop, text parameter enqueue and dequeue"])
p("C35","The JavaScript chain builder writes the program it reads like",
 "Building a graph with the fluent JavaScript interface produces program text that the parser accepts and that contains exactly the called nodes with the given arguments in call order; a call of a method that asks for a number and gets none leaves the chain as it was.",
 ["programs","inputs"],"every builder function crossed with an argument grid, all chains of up to 3 calls, and calls with unusable numbers before every other method, fed to the real parser",
 "No test runs the builder.",
 ["js/npm/nodechain.js"],[("text building","js/npm/nodechain.js")],["generated code, parsed by glicol_parser::get_ast"])
p("C36","A context wired by hand renders what is wired and tells nodes their inputs",
 "Every way of connecting nodes in an audio context (connect, connect with an order, chain, chains of new nodes) adds exactly the connections asked for and tells each receiving node, in order, which inputs it has; messages reach exactly the nodes addressed, however the node was handed over (plain, boxed, sendable, borrowed); each block runs exactly the nodes that can be heard once, with the inputs that are wired, and the destination carries their sum for any number of channels; reset leaves nothing of what was there.",
 ["histories","configurations"],"all histories of up to 3 calls (4 in the thorough tier) over an alphabet of 33 wiring, message, removal and reset calls, for 1 to 3 output channels, nodes of 1 to 3 channels and 5 ways of handing a node over",
 "The tests of the synth crate wire two fixed chains and listen to none of the messages.",
 [S+"context.rs",N+"mod.rs",N+"boxed.rs",S+"graph.rs"],[("index messages and edge order",S+"context.rs:connect"),("forwarding wrappers",N+"mod.rs"),("reset",S+"context.rs:reset")],["messages and inputs seen by recording nodes; AudioContext::next_block output"])
p("C37","A node built by hand does what the node written in a program does",
 "A node made with its builder renders, sample for sample, what the engine renders for the same node written in a program, whatever the order in which the builder's options are given, at any sample rate and tempo, and reacts in the same way to parameter messages and tempo changes; the phase of an oscillator is a head start.",
 ["configurations","histories"],"every node builder with a grid of values, every order of its options, 4 sample rates (6 in the thorough tier), 3 tempi, each source that can feed it, and each parameter message or tempo change at two times",
 "The examples give the options in one order, mostly at the default rate.",
 [N,MK],[("options that are stored in samples",N+"signal/imp.rs"),("node construction",MK)],["AudioContext::next_block compared with Engine::next_block"])
p("C38","A message carrying a setting does what building with the setting does",
 "A message that carries a sequence, a list of choices, a sample, a sample pattern, a note pattern, a script, a curve, a span or a value pattern makes the node go on exactly like a node built with that setting, from the block it is sent in and at the same position in time; a curve starts again.",
 ["histories","configurations"],"all words of up to 3 settings (4 in the thorough tier) per node kind, sent at every combination of 5 starting blocks and 5 distances; all pairs of value patterns, spans and tempi",
 "No test sends any message.",
 [N,S+"lib.rs"],[("setting messages",N+"sequencer/seq.rs:send_msg")],["AudioContext::next_block output"])
p("C39","What is asked of the npm package is what its engine is told",
 "Over any history of calls on the package (run, play, stop, messages, tempo, live coding, samples), audio blocks and message deliveries, in browsers with and without shared memory, the engine is told exactly what was asked: samples, tempo and modes in order; every message once; texts unmixed and uncut, the last one last; each block gets its own input and reaches both output channels; errors are shown at their line and column; a block with nothing new takes no memory; and nothing depends on the engine's memory staying where it is.",
 ["histories","schedules"],"all words of up to 3 calls, deliveries and blocks over an alphabet of 21 (4 over a core of 8, 5 in the thorough tier) on both paths; words of 2 with the memory moving at each of the first calls or at all; 32 refused texts; 7 browsers with every start option; words of up to 3 samples added before, during and after the start",
 "There is no test of the JavaScript side.",
 ["js/npm/index.js","js/npm/glicol-engine.js","js/npm/ringbuf.js","js/npm/detect.js"],[("queues between page and audio thread","js/npm/index.js:run"),("views into memory that can grow","js/npm/glicol-engine.js:process"),("error display","js/npm/index.js")],["calls made on a recording engine, output channels, console output"])
p("C40","What is asked of the page is what its engine is told",
 "Over any history of page calls (run, stop, tempo, amplitude, samples from urls, files and folders), blocks and deliveries, the engine is told exactly what was asked, in order; pieces of code between ## and # are replaced by their values and all other text is passed on unchanged; samples keep their names when the page is stopped and started; errors are shown at their line and column; both channels reach the speakers; the sample helpers answer with loaded samples that match.",
 ["histories","programs"],"all words of up to 3 of 16 pieces of text and code (4 in the thorough tier); all pairs of 32 refused texts; all words of up to 2 of 17 page calls and 3 of a core of 7 (3 and 4 in the thorough tier); all sets of canvases with up to 2 stops; all helper calls of a grid for 5 random values",
 "There is no test of the JavaScript side.",
 ["js/src/glicol.js","js/src/utils.js","js/src/glicol-engine.js"],[("splitting texts into pieces","js/src/glicol.js:run"),("error display","js/src/glicol.js"),("sample names","js/src/utils.js")],["calls made on a recording engine, messages to the audio thread, console output"])
p("C41","The engine compiled for the browser plays what the native engine plays",
 "The browser crate compiled for wasm32 answers every update with the same bytes and renders the same blocks (up to rounding) as compiled for the host, over histories of updates, refused updates, messages, tempi, seeds, rates, amplitudes, resets and live coding mode.",
 ["programs","histories"],"52 programs with every node kind at 4 rates, all pairs of them (triples in the thorough tier), all chains of up to 2 of 18 effects after 10 sources (3 in the thorough tier), each program with 9 other texts, 7 messages, 4 tempi and 5 seeds; integers below 2^32, and no feedback through several chains, whose order is not specified",
 "The tests run on the host only, where addresses, sizes and table orders are different.",
 ["rs/wasm/src/lib.rs","rs/main/src/lib.rs","rs/synth/src","rs/parser/src"],[("sizes of 32 bits","rs/main/src/util.rs"),("order of tables","rs/main/src/lib.rs")],["update answers and process blocks of the compiled module"])
p("C42","Every audio input of a board is heard where the program asks for it",
 "In the build for boards with several audio inputs, adc n is the n-th input counted from 0, in the block it is written for, wherever in a chain or behind a reference it stands and however the program is edited; asking for an input the board does not have is refused, and a refused program or a reset leaves every input usable.",
 ["programs","histories","configurations"],"boards of 1 to 4 inputs; all histories of 3 programs (2 for the larger boards in the quick tier) over all programs reading one or two inputs in 7 shapes, programs to be refused and resets; inputs made before and after the first program",
 "The feature is not built by any test.",
 [ENG,MK],[("making the inputs",ENG+":make_adc_node"),("writing the inputs",ENG+":set_adc_node_buffer"),("references that are not written",ENG+":parse")],["Engine::next_block output"])
p("C43","The editor's keys act on what it shows, and its colours follow the text",
 "Whatever was typed and pressed before, running hands over exactly the shown text, running with expansion then shows what was made of it, looking up hands over the word at the cursor, stopping and commenting do just that, by key or button; names of nodes, numbers, references, samples and comments are coloured as such wherever they stand, comments to the end of their line and scripts to their end.",
 ["histories","texts"],"all words of up to 2 of 18 keys, buttons, texts and cursor places and of 3 over a core of 8 (3 and 4 in the thorough tier); all lines of up to 3 of 19 pieces (4 in the thorough tier)",
 "There is no test of the JavaScript side.",
 ["js/main.js","js/src/glicol-mode.js"],[("key bindings","js/main.js"),("first rule that matches","js/src/glicol-mode.js")],["calls of run, stop and help, the text shown, the tokens of a line"])
p("C44","What repeats goes on repeating, however long the engine runs",
 "A program whose output repeats after a number of bars still gives exactly that stretch, sample by sample, long after it was started; an update that does not concern it changes nothing, and random sources do not run dry.",
 ["programs","histories"],"50 programs over every node with a clock, a counter, a phase or a buffer, each run for more than 2^24 samples (2^27 in the thorough tier), with an update near the end",
 "Counters and phases lose precision or overflow only after a long time; the tests render a few blocks.",
 [N,ENG],[("counters of samples",N+"sequencer/"),("phases",N+"oscillator/")],["Engine::next_block output"])
p("C45","Sums and pass nodes hand on exactly what is wired to them, channel by channel",
 "Whatever number of channels a node and its inputs have, a sum gives in each channel the sum of that channel of its inputs; a channel an input lacks is left out by the plain sum and taken from the first channel by the filling sum; a pass node hands its input on, one channel to both of two; an input that is taken away is no longer heard; a new node has the channels asked for and is silent, and a block holds what is written into it.",
 ["graphs","configurations"],"all lists of up to 3 inputs of up to 3 channels onto up to 3 channels (4 in the thorough tier), over 4 blocks, each input taken away in between, alone and behind one more node; all blocks of 3 samples over 7 values, in pairs",
 "The tests wire one or two channels only.",
 [N+"sum.rs",N+"pass.rs",S+"graph.rs",S+"buffer.rs"],[("channels an input lacks",N+"sum.rs"),("one channel onto two",N+"pass.rs")],["AudioContext::next_block output, Buffer and NodeData values"])
p("C46","Values cross between JavaScript and the compiled engine whole and only once",
 "Whatever is called in whatever order, and wherever the memory of the engine moves meanwhile, the engine gets every text, sample and number exactly as given and every answer reaches the caller whole and stays the caller's own; all memory is given back once and with the size it was taken, the stack is back where it was even when the engine stops, the engine is started once however it is asked to, and what the engine holds of JavaScript keeps its number until it is dropped.",
 ["histories","inputs"],"all words of up to 3 calls over an alphabet of 17 (the memory staying, for words of 2 also moving always or at any one call), on both copies and with old and new text encoders; all texts of up to 3 letters of 1 to 4 bytes, chosen ones of up to 70000; all pairs of 10 ways to start; all words of up to 4 steps of making, copying, running and dropping things; words on the compiled engine in the repository",
 "No test runs the JavaScript side; a view of memory that has moved shows only when the memory grows inside a call.",
 ["js/src/glicol_wasm.js","js/npm/glicol_wasm.js"],[("views of memory that are made again after it moved","js/src/glicol_wasm.js:getUint8Memory0"),("texts that are not plain letters","js/src/glicol_wasm.js:passStringToWasm0"),("numbers of things","js/src/glicol_wasm.js:addHeapObject")],["calls and arguments that reach the engine, its memory, results of the exported functions"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
