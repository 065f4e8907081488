import json
PY="bittrue/models/python/en_cl_fix_pkg/"
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

prop("C01","Streaming fixed-point stages deliver every accepted beat, once and exact",
 "Every beat that enters a rounding, saturating or resizing hardware stage with valid high comes out exactly once, in order, after the documented number of clock cycles, with its own metadata, and nothing else comes out as valid. Its data is exactly the input value rounded and then saturated or wrapped as configured, for every format, mode, register choice and width, and equals bit for bit what the Python reference model computes for that value. This holds whatever the clock period, valid pattern (bubbles, bursts, back-to-back), stalled clock, or activity between clock edges.",
 ["schedules","inputs","configurations","histories"],
 "all schedules of clock edges, valid patterns and mid-cycle activity; all formats, rounding and saturation modes, register modes and metadata widths; all sequences of beats",
 "The shipped testbenches use one free-running clock, hold valid continuously high after one reset cycle and only cover formats of at most about six bits; bubbles, clock stalls, mid-cycle glitches, mixed histories and wide formats are never exercised.",
 ["hdl/en_cl_fix_round.vhd","hdl/en_cl_fix_saturate.vhd","hdl/en_cl_fix_resize.vhd","hdl/en_cl_fix_pkg.vhd",PY+"en_cl_fix.py"],
 [("pipeline register / bypass selection","hdl/en_cl_fix_round.vhd, hdl/en_cl_fix_saturate.vhd: use_reg_c, g_register, g_no_register"),("round then saturate chaining of valid, metadata and data","hdl/en_cl_fix_resize.vhd"),("recommended pipelining","hdl/en_cl_fix_pkg.vhd: cl_fix_recommended_pipelining"),("value rule","hdl/en_cl_fix_pkg.vhd: cl_fix_round, cl_fix_saturate, cl_fix_resize")],
 ["out_valid, out_meta and out_data sampled at every rising clock edge"])

prop("C02","Reset discards everything in flight; unknown inputs never leak into results",
 "A reset seen on a clock edge discards every beat then held in a registered stage and the beat offered on that edge, whenever it comes and however long it lasts, and beats offered from the first edge after reset onwards are all delivered normally. In particular after power-up with all-unknown signals, one reset edge suffices, and unknown data or metadata on idle (non-valid) cycles never makes an output valid, nor alters or delays any valid beat. A stage configured without registers is transparent and is not affected by reset or clock at all.",
 ["schedules","crash_points","fault_sequences","configurations"],
 "all reset instants and durations relative to beats in flight, repeated resets, power-up states and unknown-value injections on idle cycles, in all configurations",
 "The testbenches assert reset once, before any data, for one cycle; a reset with beats in flight, repeated resets, power-up unknowns or unknowns during bubbles are never applied.",
 ["hdl/en_cl_fix_round.vhd","hdl/en_cl_fix_saturate.vhd","hdl/en_cl_fix_resize.vhd"],
 [("synchronous reset of the valid flag","hdl/en_cl_fix_round.vhd, hdl/en_cl_fix_saturate.vhd: out_valid <= in_valid and not rst"),("reset fan-out to both stages","hdl/en_cl_fix_resize.vhd")],
 ["out_valid, out_meta and out_data sampled at every rising clock edge"])

prop("C03","Co-simulation data is generated once, and before any test that needs it starts",
 "However many simulator worker threads request a co-simulation dataset, and in whatever order they run, the generator runs to completion once and no request is answered as ready before that completion; requests for different datasets do not prevent one another from completing. If generation fails, the failure reaches the requester that ran it, the dataset is not treated as generated, and the next request tries again. When co-simulation is disabled the generator never runs.",
 ["schedules","fault_sequences","configurations","histories"],
 "all interleavings of any number of worker threads over any number of datasets and shared configurations, with generation failing or being slow at any point",
 "The suite runs one thread order per machine and run and nearly always a single configuration per dataset, so the second waiter, failed generations, retry after a failure and disabled mode are never exercised.",
 ["sim/cosim_runner.py","lib/en_tb/sim/cosim_runner.py","sim/run.py","lib/en_tb/sim/run.py"],
 [("double-checked enable flag under a lock","sim/cosim_runner.py: cosim_runner.run; lib/en_tb/sim/cosim_runner.py: CosimRunner.run"),("pre-run callback wiring","sim/run.py: create_test_suite; lib/en_tb/sim/run.py: create_test_suite")],
 ["begin and end of each generator run","return or exception of each ready request","start of each simulated testbench"],
 [("enable","generation still required","sim/cosim_runner.py")])

prop("C04","Loading co-simulation scripts is isolated and leaves no trace",
 "However many same-named co-simulation scripts are loaded concurrently, each loader gets the script from its own directory, and loading never executes the data generation. The configuration a script publishes is available without generating data, and is simply absent (none) when the script publishes none. After every load, successful or failed, the module search path is as it was before, apart from entries the script itself added.",
 ["schedules","fault_sequences","configurations"],
 "all interleavings of concurrent loads of any set of scripts, including scripts which fail while loading or publish no configuration",
 "The run scripts load all co-simulation scripts from one thread, none of them fails, and each is loaded once.",
 ["sim/cosim_runner.py","lib/en_tb/sim/cosim_runner.py"],
 [("search path insertion under a global lock","sim/cosim_runner.py: cosim_runner.__init__; lib/en_tb/sim/cosim_runner.py: CosimRunner.__init__"),("published configuration","cosim_runner.get_config / CosimRunner.get_config")],
 ["module dictionary obtained by each loader","sys.path after each load"])

prop("C05","Co-simulation datasets are complete or not usable, across crashes and I/O errors",
 "A co-simulation generation that reports success leaves exactly the dataset of its script, byte for byte, whatever an earlier interrupted, failed or outdated generation left in its data directory. If generation is killed at any point, what is on disk is never a dataset that the testbenches could read through to the end and that is incomplete or mixes old and new data. Any failing file operation (disk full, I/O error, short write) is reported as a failure rather than success, and once faults have stopped, the next generation succeeds.",
 ["crash_points","fault_sequences","histories"],
 "all kill points at file-system operations, all single and repeated file-operation failures, and all histories of earlier runs, for every shipped co-simulation script",
 "Every run of the suite starts from a clean or completely regenerated data directory on a healthy disk; no run is ever killed, re-run over leftovers, or given an I/O error.",
 ["bittrue/cosim/cosim_utils.py","bittrue/cosim/cl_fix_add/cosim.py","bittrue/cosim/cl_fix_resize/cosim.py","bittrue/cosim/cl_fix_from_real/cosim.py","lib/en_tb/bittrue/cosim/en_tb_fileio/cosim.py",PY+"en_cl_fix.py"],
 [("clearing of the data directory before generation","bittrue/cosim/cosim_utils.py: clear_directory"),("per-test files first, index files last","bittrue/cosim/*/cosim.py: run"),("format list writer","cl_fix_write_formats")],
 ["contents of each data directory after success, failure or kill","exit status / exception of the generator"])

prop("C06","VHDL numeric text files read back exactly what was written, or fail loudly",
 "Values written through the VHDL text-file interface in binary, decimal or hexadecimal, for every supported type, width and signedness, one or several per line, through any mix of line, open-file and whole-file calls on any number of simultaneously open files, are read back in order with identical values. Once a whole-file write has returned, its contents survive a simulator crash and later writes to other files. Reading from a file that is missing, ends early, has a row with missing values, or holds a decimal value which the requested width cannot hold, stops the simulation with an error instead of returning data, while a missing final newline or carriage returns before newlines do not change the values read.",
 ["inputs","histories","crash_points","fault_sequences"],
 "all sequences of reads and writes over all types, widths, radices and layouts and any number of files; all crash points between calls; all truncations at value boundaries",
 "The one file testbench reads and writes whole files of a few fixed widths; it never mixes line, file and whole-file access, interleaves files, crashes, or reads damaged files.",
 ["lib/en_tb/hdl/en_tb_fileio_text_pkg.vhd","lib/en_tb/hdl/en_tb_fileio_text_private_pkg.vhd","tb/util/en_cl_fix_fileio_pkg.vhd"],
 [("decimal conversion of arbitrary width","lib/en_tb/hdl/en_tb_fileio_text_private_pkg.vhd: dwrite, dread"),("column and row counting, end of file/line checks","lib/en_tb/hdl/en_tb_fileio_text_pkg.vhd: read_file, get_file_size_columns, get_file_size_lines"),("fixed-point wrappers","tb/util/en_cl_fix_fileio_pkg.vhd: cl_fix_read, cl_fix_write, cl_fix_read_file, cl_fix_write_file")],
 ["values returned by each read call","bytes of each file after write or crash","exit status of the simulation"])

prop("C07","Format lists written by the model are read back identically by the testbenches",
 "A list of fixed-point formats written to a file by the Python model or by the VHDL testbench library is read back by the VHDL library as the same formats in the same order, for every list length and all representable field values, also when several files are being read alternately and when the final newline is missing. A writer that cannot complete the file because of an I/O error says so and never reports success with a shortened list. Reading past the end of a list or from a missing file stops the simulation with an error.",
 ["inputs","histories","fault_sequences"],
 "all format lists, all interleavings of reads over several files, and all failing file operations of the writer",
 "Tests only pass the co-simulations' own small formats through this path, whole-file, on a healthy disk; the VHDL writer and the single-format reader are not used by any test.",
 [PY+"en_cl_fix.py","tb/util/en_cl_fix_fileio_pkg.vhd","hdl/en_cl_fix_pkg.vhd","hdl/en_cl_fix_private_pkg.vhd"],
 [("Python writer",PY+"en_cl_fix.py: cl_fix_write_formats"),("VHDL reader and writer","tb/util/en_cl_fix_fileio_pkg.vhd: cl_fix_read_format, cl_fix_read_format_file, cl_fix_write_format_file"),("string parsing","hdl/en_cl_fix_pkg.vhd: cl_fix_format_from_string; hdl/en_cl_fix_private_pkg.vhd: string_parse_int")],
 ["formats returned by each read","exception or success of the Python writer and bytes of the file"])

prop("C08","Model results depend only on the call's arguments, in any history and thread mix",
 "Every non-random call to the Python fixed-point model, through the function interface, the narrow and wide number classes or the MATLAB helpers, gives the same result (value, type, shape or error) whether it is the first call of a fresh process, comes after any history of other calls, or runs interleaved with calls made by other threads. A result already returned never changes because of later or concurrent calls.",
 ["histories","schedules","inputs"],
 "all histories of earlier calls and all interleavings of concurrent calls from several threads, over all functions, formats, modes, widths and array shapes",
 "Tests call each function from one thread in one fixed order and compare with fixed values, so shared caches, scratch buffers or mode flags would be invisible to them.",
 [PY+"en_cl_fix.py",PY+"en_cl_fix_types.py",PY+"narrow_fix.py",PY+"wide_fix.py",PY+"matlab_interface.py"],
 [("stateless computation on copies",PY+"narrow_fix.py: NarrowFix; "+PY+"wide_fix.py: WideFix"),("format derivation",PY+"en_cl_fix_types.py: FixFormat"),("function interface",PY+"en_cl_fix.py: cl_fix_*")],
 ["result or exception of each call","contents of each retained result at the end of the run"])

prop("C09","Model calls never modify their operands and never alias them",
 "No call to the Python fixed-point model changes any array, list, format or number object passed to it. Arrays and formats it returns are independent of its operands and of the model's own state: modifying them in place later, or modifying the operands afterwards, changes no other value held by the caller and no later result.",
 ["histories","inputs"],
 "all sequences of calls and in-place modifications of operands and results, over all functions, formats, widths, array shapes and contiguities",
 "Tests never look at operands after a call and never modify a result in place, so aliasing shows only in longer programs.",
 [PY+"en_cl_fix.py",PY+"narrow_fix.py",PY+"wide_fix.py",PY+"en_cl_fix_types.py",PY+"matlab_interface.py"],
 [("input copying",PY+"en_cl_fix.py: _clean_input"),("copying constructors and accessors",PY+"narrow_fix.py: NarrowFix.__init__, data, fmt; "+PY+"wide_fix.py: WideFix.__init__, data, fmt"),("format union copies",PY+"en_cl_fix_types.py: FixFormat.union"),("uint64 packing",PY+"matlab_interface.py: to_uint64_array")],
 ["bytes of every operand and retained result after every step"])

prop("C10","Failed or interrupted model calls leave no trace",
 "When a call to the Python fixed-point model fails, be it through invalid arguments, a warning turned into an error, or an interrupt or memory error at any point inside the call, all operands are unchanged and every later call gives the same result as if the failed call had never been made. Failing or not, calls leave the surrounding process state (floating-point error handling, warning filters, search path, working directory, and, except for random generation, random generator state) as it was.",
 ["crash_points","fault_sequences","histories"],
 "all interruption points inside every call, all invalid calls, and all histories following them",
 "Tests never interrupt a call and stop at the first exception, so state left half-updated by a failing call is never observed.",
 [PY+"en_cl_fix.py",PY+"en_cl_fix_types.py",PY+"narrow_fix.py",PY+"wide_fix.py",PY+"matlab_interface.py"],
 [("work on copies only",PY+"narrow_fix.py: NarrowFix.round, saturate; "+PY+"wide_fix.py: WideFix.round, saturate"),("argument checks before work",PY+"en_cl_fix.py: cl_fix_round, cl_fix_saturate")],
 ["operands after the failed call","results of all later calls","process-wide state before and after"])

prop("C11","Random data is in range, unbiased, reproducible and history-independent",
 "Random fixed-point arrays have the requested shape and contain only representable values, uniformly distributed over the whole range of the format including both extremes, for narrow and wide formats. With the global random generators seeded, the sequence of arrays is the same on every run, whatever non-random model calls were made before or in between and in whatever way other threads' non-random calls are interleaved. Arrays returned earlier never change.",
 ["inputs","histories","schedules"],
 "all seeds, formats, shapes and histories, and all interleavings with non-random calls",
 "No test calls the random generator at all for most formats; range, distribution and reproducibility are properties of all seeds and histories.",
 [PY+"en_cl_fix.py"],
 [("narrow and wide random generation",PY+"en_cl_fix.py: cl_fix_random")],
 ["arrays returned under controlled generator seeds"])

prop("C12","Saturation warnings are issued by exactly the calls that ask for and need them",
 "In the modes with warning, every call of the Python model in which some value has to be clipped or wrapped to fit the result format issues a warning, each time, whatever was called before and whatever other threads do, and a call in which every value fits issues none. In the modes without warning no saturation warning is issued. Turning warnings on, off or into errors never changes the values returned.",
 ["histories","inputs","schedules","fault_sequences"],
 "all histories and interleavings of calls, all values relative to the range of the format, all modes and warning configurations",
 "Tests run with warning modes only incidentally and never check that a warning was or was not issued, let alone repeatedly or under threads.",
 [PY+"narrow_fix.py",PY+"wide_fix.py",PY+"en_cl_fix.py"],
 [("range check before saturation",PY+"narrow_fix.py: NarrowFix.saturate, from_real; "+PY+"wide_fix.py: WideFix.saturate, from_real")],
 ["warnings emitted during each call","values returned"])

prop("C13","A disagreement in the exchanged co-simulation data always fails the test run",
 "A testbench that replays a co-simulation dataset reports success only if it compared every expected value of every test case with the hardware description and all agreed. In particular, if any expected value in the exchanged files is altered, if values it needs are missing or swapped, or if any file is absent or cut short between values, the run fails; on the undamaged dataset it passes.",
 ["fault_sequences","inputs","configurations"],
 "all single and multiple damages (altered, swapped, dropped values; truncated, emptied or absent files) to the datasets of all shipped co-simulations",
 "The suite only ever runs with agreeing data, so a checker that skips, truncates or ignores data passes all its tests.",
 ["tb/cl_fix_add_tb.vhd","tb/cl_fix_resize_tb.vhd","tb/cl_fix_from_real_tb.vhd","lib/en_tb/hdl/en_tb_base_pkg.vhd","lib/en_tb/hdl/en_tb_fileio_text_pkg.vhd","tb/util/en_cl_fix_fileio_pkg.vhd","lib/en_tb/tb/en_tb_fileio_tb.vhd"],
 [("comparison with expected data","tb/*_tb.vhd: Check / p_check"),("array comparison","lib/en_tb/hdl/en_tb_base_pkg.vhd: check_equal"),("dataset reading","tb/util/en_cl_fix_fileio_pkg.vhd: cl_fix_read_file, cl_fix_read_format_file; lib/en_tb/hdl/en_tb_fileio_text_pkg.vhd: read_file")],
 ["exit status of each testbench simulation"])

pure="Existing tests sample formats of a few bits and hand-picked values; the property ranges over all inputs."
def na(id,title,st,files,mech):
    prop(id,title,st,["inputs","configurations"],"all argument values, formats and modes",pure,files,mech)
na("C20","Derived formats are sufficient and minimal","The result format derived for an addition, subtraction, multiplication, negation, absolute value, shift, rounding or union can represent every possible result exactly, and no narrower format can. The Python and VHDL derivations agree.",[PY+"en_cl_fix_types.py","hdl/en_cl_fix_pkg.vhd"],[("format derivation",PY+"en_cl_fix_types.py: FixFormat.for_*")])
na("C21","Arithmetic is exact before the configured rounding and saturation","Every arithmetic function returns the mathematically exact result, rounded and then saturated or wrapped as configured, in Python and in VHDL.",[PY+"en_cl_fix.py","hdl/en_cl_fix_pkg.vhd"],[("arithmetic",PY+"en_cl_fix.py: cl_fix_add, cl_fix_mult, ...")])
na("C22","Python, VHDL and MATLAB models are bit-true to each other","For every function, format, mode and operand, the Python model (narrow and wide), the VHDL functions and the MATLAB model return the same bits.",[PY+"narrow_fix.py",PY+"wide_fix.py","hdl/en_cl_fix_pkg.vhd","bittrue/models/matlab"],[("parallel implementations","bittrue/models, hdl")])
na("C23","Packing wide data to 64-bit words and back is lossless","Packing wide fixed-point data into unsigned 64-bit words and unpacking it again returns the original data for every wide format.",[PY+"matlab_interface.py",PY+"wide_fix.py"],[("packing",PY+"matlab_interface.py: to_uint64_array, from_uint64_array")])
na("C24","Conversions from and to real and integer are correctly rounded and inverse","Conversion from real rounds half-up to the nearest representable value and saturates; conversion from integer and to real or integer is exact and inverse where representable.",[PY+"en_cl_fix.py","hdl/en_cl_fix_pkg.vhd"],[("conversions",PY+"en_cl_fix.py: cl_fix_from_real, cl_fix_from_integer, cl_fix_to_integer")])
na("C25","Comparisons and range tests are exact for mixed formats","Comparing two fixed-point values of any formats, and testing whether a value fits a format, gives the mathematically exact answer.",[PY+"wide_fix.py",PY+"en_cl_fix.py","hdl/en_cl_fix_pkg.vhd"],[("comparison","hdl/en_cl_fix_pkg.vhd: cl_fix_compare")])
na("C26","Invalid formats and arguments are rejected","Formats and arguments outside the documented domain are rejected with an error rather than producing a value.",[PY+"en_cl_fix_types.py",PY+"en_cl_fix.py"],[("argument checks",PY+"en_cl_fix_types.py: FixFormat.__init__")])
with open("/verif/properties.jsonl","w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
