
prop("C03", "Instrumentation is invisible under exact back-ends",
     "Any C or C++ program compiled by verificarlo, at any optimisation level, with any combination of instrumentation flags "
     "(--inst-fma, --inst-cast, --inst-fcmp, --inst-func, --ddebug), and run under a back-end configuration that asks for no perturbation, "
     "compiles whenever it compiles natively and produces the same output and exit status as its native compilation: calls, "
     "control flow, memory, exceptions, threads, vectors and values of types that are not instrumented are untouched.",
     ["programs", "configurations"], "all programs, optimisation levels, target options and instrumentation flags",
     "The tests compile some twenty small programs, mostly at one optimisation level and without the combinations of flags.",
     [PASS, FPASS, FI, WR, DRV], [("operation replacement pass", PASS), ("function hooks pass", FPASS), ("call stack of hooks", FI), ("entry points", WR)],
     ["standard output and exit status of the instrumented program", "success of the compilation"],
     "220 generated programs of 3-9 features; contraction is disabled since it is a choice of the code generator",
     PBT + "generated programs, differential against native compilation")

prop("C04", "Exactly the selected operations of a program are instrumented",
     "In a program compiled by verificarlo every floating-point addition, subtraction, multiplication and division executed by "
     "the selected functions, scalar or vector, single or double, goes exactly once through the back-end with its own operands "
     "in order and its result replaces the native one; likewise scalar fma with --inst-fma, scalar double-to-float conversions "
     "with --inst-cast and comparisons with --inst-fcmp (and never without the flag). Functions that are not selected execute "
     "no instrumented operation. Selection follows --function, --include-file and --exclude-file: an include list alone "
     "selects only what it matches, an exclude list alone everything else, with both a matched include wins; '*' is a wildcard.",
     ["programs", "configurations"], "all programs x optimisation levels x instrumentation flags x selection files",
     "The tests count wrapper calls in the IR of a few loops and check one include and one exclude file.",
     [PASS, WR, DRV], [("operation replacement pass", PASS), ("selection", PASS), ("entry points", WR)],
     ["sequence of operations received by a recording back-end, compared with the operations the source executes"],
     "400 generated multi-module programs; fma and casts that the compiler vectorises are outside the property",
     PBT + "generated programs whose operation trace is computed by a reference interpreter")

DDM, DDX, DDC, DDS = "src/tools/ddebug/main.py", "src/tools/ddebug/DD.py", "src/tools/ddebug/dd_config.py", "src/tools/ddebug/DD_stoch.py"
prop("C22", "Delta-debugging reports genuinely unstable, minimal and complete sets",
     "Given scripts that run a program and judge its output, vfc_ddebug terminates and, whatever the algorithm (ddmax, or rddmin "
     "in its strict, stochastic and dichotomic variants), number of runs, granularity or number of threads: every set of instructions "
     "reported as responsible makes the comparison fail in at least one run, and removing any one instruction from it makes all of the "
     "requested runs pass; rddmin reports disjoint sets whose complement passes; ddmax reports a passing set to which no single "
     "instruction can be added. The reference run uses the IEEE back-end on all instructions; each sample perturbs exactly the "
     "instructions under test with the back-end of the user; results on disk (ddmin and rddmin-cmp directories, include files, "
     "return values) describe the sets reported, and a search repeated on a deterministic program re-uses them.",
     ["programs", "configurations", "histories"], "all failure predicates of the instructions (monotone or not, stochastic with a run index) x search options",
     "The tests search two fixed programs with the default options.",
     [DDM, DDX, DDC, DDS], [("search", DDX), ("sampling and storage", DDS), ("options", DDC), ("entry point", DDM)],
     ["commands run with their environment", "content of the result directory", "exit status"],
     "4000 generated programs under study and configurations against the failure predicate",
     PBT + "generated failure predicates, the real search run on stand-ins of the user scripts")

PRB, HM = "src/common/vfc_probes.c", "src/interflop-stdlib/hashmap/vfc_hashmap.c"
prop("C23", "The probe file holds exactly the registered probes",
     "For every sequence of probe registrations from C or Fortran, vfc_num_probes is the number of probes and vfc_dump_probes writes to "
     "VFC_PROBES_OUTPUT a header and exactly one line per registered probe with its test and variable names, its value and threshold "
     "(bit for bit once parsed back, including zeros, subnormals and infinities) and its kind of check. A name containing a comma, or a "
     "pair of names already registered, is refused with an error and exit status 1; anything else is accepted. Without "
     "VFC_PROBES_OUTPUT nothing is written. No history leads to an invalid memory access.",
     ["histories", "inputs"], "all histories of registrations, names and values",
     "The tests register a dozen probes with fixed names.",
     [PRB, HM], [("registration and dump", PRB), ("hash table", HM)],
     ["content of the probe file", "exit status", "return values"],
     "3000 generated histories (colliding hashes, up to 400 probes) under the address sanitizer",
     PBT + "stateful model-based generation against a list model")

prop("C24", "The hash map behaves as a map from keys to items",
     "For every history of insertions of absent keys, removals and look-ups with arbitrary keys, colliding or not: `have` and `get` answer for exactly the keys "
     "inserted and not removed since, `get` returns the item inserted under the key (Null if none), the number of items is exact, "
     "growing the table loses and duplicates nothing, removing an absent key changes nothing, and freeing releases each remaining item exactly once. "
     "The hash of a string is the polynomial of its bytes in base 31, on the size of a word.",
     ["histories"], "all histories of operations on the map and all keys",
     "No test exercises the map directly; programs of the tests store a few tens of items and never remove one.",
     [HM], [("open addressing table", HM)],
     ["return values of the operations", "memory accesses"],
     "6000 generated histories under the address sanitizer against a dictionary model",
     PBT + "stateful model-based generation against a dictionary model")

CIT, CID = "src/tools/ci/test.py", "src/tools/ci/test_data_processing.py"
prop("C25", "A vfc_ci run file describes exactly the samples of the run",
     "For every test configuration, vfc_ci test runs each executable with its parameters once per repetition under each back-end (once "
     "when no repetitions are given, plus one IEEE reference run if some probe has a check), and the run file holds exactly one row per "
     "test, variable and back-end that produced values, whatever their names, their order in the files and the probes missing from some runs: number of samples, "
     "average, population standard deviation, extrema, quartiles, significant digits in base 2 and 10 with their lower bounds, and the verdict "
     "of the documented check (standard deviation, relative or not to the average, or distance to the IEEE value of the same probe, strictly "
     "below the magnitude of the target). Executions without probes are reported, the raw file holds the samples bit for bit, the metadata "
     "those of the commit, and a dry run writes nothing.",
     ["configurations", "inputs", "faults"], "all configurations, probe names, samples, thresholds and crashing executions",
     "One test checks that a run file exists.",
     [CIT, CID, PRB], [("execution and collection", CIT), ("statistics and checks", CID)],
     ["executions with their environment", "content of the run and raw files", "warnings"],
     "500 generated configurations (4000 rows) against statistics recomputed from the samples",
     PBT + "generated configurations and samples on stand-in executables, recomputed statistics")

prop("C17", "VPREC applies to each call site the formats of its profile",
     "For a program compiled with --inst-func and run under VPREC, the profile written lists each executed call site that involves "
     "floating-point once, under an identifier made of its file, caller, callee and line, with the exact number of calls, the types and names of its floating-point inputs "
     "and outputs (scalars and arrays), the range of the finite values they took and its kind (library, intrinsic). Run with a profile, "
     "'arguments' rounds exactly the inputs (modes ib, full) and outputs (modes ob, full) of the listed sites to their formats, every element of an array included; "
     "'operations' makes the operations executed in a called function use the formats of its call site until it returns, whatever "
     "it calls in between; 'all' does both and 'none' neither. A profile is preserved when it is written again. The log file lists the calls in order, each with its formats and with its arguments before and after rounding, one line per value.",
     ["programs", "configurations", "histories"], "all call graphs, argument lists, profiles and modes",
     "One test runs three programs with the same formats at every site.",
     [FPASS, FI, VFI, "src/interflop-stdlib/interflop_stdlib.c"], [("hooks", FPASS), ("call stack", FI), ("formats and profile", VFI)],
     ["values printed by the program", "profile written"],
     "360 generated programs, each run with 10 generated profiles, against a reference interpreter; -O0 (inlining removes call sites)",
     PBT + "generated programs and profiles against a reference interpreter with an exact model of the formats")

PEX = "src/tools/optimize/precexp.py"
prop("C31", "vfc_precexp ends on a working, locally minimal precision configuration",
     "For every profile and every acceptance criterion that a longer format never breaks, vfc_precexp terminates; every configuration it tries "
     "is one VPREC reads (complete description of each selected call site, formats within their bounds) and changes only formats that the mode "
     "(arguments, operations, all) and the function list select; the formats it reports are accepted by the comparison script, and "
     "shortening any single explored mantissa or exponent by one bit is rejected (or the format is at its minimum). If even the native formats are "
     "rejected, nothing is reduced. A run longer than --maxTimeout milliseconds is a rejected one.",
     ["inputs", "configurations", "histories"], "all profiles, monotone acceptance criteria, modes, function lists and timeouts",
     "No test runs it.",
     [PEX], [("search", PEX)], ["configurations given to the program", "result tables"],
     "400 generated searches (16000 tested configurations); the scripts are stand-ins reading the configuration as VPREC does",
     PBT + "model-based search histories with stand-in scripts")

IEE = "src/backends/interflop-backend-ieee/interflop_ieee.c"
LOG = "src/interflop-stdlib/iostream/logger.c"
prop("C29", "The traces and counts of the IEEE back-end are exact",
     "Under the IEEE back-end, --debug prints each executed operation once, in order, with its operands, its symbol and its result; "
     "--debug-binary prints them as their exact binary expansion (sign, leading bit, significand without trailing zeros, exponent; subnormal numbers as 0.xxx or, with "
     "--print-subnormal-normalized, as 1.xxx), so that the trace determines the values; --print-new-line, --no-backend-name and the logger variables "
     "change the layout and headers only; --count-op reports at the end the exact number of additions, subtractions, multiplications, divisions and fused "
     "operations, each lane of a vector counted. None of the options changes a result.",
     ["inputs", "configurations", "histories"], "all operand values and formats, operation sequences, option and logger combinations",
     "Tests check a handful of printed values.",
     [IEE, "src/backends/interflop-backend-ieee/common/printf_specifier.c", LOG], [("debug macros and counters", IEE), ("%b conversion", "src/backends/interflop-backend-ieee/common/printf_specifier.c")],
     ["text on standard error and in the log file", "results"],
     "480000 operations under 1200 option combinations, the whole text predicted from exact results",
     PBT + "generated operations, text predicted by an exact model")

prop("C19", "Each back-end runs with exactly the settings its options give",
     "For every back-end and option list, given by VFC_BACKENDS or by the first line of VFC_BACKENDS_FROM_FILE, in long or short spelling, with '=' or a separate argument, in any order, "
     "letter case of keywords and number of repetitions (the last wins; a preset sets both precisions and ranges): the settings displayed at load are the defaults overridden by "
     "the options, and the results are those of any other spelling of the same settings with the same seed. A value outside of the documented bounds or keywords, "
     "a number followed by other characters or too large for its setting, an unknown option, a missing value, a value given to a flag or an argument that belongs to no option ends the "
     "program with a message, a failure status and no result.",
     ["configurations"], "all option lists of the six back-ends",
     "Tests run a few accepted option strings.",
     ["src/backends/interflop-backend-mcaquad/interflop_mca.c", "src/backends/interflop-backend-mcaint/interflop_mca_int.c",
      "src/backends/interflop-backend-bitmask/interflop_bitmask.c", "src/backends/interflop-backend-cancellation/interflop_cancellation.c",
      "src/backends/interflop-backend-vprec/interflop_vprec.c", IEE, "src/vfcwrapper/main.c.in"],
     [("option parsers", "src/backends/interflop-backend-mcaquad/interflop_mca.c"), ("number conversion", "src/vfcwrapper/main.c.in")],
     ["settings displayed at load", "results", "exit status and messages"],
     "16000 generated option lists (40% with a refused element)",
     PBT + "generated option lists, tabulated grammar, differential execution of equivalent spellings")

prop("C30", "Logger variables select the messages displayed and never change results",
     "For every chain of back-ends and sequence of operations, the results with a fixed seed, and the failure of an invalid option, are the same whatever VFC_BACKENDS_LOGGER, _LOGGER_LEVEL, _COLORED_LOGGER, _LOGFILE "
     "and _SILENT_LOAD are. The messages displayed are exactly those of a run that displays everything, in the same order, restricted to the levels at or above the selected one "
     "(info by default), none when the logger is disabled, without the loading messages when they are silenced; debug and info messages go to the log file when there is one, escape "
     "sequences are printed only when colours are requested. Each unknown interflop_call raises one warning in the back-ends that warn, and the VPREC debug "
     "trace shows the actual operands and results of each operation.",
     ["configurations", "inputs"], "all environments, chains and operation sequences",
     "No test varies the logger.",
     [LOG, "src/backends/interflop-backend-vprec/interflop_vprec.c", "src/interflop-stdlib/common/options.h"], [("levels, colours and log file", LOG)],
     ["text on standard error and in the log file", "results"],
     "6000 generated environments and chains, filtered prediction from a reference run",
     PBT + "metamorphic relation between environments")

prop("C28", "Concurrent threads do not disturb each other through the back-ends",
     "When several threads of an instrumented program execute operations concurrently, under any deterministic back-end setting or chain (IEEE, VPREC without function instrumentation, "
     "bitmask zero/one, and the stochastic back-ends set to add no noise), each operation has exactly the result it has when the threads run one after the other, whatever "
     "the number of threads and their schedule, and the counts of --count-op are exact. (Seeded stochastic back-ends under threads are part of C09.)",
     ["schedules", "inputs"], "all schedules, numbers of threads and operation sequences",
     "One test runs OpenMP threads and checks that the noise differs.",
     [IEE, "src/backends/interflop-backend-vprec/interflop_vprec.c", "src/backends/interflop-backend-bitmask/interflop_bitmask.c",
      "src/interflop-stdlib/fma/interflop_fma.c", "src/interflop-stdlib/rng/vfc_rng.c"], [("operations", "src/backends/interflop-backend-vprec/interflop_vprec.c"), ("counters", IEE)],
     ["results of each operation", "counts"],
     "260 generated programs (2.3 million operations) run concurrently and sequentially on 8 cores; the schedule is the one of the system",
     PBT + "differential execution of generated multi-threaded programs")

WRP = "src/vfcwrapper/main.c.in"
PAS = "src/libvfcinstrument/libVFCInstrument.cpp"
prop("C18", "Every operation reaches each back-end of the chain once; the last result wins",
     "For every list of back-ends given by VFC_BACKENDS (or, when it is not set, by the first line of VFC_BACKENDS_FROM_FILE), each back-end receives its own arguments intact, "
     "then every executed operation and interflop_call it implements exactly once, in program order and chain order, with the operands of the program; the result the program "
     "gets is that of the last back-end implementing the operation; each is finalised once, after the last operation. A list where no back-end implements a required "
     "operation, or with more than 16 back-ends or 256 arguments, ends the program with an error before any operation. The variables that child processes inherit are unchanged.",
     ["configurations", "inputs", "histories"], "all lists of back-ends, subsets of implemented operations, arguments and operation sequences, with 1 or 4 threads",
     "Tests chain at most two back-ends.",
     [WRP, "src/interflop-stdlib/interflop.h"], [("loading and dispatch", WRP)],
     ["calls received by recording back-ends", "results", "exit status", "environment of child processes"],
     "10000 generated chains and 600000 operations; recording back-ends that shift their results",
     PBT + "generated chains of recording back-ends, predicted calls")

prop("C21", "Delta-debug filters select exactly the operations they name",
     "In a program compiled with --ddebug at any optimisation level, each floating-point operation (scalar, vector, fused; in tail position or not; executed by any thread) is identified by one address. "
     "VFC_DDEBUG_GEN=file writes each executed operation once, with its function, file and line, and nothing else (replacing an existing file; excluded operations are not written). "
     "Under VFC_DDEBUG_INCLUDE and VFC_DDEBUG_EXCLUDE the operations that go through the back-ends are exactly those listed by the former (all, if not given) and not by the latter; "
     "the others give their native result. Giving INCLUDE and GEN together or a filter line that is no address ends the program with an error.",
     ["inputs", "configurations", "schedules"], "all programs, optimisation levels, filters and thread counts",
     "Tests check two scalar programs at -O0.",
     [WRP, PAS, "src/interflop-stdlib/hashmap/vfc_hashmap.c"], [("filters and list generation", WRP), ("calls of the wrapper", PAS)],
     ["generated list", "operations received by a recording back-end", "program output"],
     "240 generated programs, 1300 runs under filters compared with a model that shifts the selected operations only",
     PBT + "generated programs and filters, exact model of the selected operations")

prop("C08", "No operation, setting or chain makes the run-time execute undefined behaviour",
     "For every back-end setting the options allow (and every option list they refuse), chain of back-ends, run-time call and sequence of operations on any operands, by one or several threads, the wrapper, the back-ends and the "
     "libraries they use never read or write out of bounds, use freed or uninitialised pointers, overflow signed integers, shift by an invalid amount or otherwise execute undefined behaviour, and the program ends with the status it should.",
     ["inputs", "configurations", "schedules"], "all back-end settings, chains, operations and operands",
     "The tests run without sanitizers on a few settings.",
     ["src/backends/interflop-backend-vprec/common/vprec_tools.c", "src/backends/interflop-backend-vprec/interflop_vprec.c", "src/backends/interflop-backend-mcaquad/interflop_mca.c",
      "src/interflop-stdlib/interflop_stdlib.c", "src/vfcwrapper/main.c.in"],
     [("rounding", "src/backends/interflop-backend-vprec/common/vprec_tools.c"), ("noise", "src/backends/interflop-backend-mcaquad/interflop_mca.c")],
     ["sanitizer reports", "exit status"],
     "4000 settings and 2.6 million operations under the address and undefined-behaviour sanitizers; function instrumentation and probes are not part of it (C17, C23, C24)",
     PBT + "generated settings and operations, sanitizers as the oracle")

VTK = "src/tools/vtk/__main__.py"
prop("C26", "vfc_vtk adds the accuracy of every array and changes nothing else",
     "For every set of VTK outputs (directories holding the same .vtu files), vfc_vtk writes a copy of the base output (the -r output, or one of the set) where each floating-point "
     "DataArray X, in any piece and section, has a sibling X_vfc_accuracy (in PointData for the points) giving for each value its number of significant decimal digits "
     "-log10(std/|mean|) over the outputs, clamped to [0, 17], or its standard deviation with --std; with --mean each floating-point array is replaced by the mean. All other "
     "content, the inputs and any existing output directory are left unchanged; an empty set or existing output directory is refused with an error status.",
     ["inputs", "configurations"], "all sets of ASCII .vtu outputs and options",
     "No test runs vfc_vtk.",
     [VTK], [("merging", VTK)], ["files of the output directory", "exit status"],
     "7500 generated sets of outputs, 200000 arrays; statistics recomputed exactly",
     PBT + "generated VTK outputs, exact reference statistics")

CISETUP = "src/tools/ci/setup.py"
prop("C33", "vfc_ci setup commits only the workflow and the CI branch, or changes nothing",
     "For every repository whose active branch <b> is clean and equal to its upstream, vfc_ci setup adds to <b> exactly one commit that holds only the workflow file of the host, creates the "
     "orphan branch vfc_ci_<b> with one commit holding only README.md, pushes both, and leaves <b> active, every other branch, tag and file (ignored ones too) as they were. The workflow runs "
     "on <b>, saves the results on vfc_ci_<b> and, for GitLab, pushes to the address of origin with the given user. When the tree has modified, staged, deleted or untracked files, or "
     "the branch is detached, has no upstream or differs from it, either nothing at all changes and an error is raised, or (untracked files only) they are neither committed nor touched.",
     ["inputs", "histories"], "all repositories with an origin remote",
     "No test runs vfc_ci setup: it would push to a remote.",
     [CISETUP], [("run", CISETUP), ("gen_workflow", CISETUP), ("gen_readme", CISETUP)], ["references, commits and files of both repositories", "the workflow file"],
     "960 generated repositories, each with a local bare remote",
     PBT + "generated repositories and states, comparison of every reference, tree and file")

REP = "src/tools/ci/vfc_ci_report/"
prop("C32", "The vfc_ci report shows exactly the data of the selected runs",
     "For every directory of run files and every history of selections in the report (repository, test, variable, back-end, number of runs, run, grouping, filter, outliers, clicks): the runs "
     "kept are the --max-files most recent ones once the --ignore-recent most recent are dropped; each run has a distinct name and belongs to the repository and branch that produced it; each "
     "plot draws, in chronological order, the selected number of last runs with their own values, bounds, colours and commit data (points beyond 3 standard deviations removed from every column when asked); "
     "the inspection of a run aggregates exactly its results; the tables list exactly its checks; every option offered exists and selecting it never fails. vfc_ci serve passes its arguments to the report unaltered.",
     ["inputs", "histories"], "all run files written by vfc_ci test and histories of selections",
     "No test starts the report.",
     ["src/tools/ci/serve.py", REP + "main.py", REP + "helper.py", REP + "plot.py", REP + "compare_runs.py", REP + "deterministic_compare.py", REP + "inspect_runs.py", REP + "checks.py"],
     [("run", "src/tools/ci/serve.py"), ("ViewsMaster", REP + "main.py"), ("CompareRuns", REP + "compare_runs.py"), ("DeterministicCompare", REP + "deterministic_compare.py"),
      ("InspectRuns", REP + "inspect_runs.py"), ("Checks", REP + "checks.py"), ("get_run_name", REP + "helper.py")],
     ["what the plots and tables draw", "options of the widgets", "arguments of bokeh"],
     "400 generated directories with histories of 12 selections, 40000 plots and tables; the page layout and client scripts are not run",
     PBT + "stateful: generated run files and histories of selections against a model of what is drawn")

DRV = "verificarlo.in.in"
prop("C34", "verificarlo takes the place of the compiler in a build",
     "For every project of C, C++, assembly, LLVM IR and bitcode units (any file names) and every build made of compile, link, archive, shared-library, -E, -S, -M, -MM, -fsyntax-only and "
     "--emit-llvm commands, the verificarlo wrappers succeed and fail where clang does, write the same files (plus, for a one-command build, the object files of its sources) with the same "
     "dependencies and texts, pass every argument to the compiler unaltered, leave no temporary file and no change to the sources, even when the build fails; the program built prints under the "
     "IEEE back-end what clang's prints, and its back-end receives every operation of its instrumentable units.",
     ["inputs", "configurations", "histories"], "all projects and builds without Fortran",
     "The tests compile a few plain files and one macro with spaces.",
     [DRV, "verificarlo-c", "verificarlo-c++"], [("parse_extra_args", DRV), ("compiler_mode", DRV), ("linker_mode", DRV), ("get_tmp_filename", DRV)],
     ["files and exit status of each command", "output of the program", "operations received by a back-end"],
     "160 generated projects and builds (about 700 commands and runs), each also built by clang",
     PBT + "differential: generated builds run with verificarlo and with clang")

MQ, MI = "src/backends/interflop-backend-mcaquad/interflop_mca.c", "src/backends/interflop-backend-mcaint/interflop_mca_int.c"
prop("C35", "Back-ends serve any front-end of the interflop interface alike",
     "For every back-end loaded by a front-end through the interflop interface (interflop_pre_init, then interflop_cli with options or interflop_<name>_configure with the equivalent configuration "
     "structure, then interflop_init) and every valid setting, both ways of configuring give the same settings displayed, the same messages and, with the same seed, the same results for every "
     "sequence of operations. Between <name>_push_seed(s) and <name>_pop_seed() the noise depends on the seed s only, and on every bit of it, not on the configured seed nor on earlier operations; "
     "after the pop the results are those of a run without this bracket.",
     ["inputs", "configurations", "histories"], "all valid settings, operands and un-nested brackets of one thread",
     "No test uses the configuration structures or pushed seeds.",
     [MQ, MI, "src/interflop-stdlib/rng/vfc_rng.c", "src/interflop-stdlib/interflop.h"],
     [("INTERFLOP_MCAQUAD_API(configure)", MQ), ("mcaquad_push_seed", MQ), ("_init_rng_state_struct", "src/interflop-stdlib/rng/vfc_rng.c")],
     ["messages and settings displayed by the back-end", "results of the operations"],
     "9000 generated settings and histories (about 390 000 operations), each run configured both ways",
     PBT + "differential between the two ways of configuring, and metamorphic: runs with and without pushed seeds")

prop("C36", "vfc_report shows exactly the formats found by the exploration",
     "For all result files of a precision exploration (vfc_precexp) in vfc_exp_data and every list of functions on the command line, vfc_report writes a page that lists each function whose call sites are "
     "kept (all, or those whose callee or caller is in the list) once with the sum of its numbers of calls, in decreasing order, and below it each of its call sites once, with its file, line and number of "
     "calls. Each call site gives one figure of its own per exploration (arguments, operations, arguments only, operations only) with exactly the formats, value intervals, types and names recorded for it "
     "in that exploration, and an inactive link when it has no floating-point argument, respectively no instrumented body. Input files are left as they are; a missing one is named and no page is written.",
     ["inputs"], "all results of up to 12 call sites, names with dots, underscores and CSV missing-value words",
     "No test runs vfc_report.",
     ["src/tools/optimize/report.py"],
     [("main", "src/tools/optimize/report.py"), ("FilterFunctions", "src/tools/optimize/report.py"), ("PlotArgs", "src/tools/optimize/report.py")],
     ["vfc_exp_data/vfc_precexp_report.html", "figures of vfc_exp_data/img"],
     "700 generated explorations (about 3200 call sites)",
     PBT + "page and recorded figures against a model computed from the generated results")
