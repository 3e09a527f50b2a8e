"""Which harness groups, under which instrumentation, decide which property."""
import os as _os
_R = _os.path.dirname(_os.path.dirname(_os.path.abspath(__file__)))
FLAVOURS = {
    "plain": {"env": {}, "run_env": {}},
    # the vector code paths of a common desktop CPU (the plain flavour, like the repository's test build, is SSE2)
    "avx2": {"env": {"HV_CFLAGS": "-mavx2 -mfma"}, "run_env": {}, "cpu": "avx2"},
    # kernels instrumented by AddressSanitizer and UndefinedBehaviorSanitizer (wrapping integer arithmetic is the kernels' intent)
    "asan": {"env": {"HV_CFLAGS": "-fsanitize=address,undefined -fno-sanitize=signed-integer-overflow,shift-base -fno-sanitize-recover=undefined -fno-omit-frame-pointer",
                     "HV_LDFLAGS": "-fsanitize=address,undefined", "RUSTFLAGS": "-C linker=" + _R + "/bin/hvld"},
             "run_env": {"ASAN_OPTIONS": "detect_leaks=1:halt_on_error=1:detect_stack_use_after_return=1:allocator_may_return_null=1", "UBSAN_OPTIONS": "print_stacktrace=1", "LSAN_OPTIONS": "suppressions=" + _R + "/tools/lsan.supp"}},
    # everything (std, hodu and the kernels) instrumented by ThreadSanitizer
    "tsan": {"env": {"RUSTUP_TOOLCHAIN": "nightly-x86_64-unknown-linux-gnu", "RUSTFLAGS": "-Zsanitizer=thread --cfg hv_tsan", "HV_CFLAGS": "-fsanitize=thread -g"},
             "cargo": ["build", "-Zbuild-std", "--target", "x86_64-unknown-linux-gnu"], "out": "x86_64-unknown-linux-gnu/debug",
             "run_env": {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1"}},
}
RULE = ("seeded random cases per family (operation, dtype, shapes, view layouts, parameters and values drawn from typical, "
        "edge and hostile distributions); a case counts as non-trivial when the oracle compared at least one element or outcome, "
        "and distinct by the hash of its full description (operation, layouts, parameters, data)")
RULE_H = ("seeded random scripts or histories per family (requests, faults, chunking and timing, operations, files); a case counts as non-trivial when at least one call, answer or state "
          "was judged, and distinct by the hash of its full description")
T_PLUG = "runtime monitoring with fault injection: scripted hostile plugin processes log what they receive and send; an offline checker pairs every call's outcome, notification and request with that log"
N_PLUG = ("Explores random scripts (seeded) of reordered, repeated, late, foreign, malformed, cut and missing answers, crashes, closed pipes, unread input and cancellations, and histories "
          "of plugin managers and runtimes over real processes, checking liveness with deadlines of 60 s. Timing decisions keep a margin of two thirds of the time limit.")
T_SRV = "runtime monitoring: random request scripts in random chunks to a server process; an offline checker matches every output line with exactly one expected answer or notification"
N_SRV = ("Explores random mixes (seeded) of valid, malformed, unknown, repeated, panicking and cancelling requests with slow, large and threaded handlers; the server's whole output, its order of "
         "notifications, its end and its exit status are judged. A shutdown without an id is not decided.")
T_REG = "runtime monitoring with fault injection: a reference model follows every operation; saves are killed or fail at every file size, and are read by other processes meanwhile"
N_REG = ("Explores random histories, corrupted files and interrupted saves (seeded); the whole registry and its lookups are compared with the model after each operation. "
         "Power loss below the file system is not simulated.")
T_SDK = "runtime monitoring with fault injection: manifests are written, damaged and loaded, and their targets checked against scratch tools that work, fail or die; a reference model decides every answer"
N_SDK = ("Explores random manifests, host patterns and tool sets (seeded); the host is the one the checks run on, so other hosts appear only in the patterns. "
         "Patterns with a star at both ends are not decided.")
T_KERN = "runtime monitoring: kernels run on buffers and layout metadata as a compiling backend would pass them; an online oracle recomputes every element and watches what lies behind the result"
N_KERN = ("Explores random layouts, operations and element types (seeded) for matrix products and for every binary kernel that can be looked up. The other kernels are reached through tensors by the "
          "other properties; views only reach the convolution kernels densely, and their handling of other strides is not decided.")
T_CLI = "runtime monitoring with fault injection: the real command line runs in a scratch home against recording plugins that fail, crash and hang; a reference model decides results, files, cache and registry after every command"
N_CLI = ("Explores random command histories, damaged files, hostile names and killed or interrupted commands (seeded); every file below the scratch root is compared before and after each command. "
         "cargo is replaced by a stand-in and nothing is fetched from the network; installing from the official registry is not covered.")
T_VAL = "runtime monitoring: an online oracle recomputes every element of each executed operation"
N_VAL = ("Explores random inputs (seeded); every element of every executed operation is compared with an independently written reference. "
         "Assumes the reference and its stated rounding tolerances; cases not generated are not covered.")
T_GRAD = "runtime monitoring: every back-propagated gradient is compared with central differences of the executed operation"
N_GRAD = ("Explores random operations, parameters, shapes and layouts (seeded); each gradient is projected on the output and compared "
          "element by element with finite differences in f64, so kinks within the step are skipped and defects below the difference error are missed.")
T_MEM = "AddressSanitizer, LeakSanitizer and UndefinedBehaviorSanitizer over the kernels while the value oracles' workloads run, and Valgrind Memcheck (uninitialised reads) over a sample of them"
N_MEM = ("Every kernel execution generated by the value, gradient and rejection workloads is watched by the sanitizers; violations carry the case. "
         "Wrapping signed arithmetic and shifts of negative values are the kernels' defined intent and not reported. Rust code is covered through the interposed allocator only.")
VALGRIND = ["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--leak-check=no", "--num-callers=12"]
MEMG = ["mem", "index", "conv", "matrix", "reduce", "views", "elementwise", "boolean", "cast", "grad", "reject"]
T_GRAPH = "runtime monitoring: gradients of executed random programs against finite differences, and against the same program run alone when contexts, threads or earlier steps interfere"
N_GRAPH = ("Explores random programs, context nestings, step histories and thread mixes (seeded, OS-scheduled); gradients are compared with central "
           "differences in f64 and bit for bit with an isolated run. Interleavings not scheduled by the OS are not covered.")
T_REJ = "runtime monitoring: random hostile requests with an admissibility oracle, and state monitors (operands bit for bit, live tensors, later work)"
N_REJ = ("Explores random requests (seeded) over the fallible tensor operations; the oracle knows a set of definitely invalid requests that must be refused and "
         "otherwise requires an error or a well-formed result. Requests whose result would be addressable but enormous are not issued.")
T_OPT = "runtime monitoring: a reference run of each published update rule, with error bounds, follows every executed optimizer step"
N_OPT = ("Explores random optimizers, settings, parameter sets, gradient histories, learning-rate changes and optimizer copies (seeded); every parameter element after every "
         "step is compared within a running rounding-error bound (ill-conditioned elements are skipped). F32 and F64 parameters.")
T_NN = "runtime monitoring: every executed module and loss is compared with an independently written definition, its gradients with finite differences of that definition"
N_NN = ("Explores random configurations, modes, shapes, layouts and call histories (seeded); every output element is compared within a rounding allowance, parameters are replaced by "
        "random values through their exposed handles, gradients compared in f64 with central differences of the reference. Where libraries differ (batch averaging of losses, "
        "adaptive windows, running-average momentum) the reference is the convention the code documents.")
T_DATA = "runtime monitoring: exactly-once and order monitors over the batches delivered in random call histories with injected failures"
N_DATA = ("Explores random datasets, loader settings, call histories and injected failures (seeded). Batch samplers with batch size 0 and scalar tensor datasets have no error path in the API and are not exercised.")
T_FILE = "runtime monitoring: every saved tensor is loaded back and compared element by element (bit by bit for the binary forms) with the model it was built from"
N_FILE = ("Explores random tensors, layouts, formats, names and paths (seeded). F64 elements whose decimal text serde_json itself misreads are a listed finding.")
T_BAD = "runtime monitoring: mutated and hostile inputs to every reader, with monitors for panics, time, heap peak and well-formedness of whatever is accepted"
N_BAD = ("Explores seeded mutations of valid files and generated hostile texts, including every truncation of some files; accepted objects are checked for consistency, "
         "heap use is observed by a counting allocator.")
T_CAP = "runtime monitoring: every captured program, operation and module is run by an independent interpreter of its snapshot and compared with its eager run"
N_CAP = ("Explores random single operations with hostile arguments, random programs and nn modules (seeded), before and after serialisation. The interpreter executes single recorded nodes with the eager operations, "
         "so it judges the recording (operands, parameters, constants, layouts, order, targets), not the operations, which other properties cover.")
T_LIFE = "runtime monitoring: live tensors and heap bytes observed after every event of random histories, against a reachability model"
N_LIFE = ("Explores random histories of handles, operations, contexts, backward passes and thread hand-overs (seeded), and repeats cases of every other workload looking for growth. "
          "What an operation may keep to itself while its graph is alive (broadcast or contiguous operands) is allowed for, so extra intermediates of that kind are not reported until the graph ends.")
T_CONC = "ThreadSanitizer over kernels, library and std while threads share tensors and kernels split their work; and online comparison of every result with the one obtained alone, under forced processor counts and failing thread creation"
N_CONC = ("Explores random thread mixes, shared operands, delays, processor counts and thread-creation failures (seeded, OS-scheduled). ThreadSanitizer reports unordered accesses even when the schedule "
          "run was harmless, but only on executed code; interleavings not scheduled by the OS are not covered for result monitors.")
CHECKS = {
    "M02": {"stages": [{"groups": ["conc", "split"], "secs": 100, "scale": 2},
                       {"groups": ["conc", "split"], "families": ["split", "split_rows", "ops", "mixed", "crowd", "replace", "shared_params"], "flavour": "tsan", "secs": 150, "scale": 0.5, "secs_thorough": 1500},
                       {"groups": ["conc"], "families": ["sweep"], "flavour": "tsan", "secs": 120, "scale": 1, "secs_thorough": 1500},
                       {"groups": ["graph", "life", "optim", "data"], "families": ["threads", "shared_leaf", "across", "spread"], "flavour": "tsan", "secs": 100, "scale": 0.15, "scale_thorough": 0.3, "secs_thorough": 1500}], "rule": RULE, "technique": T_CONC, "note": N_CONC},
    "X01": {"stages": [{"groups": ["plugin"], "secs": 150, "scale": 1}], "rule": RULE_H, "technique": T_PLUG, "note": N_PLUG},
    "X02": {"stages": [{"groups": ["server"], "secs": 90, "scale": 3}], "rule": RULE_H, "technique": T_SRV, "note": N_SRV},
    "X03": {"stages": [{"groups": ["registry"], "secs": 60, "scale": 30}], "rule": RULE_H, "technique": T_REG, "note": N_REG},
    "X06": {"stages": [{"groups": ["sdk"], "secs": 40, "scale": 6}], "rule": RULE_H, "technique": T_SDK, "note": N_SDK},
    "K01": {"stages": [{"groups": ["kernels"], "secs": 50, "scale": 6}], "rule": RULE, "technique": T_KERN, "note": N_KERN},
    "X04": {"stages": [{"groups": ["cli"], "families": ["run", "build", "convert", "inspect", "tensors"], "secs": 100, "scale": 4}], "rule": RULE_H, "technique": T_CLI, "note": N_CLI},
    "X05": {"stages": [{"groups": ["cli"], "families": ["plugins", "installs", "clean"], "secs": 100, "scale": 20}], "rule": RULE_H, "technique": T_CLI, "note": N_CLI},
    "M03": {"stages": [{"groups": ["life"], "secs": 70, "scale": 3}], "rule": RULE, "technique": T_LIFE, "note": N_LIFE},
    "R03": {"stages": [{"groups": ["capture"], "secs": 100, "scale": 6}], "rule": RULE, "technique": T_CAP, "note": N_CAP},
    "R01": {"stages": [{"groups": ["files"], "secs": 60, "scale": 80}], "rule": RULE, "technique": T_FILE, "note": N_FILE},
    "R02": {"stages": [{"groups": ["malformed"], "secs": 60, "scale": 60}], "rule": RULE, "technique": T_BAD, "note": N_BAD},
    "D01": {"stages": [{"groups": ["data"], "secs": 60, "scale": 15}], "rule": RULE, "technique": T_DATA, "note": N_DATA},
    "N01": {"stages": [{"groups": ["nn"], "secs": 60, "scale": 6}], "rule": RULE, "technique": T_NN, "note": N_NN},
    "N02": {"stages": [{"groups": ["optim"], "secs": 60, "scale": 12}], "rule": RULE, "technique": T_OPT, "note": N_OPT},
    "A01": {"stages": [{"groups": ["reject"], "secs": 60, "scale": 1}], "rule": RULE, "technique": T_REJ, "note": N_REJ},
    "E01": {"stages": [{"groups": ["elementwise"], "secs": 60, "scale": 25}, {"groups": ["elementwise"], "flavour": "avx2", "secs": 60, "scale": 5}], "rule": RULE, "technique": T_VAL, "note": N_VAL},
    "E02": {"stages": [{"groups": ["boolean"], "secs": 60, "scale": 40}, {"groups": ["boolean"], "flavour": "avx2", "secs": 60, "scale": 8}], "rule": RULE, "technique": T_VAL, "note": N_VAL},
    "E03": {"stages": [{"groups": ["reduce"], "secs": 60, "scale": 20}, {"groups": ["reduce"], "flavour": "avx2", "secs": 60, "scale": 5}], "rule": RULE, "technique": T_VAL, "note": N_VAL},
    "E04": {"stages": [{"groups": ["matrix"], "secs": 60, "scale": 6}, {"groups": ["matrix"], "flavour": "avx2", "secs": 60, "scale": 2}], "rule": RULE, "technique": T_VAL, "note": N_VAL},
    "E05": {"stages": [{"groups": ["conv"], "secs": 60, "scale": 8}, {"groups": ["conv"], "flavour": "avx2", "secs": 60, "scale": 2}], "rule": RULE, "technique": T_VAL, "note": N_VAL},
    "E06": {"stages": [{"groups": ["index"], "secs": 60, "scale": 25}], "rule": RULE, "technique": T_VAL, "note": N_VAL},
    "E07": {"stages": [{"groups": ["views"], "secs": 60, "scale": 20}], "rule": RULE, "technique": T_VAL, "note": N_VAL},
    "T01": {"stages": [{"groups": ["types"], "secs": 60, "scale": 10}], "rule": RULE, "technique": T_VAL, "note": N_VAL},
    "E08": {"stages": [{"groups": ["cast"], "secs": 60, "scale": 12}], "rule": RULE, "technique": T_VAL, "note": N_VAL},
    "M01": {"stages": [{"groups": MEMG, "flavour": "asan", "values_of": ["mem"], "secs": 100, "scale": 1, "scale_thorough": 1, "secs_thorough": 2400},
                       {"groups": MEMG, "values_of": [], "wrap": VALGRIND, "secs": 60, "scale": 0.03, "scale_thorough": 0.05, "secs_thorough": 1200}],
            "rule": RULE, "technique": T_MEM, "note": N_MEM},
    "G02": {"stages": [{"groups": ["graph"], "secs": 60}], "rule": RULE, "technique": T_GRAPH, "note": N_GRAPH},
    "G01": {"stages": [{"groups": ["grad"], "secs": 60, "scale": 8}], "rule": RULE, "technique": T_GRAD, "note": N_GRAD},
}
NA = {}
import json as _j, os as _o
for _l in open(_o.path.join(_o.path.dirname(_o.path.dirname(_o.path.abspath(__file__))), "properties.jsonl")):
    _i = _j.loads(_l)["id"]
    if _i not in CHECKS:
        NA.setdefault(_i, "check under construction")
