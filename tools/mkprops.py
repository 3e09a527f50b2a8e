#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts are edited)."""
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, state=None, obs=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": q},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in (state or [])],
                          "observe_at": obs or [], "hook_needed": None}})
CORE = "crates/hodu_core/src/"
K = "crates/hodu_cpu_kernels/"
p("E01", "Element-wise arithmetic computes the mathematical function",
  "Every element-wise arithmetic, unary-math, activation and tensor-scalar operation returns, for each element, the mathematically defined value (rounded to the result type: IEEE for floats, two's-complement wrap, saturating unsigned subtraction and zero for division by zero for integers) of the broadcast operands. The result has the broadcast shape and the operand's element type and does not depend on how the operands are stored: contiguous, permuted, sliced, broadcast, offset, small, or large enough to be split over threads.",
  ["inputs", "configurations"], "all supported dtypes, all broadcastable shape pairs, all values including NaN, infinities, subnormals and integer extremes, all view layouts, both the scalar and the vectorised/threaded code path",
  "The kernel tests call each kernel with a few hand-written contiguous f32/i32 vectors; they sample a few of about 60 operations x 14 dtypes x layouts and never go through the tensor API with strided operands.",
  [CORE + "tensor/ops/binary.rs", CORE + "tensor/ops/unary.rs", CORE + "be_cpu/storage/ops_binary.rs", CORE + "be_cpu/storage/ops_unary.rs", K + "kernels/ops_binary.c", K + "kernels/ops_unary.c", K + "kernels/math_utils.h"],
  [("strided index computation in kernels", K + "kernels/ops_binary.c"), ("broadcast shape/layout derivation", CORE + "types/shape.rs"), ("metadata generation", CORE + "op_metadatas.rs")])
p("E02", "Comparison, logical, bitwise and selection operations are exact",
  "Comparisons, logical and bitwise operations, float classification, conditional selection, masked fill and clamping return for every element exactly what the operator means on the broadcast operands, with NaN unordered, selection taking the receiver's element exactly where the condition is true, and masked fill writing the value exactly where the mask is true. Unselected elements never influence the result, whatever the layout or dtype.",
  ["inputs", "configurations"], "all dtypes, broadcastable shapes, layouts and values including NaN and infinities",
  "Existing tests check a handful of contiguous kernel calls; selection, masked fill and clamp have no test at all.",
  [CORE + "tensor/ops/cmp.rs", CORE + "tensor/ops/bitwise.rs", CORE + "tensor/ops/selection.rs", K + "kernels/ops_bitwise.c", K + "kernels/ops_binary.c"],
  [("selection built from arithmetic", CORE + "tensor/ops/selection.rs"), ("comparison kernels", K + "kernels/ops_binary.c")])
p("E03", "Reductions, softmax and cumulative sums equal their definition",
  "Sum, mean, max, min, prod, std, var, norms, log-sum, log-sum-exp, argmax, argmin, any, all, softmax, log-softmax and cumsum over any set of axes (positive or negative, kept or dropped) return the value of their definition over exactly the elements of each reduced slice, with the documented result shape and dtype. Index results name a position holding the extreme value, softmax rows sum to one and stay finite for finite inputs.",
  ["inputs", "configurations"], "all dtypes the operation admits, ranks 1-4, every axis subset, keep_dim both ways, every view layout, extreme magnitudes",
  "Kernel tests reduce a few tiny contiguous tensors; axis subsets on permuted, sliced or broadcast inputs, negative axes and integer dtypes are not reached.",
  [CORE + "tensor/ops/reduce.rs", CORE + "tensor/ops/scan.rs", CORE + "tensor/ops/normalization.rs", CORE + "be_cpu/storage/ops_reduce.rs", K + "kernels/ops_reduce.c", K + "kernels/ops_scan.c"],
  [("reduction kernels over strided input", K + "kernels/ops_reduce.c")])
p("E04", "Matrix products, einsum and linear algebra satisfy their defining equations",
  "Matmul, dot and einsum return the sum of products their index expression defines, including batch broadcasting, for every dtype and operand layout; det, inverse, trace and solve satisfy det(A)det(B)=det(AB), A·inv(A)=I, A·solve(A,b)=b within the conditioning of A. Operand layout (transposed, sliced, broadcast) never changes the result.",
  ["inputs", "configurations"], "all matmul rank combinations, einsum equations with batch/contract/transpose/diagonal-free indices, dtypes, layouts, sizes across the blocked and BLAS paths",
  "Tests use a few small contiguous matrices; BLAS and blocked/threaded fallbacks are selected by size, dtype and contiguity, which they do not vary.",
  [CORE + "tensor/ops/matrix.rs", CORE + "tensor/ops/einsum.rs", CORE + "tensor/ops/linalg.rs", CORE + "einsum.rs", K + "kernels/ops_matrix.c", K + "kernels/ops_matrix_openblas.c", K + "kernels/ops_einsum.c", K + "kernels/ops_linalg.c"],
  [("path selection by contiguity/dtype/size", K + "kernels/ops_matrix.c"), ("equation parsing", CORE + "einsum.rs")])
p("E05", "Convolution, window, resize and padding equal their definition",
  "Convolutions and transposed convolutions in one to three dimensions (any stride, padding, dilation), their weight-gradient forms, window reductions, resizes in every mode, and every padding mode return exactly the values and output shape of the textbook definition for every admissible configuration and input layout.",
  ["inputs", "configurations"], "kernel sizes, strides, paddings, dilations, channels, batch, pad modes, resize modes and target sizes; float dtypes; layouts",
  "A few fixed contiguous configurations are tested at kernel level; interactions of stride, padding and dilation with shapes and layouts are not enumerated.",
  [CORE + "tensor/ops/conv.rs", CORE + "tensor/ops/windowing.rs", CORE + "tensor/ops/resize.rs", CORE + "tensor/ops/padding.rs", CORE + "be_cpu/storage/ops_conv.rs", K + "kernels/ops_conv.c", K + "kernels/ops_windowing.c", K + "kernels/ops_resize.c", K + "kernels/ops_padding.c"],
  [("index arithmetic in conv/pad kernels", K + "kernels/ops_conv.c")])
p("E06", "Indexing, scatter, sorting and concatenation move exactly the right elements",
  "Index-select, index-put, gather, scatter and its accumulating variants, one-hot, nonzero, unique, compress, sort/top-k, concatenate, stack, split, chunk, flip, roll/repeat return exactly the elements their definition names (negative indices counted from the end where admitted), leave the operand untouched and neither lose, duplicate nor invent elements. Out-of-range indices never read or write outside the tensor.",
  ["inputs", "configurations"], "dtypes, ranks, axes (also negative), index contents, duplicate indices, layouts of every operand",
  "Tests exercise few fixed index vectors on contiguous data; layouts of the index and source operands, duplicates and extremes are not covered.",
  [CORE + "tensor/ops/indexing.rs", CORE + "tensor/ops/sort.rs", CORE + "tensor/ops/concat_split.rs", CORE + "tensor/ops/shape_memory.rs", CORE + "be_cpu/storage/ops_indexing.rs", K + "kernels/ops_indexing.c", K + "kernels/ops_sort.c", K + "kernels/ops_concat_split.c"],
  [("indexing kernels", K + "kernels/ops_indexing.c")])
p("E07", "Views are transparent: every reader sees the logical elements",
  "Any composition of reshape, view, flatten, squeeze, unsqueeze, broadcast, transpose, permute and slice (with any start, end and non-zero step) denotes exactly the elements of the corresponding index mapping, and every way of reading it — extracting to vectors or nested vectors, scalars, bytes, materialising, casting, printing — yields those elements in logical order. Reading or materialising a view changes neither it nor the tensor it views.",
  ["inputs", "programs"], "all chains of view operations over random shapes and dtypes, each followed by every reader",
  "Tests read fresh contiguous tensors; chains of views with offsets and zero strides, read back through each extraction path, are not sampled.",
  [CORE + "types/layout.rs", CORE + "types/shape.rs", CORE + "tensor/ops/shape.rs", CORE + "tensor/ops/shape_memory.rs", CORE + "tensor/vec.rs", CORE + "tensor/bytes.rs", CORE + "tensor/display.rs"],
  [("layout algebra", CORE + "types/layout.rs"), ("element extraction", CORE + "tensor/vec.rs")])
p("T01", "Shapes, layouts, scalars and element types keep their algebra",
  "A layout obtained from another by reshape, flatten, squeeze, unsqueeze, broadcast, transpose, permute or slice addresses exactly the storage positions of the corresponding index mapping and reports its shape, strides, offset, size and contiguity accordingly; an inadmissible request is an error and changes nothing. The broadcast shape of two shapes is the common shape aligned from the last dimension, whatever their order, and agrees with what can be broadcast. Symbolic shapes and layouts report sizes, bounds, strides and offsets of exactly the concrete ones they stand for, dimension identities never repeat, and resolved dimensions are those of the thread. Scalar arithmetic, powers, roots, conversions and texts give the value their type defines, and element types and devices have the same size, class, name and number for the core, for files and for plugins; tensor data is valid exactly when its length is that of its shape and type.",
  ["inputs", "histories"], "random chains of layout operations, pairs of shapes, symbolic dimensions with and without bounds, scalar pairs of all types, every element type",
  "Unit tests try a few fixed shapes and values; the algebra must hold for every chain, rank, axis, offset and value.",
  [CORE + "types/layout.rs", CORE + "types/shape.rs", CORE + "types/symbolic_layout.rs", CORE + "types/symbolic_shape.rs", CORE + "types/dim.rs", CORE + "types/dtype.rs", CORE + "types/dynamic_registry.rs", CORE + "types/format.rs", CORE + "scalar.rs", "crates/hodu_plugin/src/tensor.rs", "crates/hodu_plugin/src/backend.rs"],
  [("layout algebra", CORE + "types/layout.rs"), ("broadcast shape", CORE + "types/shape.rs"), ("scalar arithmetic", CORE + "scalar.rs")])
p("E08", "Casts and tensor creation are value-exact",
  "Converting a tensor between any two element types gives for every value the nearest representable value of the target (round-to-nearest for floats, truncation toward zero and defined behaviour for integers, zero test for booleans), and widening then narrowing restores the value. Creation functions (from slices and nested vectors, slices and arrays of any depth, full, zeros, ones, like-variants, arange/linspace-type ranges, random with bounds) give exactly the requested shape, dtype and contents or distribution bounds; data whose parts differ in length is refused.",
  ["inputs", "configurations"], "all 15x15 dtype pairs over full value ranges (exhaustive for 8- and 16-bit sources), layouts; all creation functions",
  "Cast kernels are tested for a few pairs and values; 8-/16-bit float conversion edge values (subnormals, rounding carries, maximum exponent, NaN) are not enumerated.",
  [CORE + "tensor/ops/cast_memory.rs", CORE + "tensor/creation.rs", CORE + "scalar.rs", CORE + "into/flatten.rs", K + "kernels/ops_cast.c", K + "kernels/t_f8e4m3.h", K + "kernels/t_f8e5m2.h", K + "kernels/t_f16.h", K + "kernels/t_bf16.h"],
  [("mini-float conversion", K + "kernels/t_f16.h"), ("cast kernels", K + "kernels/ops_cast.c")])
p("G01", "Every differentiable operation's gradient is its derivative",
  "For every operation that records a gradient, back-propagating through it gives each input the derivative of the output with respect to that input, of the input's shape, whatever the broadcasting, axes, parameters and layouts involved; where a function is not differentiable a valid one-sided value is used. A result computed from a gradient-requiring tensor by differentiable operations always requires gradient.",
  ["inputs", "configurations"], "all operations with a derivative rule, all broadcast patterns, axes, parameters and layouts, at points of differentiability",
  "There is no gradient test at all in the suite beyond trivial ones; derivative rules depend on shapes, parameters and layouts that only sampling against finite differences can compare.",
  [CORE + "tensor/gradient/vjp.rs", CORE + "tensor/gradient/vjp_unary.rs", CORE + "tensor/gradient/vjp_binary.rs", CORE + "tensor/gradient/vjp_reduce.rs", CORE + "tensor/gradient/vjp_shape.rs", CORE + "tensor/gradient/vjp_indexing.rs", CORE + "tensor/gradient/vjp_conv.rs", CORE + "tensor/gradient/vjp_padding.rs", CORE + "tensor/gradient/vjp_matrix.rs", CORE + "tensor/gradient/vjp_windowing.rs"],
  [("VJP dispatch", CORE + "tensor/gradient/vjp.rs")])
p("G02", "Back-propagation through any graph is the chain rule",
  "For any program of differentiable operations, with shared subexpressions, fan-out, reuse of one tensor in several operands, and unused branches, backward from a result gives every gradient-requiring leaf the total derivative, gives none to tensors that do not require it, and does not alter any tensor's value. A successful backward consumes what the active context recorded. Gradients computed in one gradient context or thread are unaffected by what other contexts or threads record or back-propagate at the same time.",
  ["programs", "schedules", "histories"], "random expression DAGs, nested and interleaved gradient contexts, several threads differentiating at once, repeated steps in one context",
  "Tests build single fixed expressions on one thread; DAG shapes, context histories and thread interleavings are unbounded.",
  [CORE + "tensor/gradient/compute.rs", CORE + "tensor/gradient/tape.rs", CORE + "tensor/gradient/context.rs", CORE + "tensor/internal.rs", CORE + "tensor/core.rs"],
  [("tape per context", CORE + "tensor/gradient/tape.rs"), ("gradient computation flag", CORE + "tensor/gradient/compute.rs")],
  [("tape", "operations recorded for a context", CORE + "tensor/gradient/tape.rs")])
p("M01", "No operation touches memory outside its buffers or has undefined behaviour",
  "For every operation accepted by the API, with any shapes, parameters, index contents and view layouts, the compute kernels read only inside the operand buffers, write only inside the result buffer, read no uninitialised scratch memory, leak no scratch memory and execute no undefined arithmetic that can trap or corrupt.",
  ["inputs", "configurations"], "the workloads of all value properties, run on kernels instrumented with address, leak and undefined-behaviour sanitizers",
  "The test suite is built without sanitizers and mostly uses contiguous buffers, where an out-of-bounds access goes unnoticed.",
  [K + "kernels", CORE + "be_cpu/storage.rs", CORE + "op_metadatas.rs", CORE + "utils/valid.rs"],
  [("metadata passed as raw arrays to C", CORE + "op_metadatas.rs"), ("offset/stride arithmetic", K + "kernels")])
p("M02", "Concurrent use is race-free and schedule-independent",
  "Any number of threads may create, compute with, share, read and drop tensors at the same time: every thread obtains exactly the results it would obtain alone, no data race, deadlock, panic or lost tensor occurs. Work that the library itself splits over threads gives the same result for every thread count and on every repetition.",
  ["schedules", "configurations"], "multi-threaded workloads with shared operands, random delays, thread counts 1-16 for split kernels, race detector on the kernels",
  "Tests that use threads run one fixed pattern; schedules are not explored and no race detector is used.",
  [CORE + "tensor/core.rs", CORE + "tensor/internal.rs", CORE + "tensor/gradient/context.rs", K + "kernels/thread_utils.h", K + "kernels/ops_matrix.c"],
  [("global tensor registry", CORE + "tensor/internal.rs"), ("atomic reference counts", CORE + "tensor/core.rs"), ("pthread work splitting", K + "kernels/thread_utils.h")],
  [("tensor registry", "id -> tensor", CORE + "tensor/internal.rs")])
p("M03", "Tensors live exactly as long as they are reachable",
  "A tensor stays readable with unchanged contents as long as a handle to it, or a gradient computation that needs it, exists; once the last handle is dropped and the gradient context that recorded it has finished, it is released, so that repeated work of constant size uses constant memory. Cloning, moving, dropping in any order, and interleaving with gradient contexts never frees a reachable tensor or leaks an unreachable one.",
  ["histories", "schedules"], "random histories of create, clone, view, compute, drop, context enter/leave, backward, on one and several threads",
  "Tests look at single create/drop sequences; reference counts, context ownership and tape retention interact over histories.",
  [CORE + "tensor/core.rs", CORE + "tensor/internal.rs", CORE + "tensor/gradient/context.rs", CORE + "tensor/gradient/tape.rs", CORE + "tensor/gradient/compute.rs"],
  [("reference counts", CORE + "tensor/core.rs"), ("context cleanup", CORE + "tensor/gradient/context.rs")])
p("R01", "Saved tensors load back identically",
  "Saving any tensor to the binary tensor format or the JSON format (file or memory), or exporting it to raw bytes, and loading it back gives a tensor of the same dtype and shape with bit-identical elements (value-identical and NaN-preserving for text), whatever view it was saved through. Saving does not change the tensor, and a file written at one path is complete when save returns.",
  ["inputs", "configurations"], "all 15 element types, ranks 0-6, empty shapes, view layouts, collections, extreme values",
  "Format tests round-trip one or two f32 tensors.",
  [CORE + "format/hdt.rs", CORE + "format/json.rs", CORE + "tensor/bytes.rs", CORE + "snapshot.rs"],
  [("HDT header and payload", CORE + "format/hdt.rs"), ("JSON numbers", CORE + "format/json.rs")])
p("R02", "Malformed input is rejected with an error, never a crash",
  "Loading arbitrary, truncated, bit-flipped or inconsistent bytes as a tensor file, JSON tensor, snapshot or plugin message either yields a well-formed object satisfying its own invariants or returns an error: no panic, no abort, no hang, no allocation beyond a small multiple of the input, and never an object whose shape, dtype and data length disagree.",
  ["inputs", "fault_sequences"], "mutated valid files, truncations at every byte, hostile headers, random bytes",
  "Tests cover a bad magic number and the like; the space of byte strings is not sampled.",
  [CORE + "format/hdt.rs", CORE + "format/json.rs", CORE + "tensor/bytes.rs", CORE + "snapshot.rs", "crates/hodu_plugin/src/rpc.rs", "crates/hodu_plugin/src/tensor.rs"],
  [("length checks before allocation", CORE + "format/hdt.rs")])
p("R03", "A captured program is the executed program",
  "Capturing a computation yields a snapshot whose recorded nodes, operands, parameters, shapes, dtypes, constants and targets, evaluated in order, reproduce exactly what the same program computes eagerly; every value a node uses is an input, a constant or an earlier node. Serialising and reloading a snapshot preserves it, and capture leaves later eager computation unaffected.",
  ["programs", "configurations"], "random programs over capturable operations, captured, serialised, reloaded and replayed by an independent interpreter",
  "Tests capture small fixed programs and look at node counts; nobody executes the recorded graph.",
  [CORE + "snapshot/capture/board.rs", CORE + "snapshot/capture/storage.rs", CORE + "snapshot.rs", CORE + "op_params.rs"],
  [("operation recording", CORE + "snapshot/capture/board.rs")])
p("A01", "Invalid requests return errors and change nothing",
  "Every fallible tensor operation given invalid arguments (incompatible shapes, out-of-range or duplicate axes, wrong element types, bad sizes, steps or parameters) returns an error and never panics, aborts, hangs or returns a tensor of inconsistent contents; operands and later computations are unaffected. A request that is valid for the documented domain is not refused.",
  ["inputs", "histories"], "arguments drawn from a mixture of valid and invalid values for every operation",
  "Tests contain a few negative cases; the argument space of about 200 operations is not sampled.",
  [CORE + "utils/valid.rs", CORE + "error.rs", CORE + "tensor/ops", CORE + "types/shape.rs", CORE + "types/layout.rs"],
  [("argument validation", CORE + "utils/valid.rs")])
p("N01", "Neural-network layers and losses compute their published formulas",
  "Every module (linear, convolution, pooling, normalisation, recurrent, embedding, attention, activation, dropout) and loss computes its standard definition for every configuration, input shape and mode: training and evaluation mode differ only as defined, running statistics follow their update rule, dropout keeps expectation and zeroes the stated fraction, padding and masked positions do not contribute. All trainable parameters are exposed and receive gradients.",
  ["inputs", "configurations", "histories"], "random configurations, shapes, modes and call sequences of every module against an independent reference",
  "Existing tests check output shapes of a few modules.",
  ["crates/hodu_nn/src/modules", "crates/hodu_nn/src/losses", "crates/hodu_nn/src/module.rs"],
  [("module forward functions", "crates/hodu_nn/src/modules")],
  [("running statistics", "normalisation state", "crates/hodu_nn/src/modules/norm.rs")])
p("N02", "Optimizers follow their update rule at every step",
  "For any sequence of gradients, each optimizer updates every parameter exactly by its published rule (including momentum, bias correction, weight decay and learning-rate changes), keeps per-parameter state separate, never changes a parameter that has no gradient, and zero_grad clears gradients without touching parameters or optimizer state. A step neither records gradient operations nor changes anything but its parameters.",
  ["histories", "configurations"], "sequences of steps with varying gradients, learning rates, parameter sets and hyper-parameters, also with optimizers stepping concurrently in several threads",
  "Tests check that a loss decreases or a single step; state over histories and interleavings is not compared with the rule.",
  ["crates/hodu_nn/src/optimizer.rs", "crates/hodu_nn/src/optimizers/sgd.rs", "crates/hodu_nn/src/optimizers/adam.rs", "crates/hodu_nn/src/optimizers/rmsprop.rs"],
  [("update formulas", "crates/hodu_nn/src/optimizers")])
p("D01", "A data loader delivers every sample exactly once per epoch",
  "For every dataset size, batch size, drop-last setting, shuffle seed and collate function, each epoch of a data loader delivers every sample of the dataset exactly once (drop-last omits only the final incomplete batch), in dataset order without shuffling and, with it, in an order determined by seed and epoch alone that over seeds and epochs puts each sample at each position equally often; features are always paired with their own label. A failing sample or collate function is reported, loses no batch and never makes iteration endless. Subsets, concatenations and random splits map every index to its own sample and splits partition the data; samplers yield exactly their index set and batch samplers its consecutive pieces. Indices outside a dataset, a loader's batch size of zero and items of different kinds in one batch are errors, not panics.",
  ["inputs", "configurations", "histories"], "dataset sizes 0-400, all loader options, several epochs, seeds up to the maximum, interrupted iterations, injected sample and collate failures",
  "Tests iterate a few sizes once.",
  ["crates/hodu_datasets/src/data/dataloader.rs", "crates/hodu_datasets/src/data/dataset.rs", "crates/hodu_datasets/src/data/sampler.rs", "crates/hodu_datasets/src/data"],
  [("batching and shuffling", "crates/hodu_datasets/src/data/dataloader.rs")])
p("X01", "A plugin client pairs every reply with its request",
  "Whatever a plugin process does — answers late, out of order, with foreign ids, with notifications, garbage, partial lines, errors, silence, exit or a crash at any point — each client call returns the result carrying its own request id or an error within its time limit, never another request's result and never a hang; progress and log notifications are delivered in order, and after a timed-out or failed call later calls on the same client still get their own replies or an error. A cancellation reaches the plugin only while a call is in progress and names that call. A plugin that reports an incompatible protocol version is refused. A manager finds the plugin the registry names, keeps using its running process, and the process is gone once the manager has failed to start it, shut it down or been dropped, even when it ignores the request to shut down. A run hands the plugin exactly the given tensors whatever their names and whatever other runs do, in files inside the temporary directory that are gone afterwards.",
  ["fault_sequences", "schedules"], "scripted hostile plugin processes: reordering, delay, duplication, truncation, crash at each protocol step",
  "Tests cover serialisation of messages only; no test drives a misbehaving plugin process.",
  ["crates/hodu_plugin_runtime/src/client.rs", "crates/hodu_plugin_runtime/src/backend.rs", "crates/hodu_plugin_runtime/src/runtime.rs", "crates/hodu_plugin_runtime/src/format.rs", "crates/hodu_plugin/src/rpc.rs"],
  [("request ids and timeouts", "crates/hodu_plugin_runtime/src/client.rs")])
p("X02", "A plugin server answers every request exactly once",
  "A server built with the SDK answers every request line with exactly one response carrying the same id — result, handler error, method-not-found, parse or invalid-request error — whatever the mix of valid, malformed, unknown, repeated, cancelled or panicking requests and however the input is cut into pieces; it answers notifications and empty lines with nothing, refuses requests before initialisation and a second initialisation, keeps serving after any bad input, writes whole JSON lines only, delivers every notification of a handler and its threads whole, in order and before the answer, and stops on shutdown (which is not answered) or end of input.",
  ["inputs", "schedules", "fault_sequences"], "random request scripts including malformed lines, cancellations, slow and panicking handlers",
  "SDK tests check message types; the serving loop is never run under hostile input.",
  ["hodu-plugin-sdk/src/server.rs", "hodu-plugin-sdk/src/lib.rs", "crates/hodu_plugin/src/rpc.rs"],
  [("serve loop", "hodu-plugin-sdk/src/server.rs")])
p("X03", "The plugin registry keeps and finds exactly what was registered",
  "After any history of adding, updating, enabling, disabling, removing, saving and loading, the plugin registry contains exactly the plugins the history implies, lookups by name, capability, device or file extension return only enabled matching plugins, and a saved registry loads back equal; missing dependencies are those not registered or not enabled; a damaged registry file is refused with an error; the kind of a plugin follows from the capabilities in its manifest. A failed or interrupted save leaves the previously saved registry or the new one, whole, and so sees every concurrent reader.",
  ["histories", "fault_sequences", "inputs"], "random operation histories against a model map; registry files corrupted or truncated",
  "Tests perform one or two upserts.",
  ["crates/hodu_plugin_runtime/src/registry.rs", "crates/hodu_plugin_runtime/src/types.rs", "crates/hodu_plugin/src/lib.rs"],
  [("registry map operations", "crates/hodu_plugin_runtime/src/registry.rs")])
p("X04", "The command line runs, builds, converts and inspects faithfully",
  "A run gives the backend exactly the stored value of every input (HDT or JSON, any dtype) under its name, for the device asked for, together with a complete library that this backend in this version built for this model and device: a failed, silent, crashed or killed build leaves nothing that a later run takes for a library, and a library once built is used again. What the backend returns is saved and printed unchanged. Converting between formats keeps every element, inspecting reports the real shape, dtype, size, inputs and outputs. An unusable model, device, backend, input, shape or dtype is refused with a message and a non-zero exit, never a panic, and without reaching the backend. No command writes outside the directory it was asked to write to, nor leaves temporary files, whatever names arguments, files and plugins use.",
  ["inputs", "histories", "crash_points"], "files of all dtypes and shapes, malformed files, hostile names, histories of runs with backends that fail, crash, hang, and commands that are killed or interrupted",
  "CLI tests cover argument parsing helpers only.",
  ["hodu-cli/src/tensor/loader.rs", "hodu-cli/src/tensor/saver.rs", "hodu-cli/src/output.rs", "hodu-cli/src/commands/run.rs", "hodu-cli/src/commands/build.rs", "hodu-cli/src/commands/convert.rs", "hodu-cli/src/commands/inspect.rs"],
  [("tensor loader", "hodu-cli/src/tensor/loader.rs"), ("tensor saver", "hodu-cli/src/tensor/saver.rs"), ("hodu run", "hodu-cli/src/commands/run.rs")])
p("X05", "Installing, removing and cleaning change only what they name",
  "Installing a plugin from a directory registers it once, with the version, kind, capabilities and devices of its manifest, enabled, next to a runnable copy of its binary; a failed or refused installation changes neither the registry nor any file. Removing, enabling and disabling change the plugin they name and no other and refuse unknown names, and a plugin that enabled ones depend on is not disabled. Cleaning removes exactly what was asked (the whole cache, one backend's cache, unregistered plugins) and nothing in a dry run. After any history of commands the registry equals that of a reference model, and no name, however it is spelled, leads a command to files outside its own directories.",
  ["inputs", "histories"], "histories of install, remove, enable, disable and clean with all options, hostile names, failing builds, bad manifests, other protocol versions",
  "CLI tests cover argument parsing helpers only.",
  ["hodu-cli/src/commands/plugin.rs", "hodu-cli/src/commands/plugin/install.rs", "hodu-cli/src/commands/clean.rs", "crates/hodu_plugin_runtime/src/registry.rs"],
  [("installation", "hodu-cli/src/commands/plugin/install.rs"), ("clean", "hodu-cli/src/commands/clean.rs")])
p("X06", "A manifest, the host and the installed tools decide what a backend can build",
  "A backend's manifest loads exactly as written, with omitted fields empty; a missing or damaged one is an error. A target can be built exactly when the manifest lists its triple, one of its host patterns, if it has any, admits this host, and each of its requirements has an alternative that is an installed tool which answers. The tools found (the first alternative that works) and the requirements missing are reported as they are, in the manifest's order, in every listing, and a target that is not listed is refused with the ones that are. A host pattern matches literally except for one star at its start or end. A compiled artifact keeps the data, inputs and outputs it is given in order.",
  ["inputs", "faults"], "manifests with random targets, requirements and host patterns, damaged files, tools that are absent, fail, die or cannot be executed",
  "No test touches the SDK's manifests or target checks.",
  ["hodu-plugin-sdk/src/backend.rs", "hodu-plugin-sdk/src/artifact.rs", "crates/hodu_plugin/src/backend.rs"],
  [("check", "hodu-plugin-sdk/src/backend.rs"), ("artifact", "hodu-plugin-sdk/src/artifact.rs")])
p("K01", "Kernels called directly compute what their name and layout metadata say",
  "The kernels that a compiling backend calls directly, with the metadata the library generates from operand layouts, select exactly the elements the layouts describe: matrix products and binary operations give their defined result for any permuted, padded, stepped, offset or broadcast operand, for operands whose leading dimensions are missing or of size one, and for every element type, and write nothing but their result. Looking a kernel up by name finds exactly the kernel of that name, and nothing for any other name.",
  ["inputs"], "arbitrary layouts, which tensor operations normalise before they reach the kernels, crossed with operations and element types",
  "The kernel tests pass a few hand-written dense layouts; no test looks a kernel up.",
  [CORE + "op_metadatas.rs", K + "src/jit_symbols.rs", K + "src/kernels/ops_binary.rs", K + "src/kernels/ops_matrix.rs", K + "kernels/ops_matrix.c", K + "kernels/ops_matrix_openblas.c", K + "kernels/ops_binary.c"],
  [("metadata", CORE + "op_metadatas.rs"), ("lookup", K + "src/jit_symbols.rs")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
bad = [(x["id"], a) for x in P for a in x["anchors"]["files"] if not os.path.exists("/repo/" + a)]
print(len(P), "properties; missing anchors:", bad)
for x in P:
    assert len(x["title"]) <= 80, x["id"]
