#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

RO = "k2/csrc/ragged_ops.cu"; ROI = "k2/csrc/ragged_ops_inl.h"; RA = "k2/python/csrc/torch/v2/ragged_any.cu"
FP = "k2/python/k2/fsa.py"; FA = "k2/python/k2/fsa_algo.py"; FU = "k2/csrc/fsa_utils.cu"; CFA = "k2/csrc/fsa_algo.cu"

p("C01", "Ragged reductions and value operations compute the nested-list result",
  "For every ragged tensor of any depth, with empty sub-lists, any supported dtype and any element order, sum, max, min, argmax, logsumexp, normalize, add, sort, unique, remove_values_eq/leq, pad and tolist return exactly what the same operation on the equivalent nested Python list returns (initial values, empty sub-lists, repeat counts and index maps included).",
  ["inputs"], "All ragged tensors (2-4 axes, any sub-list lengths including 0, int32/float32/float64) and all option values of each operation.",
  "Tests use a handful of hand-written lists per operation; shapes, empty rows, ties, special float values and option combinations are unbounded.",
  [RA, RO, ROI, "k2/csrc/ragged_utils.cu", "k2/csrc/nbest.cu", "k2/csrc/algorithms.h"],
  [("segmented reductions and per-sublist sort/unique", ROI), ("Renumbering-based filtering", "k2/csrc/algorithms.h")],
  ["return values of RaggedTensor methods"])
p("C02", "Ragged construction, indexing and reshaping keep structure and round-trip",
  "Building a ragged tensor (from nested lists, strings, tensors, shape+values), indexing, slicing, arange, cat, remove_axis, compose, get_layer and regular shapes yields the nested list the operation denotes; every shape produced satisfies the row-splits/row-ids invariants and agrees with its own sizes. Printing and re-parsing, pickling, dtype/device conversion and clone give back an equal, independent tensor.",
  ["inputs", "histories"], "All ragged tensors/shapes and all sequences of structural operations on them.",
  "Tests cover fixed small examples; structure bugs show only for particular nestings, empty axes or operation sequences.",
  [RA, "k2/python/csrc/torch/v2/ragged_shape.cu", RO, "k2/csrc/ragged.cu", "k2/csrc/ragged.h"],
  [("row_splits/row_ids maintained and lazily computed", "k2/csrc/ragged.cu"), ("RaggedShape algebra (Index, Append, Stack, RemoveAxis, Arange)", RO)],
  ["RaggedTensor/RaggedShape values, row_splits, row_ids, tot_size"],
  [("row_splits/row_ids", "offsets of each axis and their inverse", "k2/csrc/ragged.h RaggedShapeLayer")])
p("C03", "Index, reduction and activation operators have right values and gradients",
  "index_select, index_add, index_and_sum/ragged gather, ragged sum, logsumexp and normalize, sparse helpers and the swoosh activations return the mathematically defined result for any index content (repeats, -1, empty), dtype and memory stride. Their backward pass returns the derivative of that result for any incoming gradient, contiguous or not, and in-place operators touch only the elements named.",
  ["inputs"], "All index arrays, value tensors (strided, expanded, empty), dtypes and upstream gradients.",
  "Unit tests check a few indexes and contiguous gradients of ones.",
  ["k2/python/k2/ops.py", "k2/python/k2/autograd.py", "k2/python/csrc/torch/index_select.cu", "k2/python/csrc/torch/index_add.cu", "k2/csrc/torch_util.h", "k2/python/csrc/torch/v2/autograd", "k2/csrc/tensor_ops.cu", "k2/python/csrc/torch/ragged_ops.cu"],
  [("custom autograd functions", "k2/python/k2/ops.py"), ("v2 autograd functions", "k2/python/csrc/torch/v2/autograd")],
  ["returned tensors and .grad"])
p("C04", "Structure-only FSA transforms keep the weighted language, deliver their form",
  "connect, top_sort, arc_sort, add_epsilon_self_loops, remove_epsilon_self_loops, and expansion of ragged attributes accept and score exactly the same label sequences as their input in both semirings (self-loop operations modulo the epsilon loops they add or delete). The result has the promised form: only accessible and coaccessible states, topologically ordered, arcs sorted by label, exactly one zero-score epsilon self-loop per non-final state, or no epsilon self-loops.",
  ["inputs"], "All valid FSAs and FSA vectors, including empty, disconnected, cyclic, multi-arc and self-looping ones.",
  "Tests sample fixed graphs or use the library's own random-equivalence routine.",
  ["k2/csrc/connect.cu", "k2/csrc/top_sort.cu", CFA, FU, FA, FP],
  [("GPU-style connect and top sort", "k2/csrc/connect.cu"), ("arc renumbering", FU)],
  ["arcs of the returned FSA"])
p("C05", "Epsilon removal and determinization preserve the language and deliver their form",
  "remove_epsilon (every variant, any input order, with or without self-loop addition) returns an epsilon-free FSA (apart from requested self-loops) giving every label sequence the same best score as the input, and determinize returns an FSA with at most one arc per label leaving each state giving every label sequence the same best score under every weight-pushing mode. Each output arc's score equals the sum of the scores of the input arcs it is reported to derive from (determinize: when no weight pushing is requested).",
  ["inputs"], "All valid FSAs free of positive-score epsilon cycles (acyclic for determinize), single or batched.",
  "Tests compare a few random FSAs with a library routine that only samples paths.",
  ["k2/csrc/rm_epsilon.cu", "k2/csrc/host/rmepsilon_pruned.cc", "k2/csrc/determinize.cc", "k2/csrc/host/determinize.cc", "k2/csrc/host/determinize_impl.h", FA],
  [("device epsilon closure", "k2/csrc/rm_epsilon.cu"), ("pruned determinization", "k2/csrc/host/determinize_impl.h")],
  ["arcs and arc-derivation map of the returned FSA"])
p("C06", "Union, closure, reverse, invert, replace realise the language operation",
  "union, closure, reverse, invert and replace_fsa return FSAs whose weighted language (or label/aux-label relation) is exactly the union, Kleene closure, reversal, inversion or substitution of their inputs in both semirings, including for empty members, ragged auxiliary labels and repeated symbols.",
  ["inputs"], "All valid FSAs/FSA vectors that the operation accepts.",
  "Tests check a few fixed graphs; the operations are defined on arbitrary graphs.",
  [CFA, "k2/csrc/reverse.cu", "k2/csrc/host/aux_labels.cc", "k2/csrc/fsa_algo.cu", FA, FP],
  [("arc rearrangement with arc maps", CFA), ("label fix-ups on final arcs", FA)],
  ["arcs, labels and aux_labels of the returned FSA"])
p("C07", "Intersection and composition compute exactly the product language",
  "intersect, intersect_device and compose accept exactly the label sequences (label/aux-label pairs) accepted by both inputs with score equal to the sum of the two scores, under both epsilon treatments, all pairings of batches, and sorted or unsorted matching; every output arc is traced to the pair of input arcs that produced it.",
  ["inputs"], "All pairs of valid arc-sorted FSAs or batches, epsilon-free or not, with any batch pairing.",
  "Tests check small fixed pairs and random equivalence by sampling.",
  ["k2/csrc/intersect.cu", "k2/csrc/host/intersect.cc", "k2/csrc/host_shim.cu", "k2/csrc/hash.h", FA],
  [("device intersection with state-pair hash", "k2/csrc/intersect.cu"), ("host intersection", "k2/csrc/host/intersect.cc")],
  ["arcs, scores and arc maps of the output"])
p("C08", "Attributes and scores follow the arcs through every operation",
  "After any FSA operation each output arc carries exactly the attribute values of the input arcs it came from: tensor attributes copied (or summed/concatenated where several arcs merge), ragged attributes concatenated, filler used only where no source arc exists, non-tensor attributes kept, and final-arc auxiliary labels -1. Gradients flowing into output scores or float attributes arrive at exactly those source arcs.",
  ["inputs", "histories"], "All FSAs with any combination of integer, float, ragged and non-tensor attributes, any fillers, through any operation or chain of operations.",
  "Tests check one attribute on one graph per operation.",
  ["k2/python/k2/utils.py", "k2/python/k2/autograd_utils.py", "k2/python/k2/autograd.py", FA, FP],
  [("arc-map driven propagation", "k2/python/k2/utils.py"), ("phantom score functions", "k2/python/k2/autograd_utils.py")],
  ["attributes of returned Fsa objects", "input .grad"])
p("C09", "FSA validity and property flags are truthful",
  "Every FSA or FSA vector returned by an operation is valid, and the properties reported for any FSA (valid, nonempty, top-sorted, acyclic, arc-sorted, deterministic, epsilon-free, and the documented local accessible/coaccessible hints) agree with what its arcs actually satisfy; malformed arc data is reported as invalid.",
  ["inputs"], "All arc arrays (valid and invalid) and all outputs of all operations.",
  "Tests check property bits of a few fixed FSAs.",
  ["k2/csrc/fsa.cu", "k2/csrc/fsa.h", "k2/csrc/fsa_utils.cu", "k2/python/csrc/torch/fsa.cu", FP, "k2/python/k2/fsa_properties.py"],
  [("property computation per FSA and AND over a vector", "k2/csrc/fsa.cu")],
  ["Fsa.properties, properties_str, is_accessible etc."])
p("C10", "An FSA object never serves stale derived data",
  "After any sequence of reads and writes on an FSA object (assigning scores or labels, editing scores in place, adding, replacing or deleting attributes, clone, detach, to, requires_grad_, indexing, splitting and re-stacking) every derived quantity it reports (scores, total/forward/backward scores, posteriors, state batches, properties, best path) equals that of a fresh FSA with the same content, and the operation history of one object never changes another.",
  ["histories"], "All finite sequences of operations on FSA objects with cached quantities.",
  "Tests exercise each accessor once on a fresh object; staleness needs an interleaving of reads and writes.",
  [FP], [("cache dict with explicit invalidation", FP), ("scores stored inside arcs and as a tensor", FP)],
  ["properties and methods of Fsa"], [("_cache/_properties", "memoised derived quantities", FP)])
p("C11", "Forward, backward, total scores and posteriors equal path sums",
  "For every acyclic FSA (or batch) forward and backward state scores, total scores and arc posteriors equal the log-sum (log semiring) or maximum (tropical) over explicit paths, in float and double, with minus infinity exactly where no path exists; forward and backward totals agree and posteriors of a connected FSA sum to one across every cut.",
  ["inputs"], "All top-sorted acyclic FSAs and batches including empty, disconnected and very wide or long ones, with any finite or -inf scores.",
  "Tests check a few FSAs against constants.",
  [FU, FP, "k2/python/k2/autograd.py", "k2/python/csrc/torch/fsa.cu", "k2/csrc/host_shim.cu"],
  [("state batches and per-batch log-add", FU)], ["get_forward_scores, get_backward_scores, get_tot_scores, get_arc_post"])
p("C12", "Score gradients are the true derivatives",
  "Back-propagating any gradient through total scores, forward scores, backward scores or arc posteriors gives arc-score gradients equal to the derivative of those quantities: path posteriors in the log semiring and the best path's indicator in the tropical semiring; FSAs without a path contribute nothing.",
  ["inputs"], "All acyclic FSAs/batches and all upstream gradient vectors, float and double.",
  "Tests compare a few gradients with constants.",
  ["k2/python/k2/autograd.py", FU, "k2/python/csrc/torch/fsa.cu"],
  [("custom backward functions", "k2/python/k2/autograd.py"), ("BackpropGetForwardScores etc.", FU)], ["scores.grad"])
p("C13", "Best and sampled paths are real, optimal and distributed as promised",
  "shortest_path returns for every FSA one complete path whose score is the maximum over all paths (an empty FSA when none exists); random_paths returns only complete paths with consecutive arcs, the requested number for each non-empty FSA, and visits paths according to the arc posteriors.",
  ["inputs"], "All acyclic FSAs/batches, any number of paths, float or double.",
  "Tests inspect one or two lattices.",
  [FU, CFA, "k2/python/k2/fsa_algo.py", FP], [("entering-arc back pointers", FU), ("arc cdf sampling", FU)],
  ["shortest_path, random_paths outputs"])
p("C14", "Dense intersection equals intersection with the unrolled score matrix",
  "intersect_dense of any decoding graphs with any batch of score matrices and segments returns lattices whose weighted paths are exactly the products of graph paths and frame scores (final frame included), restricted to arcs on paths within the output beam, with every arc traced to its graph arc and frame/symbol; gradients reach exactly those scores. A DenseFsaVec represents exactly the requested segments (including allow_truncate, subsampling-order and zero-length cases).",
  ["inputs"], "All decoding graphs, score tensors, segmentations, graph-to-sequence maps and beams.",
  "Tests compare fixed cases; many depend on the relation of lengths, beams and graph shape.",
  ["k2/csrc/intersect_dense.cu", "k2/python/k2/dense_fsa_vec.py", "k2/python/k2/autograd.py", "k2/csrc/fsa.cu", "k2/python/k2/fsa_algo.py"],
  [("forward-backward composition with output pruning", "k2/csrc/intersect_dense.cu")], ["lattice arcs, scores, maps, gradients"])
p("C15", "Pruned and online dense intersection obey beams and agree with exact search",
  "With beams and state limits that exclude nothing, intersect_dense_pruned gives the same lattice language as exact intersection; with smaller beams every returned path is a genuine path with its exact score, and arcs kept lie within the output beam of the best path found. Online intersection fed any chunking of the frames gives, for each sequence, the same result as processing all frames at once, independent of which sequences share a batch.",
  ["inputs", "histories", "configurations"], "All graphs, score matrices, beam settings, chunk splits and stream interleavings.",
  "Tests use one decoding graph and a couple of chunk sizes.",
  ["k2/csrc/intersect_dense_pruned.cu", "k2/csrc/intersect_dense_pruned.h", "k2/python/k2/online_dense_intersecter.py", "k2/python/k2/autograd.py", "k2/csrc/hash.h"],
  [("frame-synchronous search with background pruning thread", "k2/csrc/intersect_dense_pruned.cu"), ("decode state save/restore", "k2/csrc/intersect_dense_pruned.cu")],
  ["lattice arcs, scores and maps"])
p("C16", "Graph constructors build the graphs they document",
  "linear_fsa, linear_fst, linear_fsa_with_self_loops, linear_fst_with_self_loops, ctc_topo (standard and modified), ctc_graph, trivial_graph and levenshtein_graph accept exactly the label sequences, with exactly the output labels and scores, that their definition prescribes for any token list, for single and batched input.",
  ["inputs"], "All token sequences (empty, repeated, long), batch compositions and options.",
  "Tests compare the printed form of one or two sequences.",
  [CFA, FA, "k2/python/csrc/torch/fsa_algo.cu"], [("closed-form arc construction", CFA)], ["arcs, labels, aux_labels, score offsets"])
p("C17", "CTC and MWER losses equal their definitions, with true gradients",
  "ctc_loss equals minus the log of the summed probability of all CTC alignments for every utterance, target and length combination (reductions, target-length division, delay penalty and infeasible targets included), and mwer_loss equals the expected normalised word error over the lattice's sampled hypotheses; their gradients are the derivatives of those values.",
  ["inputs"], "All log-probability tensors, segment orders, targets and options.",
  "Tests compare a few random examples with torch's CTC.",
  ["k2/python/k2/ctc_loss.py", "k2/python/k2/mwer_loss.py", "k2/python/k2/nbest.py", "k2/python/k2/dense_fsa_vec.py", "k2/csrc/intersect_dense.cu"],
  [("graph x dense intersection then total scores", "k2/python/k2/ctc_loss.py")], ["loss values and gradients"])
p("C18", "N-best lists, lattice pruning and alignments are faithful to their lattice",
  "N-best extraction, de-duplication, rescoring, total and AM/LM score assignment and top-k return hypotheses that exist in the lattice with the best score the lattice gives them; pruning on posteriors removes exactly the arcs below threshold; Levenshtein alignment of references and hypotheses has the minimal edit cost.",
  ["inputs", "histories"], "All lattices, word/token label assignments, path counts, thresholds, references and hypotheses.",
  "Tests use one lattice per function.",
  ["k2/python/k2/nbest.py", FA, FU, "k2/python/k2/decode.py", CFA],
  [("random paths, unique, compose with word FSAs", "k2/python/k2/nbest.py")], ["Nbest fields and scores, pruned FSA, alignment FSA"])
p("C19", "The transducer mutual-information recursion equals the sum over alignments",
  "mutual_information_recursion and joint_mutual_information_recursion return, for every px, py and boundary (regular and modified topology, float and double, any sub-rectangle including empty), the log-sum over all monotone alignments of the products along them; gradients and occupation outputs are the derivatives and posteriors of that sum, and elements outside the boundary do not matter.",
  ["inputs"], "All tensors, boundaries, dtypes, and upstream gradients.",
  "Tests check some random shapes against a Python loop with one boundary layout.",
  ["k2/python/csrc/torch/mutual_information_cpu.cu", "k2/python/csrc/torch/mutual_information.cu", "k2/python/k2/mutual_information.py"],
  [("dynamic programme with boundary handling", "k2/python/csrc/torch/mutual_information_cpu.cu")], ["scores, p, px_grad, py_grad"])
p("C20", "RNN-T losses equal the transducer log-likelihood for every topology",
  "rnnt_loss, rnnt_loss_simple and rnnt_loss_smoothed equal minus the log-probability summed over all alignments permitted by the chosen topology (regular, modified, constrained), with the documented normalisation, smoothing, delay penalty, boundaries and reduction, and back-propagate its derivative to logits, acoustic and language-model scores.",
  ["inputs", "configurations"], "All logits, symbols, boundaries, topologies, penalties, scales and reductions.",
  "Tests use a few shapes and compare with recorded constants.",
  ["k2/python/k2/rnnt_loss.py", "k2/python/k2/mutual_information.py"],
  [("px/py construction then recursion", "k2/python/k2/rnnt_loss.py")], ["loss values and gradients"])
p("C21", "Pruned RNN-T ranges are usable; pruned loss and lattice are exact on them",
  "get_rnnt_prune_ranges (any s_range, boundary and gradient input) returns per-frame symbol windows that are in range, monotone, cover the start and end of every sequence and leave no gap; do_rnnt_pruning gathers exactly those windows; the pruned loss equals the full transducer sum restricted to the windows; and the pruned-range lattice contains exactly the transitions inside the windows with the given logits.",
  ["inputs", "configurations"], "All occupation gradients, shapes, s_range values, boundaries and topologies.",
  "Tests check a few random shapes, mostly with windows that exclude nothing.",
  ["k2/python/k2/rnnt_loss.py", "k2/python/csrc/torch/pruned_ranges_to_lattice.cu", "k2/python/k2/mutual_information.py"],
  [("window search and monotonic fix-up", "k2/python/k2/rnnt_loss.py"), ("lattice construction", "k2/python/csrc/torch/pruned_ranges_to_lattice.cu")],
  ["ranges, gathered tensors, loss values, lattice arcs"])
p("C22", "Streaming RNN-T decoding is exact and independent of batching and chunking",
  "For each stream, the sequence of decoder contexts requested, and the lattice finally formatted, depend only on that stream's own graph, frames and configuration: not on which other streams share the batch, nor on where decoding was flushed and resumed. With limits that exclude nothing the lattice contains exactly the graph paths of that many frames (the last frame only decides which states are final) with scores equal to graph plus joiner log-probabilities; with limits, states, contexts and beam never exceed the configuration, and every kept path has its exact score.",
  ["histories", "inputs", "configurations"], "All graphs, log-prob streams, configurations and schedules of batching, flushing and formatting.",
  "Tests run one schedule and check shapes.",
  ["k2/csrc/rnnt_decode.cu", "k2/csrc/rnnt_decode.h", "k2/python/k2/rnnt_decode.py", "k2/python/csrc/torch/rnnt_decode.cu", "k2/csrc/array_of_ragged.cu"],
  [("per-frame expand, prune, group", "k2/csrc/rnnt_decode.cu"), ("terminate and flush to individual streams", "k2/csrc/rnnt_decode.cu")],
  ["contexts per frame, formatted lattice and maps"], [("prev_frames/states/scores", "per-stream search state", "k2/csrc/rnnt_decode.h")])
p("C23", "Text, dict, tensor and pickle forms round-trip FSAs and symbol tables",
  "Writing any FSA with any labels, auxiliary, ragged and extra attributes to k2 text, OpenFST text, tensor, dict or torch-serialised form and reading it back yields the same arcs, scores (to printed precision) and attributes, and reading OpenFST text in any line order yields the FSA it denotes. Symbol tables survive text round trips and keep the id/symbol mapping one-to-one through add, merge and lookup.",
  ["inputs"], "All FSAs, attribute combinations, symbol names and text layouts.",
  "Tests parse a handful of literal strings.",
  [FU, FP, "k2/python/k2/utils.py", "k2/python/csrc/torch/fsa.cu", "k2/python/k2/symbol_table.py"],
  [("stream parsing and printing", FU), ("two-way dict", "k2/python/k2/symbol_table.py")], ["re-read FSAs and tables"])
p("C24", "Malformed or misused input is refused, never a crash or silent damage",
  "Malformed text, inconsistent ragged structures, out-of-range indexes, wrong shapes/dtypes/axes and violated preconditions passed to the public API raise a Python exception and leave the process and the arguments intact; no such call terminates the process or reads or writes outside its buffers.",
  ["inputs"], "All malformed strings and argument combinations of the public constructors and checked operations.",
  "Tests assert a few raise cases.",
  [FU, RA, RO, "k2/python/csrc/torch/fsa.cu", "k2/python/csrc/torch/v2/any.cu", FP, "k2/csrc/log.h"],
  [("checks converted to Python exceptions", "k2/csrc/log.h")], ["exception or value, process exit status"])
p("C25", "Native code is free of memory errors and undefined behaviour",
  "Running any public operation on any input performs no out-of-bounds or use-after-free access, no invalid deallocation, and no undefined arithmetic or alignment behaviour, and no internal debug assertion fails.",
  ["inputs", "histories"], "All API calls, inputs and call sequences.",
  "Plain tests pass even when a read strays outside a buffer.",
  ["k2/csrc", "k2/python/csrc"], [("array bounds, reference-counted regions", "k2/csrc/array.h"), ("debug checks", "k2/csrc/log.h")],
  ["sanitizer reports, debug-check failures"])
p("C26", "Concurrent use is race-free and schedule-independent",
  "The background pruning thread, the task pool and concurrent calls from several Python threads on distinct or shared read-only objects cause no data race or deadlock, and give bit-identical results to sequential execution whatever the thread schedule.",
  ["schedules"], "All interleavings of worker threads and concurrent callers.",
  "Tests run one schedule and are single-threaded at the Python level.",
  ["k2/csrc/thread_pool.cu", "k2/csrc/thread_pool.h", "k2/csrc/intersect_dense_pruned.cu", "k2/csrc/semaphore.h", "k2/csrc/context.h", RA],
  [("mutex/condition variables and semaphores", "k2/csrc/semaphore.h"), ("task pool", "k2/csrc/thread_pool.cu")],
  ["ThreadSanitizer reports, results under injected delays"])
p("C27", "Results depend only on inputs: deterministic and free of uninitialised data",
  "Repeating a call with the same arguments (in the same or another process, after any other calls, with any content of freshly allocated memory, with inputs laid out as views or with offsets) yields bit-identical output.",
  ["histories", "inputs"], "All operations, call histories, allocator contents and memory layouts of the arguments.",
  "A value read from uninitialised memory is usually zero in a fresh process, so tests pass.",
  ["k2/csrc", "k2/python/csrc"], [("every output element written before being read", "k2/csrc")], ["digests of outputs under different heap poison patterns"])
p("C28", "Batching does not change results",
  "Applying an operation to a vector of FSAs, a batch of sequences or a stacked ragged tensor gives, element by element, the same result as applying it to each member alone, for any batch size, member order and mix of empty and non-empty members (remove_epsilon and determinize may choose, for the batch as a whole, whether an FSA that needs no work is returned untouched and which algorithm is used; batch statistics of the smoothed transducer loss are excluded).",
  ["inputs"], "All batched operations and batch compositions.",
  "Tests batch one or two hand-made members.",
  [CFA, FU, "k2/csrc/connect.cu", "k2/csrc/top_sort.cu", "k2/csrc/rm_epsilon.cu", "k2/csrc/intersect.cu", "k2/csrc/host_shim.cu", RO],
  [("per-FSA idx0 bookkeeping", FU)], ["members of the batched result"])
p("C29", "Operations do not modify or alias their inputs",
  "No operation other than those documented as in-place changes the arcs, scores, labels, attributes, requires_grad or cached results of its arguments, and editing a result in place never changes the argument (or a sibling result) unless sharing is documented.",
  ["histories", "inputs"], "All operations, arguments and later in-place edits of results.",
  "Tests look at outputs, not at arguments afterwards.",
  [FP, FA, "k2/python/k2/nbest.py", RA, FU], [("outputs built in fresh arrays", FU), ("shallow vs. deep clone rules", FP)],
  ["deep snapshots of arguments before and after"])
p("C30", "Native containers and parallel primitives match sequential models",
  "The native building blocks (prefix sums, row-splits/row-ids conversions, size and max computations, monotonic bounds, renumbering, array append/slice/index, hash map insert/find/delete/resize, arrays of ragged tensors, task pool and semaphores) return for any input what a simple sequential model returns.",
  ["inputs", "histories", "schedules"], "All arrays, key/value sequences, operation histories and thread schedules.",
  "Upstream native tests are not even built here; they sample few sizes.",
  ["k2/csrc/utils.cu", "k2/csrc/array_ops.cu", "k2/csrc/array_ops_inl.h", "k2/csrc/algorithms.cu", "k2/csrc/hash.h", "k2/csrc/hash.cu", "k2/csrc/array_of_ragged.cu", "k2/csrc/thread_pool.cu", "k2/csrc/ragged_utils.cu"],
  [("open-addressing hash with packed keys", "k2/csrc/hash.h")], ["a native driver linked with the libraries"])
p("C31", "N-gram matching statistics equal brute-force longest-suffix matching",
  "get_best_matching_stats returns, for every query and key sequence set, token range and maximum order, the mean, variance, counts and n-gram order computed from the keys sharing the longest matching history with each position.",
  ["inputs"], "All token sequences, scores, counts, eos/min/max tokens and orders.",
  "Tests have two fixed examples.",
  ["k2/csrc/nbest.cu", "k2/csrc/nbest.h", "k2/python/csrc/torch/nbest.cu"], [("suffix and LCP arrays", "k2/csrc/nbest.cu")],
  ["returned mean, var, counts, order"])
p("C32", "The C++ decoding API agrees with the Python API",
  "For the same inputs the C++ interface (ragged shape helpers, graph loading, CTC topology, decoding, n-best and attribute propagation, option parsing, symbol table and wave reading) returns the same graphs, lattices, attributes and strings as the Python interface or the file contents dictate.",
  ["inputs"], "All graphs, score tensors, option strings and files.",
  "Its tests are not part of the stable suite.",
  ["k2/torch/csrc/torch_api.cu", "k2/torch/csrc/fsa_class.cu", "k2/torch/csrc/fsa_algo.cu", "k2/torch/csrc/deserialization.cu", "k2/torch/csrc/decode.cu", "k2/torch/csrc/nbest.cu", "k2/torch/csrc/parse_options.cu", "k2/torch/csrc/symbol_table.cu", "k2/torch/csrc/wave_reader.cu"],
  [("C++ counterpart of the Python classes", "k2/torch/csrc/fsa_class.cu")], ["outputs of a native driver"])
p("C33", "The k2host library: same languages, exact arc maps, declared sizes",
  "Every algorithm of the CPU library k2host (connect, topsort, arcsort, intersect, properties, forward/backward weights, auxiliary label mapping and inversion, FSA creation and text, random FSAs and paths, randomised equivalence, determinization and epsilon removal with and without pruning, array storage) returns the result its header documents, with arc maps and derivatives that lead back to the input arcs; it writes exactly the sizes GetSizes() announced, also when the input FSA is a slice whose first arc index is not 0; malformed input is refused.",
  ["inputs"], "All FSAs (also slices of a larger array), labels, auxiliary labels, beams, step limits and weight types.",
  "Its tests are not part of the stable suite, and always start at arc 0.",
  ["k2/csrc/host/connect.cc", "k2/csrc/host/topsort.cc", "k2/csrc/host/arcsort.cc", "k2/csrc/host/intersect.cc", "k2/csrc/host/properties.cc", "k2/csrc/host/weights.cc", "k2/csrc/host/aux_labels.cc", "k2/csrc/host/fsa_util.cc", "k2/csrc/host/fsa_equivalent.cc", "k2/csrc/host/determinize.cc", "k2/csrc/host/determinize_pruned.cc", "k2/csrc/host/determinize_impl.h", "k2/csrc/host/rmepsilon_pruned.cc", "k2/csrc/host/array.h", "k2/csrc/host/fsa.h"],
  [("two-phase protocol: GetSizes, then GetOutput into the caller's memory", "k2/csrc/host/connect.h"), ("slices", "k2/csrc/host/array.h")], ["outputs of a native driver", "guard elements around every output"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for q in P:
        q["title"] = q["title"]; (len(q["title"]) > 80) and print("LONG", q["id"], len(q["title"]), q["title"])
        f.write(json.dumps(q) + "\n")
print(len(P), 'properties')
