"""Plain data about each check (no k2 import: the parent reads it)."""
META = {}


def m(prop, rule, quick, thorough, min=None, **kw):
    META[prop] = dict(rule=rule, cases={'quick': quick, 'thorough': thorough},
                      min=dict({'evaluations': max(1, quick // 20), 'oracle_checks': 1}, **(min or {})), **kw)


m('C01', 'random nested lists (2-4 axes, empty rows, all dtypes) through one value operation or a chain of them; '
  'non-trivial: the operation ran and its result was compared with the nested-list model; distinct by operands',
  4000, 200000)
m('C04', 'random FSAs and FSA vectors (empty, disconnected, cyclic, multi-arc, self-looping) through one structural '
  'transform; non-trivial: the result was matched arc by arc with the input; distinct by case', 4000, 200000)
m('C05', 'random epsilon-rich FSAs/batches through every epsilon-removal variant, and connected acyclic ones through '
  'determinize under every pushing mode; non-trivial: language, form and per-arc derivation were compared', 4000, 200000)
m('C06', 'random FSAs/batches (cyclic, epsilons, ragged aux labels, empty members) through union, closure, reverse, '
  'invert or replace_fsa; non-trivial: the result language/relation was compared with the model', 6000, 200000)
m('C07', 'random pairs of FSAs/FSTs (single/batch forms, cyclic, epsilons, empty members) through intersect, '
  'intersect_device and compose; non-trivial: language/relation and arc provenance were compared with an explicit '
  'product', 6000, 200000)
m('C08', 'random FSAs with random integer, float, 2-D, ragged and plain attributes and fillers through every FSA '
  'operation; non-trivial: all attributes and a random back-propagated gradient matched the source arcs', 5000, 200000)
m('C09', 'random arc arrays, valid and corrupted, and outputs of random operation chains; non-trivial: acceptance and all '
  'nine flags were compared with a sequential model of the arcs', 8000, 400000,
  min={'chk:raw-flags': 500, 'chk:output-flags': 500, 'chk:invalid-refused': 100})
m('C02', 'random nested lists (2-4 axes) through constructors, text, tensors, indexing, slicing, concatenation, axis '
  'removal, pickling, conversion and chains of them; non-trivial: value and every row_splits/row_ids compared', 10000, 500000)
m('C03', 'random tensors of every dtype/layout with random (repeated, -1, empty) indexes, ragged tensors and activations '
  'inputs through one operator and its backward with a random gradient layout; non-trivial: values or gradient compared',
  8000, 300000)
m('C10', 'random histories of reads, writes, clones, splits and stacks over a pool of FSA objects; non-trivial: every '
  'object was compared with a fresh one of the same content; distinct by start and steps', 2500, 100000,
  min={'reads': 1000})
m('C11', 'random acyclic FSA batches (dead ends, -inf scores, empty members, large scores) in random accessor order; '
  'non-trivial: all four precisions/semirings of forward, backward, total and posterior compared', 3000, 150000)
m('C12', 'random acyclic FSA batches, quantity, semiring, precision and gradient layout; non-trivial: gradient compared with '
  'an independent differentiation of the definition', 4000, 200000)
m('C13', 'random acyclic FSA batches with dead and empty members, ties and parallel arcs; non-trivial: every path '
  'checked arc by arc, optimality or per-path visit counts compared', 4000, 200000, min={'sampled': 1000, 'paths': 500})
m('C14', 'random graphs (cyclic, CTC-like, labels the matrix lacks, -inf scores, empty) and score-matrix segments through '
  'DenseFsaVec and intersect_dense; non-trivial: every (frame, graph arc) of an explicit product kept or pruned as the '
  'output beam says, scores, maps, attributes and gradients compared', 3000, 150000,
  min={'lattice-arcs': 1000, 'dense': 50})
m('C15', 'random graphs and score matrices through intersect_dense_pruned (unlimited and tight search/output beams, state '
  'limits, partial results, 1-70 frames) and through OnlineDenseIntersecter under random chunkings and stream batches; '
  'non-trivial: every lattice arc matched with a (frame, graph arc) of an explicit product, and completeness compared with '
  'that product or a plain beam search', 6000, 100000,
  min={'exact': 100, 'pruned': 100, 'online-exact': 100, 'chunk-compared': 50, 'lattice-arcs': 1000})
m('C16', 'random symbol lists (empty, repeated, large) in single, list and ragged (also viewed) form through every graph '
  'constructor; non-trivial: outputs, scores and number of paths of sampled input strings, or all arcs, compared with the '
  'definition', 3000, 200000, min={'strings': 2000, 'accepted': 200})
m('C17', 'random score matrices, segments and graphs (CTC of random targets incl. infeasible ones, composed topologies, '
  'general graphs with score gradients) through ctc_loss, and random lattices with word labels through mwer_loss, over all '
  'options; non-trivial: loss and gradients compared with the definition evaluated in double precision', 2500, 100000,
  min={'ctc-grad': 300, 'mwer': 200, 'infeasible': 30})
m('C18', 'random acyclic lattices with int or ragged word labels, LM scores, n-best lists, references and hypotheses through '
  'Nbest, rescoring, posterior pruning, Levenshtein alignment and the decode helpers; non-trivial: every hypothesis, score '
  'and kept arc compared with path enumeration of the lattice, edit distances with dynamic programming', 3000, 120000,
  min={'hyps': 300, 'topk': 100, 'isect': 50, 'rescored': 100, 'pruned': 200, 'aligned': 300, 'decoded': 200})
m('C19', 'random px/py tensors (shapes down to zero, -inf entries, extreme values, float and double, strided layouts), '
  'boundaries with junk outside, and upstream gradients; non-trivial: scores, occupations and gradients compared with an '
  'independent log-sum in double precision, itself cross-checked by enumerating alignments', 3000, 150000,
  min={'single': 1000, 'joint': 300, 'infeasible': 30})
m('C20', 'random logits, symbols, boundaries (also with offsets), topologies, penalties, smoothing scales and reductions through '
  'the three losses, float and double; non-trivial: loss, occupations and input gradients compared with the log-softmax '
  'definition summed over alignments in double precision', 2500, 120000,
  min={'full': 300, 'simple': 300, 'smoothed': 300, 'grad': 1000})
m('C21', 'random occupations (of real recursions, arbitrary, ties, strided), lengths down to one frame, window sizes, '
  'topologies, logits, symbols and windows through range search, gathering, pruned and HAT losses and the lattice; '
  'non-trivial: windows, loss, gradients and every lattice arc compared with their definition', 3000, 120000,
  min={'ranges': 500, 'rule': 200, 'loss': 400, 'loss-pruned': 100, 'lattice': 300})
m('C22', 'random graphs with attributes, deterministic log-prob functions of (frame, context), random sessions grouping, '
  'flushing and resuming streams, limits and formatting; non-trivial: contexts of every frame and every lattice arc, '
  'attribute and gradient compared with a one-stream simulation, best paths with plain recursion', 2000, 80000,
  min={'formatted': 500, 'resumed': 150, 'grad': 100, 'best': 100, 'lattice-arcs': 5000})
m('C23', 'random FSAs (any arcs, infinite and extreme scores, start or final state without arcs) with integer, ragged and other '
  'attributes through every text, tensor, dict and pickle form, OpenFst text with shuffled lines, and histories of symbol '
  'table operations; non-trivial: written text parsed here, and everything read back compared with the source', 4000, 200000,
  min={'text': 300, 'messy': 200, 'ofst-write': 100, 'ofst-read': 200, 'dict': 200, 'table': 200, 'table-back': 100})
m('C24', 'mutated FSA/OpenFst/ragged/shape/symbol-table texts and arc tensors judged by a strict grammar written here, corrupted '
  'row splits/ids, and misuse of ragged, tensor, FSA, dense and transducer calls; non-trivial: refused with unchanged '
  'arguments, or accepted with the value it denotes', 12000, 250000,
  min={'refused': 1500, 'bad-text': 200, 'good-text': 50, 'bad-ragged': 50, 'bad-arcs': 80, 'bad-vec': 80})
m('C25', 'the cases of C01..C24 (generators, mutated texts, misuse calls) on a build with AddressSanitizer, UBSan, K2_DCHECK and '
  'checked std containers; non-trivial: distinct inner case signatures run to their end; a failure is judged only by a '
  'sanitizer report, a crash, or a debug check that fails where the release build passes', 6000, 80000, runner='san',
  technique='AddressSanitizer, UBSan and debug assertions over the workloads of the other checks',
  budget={'quick': 130, 'thorough': 560},
  min={'ran-c02': 20, 'ran-c07': 10, 'ran-c12': 10, 'ran-c15': 20, 'ran-c19': 10, 'ran-c22': 20, 'ran-c24': 50})
m('C29', 'random operations of a catalogue (FSA, dense, RNN-T, ragged, tensor functions, with gradients and warmed caches); '
  'non-trivial: deep snapshots of all arguments compared after the call, a second call, back-propagation and in-place edits '
  'of everything reachable from the result', 6000, 250000, min={'edited': 10000, 'grad': 300, 'warmed': 100})
m('C27', 'calls of the operation catalogue executed in five processes whose heap is filled on allocation and release with different '
  'patterns (zeros, ones, huge, small numbers, random), with different argument layouts and different preceding calls, digests '
  'compared; every third case runs a case of C01..C24 under the poisoned heap; non-trivial: distinct (operation, outcome) '
  'digests', 3000, 60000, runner='poison',
  technique='runtime monitoring: outcome digests compared between processes with differently filled heaps', budget={'quick': 130, 'thorough': 560},
  min={'digest-comparisons': 3000, 'preceding-calls': 2000, 'repeated': 500})
m('C28', 'batches of FSAs, FSA pairs, symbol sequences, score sequences, transducer inputs and ragged rows (with empty members) '
  'through about 60 batched operations; each member compared with the result for the member alone (also as a single FSA), and '
  'with a reordered, thinned or repeated batch; non-trivial: distinct batches', 12000, 250000,
  min={'comparisons': 40000, 'ran-dense-decode': 100, 'ran-dense-online': 100, 'ran-dense-pruned': 100, 'ran-dense-exact': 100,
       'ran-rnnt-pruned': 60, 'ran-rnnt-lattice': 60, 'ran-nbest-mwer': 60, 'ran-intersect-host': 100})
m('C31', 'random collections of sentences (repeated prefixes, missing eos, empty sentences and collections, keys chosen per sentence '
  'or per token, 16-bit and 32-bit tables) against a brute-force comparison of backward histories; key positions are documented '
  'as undefined and not judged; non-trivial: distinct inputs', 16000, 400000, min={'queries': 20000, 'matched': 8000, 'wide': 100, 'large': 10})
m('C30', 'native drivers call the C++ containers and algorithms (arrays and array operations, hash tables of every key layout with '
  'resizing, ragged shapes/tensors and kernels, contexts/regions/thread pool) with random operands and compare with sequential '
  'models; one case = one module and seed; the thorough tier repeats them under AddressSanitizer and UBSan; non-trivial: distinct '
  'operation mixes', 16000, 200000, runner='nat',
  technique='runtime monitoring: sequential-model oracle in native drivers, AddressSanitizer and UBSan',
  budget={'quick': 90, 'thorough': 260}, san_budget=150,
  min={'ran-arrays': 200, 'ran-hash': 200, 'ran-ragged': 300})
m('C26', 'native drivers run the thread pool, semaphores and 15 operations from several C++ threads at once, Python threads and the '
  'pool run catalogue calls, all under four schedule modes (injected pauses and early wake-ups); results compared with the calls '
  'alone and across modes, and ThreadSanitizer watches the native drivers; non-trivial: distinct schedules (signatures of the '
  'order of synchronisation events)', 400, 8000, runner='sched',
  technique='ThreadSanitizer on native drivers; outcome oracle under injected delays and early wake-ups',
  budget={'quick': 70, 'thorough': 230},
  san_budget={'quick': 60, 'thorough': 200},
  min={'tsan-runs': 10, 'tsan-concurrent-calls': 50, 'sync-events': 1000, 'pauses': 50, 'digest-comparisons': 50, 'schedules': 50})
m('C32', 'the C++ decoding library through native drivers: graphs, loading, attributes, lattices, n-best, rescoring, streams, option '
  'parsing, symbol tables, wave files and searches with random scripted models, compared with the Python interface and with '
  'explicit models; non-trivial: distinct inputs', 8000, 150000, runner='nat', pre='na', mods=['api', 'fsa', 'text', 'search'],
  technique='runtime monitoring: outcome oracle (Python interface and explicit models) on the C++ library in native drivers',
  budget={'quick': 100, 'thorough': 500},
  min={'ran-parse': 50, 'ran-lattice': 50, 'ran-rnnt': 50, 'ran-load': 50, 'ran-best': 20, 'decoded-words': 100})
m('C33', 'the CPU library k2host through a native driver: connection, sorting, intersection, properties, weights, auxiliary labels, '
  'inversion, creation, text, random FSAs and paths, equivalence, determinization, epsilon removal and array storage, compared with '
  'explicit models; non-trivial: distinct inputs', 8000, 150000, runner='nat', pre='na', mods=['host'],
  technique='runtime monitoring: outcome oracle (explicit models) on the k2host library in a native driver with guarded buffers',
  budget={'quick': 80, 'thorough': 400}, min={'within-beam': 50})
