check('C01', PBT + 'save/restore round trip over generated state trees, differential between two readers and across partitionings',
      'at least two non-scalar parameters, or parameters and mutable variables',
      'Randomised search; bit equality up to the requested casts. One process with 8 simulated devices; local file system.', devices=8)
check('C02', 'fault injection over generated save histories (Hypothesis) and enumeration of every I/O operation of a save',
      'a fault actually cut a save',
      'Every gfile/os/tensorstore operation of the modelled saves is cut before, midway and after, as crash or as I/O error; restores afterwards are compared bit for bit. Crash model: completed library calls are durable, later ones never happen.',
      level='fault_enumeration', devices=2)
check('C03', 'stateful model-based testing (Hypothesis): a reference retention policy replayed against the real checkpointers',
      'the policy removed at least one checkpoint in the history',
      'Randomised histories of save, pin, unpin, restart, metric writes; directory contents compared with the model after every operation.')
check('C04', 'model-based generation of directory contents (Hypothesis) against a set of complete steps; classification by construction; metamorphic move/rewrite of real checkpoints',
      'listing: two complete checkpoints or one among noise; detect: a tree of two or more leaves; moved: a non-scalar parameter',
      'Randomised directory contents, gin prefixes, key trees; local file system, the gcs driver only as a recorded spec that must be translated.')
check('C05', 'reference model of the assignment rules (rules carry their own meaning, no regular expressions in the oracle) over generated name sets; real checkpoints restored through three interfaces with generated renamings',
      'a rule moved at least one parameter, or the call had to be rejected',
      'Randomised names, rule lists, optimizers; the checkpoint interfaces run on one device.')
check('C06', 'algebraic laws over generated nested trees (Hypothesis) against an independent flattening',
      'two or more leaves, some shared with and some absent from the other tree',
      'Randomised trees with empty nodes, None leaves, lists, arrays and serialized array specs; trees where one side\'s leaf is the other\'s inner node are outside the domain.')
check('C07', 'generated pairs of saved tree and model tree (Hypothesis), an independent fit predicate deciding refuse or load, values compared when loaded',
      'the pair differs: refused, missing entries initialised, or extra entries present',
      'Randomised edits (shape, rank, transpose, rename, add, remove, nesting, other optimizer) over classic, legacy-manager and Orbax readers. Entries stored inline (placeholder slots, counters) are documented as not shape-checked and excluded.', devices=2)
check('T03', 'the real training loop driven through its extension points by recording stand-ins; generated schedules and preemptions (Hypothesis) against a direct enumeration of the promised events',
      'at least three checkpoint or evaluation points in a run that trains, or a preempted run that had trained',
      'Randomised periods, step lists, totals, restarts; exact event sequence compared. The compiled step is replaced by a counter.')
check('T04', PBT + 'a direct definition of "stalled" and "not finite" over generated metric histories, and the real training loop with scripted metrics where the oracle replays the requests',
      'a stop is requested, or the history is long enough for one; in the loop: a stop before the last step',
      'Randomised histories on a grid of exactly representable values (comparisons are exact); patience of 2 or more; not-a-number values are outside the early-stopping domain.')
check('T05', PBT + 'generated histories of training, evaluating and precompiling a real trainer on exactly representable data; every returned and written metric is compared with a direct double-precision computation over the batches it names, times with the measured wall clock',
      'a period of several steps, several evaluation datasets, or an evaluation after training',
      'Randomised histories of up to six operations, up to three evaluation datasets; one process, one device; the summary writer is a recorder.')
check('P01', 'model-based generation of device topologies (Hypothesis: simulated TPU/GPU/CPU/multi-slice devices and hosts); oracle recomputes from the mesh which rows every host holds',
      'several devices and partitions (submesh: several hosts as well), or an impossible layout',
      'Randomised topologies up to 256 simulated devices. Physical tile shape, one use per device, shard ids, first-host flags for every host. Host shapes as on real TPU generations (2x2x1, 2x4x1, 1x1x1).')
check('P02', 'generated host grids, arrays and partition specs (Hypothesis, simulated devices); oracle: an element-count array over the whole tensor and the box each host\'s devices hold',
      'several chunks, each replicated (chunks); an array that must be split (grid); several chunks (infos)',
      'Randomised grids of up to 16 hosts; shapes are multiples of the mesh axes they are sharded over (others are not shardable). The chunk grid is read from the helper and from the array-store specification of a checkpointer on every simulated host.')
check('O06', 'differential against the documented formula in double precision over generated factor strings, constants and steps (Hypothesis)',
      'two or more different factors', 'Randomised; steps concentrated around warm-up, decay and cycle boundaries; tolerance follows float32 rounding; cosine steps within rounding of a cycle jump are skipped.')
check('O05', 'generated states and operation sequences (Hypothesis): round trips, every untouched part compared bit for bit after each operation, gradients against the optimizer definition itself',
      'two or more parameters (round trip, axes); two or more operations', 'Randomised states over eight optimizer kinds and inference states, with and without mutable collections.')
check('O02', 'generated parameter trees over 30 optimizer kinds (Hypothesis): structural comparison of state and axis metadata before and after training steps; round trips; entry removal must raise',
      'a slot of a parameter\'s own shape, after at least one step; or an entry removed',
      'Randomised. Slots of shape (1,) cannot be told from placeholders and are only checked structurally; shapes are checked when a checkpoint is read (C07), not by restore_state. SM3 and Amos (documented as unsupported / third-party code failing on jax arrays) are excluded.')
check('P03', 'generated rule lists, parameter trees and override patterns (Hypothesis) against a direct implementation of the documented priority; the standard tables against their documentation',
      'two rules compete for one mesh axis; additional rules or 2-D sharding; an override that matches',
      'Randomised; 30 optimizer kinds for slot consistency. Patterns are built with a known meaning, the oracle uses no regular expressions.')
check('O03', 'differential testing (Hypothesis): a combined optimizer against every sub-optimizer alone on its parameters, a wrapped transformation against the transformation itself, bit for bit over generated trees, assignments and step histories',
      'several optimizers own parameters, or some parameter is owned by none; for wrapped transformations: more than one step',
      'Randomised trees, assignments, learning-rate overrides, restarts through the serialised state. 14 optax transformations.')
check('O01', 'differential testing against a double-precision implementation of the Adafactor definition over generated shapes, factor rules, settings and gradient histories (Hypothesis); metamorphic isolation of layers',
      'the parameters move, and a parameter is factored or there are several steps; a map whose rules give two different settings',
      'Each step is compared from the actual previous state, so rounding does not accumulate. Tolerance 1e-4 of the update plus float32 rounding of the decay; bfloat16 parameters more coarsely. step_offset above the current step is outside the domain.')
check('T01', 'generated batches with exactly representable (integer) data (Hypothesis): gradient, loss and metrics compared for exact equality with a direct computation for every microbatch count; the model records which examples and random keys it was given',
      'more than one microbatch', 'Randomised batch sizes, divisors, metric kinds, mutables. bfloat16 gradients approximately.')
check('T02', 'the real training loop with a real model, real checkpoints and a real shuffled input pipeline: generated crash, preemption and restart points (Hypothesis), differential against the uninterrupted run, bit for bit',
      'a run that resumed from a checkpoint and trained',
      'Randomised optimizers, mutable state, microbatches, checkpoint periods and retention, classic and Orbax checkpoints, with and without a saved input position. Writes pending at a crash are let finish (partial ones are C02).')
check('C08', 'model-based histories (Hypothesis) of reading, saving, restoring, pinning and process restarts over real input pipelines on simulated hosts; the model is the list of batches each host is to deliver. The real training loop with generated stops, where batch k must be used at step k',
      'a restore to a position after the first batch; in the loop: training resumed from a later step',
      'Randomised pipelines (sharded, shuffled, interleaved, prefetched), three iterator types, four ways of saving, up to 4 simulated hosts as threads with real barriers (Orbax: one host, its multi-process mode needs real processes).')
check('N01', 'generated batches (padded and packed), prompts and decoding options (Hypothesis) for a model whose answers a numpy definition gives independently; predictions verified token by token by full forward evaluation, scores against log-probabilities, loss against scores',
      'several examples with weight on more than one token; a prediction with more than two different tokens',
      'Randomised. The network is a small recurrence standing for any module with the documented interface (with and without prompt prefill); near-ties of logits are not decided.')
check('N02', 'Property-based testing: small recurrent decoder-only networks (causal and prefix-LM), generated prompts of mixed lengths with and without end tokens, sampling and beam search; oracle: an independent numpy forward pass over prompt + continuation gives every choice and score, batch companions and targets are replaced without effect; token-moving helpers against plain list slicing',
      'prompts of different lengths in a batch with a continuation of more than one kind of token; a prompt shorter than the row', 'Sampled inputs; small vocabulary and lengths, the alignment helpers up to 40 columns')
check('N03', 'Stateful property-based testing: generated histories of predict/score/loss/eval/init calls on shared argument objects, eager and compiled; oracle: arguments are the same objects with the same entries afterwards, and every repeated call gives the first call\'s result',
      'a history that repeats a call', 'Sampled histories of up to six calls over two model classes with synthetic networks')
check('I02', 'Fault injection with generated crash points: real inference runs on in-memory datasets are killed before, inside or after any of their file operations (also inside the removal of temporary files and the writing of the input position), any number of times, and started again; oracle: the output lines computed directly from the examples, completed outputs untouched',
      'a run that was really killed', 'One process; a crash cuts Python-level file operations, renames are atomic')
check('I01', 'Property-based testing: generated dataset sizes, batch sizes, device meshes, result structures and model signatures on eight devices, simulated multi-host jobs (threads meeting at the collective operations) with any assignment of hosts to shards, generated output files and whole jobs over tasks and mixtures; oracle: the model\'s answer for each example alone',
      'more examples than one batch; more than one shard; results reordered before writing', 'Hosts are threads, collectives are stand-ins that assemble the global batch in any shard order', devices=8)
check('I03', 'Stateful property-based testing with fault injection: generated histories of evaluation runs (modes all, latest, specific) over directories of real checkpoints that grow and shrink between runs, killed at an evaluation or at any file operation and started again; oracle: the model list of requested minus recorded checkpoints in step order, weights that name their own step; with seqio\'s own evaluator the logged metrics against a direct computation',
      'a run that has to skip checkpoints evaluated before, over several checkpoints; several checkpoints with real metrics', 'Sampled histories of up to four runs; one checkpoint directory per run; one process')
check('C09', 'Property-based testing: generated T5 model families (towers, depth, tying, gating, bias sharing, norms, slots, dtypes) built side by side as a real TensorFlow checkpoint and as the state it stands for, imported through six entry points; generated damage (missing, extra, unknown, wrong shape) must be refused exactly when documented; lazy arrays and the rule table against direct models',
      'a whole model compared, or damage refused; a lazy array that is cast; several rules and names', 'Sampled configurations; sizes up to 12 layers of width 8; a model with one layer and per-layer position bias cannot be told from a shared one and is outside the domain')
check('E01', 'Property-based testing: generated device topologies (simulated), expert counts, parameter trees with expert and shared parameters, optimizers and real eight-device meshes; oracle: the documented axis rules applied directly, gradients scaled by path directly, whole training steps against a float64 computation on integer data',
      'more than one expert partition with several hosts; expert parameters with optimizer slots on a mesh with several expert partitions; a tree with matched and unmatched gradients', 'Sampled meshes, trees and factors; expert axis first in expert parameters and marked as a batch dimension for Adafactor', devices=8)
check('E03', 'Property-based testing: generated collections of sown expert metrics (layers, scanned shapes, repeated sowing, missing ones), factors and batches run through the real expert models; oracle: the plain model on the same parameters plus the configured multiples of the directly computed means, for loss, gradients, metrics, scores and predictions',
      'several expert layers with a positive factor; several decodes', 'Sampled; a small recurrence stands for the network; all layers report values of one shape')
check('E02', 'Property-based testing: generated dense models (layers, gating, biases, which layers become expert layers), optimizers, expert counts, meshes, saving partitioners and dtypes; a real dense checkpoint is written and restored as an expert model; oracle: every expert slice of weights and slots is the dense array, shared arrays unchanged, models of other widths refused',
      'several experts and at least one upcycled array', 'Sampled; Adafactor factored without momentum, AdamW, SGD and inference states; MLP wider than the model', devices=8)
check('C10', 'Property-based testing: generated lists of restore sources (modes, several directories, missing and TensorFlow ones) against a direct choice; real classic and Orbax checkpoints that name their directory and step, loaded by every entry point with dtypes, renaming and fallback; histories of Orbax saves, restarts, restores and metrics against the retention the options promise; restoring must leave every file alone',
      'a later source is chosen or several hold checkpoints; several checkpoints or a changed model; a history in which checkpoints are removed', 'Sampled; one process; the interval and ranking rules of the third-party manager are checked by their documented effect')
check('G01', 'Property-based testing: generated command lines (gin flags, bindings, files on several search paths, other flags, positional arguments; literals of every kind, references, macros, scopes) parsed as the binaries do; oracle: the same bindings given to gin directly, in order, and the Python literals themselves; the logged config.gin and Fiddle file are read back and must configure the same; malformed and unknown settings must be refused',
      'several bindings, or files and bindings; an unknown setting; a nested configuration; several parts', 'Sampled; gin and Fiddle themselves are trusted')
check('P05', 'Property-based testing: generated in-memory and multi-file SeqIO tasks and mixtures whose examples carry their identity, shard counts, batch sizes, seeds, epochs, packing and filters; oracle: the multiset of examples over all shards, the order of unshuffled data, and for evaluation the relation that the shards interleave to what one shard evaluates; vocabularies and empty batches against direct definitions',
      'several shards and examples; several shards or tasks; several features', 'Sampled; one process reads every shard in turn; SeqIO itself is trusted; AirIO is not exercised')
check('P04', 'Property-based testing: generated device meshes (data and model axes over up to eight simulated devices), one- and two-dimensional sharding rules, networks with annotated parameters and activations, optimizers, microbatches and dropout; differential oracle: initial state, training metrics, updated parameters, evaluation, scores and decoded sequences equal those on one device up to rounding; every array lies where its axes say; partitioned functions with arbitrary shardings equal the plain function',
      'more than one device', 'Sampled; simulated CPU devices of one process; small networks; float32', devices=8)
check('X01', 'Property-based testing: generated requests (ragged texts, separators, length buckets, token rows, serialized examples of generated tasks) through the export preprocessors against directly built features; whole models exported to SavedModels from real checkpoints with fixed and free batch sizes and loaded again; differential oracle: the model itself on the documented features with the checkpoint\'s parameters; post-processing, output paths and warm-up requests against direct definitions',
      'rows of different lengths; buckets or split requests; a model that answers several different requests', 'Sampled; small networks; CPU; TensorFlow\'s loader instead of a server')
