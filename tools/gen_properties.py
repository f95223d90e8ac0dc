"""Regenerates /verif/properties.jsonl (one source of truth for the wording)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
  d = dict(id=id, title=title, statement=statement,
           quantifier=dict(over=over, text=text), why_tests_cant=why,
           anchors=dict(files=files,
                        mechanism=[dict(name=n, where=w) for n, w in mechanism],
                        state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                        observe_at=list(observe), hook_needed=None))
  assert len(title) <= 80, (id, len(title))
  P.append(d)

# ---------------------------------------------------------------- decoding
prop('D01', 'Sampled decodes keep the prompt and end cleanly at end-of-sequence',
     'For every prompt batch, decoding by sampling returns each prompt verbatim followed only by generated tokens, for '
     'every requested number of decodes, start position and step limit. After the first generated end-of-sequence token '
     'a decode holds only padding, nothing is generated past the step limit, and the result has the documented shape.',
     ['inputs', 'configurations'], 'all prompt batches, models (logit functions), start positions, step limits, numbers of decodes, seeds',
     'Tests use a handful of hand-written prompts; the guarantee is over every mix of prompt lengths, start positions, step limits and early stopping inside one batch.',
     ['t5x/decoding.py'], [('temperature sampling loop', 't5x/decoding.py:_temperature_sample_single_trial')],
     [('loop index', 'per-example position being generated', 't5x/decoding.py:SamplingLoopState')], ['returned decodes'])
prop('D02', 'Sampled decodes follow the model and report its true log-probabilities',
     'With greedy decoding every generated token is the model\'s most likely next token given the tokens before it, and '
     'for every sampling setting the reported score of a decode is the sum over its generated tokens of the log-probability the model '
     '(temperature- and cutoff-adjusted, or raw when so requested) gives them. Decodes come back sorted by score, each example\'s result does not '
     'depend on the other examples in the batch under greedy decoding, and the model is fed its own cache history.',
     ['inputs', 'configurations'], 'all models with history-dependent caches, prompts, temperatures, cutoffs, seeds',
     'Tests pin mocked logits for one or two steps; they never recompute the scores of whole decodes over random cache-dependent models.',
     ['t5x/decoding.py'], [('log-prob accumulation, sort and cache expansion', 't5x/decoding.py:temperature_sample')],
     observe=['returned decodes and log_probs'])
prop('D03', 'Top-k and top-p sampling only emit tokens inside the requested cutoff',
     'Sampling with top-k emits only tokens whose logit is among the k largest at that step, and sampling with top-p emits only tokens of the '
     'smallest most-likely set whose total probability reaches p; every token inside the cutoff remains possible with its renormalised probability. '
     'Temperature scales the logits and asking for both cutoffs at once is rejected.',
     ['inputs', 'configurations'], 'all logit vectors (ties, infinities, flat or peaked), k, p, temperatures and seeds',
     'Sampling tests look at one seed and a fixed logit row; a wrong cutoff shows only for particular k/p/logit combinations.',
     ['t5x/decoding.py', 't5x/binary_search.py'], [('logit masking before categorical draw', 't5x/decoding.py:_temperature_sample_single_trial'), ('topk_mask/topp_mask', 't5x/binary_search.py')])
prop('D04', 'Beam search returns what an exact beam search over the model would return',
     'For every model and prompt, beam search returns, per example, the sequences and length-penalised scores that a straightforward sequential beam search '
     'of the same width finds, sorted from worst to best, with prompts and forced prefixes kept and padding after end-of-sequence. '
     'The score of each returned sequence is the model\'s own log-probability of it divided by the length penalty, and each beam is continued with its own cache history; only when no sequence of an example finished are its unfinished ones returned, with their plain log-probability.',
     ['inputs', 'configurations'], 'all models with history-dependent caches that never generate the padding token, prompts without end-of-sequence, beam widths, length penalties, maximum lengths',
     'Tests use toy transition tables with known answers; wrong cache gathering or score bookkeeping only matters for histories where beams are reordered.',
     ['t5x/decoding.py'], [('beam_search', 't5x/decoding.py:beam_search'), ('cache gather', 't5x/decoding.py:gather_beams, cache_gather_beams')],
     [('live/finished beams', 'sequences, scores and flags', 't5x/decoding.py:BeamState')])
prop('D05', 'Threshold searches find the exact cutoff for every array',
     'The threshold-based top-k mask keeps exactly the entries that are at least the k-th largest (ties kept), the top-p mask keeps exactly the smallest set of '
     'largest entries whose probability reaches p, and the generic 32-bit integer and float searches return the last point where a monotone predicate holds its initial value. '
     'This is exact for every representable input, batch shape and replacement value, with denormals counted as zero.',
     ['inputs'], 'all arrays (ties, signed zeros, denormals, infinities other than a k-th largest of minus infinity), k, p and monotone predicates over all int32/float32 values',
     'Unit tests sample a few random normals; boundary bit patterns, ties and extreme thresholds are not reached.',
     ['t5x/binary_search.py'], [('bitwise bisection', 't5x/binary_search.py:int32_bsearch, float32_bsearch')])
# ---------------------------------------------------------------- losses, metrics
prop('L01', 'Cross-entropy loss value and gradient are exact for every logits and target',
     'The cross-entropy with z-loss equals its mathematical definition for every finite logits and every target distribution, and the gradient used for training equals '
     'the derivative of that value (with the z-loss term, when z-loss is enabled) for every incoming cotangent.',
     ['inputs'], 'all shapes, logits of any magnitude, one-hot or soft targets, z-loss weights, cotangents',
     'The tests check a few fixed rows; a hand-written backward pass can be wrong in regions no fixed row exercises.',
     ['t5x/losses.py'], [('custom VJP', 't5x/losses.py:cross_entropy_with_logits')])
prop('L02', 'Loss masking, label smoothing and normalisation follow their definition',
     'The weighted loss is the weighted sum of per-token label-smoothed cross-entropies plus z-loss, divided by the requested normalising factor, and positions with zero weight never influence it; '
     'a perfectly predicted smoothed target scores zero. Each special normalising factor equals its documented count, and the per-target-inverse-count weights give every packed target segment the same total weight.',
     ['inputs', 'configurations'], 'all batches incl. padding and packed segments, smoothing and z-loss constants, every normalising factor form (constant, string, enum)',
     'Tests fix one batch; the masking and segment logic depends on the layout of padding and segments.',
     ['t5x/losses.py', 't5x/models.py'], [('compute_weighted_cross_entropy, get_loss_normalizing_factor_and_weights', 't5x/losses.py')])
prop('M01', 'Metrics computed over parts merge to the metric over the whole',
     'Splitting a batch of measurements into any number of parts in any order, reducing each part and merging gives the same sums, per-step averages, rates and step counts as reducing '
     'the whole at once; merging is associative and commutative and the empty metric is neutral. Rate metrics are the accumulated numerator over the elapsed time or step count.',
     ['inputs', 'histories'], 'all value arrays, splits, merge orders and durations',
     'Tests merge one fixed pair.', ['t5x/metrics.py'], [('merge/compute of Sum, AveragePerStep, Time, TimeRate, StepsPerTime', 't5x/metrics.py')])
prop('M02', 'Training metrics count tokens, sequences and accuracy exactly',
     'The reported training metrics equal a direct count over the batch: non-padding token fraction, number of packed examples, token accuracy over non-padding targets, loss per token and totals. '
     'They stay correct when they are accumulated over microbatches.',
     ['inputs'], 'all logits, targets, weights, segment-id layouts and microbatch counts',
     'Tests count one fixed batch without packing.', ['t5x/models.py', 't5x/trainer.py', 't5x/metrics.py'],
     [('compute_base_metrics, count_packed_examples', 't5x/models.py'), ('metric accumulation', 't5x/trainer.py:accumulate_grads_microbatched')])
# ---------------------------------------------------------------- checkpoints
prop('C01', 'A saved checkpoint restores to exactly the saved training state',
     'Saving any training state and restoring it gives back every parameter, optimizer slot, mutable collection and the step, bit for bit in the saved precision, whatever mix of whole-file and '
     'sharded arrays it was written as. Restoring into another precision, lazily, or through another reader of the same format yields the same values up to that cast.',
     ['inputs', 'configurations'], 'all state trees (nesting, names, shapes, dtypes, partition specs), save/restore dtypes, concurrency limits, lazy or eager restore',
     'Checkpoint tests are not run in this environment and otherwise save one small fixed state.',
     ['t5x/checkpoints.py'], [('Checkpointer.save/restore, load_t5x_checkpoint', 't5x/checkpoints.py')],
     [('checkpoint directory', 'msgpack index plus tensorstore arrays', 't5x/checkpoints.py:_write_state_to_tensorstore')])
prop('C02', 'A crash or error while saving never exposes a broken checkpoint',
     'If saving stops at any point, by crash or by an I/O error, every checkpoint that the system afterwards lists can be restored to exactly the state that was saved for it, and a checkpoint listed before '
     'is never lost unless a newer complete one made it obsolete. After restart, saving the same step again succeeds and yields a complete checkpoint.',
     ['crash_points', 'fault_sequences', 'histories'], 'every file-system or array-store operation at which a save can be cut off, over sequences of saves with retention enabled',
     'No test injects a fault during a save.', ['t5x/checkpoints.py', 't5x/checkpoint_utils.py'],
     [('write to temporary directory then rename', 't5x/checkpoints.py:Checkpointer.save'), ('tmp-dir naming', 't5x/checkpoints.py:get_checkpoint_dir')])
prop('C03', 'Checkpoint retention keeps exactly the checkpoints the policy promises',
     'After any sequence of saves the remaining checkpoints are exactly those the retention policy promises: the newest allowed number, every pinned one, those at the forced keep period and, when a metric is monitored, '
     'the best by that metric. Pinned checkpoints are never removed and the newest one is always restorable.',
     ['histories', 'configurations'], 'all save histories, keep limits, pin/unpin operations, metric values (incl. missing and tied), keep periods',
     'Tests (not run here) replay one history; the policy is a function of the whole history.',
     ['t5x/checkpoints.py', 't5x/checkpoint_utils.py'], [('_remove_old_checkpoints', 't5x/checkpoints.py:Checkpointer, SaveBestCheckpointer'), ('pinning', 't5x/checkpoint_utils.py')])
prop('C04', 'Checkpoint discovery names, lists and classifies checkpoints correctly',
     'Only complete checkpoint directories are ever listed, in step order, temporary or unrelated files are ignored, and the latest step is the largest complete one; directory name and step convert back and forth without loss. '
     'A path is classified as the format that actually wrote it, and moved checkpoint paths resolve to the same relative location.',
     ['inputs', 'histories'], 'all directory contents: complete, temporary, foreign, zero-step, very large steps, files instead of directories',
     'Tests list one directory.', ['t5x/checkpoints.py', 't5x/checkpoints_utils.py', 't5x/checkpoint_utils.py'],
     [('all_steps/latest_step, get_checkpoint_dir/get_step_from_checkpoint_dir, detect_checkpoint_type, find_checkpoint', 't5x/checkpoints.py, t5x/checkpoints_utils.py')])
prop('C05', 'Renaming rules applied at restore move every parameter to its right place',
     'An assignment map given at restore sends each target parameter to the first rule that matches its full name: it receives the value of the named source, or is skipped when the rule says so, and unmatched parameters keep their own value. '
     'A rule\'s explicit source always wins over a same-named leftover, unused rules and missing sources are reported, and unmapped entries are otherwise preserved.',
     ['inputs', 'programs'], 'all flat state dicts, ordered regular-expression rule lists with back-references and skip rules',
     'Tests use two or three rules without name collisions.', ['t5x/state_utils.py', 't5x/checkpoints.py'],
     [('apply_assignment_map', 't5x/state_utils.py'), ('state transformation functions at restore', 't5x/checkpoints.py:_transform_state_and_infos')])
prop('C06', 'State-tree merge, intersection and flattening laws',
     'Flattening and unflattening a state tree are inverse, merging two trees contains every leaf of both with the overwriting side winning on shared names, and intersecting keeps exactly the shared leaves. '
     'None of these change their arguments.',
     ['inputs'], 'all nested trees incl. empty dicts, None leaves, lists and tensors', 'Tests use two fixed trees.',
     ['t5x/state_utils.py'], [('flatten_state_dict, merge_state, intersect_state, tensorstore_leaf', 't5x/state_utils.py')])
prop('C07', 'An incompatible checkpoint is refused, never silently loaded',
     'Restoring a checkpoint whose parameter shapes, names or optimizer slots do not fit the model raises an error (the classic checkpointer names the parameter when a stored array has the wrong shape) instead of returning a partly restored or reshaped state. '
     'With the explicit initialise-missing option, exactly the missing entries are freshly initialised and every other one equals the checkpoint. '
     'Entries of the checkpoint that the model does not have are ignored, and entries kept inline in the index file (counters, placeholder slots) are not shape-checked, as documented.',
     ['inputs', 'configurations'], 'all pairs of saved tree and target tree differing in shapes, missing or extra names, strictness options',
     'Tests cover one mismatch.', ['t5x/checkpoints.py', 't5x/utils.py'],
     [('shape checks and structure checks on restore', 't5x/checkpoints.py:_read_ts, _read_state_from_tensorstore, Checkpointer.restore'), ('fallback_to_scratch', 't5x/checkpoints.py')])
prop('C08', 'The input position saved with a checkpoint is the one it resumes from',
     'When the input pipeline position is saved with a checkpoint, restoring that checkpoint makes the pipeline deliver exactly the batches that would have followed, on each host from its own file. '
     'Batches that were only peeked at are not lost or repeated.',
     ['histories', 'configurations'], 'all interleavings of next, save and restore over iterators and host counts, and of the peeking the training loop does',
     'Tests restore one iterator once.', ['t5x/checkpoints.py', 't5x/utils.py'],
     [('dataset checkpoint save/restore', 't5x/checkpoints.py:Checkpointer._dataset_ckpt_name, restore')])
prop('C09', 'Importing a legacy TensorFlow checkpoint preserves every weight and slot',
     'Importing a legacy T5 TensorFlow checkpoint places every model weight and optimizer slot under its corresponding name with its array unchanged; a checkpoint that lacks variables of the model, or has ones that belong nowhere, is refused unless leniency is asked for. '
     'Arrays read lazily give the same values as arrays read eagerly.',
     ['inputs', 'configurations'], 'all layer counts, head counts, tied or untied embeddings, gated or ungated MLPs, model families',
     'Tests import one renaming table.', ['t5x/checkpoint_importer.py', 't5x/checkpoints.py'],
     [('name and shape translation', 't5x/checkpoint_importer.py:CheckpointTranslator'), ('_update_state_dict', 't5x/checkpoint_importer.py')])
prop('C10', 'The checkpoint manager chooses, keeps and restores the right checkpoint',
     'When a restore is requested with an ordered list of checkpoint sources, the first source that holds a checkpoint is used at exactly the requested step (latest, a specific step, or all), and the restored state is the one saved there. '
     'Checkpoints are saved at the requested period only, and the manager-based and the classic checkpointer agree on what is saved and restored; restoring leaves the files as they are, saves in progress included, and the newest checkpoint is always kept.',
     ['histories', 'configurations'], 'all restore configurations (modes, multiple directories, missing sources, step lists), save histories',
     'Needs combinations of directories, modes and histories that tests do not enumerate.', ['t5x/utils.py', 't5x/checkpoints.py'],
     [('get_first_valid_restore_config_and_paths, TrainStateInitializer.from_checkpoints, create_checkpoint_manager_and_restore', 't5x/utils.py'), ('OrbaxCheckpointManagerInterface', 't5x/checkpoints.py')])
# ---------------------------------------------------------------- partitioning
prop('P01', 'Device meshes use every device exactly once and split the batch exactly',
     'For every supported device topology and model-parallel layout the mesh contains every device exactly once with the requested number of model partitions, and its data axis is all the rest. '
     'The data layout derived from it gives every host a consistent batch size, shard number and a single writer per shard, so that all batch rows are read exactly once; impossible layouts are rejected.',
     ['configurations'], 'all device counts, coordinates, host counts, partition counts and submeshes, batch sizes',
     'Tests check a few mocked topologies.', ['t5x/partitioning.py', 't5x/contrib/moe/partitioning.py'],
     [('get_mesh, default_mesh, get_data_layout', 't5x/partitioning.py'), ('get_cpu_mesh/get_gpu_mesh', 't5x/partitioning.py')])
prop('P02', 'Per-host chunks tile every array exactly once',
     'For every mesh, host layout, array shape and partition spec, the chunks assigned to the hosts cover each element of the array, chunks of distinct shards never overlap, and exactly one replica of each chunk is designated as writer. '
     'The chunk grid used for the array store divides the write chunk and never exceeds the array.',
     ['configurations', 'inputs'], 'all meshes, host layouts, partition specs and array shapes that the sharded mesh axes divide', 'Tests check one mesh.',
     ['t5x/partitioning.py', 't5x/checkpoints.py'], [('LocalChunker', 't5x/partitioning.py'), ('choose_chunk_shape', 't5x/checkpoints.py')])
prop('P03', 'Sharding rules are applied by priority and give a legal sharding to every array',
     'The sharding chosen for an array follows the ordered logical-axis rules: each logical axis gets the first rule whose mesh axis is not already used by that array, user rules that come first win, and unknown axes are an error or unsharded as documented. '
     'Names overridden by pattern replace exactly the matching parameters, and optimizer slots are sharded consistently with their parameters.',
     ['configurations', 'programs'], 'all rule lists, logical axis names, override patterns, parameter trees', 'Tests assert the default table.',
     ['t5x/partitioning.py', 't5x/utils.py', 't5x/adafactor.py', 't5x/optimizers.py'],
     [('standard_logical_axis_rules, get_mesh_axes', 't5x/partitioning.py'), ('override_params_axes_names', 't5x/utils.py')])
prop('P04', 'Partitioning changes where things are computed, not what is computed',
     'Initialisation, training steps, scoring and prediction give the same numbers (up to rounding) on any device mesh and with any sharding configuration as on a single device.',
     ['configurations'], 'meshes over up to eight devices, data and model parallel splits, activation/parameter sharding dimensions, batch sizes, with a random generator that does not depend on shardings',
     'Tests run on one device.', ['t5x/partitioning.py', 't5x/trainer.py', 't5x/utils.py'], [('PjitPartitioner', 't5x/partitioning.py')])
prop('P05', 'Sharded dataset readers cover every example exactly once',
     'The per-host input shards together contain every example of the dataset exactly once per epoch, for every number of hosts and readers, and batches keep their documented size. '
     'Training input is a deterministic function of its seed, and evaluation input contains the requested tasks with the requested number of examples.',
     ['configurations'], 'all shard counts, batch sizes, seeds, repeat counts, dataset sizes; a last incomplete training batch is dropped, the order of files over shards may change between epochs, deterministic-pipeline mode aside', 'Tests use a mocked task with one shard.',
     ['t5x/utils.py'], [('get_dataset, get_dataset_inner, get_training_eval_datasets', 't5x/utils.py')])
# ---------------------------------------------------------------- optimizers, state
prop('O01', 'Adafactor updates parameters as its definition says',
     'For every parameter shape, gradient sequence and hyper-parameter setting, the update equals the Adafactor definition computed directly: factored or full second moments, update clipping, relative step scaling, momentum, weight decay and per-parameter settings. '
     'Factored statistics never mix entries across layers or other declared batch dimensions.',
     ['inputs', 'histories', 'configurations'], 'all parameter trees, gradients, hyper-parameters, factor rules, step counts from the step offset on',
     'The tests that exist compare a few fixed configurations and are not run here.', ['t5x/adafactor.py'], [('Adafactor.apply_param_gradient, HParamMap', 't5x/adafactor.py')],
     [('v_row, v_col, v, m', 'slots', 't5x/adafactor.py:_AdafactorParamState')])
prop('O02', 'Optimizer state and its axis metadata always have the same structure',
     'For every model and optimizer the optimizer state, its serialised form and its axis metadata have matching structure, so every slot has an axis annotation with one name per dimension taken from its parameter. '
     'Serialising and restoring the optimizer state is the identity, and a state with missing entries is rejected.',
     ['configurations', 'inputs'], 'all parameter trees, optimizers (Adafactor, optax-wrapped, multi), factor rules and axis names', 'Tests cover single fixed models.',
     ['t5x/optimizers.py', 't5x/adafactor.py', 't5x/train_state.py'], [('derive_logical_axes, state_dict, restore_state', 't5x/optimizers.py, t5x/adafactor.py')])
prop('O03', 'Optimizers act on exactly the parameters they were assigned',
     'A combined optimizer updates every parameter exactly as its own optimizer alone would and leaves parameters matched by no pattern unchanged; patterns that overlap are rejected. The learning rate passed to the step reaches every optimizer that uses one. '
     'A wrapped gradient-transformation optimizer gives exactly the updates of the transformation itself, with the schedule it was built with.',
     ['configurations', 'histories'], 'all trees, traversals, optimizer combinations, gradient histories', 'Tests use two fixed optimizers.',
     ['t5x/optimizers.py'], [('MultiOptimizer, OptaxWrapper, wrap_optax_optimizer', 't5x/optimizers.py')])
prop('O05', 'Training state conversions and updates lose nothing',
     'Converting a training state to its serialised form and back is the identity on step, parameters, optimizer slots, axes and mutable collections, and applying a gradient advances the step by one and changes only what it should. '
     'Replacing one part of the state leaves the other parts unchanged.',
     ['inputs', 'histories'], 'all model variables with parameters, axes and mutable collections', 'Tests use fixed small states.',
     ['t5x/train_state.py'], [('FlaxOptimTrainState, InferenceState', 't5x/train_state.py')])
prop('O06', 'Learning-rate schedules equal their documented formula at every step',
     'For every combination of schedule factors the learning rate at every step equals the product of the documented factor formulas, never negative for decays, continuous across warm-up. '
     'Undefined factor names are rejected.',
     ['inputs', 'configurations'], 'all factor strings, steps, warm-up and decay constants', 'Tests sample a few steps.',
     ['t5x/utils.py'], [('create_learning_rate_scheduler', 't5x/utils.py')])
# ---------------------------------------------------------------- trainer
prop('T01', 'Microbatched gradient accumulation equals the full-batch gradient',
     'Computing gradients in any number of microbatches gives the same gradient, loss sum, metrics, mutable updates and parameter update as the full batch for losses that are sums over examples. '
     'Every example is used exactly once and stochastic layers get different randomness for each microbatch.',
     ['inputs', 'configurations'], 'all batch sizes and divisors, models with mutables and rng, gradient and weight metrics options', 'Tests check that a mocked function is called.',
     ['t5x/trainer.py'], [('accumulate_grads_microbatched', 't5x/trainer.py')])
prop('T02', 'Interrupted and resumed training equals uninterrupted training',
     'Training for some steps, saving, and resuming in a fresh process with the remaining data gives the same state and metrics as training without interruption. '
     'Randomness at a step depends only on the seed and the step, and the learning rate used is the one scheduled for that step.',
     ['histories', 'crash_points'], 'all split points of a run, models with dropout and mutables, optimizers, seeds', 'Tests never resume.',
     ['t5x/trainer.py', 't5x/checkpoints.py', 't5x/train_state.py'], [('BaseTrainer.train, _get_step_rng', 't5x/trainer.py'), ('Checkpointer', 't5x/checkpoints.py')])
prop('T03', 'The training loop checkpoints and evaluates at exactly the requested steps',
     'For every period, explicit step list, start step and total, the training loop visits checkpoint and evaluation points at exactly the requested steps, always makes progress, and stops at exactly the total. '
     'Resuming from any saved step visits exactly the remaining points: periods count from the step training started or resumed at, and a step that is already saved is not saved again.',
     ['configurations', 'histories'], 'all periods, step lists, totals, restart points', 'Tests check single calls.',
     ['t5x/utils.py', 't5x/train.py'], [('find_first_checkpoint_step, find_next_checkpoint_step', 't5x/utils.py'), ('main loop', 't5x/train.py')])
prop('T04', 'Training actions stop training exactly when their condition holds',
     'Early stopping requests a stop exactly when the monitored metric has failed to improve by the tolerance for the configured number of evaluations, and the not-a-number guard stops exactly when the monitored value is not finite. '
     'A stop request is never forgotten before the loop can act on it.',
     ['histories', 'configurations'], 'all metric histories (for early stopping without not-a-number values), modes, patience of at least two and tolerance values', 'Tests replay three histories.',
     ['t5x/trainer.py'], [('EarlyStoppingAction, TerminateOnNanAction', 't5x/trainer.py')])
prop('T05', 'Reported metrics are those of the steps and datasets they name',
     'The metrics returned and written for a training period are the model\'s metrics merged over exactly the steps of that period, written in order at its last step, and those of each evaluation dataset are merged over exactly its own batches with the current parameters, whatever was compiled, trained or evaluated before. '
     'Rates use the period\'s own number of steps and duration, and the reported learning rates are those the steps used; evaluation leaves the training state unchanged.',
     ['histories', 'configurations'], 'all histories of training, evaluating and precompiling, any number of evaluation datasets, batch shapes and dtypes, with and without microbatches and mutable variables', 'Tests mock the step functions and merge one metric.',
     ['t5x/trainer.py', 't5x/metrics.py'], [('BaseTrainer.train, eval, compile_train, compile_eval', 't5x/trainer.py'), ('MetricsManager', 't5x/trainer.py')])
# ---------------------------------------------------------------- models
prop('N01', 'Scoring, loss and prediction of a model agree with each other',
     'The score of a sequence equals the sum of the model\'s token log-probabilities over its unpadded targets, equals minus the unsmoothed loss on it, and greedy prediction is exactly what repeated full forward passes would choose, with its score. '
     'Cached incremental decoding never changes the answer, and padding or batch companions never change an example\'s result.',
     ['inputs', 'configurations'], 'encoder-decoder and decoder-only models, all inputs, targets, prompt lengths, decoding parameters (for models that keep position embeddings for a single decode: one decode)', 'Tests mock the network.',
     ['t5x/models.py', 't5x/decoding.py'], [('score_batch, loss_fn, predict_batch_with_aux, cache prefill', 't5x/models.py')])
prop('N02', 'Prefix language models treat every prompt according to its own length',
     'For decoder-only models each example\'s prediction is the continuation of its own prompt, whatever the other prompt lengths in the batch; removing and aligning prompts moves tokens without loss or reordering. '
     'The returned prediction contains exactly the tokens after the prompt.',
     ['inputs'], 'all prompt-length mixes, sequence lengths, padding, sampling and beam search', 'Tests use one or two fixed prompts.',
     ['t5x/models.py', 't5x/decoding.py'], [('remove_prefix, _compute_kv_cache, prompt alignment helpers', 't5x/models.py, t5x/decoding.py')])
prop('N03', 'Model calls never change their caller\'s arguments',
     'Predicting, scoring and computing losses leave the caller\'s batches, parameters and decoding options unchanged, so repeating the same call with the same arguments gives the same result, in and out of compilation.',
     ['inputs', 'histories'], 'all call sequences over the model API with shared argument objects', 'Tests call each method once.',
     ['t5x/models.py', 't5x/trainer.py', 't5x/utils.py'], [('predict_batch_with_aux', 't5x/models.py')])
# ---------------------------------------------------------------- inference and evaluation
prop('I01', 'Batched inference returns one result per example in dataset order',
     'Running inference over a dataset returns exactly one result for each example, in the dataset\'s order, equal to running the model on that example, for any dataset size, batch size, number of hosts and readers and device layout. '
     'Padding examples never show up, and auxiliary outputs stay paired with their example.',
     ['configurations', 'inputs', 'schedules'], 'all dataset sizes from one example on, batch sizes, shard counts, completion orders', 'Tests run one shard with fixed sizes.',
     ['t5x/utils.py'], [('get_infer_fn, _gather and reorder', 't5x/utils.py')])
prop('I02', 'Interrupted inference resumes to the same complete output',
     'Killing an inference run at any point and starting it again, any number of times, ends with one output file that lists every input example exactly once, in order, with its result, as an uninterrupted run. '
     'A finished task is never overwritten or damaged by running again.',
     ['crash_points', 'histories'], 'every file-system operation at which the run can be killed, checkpoint periods, dataset sizes, output directories without glob characters', 'Nothing tests a crash during inference.',
     ['t5x/infer.py'], [('infer: chunk files, input checkpoint, merge_chunks_to_file', 't5x/infer.py')],
     [('tmp directory', 'chunks and iterator checkpoint', 't5x/infer.py')])
prop('I03', 'Offline evaluation visits every requested checkpoint once, in step order',
     'Evaluation runs over each requested checkpoint exactly once, in increasing step order when all are requested, in the order given when specific ones are, skips exactly those already fully evaluated when asked to resume, and attributes each result to the step of its checkpoint.',
     ['histories', 'configurations'], 'all contents of a checkpoint directory, previously completed evaluations, crashes during an evaluation', 'No test covers resuming.',
     ['t5x/eval.py'], [('_sorted_ckpt_paths, skip_completed evaluation', 't5x/eval.py')])
# ---------------------------------------------------------------- configuration
prop('G01', 'Configuration rewriting preserves the meaning of every argument',
     'Command-line configuration arguments are rewritten without changing their meaning: quoting, spaces and non-configuration flags are preserved, and the logged configuration can be parsed back to the same bindings.',
     ['inputs'], 'all argument lists, flag spellings and values the configuration language can represent', 'Tests rewrite two arguments.', ['t5x/gin_utils.py'], [('rewrite_gin_args, summarize_gin_config', 't5x/gin_utils.py')])
# ---------------------------------------------------------------- contrib
prop('E01', 'Expert models shard and scale expert parameters separately and correctly',
     'For every expert count and device layout, the expert mesh uses every device once, expert parameters and their optimizer slots are sharded over the expert axis while all other parameters are not, and expert gradients are rescaled by exactly the configured factor while others are untouched.',
     ['configurations', 'inputs'], 'all expert counts, device layouts, parameter trees (experts on the first axis), factors', 'These tests are not run here and fix one topology.',
     ['t5x/contrib/moe/partitioning.py', 't5x/contrib/moe/training_utils.py', 't5x/contrib/moe/trainer.py'], [('MoePjitPartitioner', 't5x/contrib/moe/partitioning.py'), ('scale_sharded_grads, match_fn', 't5x/contrib/moe/training_utils.py')])
prop('E02', 'Upcycling a dense checkpoint copies each dense weight to every expert',
     'Initialising an expert model from a dense checkpoint gives every expert a copy of the dense weights and optimizer slots, and leaves all shared parameters, slots and the step equal to the checkpoint. A dense checkpoint of other widths is refused.',
     ['inputs', 'configurations'], 'all layer shapes with an MLP wider than the model, choices of expert layers, expert counts, optimizers (Adafactor without momentum, AdamW, SGD, none)', 'Fixed example only.',
     ['t5x/contrib/moe/checkpoints.py'], [('UpcycleCheckpointer', 't5x/contrib/moe/checkpoints.py')])
prop('E03', 'Expert model losses add exactly the configured auxiliary terms',
     'The training loss of an expert model is the base loss plus the configured multiples of the load-balancing and router losses averaged over layers, and its diversity metrics are plain averages over expert layers.',
     ['inputs', 'configurations'], 'all collections of expert metrics of one shape per metric, factors', 'One fixed example.', ['t5x/contrib/moe/models.py'], [('_moe_loss_fn, _expert_losses', 't5x/contrib/moe/models.py')])

# ---------------------------------------------------------------- export
prop('X01', 'An exported model answers as the model does',
     'A model exported to a SavedModel and loaded again gives, for every batch of texts, token rows or serialized examples of an allowed size, the same answers as running the model with the restored parameters on the documented features of those requests. '
     'The export goes where it was asked to, and generated warm-up requests have the requested shapes and lengths.',
     ['inputs', 'configurations'], 'all batches (ragged texts, split requests, length buckets, raw token rows, serialized examples of a task), fixed and free batch sizes, inference modes, warm-up settings; tokenized requests without end tokens', 'Tests mock the model and use one batch of equal rows.',
     ['t5x/export_lib.py'], [('create_preprocessor, create_decoder_preprocessor, create_preprocessor_from_task, create_postprocessor', 't5x/export_lib.py'), ('create_inference_function, save, ExportableModule', 't5x/export_lib.py')])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
  for d in P:
    f.write(json.dumps(d) + '\n')
print(len(P))
