fixed('D03', 'e6c8dff', 'a dynamic (traced) top-p of 0.0, documented as "no cutoff", masked every token, so sampling ignored the model')
fixed('D03', '304f2ed', 'with per-example temperatures every example used the same random draw, so equal rows always sampled equal tokens')
fixed('D04', 'bdb9755', 'beam search fed a prompt that fills the whole length its last token twice and overwrote its final position')
fixed('C01', 'b2c837b', 'saving an array at least as large as the concurrency limit (concurrent_gb) waited forever')
fixed('C01', '42aaf10', 'Checkpointer.restore() of the latest step reported "no checkpoints" when that step is 0')
fixed('C10', '707f43d', 'the Orbax checkpoint manager never applied save_dtype (it looked for "target" in a name joined by another separator)')
fixed('C10', 'cd55f76', 'the Orbax checkpoint manager restored the latest legacy checkpoint instead of the requested step')
fixed('C01', '3ca4136', 'load_t5x_checkpoint cast optimizer slots and mutable variables, not only the target, to restore_dtype')
known('C02', 'half-deleted-old-checkpoint-listed', 'a crash inside the recursive removal of an old checkpoint (checkpoint_utils.remove_checkpoint_dir) leaves its half-deleted directory listed by all_steps though it cannot be restored')
fixed('C04', '7a0abfc', 'all_steps listed only directories named checkpoint_N although checkpoints are saved under the configurable prefix')
fixed('C05', 'b793de0', 'a leftover checkpoint entry with the same name overwrote the value an assignment rule had explicitly given a parameter')
fixed('C10', 'f1113df', 'the Orbax manager cast optimizer counters and mutable variables, not only parameters, to restore_dtype')
fixed('C07', '1c5ec34', 'the Orbax manager silently returned arrays of another shape than the model\'s')
fixed('C10', 'faff28b', 'the Orbax manager crashed instead of restoring the latest step when no step was given')
fixed('C10', 'cbc00f4', 'the Orbax manager could not restore states with untouched (None) optimizer entries')
fixed('C07', 'c34ca77', 'a checkpoint holding slots for a parameter that the model\'s optimizer leaves untouched made the restore fail')
fixed('T03', 'c559b99', 'training looped forever after reaching the last of checkpoint_steps')
fixed('T03', '17bebe6', 'checkpoint_steps without a checkpoint period crashed, and the last step was not saved')
fixed('T04', '2cf1d54', 'a request to stop was overwritten when a later action of the same or a later event did not ask for it')
fixed('O02', '39bb54c', 'the axis metadata of the zero_nans state had another structure, so its logical axes could not be derived')
fixed('O02', '4a0035f', 'Adafactor momentum lost its logical axes when beta1 is 0')
known('O03', 'multi-of-optax-raises', 'a MultiOptimizer of wrapped optax optimizers, the combination its documentation shows, fails with an assertion when it is created')
fixed('T01', '39626e5', 'every microbatch of a step used the same dropout randomness')
fixed('C08', '9105e1a', 'resuming from the initial checkpoint skipped the first batch (it was saved after the input pipeline had been peeked at)')
fixed('T02', '7dd30d3', 'an emergency or early-stop checkpoint at a step already saved raised with Orbax, hiding the preemption')
fixed('T02', 'be294f0', 'with Orbax, training with a MultiOptimizer failed after a restart: empty entries came back as metadata objects')
fixed('T02', '4df25dc', 'train() returned while the initial checkpoint was still being written when there was nothing to train')
fixed('N03', 'fbf51a6', 'predict_batch_with_aux left its own entries (decode_rng, eos_id, initial_index) in the caller\'s decoder_params, so a second call with the same options raised')
fixed('I02', '2d53973', 'a crash while the two files of the input position were being renamed made every later inference run fail')
fixed('I02', '76a4ff3', 'a crash while the temporary files of a finished inference were deleted made the next run overwrite the complete output with part of it, or fail')
fixed('I02', '3f5a58e', 'the chunks of an inference run from the 100000th on were left out of the output')
fixed('I03', '6c05104', 'evaluation and inference from a list of checkpoint paths crashed with Orbax')
fixed('I03', 'e50a5b4', 'a checkpoint directory with a space in its path made the second evaluation run crash')
fixed('I03', 'cb2a488', 'a crash while the list of evaluated checkpoints was rewritten lost it, so all were evaluated again')
fixed('I03', '5d1fc91', 'a resumed evaluation of TensorFlow checkpoints skipped all remaining ones')
fixed('C09', '035e534', 'importing a TensorFlow checkpoint that lacks variables of the model returned a partial state instead of failing')
fixed('E01', '130da57', 'rules for two-dimensional parameter sharding raised TypeError')
fixed('E01', '8527bae', 'placeholders of unfactored expert kernels were sharded over the experts, which fails')
fixed('E02', 'a299d8e', 'factored optimizer slots of upcycled experts kept the dense shape')
fixed('C10', 'b16d7ec', 'the settings of SaveBestCheckpointer (metric to rank by, keep without metrics) were ignored with Orbax, so the best checkpoints were not kept')
fixed('C10', 'e453150', 'opening a checkpoint directory to evaluate or infer removed the save another run had in progress there')
fixed('C10', '257e2ae', 'the Orbax manager ranking by metrics deleted the checkpoint it had just saved')
fixed('C10', '85594f2', 'renaming rules were not applied to Orbax checkpoints, so renamed parameters could not be restored')
fixed('P05', 'fcf8df0', 'training evaluation of a Task given as an object looked another one up by its name, or failed')
fixed('X01', '4b4fe80', 'the decoder-only export preprocessor for scoring (input_feature targets) failed for batches of more than one')
fixed('X01', 'e9f1557', 'the decoder-only export preprocessor failed on texts of different token counts')
fixed('X01', '9173014', 'warm-up examples of a given length were not found when all the tokens available were needed')
fixed('X01', '269a542', 'exporting without a partitioner with dtype None exported float64 parameters instead of the checkpoint\'s')
