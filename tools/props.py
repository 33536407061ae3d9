"""The list of properties; `python3 tools/props.py` writes properties.jsonl and MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=()):
  PROPS.append(dict(
      p=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)),
      technique=technique, note=note))


SYM = 'symbolic execution of the real code (jaxpr of the real functions interpreted over z3 terms) + SMT, counterexamples replayed'
DSE = 'dynamic symbolic execution of the real Python (solver-variable proxies, all paths) + SMT, counterexamples replayed'
NOTE = ('Bounded: every value within the stated sizes, nothing outside them. Floats are read as reals. Trusts z3, jax tracing and the '
        'primitive rules in lib/jx.py (each run cross-checks encoding against execution).')
NOTE_PY = ('Bounded: all paths and all values within the stated ranges. Trusts z3, the proxies in lib/engine.py and the listed environment stubs.')
M = 'vmoe/moe.py'

prop('M01', 'Expert capacity and slot uniqueness in top-K routing',
     'For every gate matrix and every top-K dispatcher implementation, each expert buffer slot holds at most one item, an expert never holds '
     'more items than its capacity, an item occupies at most one slot of an expert and at most K experts, and never anything outside its top-K choices.',
     ['inputs', 'configurations'], 'every gate matrix (ties, zeros), K, capacity, batch priority on or off, each dispatcher, within the bounds',
     'tests use a few hand-written gate matrices; the guarantee is over all gate values and tie patterns',
     [M], [('get_top_experts_per_item_dispatcher', M), ('_get_top_experts_per_item_common', M)], SYM, NOTE, ['dispatch()/combine() of the dispatcher'])
prop('M02', 'Drop order: who keeps a slot when experts overflow',
     'When more items choose an expert than its capacity, slots go to items by choice rank first (all first choices before any second choice) and, within '
     'a rank, by item order - or by decreasing gate when batch priority is on; an item is dropped from an expert only if the expert is full of items with precedence.',
     ['inputs', 'configurations'], 'every gate matrix, K and capacity within the bounds',
     'the drop order only shows on overflow patterns that the hand-written examples sample sparsely',
     [M], [('_get_top_experts_per_item_common', M)], SYM, NOTE, ['dispatch()/combine()'])
prop('M03', 'Dispatch and combine move data faithfully',
     'Dispatching copies each routed item unchanged into its slot and leaves unused slots zero; combining gives each item exactly the sum over its slots of '
     'gate times slot output, linearly, for every dispatcher (einsum, indices, bfloat16 wrapper) and any number of groups.',
     ['inputs', 'configurations'], 'every data tensor, gate matrix and group count within the bounds',
     'tests compare a few fixed tensors', [M], [('EinsumDispatcher', M), ('ExpertIndicesDispatcher', M), ('Bfloat16Dispatcher', M)],
     SYM, NOTE, ['dispatch()', 'combine()'])
prop('M04', 'Einsum and index dispatchers are interchangeable',
     'For the same gates and settings the einsum and the index dispatcher send the same items to the same expert slots and combine with the same weights.',
     ['inputs', 'configurations'], 'every gate matrix, K, capacity and priority mode within the bounds',
     'no test compares the two on arbitrary gates', [M], [('get_top_experts_per_item_dispatcher', M)], SYM, NOTE, ['dispatch()', 'combine()'])
prop('M05', 'Experts-choose-items routing fills every expert with its best items',
     'Each expert receives exactly its capacity of distinct items and those have its largest gates; the combine weight is the gate of the pair; the reported '
     'metrics count experts per item and unassigned items exactly.',
     ['inputs', 'configurations'], 'every gate matrix and capacity within the bounds',
     'fixed gate matrices only', [M], [('get_top_items_per_expert_dispatcher', M)], SYM, NOTE, ['dispatch()', 'combine()', 'metrics'])
prop('M06', 'Expert capacity formula',
     'The capacity is the smallest multiple of the requested number that is at least the (ceiled or rounded) tokens * factor / experts; a configuration '
     'yielding no slot, an unknown rounding mode, or an ambiguous capacity specification is rejected.',
     ['inputs', 'configurations'], 'every token count, expert count, factor and multiple within the bounds',
     'a table of a few tuples is tested', [M], [('compute_capacity', M)], DSE, NOTE_PY, ['return value / raised error', 'dispatch buffer shape'])
R = 'vmoe/nn/routing.py'
prop('M07', 'Ensemble routing keeps members apart',
     'In ensemble routing an item of member m only ever receives outputs of the experts of member m, with the softmax over those experts as weight and noise '
     'independent per member; the batch re-layouts are exact inverses; sizes that do not divide are rejected.',
     ['inputs', 'configurations'], 'every token tensor, noise draw, member/expert/group size within the bounds',
     'tests check fixed shapes with fixed seeds', ['vmoe/nn/ensemble_routing.py'],
     [('NoisyTopExpertsPerItemEnsembleRouter', 'vmoe/nn/ensemble_routing.py')], SYM, NOTE, ['router output', 'reshape functions'])
prop('M08', 'Noisy top-K routers: gates, noise and auxiliary losses',
     'Items are routed by, and combined with, the softmax over experts of the logits (plus noise of standard deviation noise_std/num_experts when stochastic, and no noise when '
     'deterministic); the importance, load and gshard losses follow their published definitions per group; the auxiliary loss is the weighted sum of the losses with positive weight.',
     ['inputs', 'configurations'], 'every token tensor and noise draw within the bounds',
     'tests check shapes and a few seeds', [R], [('NoisyTopExpertsPerItemRouter', R), ('NoisyTopItemsPerExpertRouter', R)], SYM, NOTE, ['dispatcher', 'metrics'])
SR = 'vmoe/projects/soft_moe/router.py'
prop('M09', 'Soft MoE weights are convex combinations from the documented logits',
     'In Soft MoE every slot is a convex combination of the items of its group and every item a convex combination of all slot outputs, the weights being softmaxes of '
     'scale times the cosine of item and slot (plus noise when stochastic); the number of slots follows the request or the capacity factor; the reported extremes are means '
     'of the extreme weights and the similarities those of the pairs of different items (slots) of a group.',
     ['inputs', 'configurations'], 'every logit tensor, scale and size within the bounds', 'tests check a fixed example',
     [SR], [('SoftRouter', SR)], SYM, NOTE, ['dispatch()', 'combine()', 'metrics'])
OT = 'vmoe/projects/sparsity_constrained_ot/'
prop('M10', 'Transport-plan routers dispatch by the plan and combine by the right gate',
     'The optimal-transport routers ask for a plan with unit mass per item and equal mass per expert, select pairs by the entries of the plan they get back, and combine them '
     'with the softmax gate or the plan entry as configured; unselected pairs have weight zero.',
     ['inputs', 'configurations'], 'every token tensor and every positive plan the solver may return, within the bounds',
     'tests run one seed through the numerical solver', [OT + 'ot_routing.py', OT + 'kl_projection_routing.py', OT + 'ksparse_projection_routing.py', OT + 'sparse_projection_routing.py'],
     [('_replace_combine_weights', OT + 'ot_routing.py')], SYM, NOTE + ' The numerical OT solvers are stubbed by an arbitrary plan.', ['dispatch()', 'combine()'])
prop('M11', 'A sparse MoE layer outputs the gated sum of each token\'s experts',
     'For every token the sparse MoE layer returns the sum over its selected, non-dropped experts of gate times that expert\'s own function of that token, at the '
     'token\'s own position in its sequence, whatever the grouping; auxiliary outputs come back per expert.',
     ['inputs', 'configurations'], 'every token tensor, grouping, K and capacity within the bounds',
     'tests check shapes or fixed seeds', [M, 'vmoe/nn/vit_moe.py', 'vmoe/nn/vit_moe_ensemble.py'],
     [('sparse_moe_spmd', M), ('MlpMoeBlock', 'vmoe/nn/vit_moe.py')], SYM, NOTE + ' vit_jax is a stand-in.', ['layer output'])
CP = 'vmoe/checkpoints/partitioned.py'
CB = 'vmoe/checkpoints/base.py'
CS = 'vmoe/checkpoints/serialization.py'
CT = 'vmoe/checkpoints/types.py'
prop('K01', 'Sharded checkpoints restore exactly what was saved',
     'A tree of arrays saved with save_checkpoint and restored with restore_checkpoint has the same shape, dtype and value in every element, whatever the array sizes (including scalars and empty arrays), '
     'the number of processes, how the arrays were sharded at save time and at restore time, the number of checkpoint shards and the maximum chunk size.',
     ['inputs', 'configurations'], 'every dimension size, chunk limit and shard count within the bounds, for each save/restore sharding layout',
     'tests use one process and a few fixed shapes; chunk splitting and intersection arithmetic must be right for every size and layout',
     [CP, CT], [('save_checkpoint', CP), ('restore_checkpoint', CP), ('_split_slicend', CP), ('_intersect_slicend', CP)], DSE, NOTE_PY, ['buffers given to jax.make_array_from_callback on each process'])
prop('K02', 'Save plan: every element once, bounded chunks, index names the right shard',
     'When saving, the chunks written partition each array (every element exactly once), each chunk has at most max_chunk_bytes (or a single element), the index lists every chunk with the shard that really holds it, '
     'each shard is written by one process that holds the data, all shards and one index are written, the shard count is at least the number of processes, and sizes of shards differ by at most one chunk when every process holds the data.',
     ['inputs', 'configurations'], 'every dimension size, chunk limit and shard count within the bounds, for each sharding layout and process',
     'multi-process plans are not run by the tests; the plan must be consistent across processes that compute it independently',
     [CP, CT], [('_create_map_slicend_to_array_shards', CP), ('_create_map_slicend_to_checkpoint_shard', CP), ('_update_lazy_array_chunks_with_leaf', CP)], DSE, NOTE_PY, ['files handed to save_multiple_checkpoints_async'])
prop('K03', 'A crash while saving never corrupts a checkpoint',
     'Whatever point a save is interrupted at, the final file name holds either its previous content or the complete new content, no other file is touched, a retry succeeds, overwrite=False never replaces a file, '
     'and a step some of whose files were not completely written is never offered as the latest complete checkpoint.',
     ['crash_points', 'schedules'], 'every crash point of one save, and independent crash points of each file of a sharded save',
     'tests never interrupt a save', [CB], [('save_checkpoint', CB), ('save_multiple_checkpoints_async', CB), ('find_latest_complete_checkpoint_for_prefix', CB)], DSE, NOTE_PY, ['file system contents after the crash'])
prop('K04', 'Checkpoint discovery and removal pick exactly the right files',
     'iterate_complete_steps_for_prefix yields exactly the steps of the given prefix that have every required suffix, all their shards and no temporary file, in numeric order (or reversed); the latest is the largest such step or None; '
     'remove_checkpoints deletes exactly the matching files; shard suffixes are added and removed consistently; restoring several checkpoints gives each path its own content.',
     ['inputs', 'histories'], 'every subset of the stated file-name universes',
     'tests check five hand-written listings', [CB], [('iterate_complete_steps_for_prefix', CB), ('remove_checkpoints', CB), ('remove_shard_suffix', CB)], DSE, NOTE_PY, ['yielded steps', 'files left'])
prop('K05', 'Checkpoint serialization round-trips metadata and chunk data',
     'Slices, N-d slices, slice arrays, index entries (shape, dtype, weak type, slices, shards) and lazily chunked array data decode to what was encoded, for every integer or None bound, chunk size and sub-chunk limit; sub-chunks keep order, cover the chunk and respect the size limit.',
     ['inputs'], 'every slice bound, chunk size, sub-chunk limit within the bounds', 'tests encode a few objects; sub-chunk splitting needs sizes around the limit',
     [CS, CT], [('_msgpack_ext_pack', CS), ('_lazy_array_chunks_encode', CS), ('_array_chunks_decode', CS)], DSE, NOTE_PY, ['msgpack_restore(msgpack_serialize(x))'])
T = 'vmoe/train/'
prop('T01', 'Learning-rate schedules follow the configured shape at every step',
     'At every step the learning rate is the configured one: linear warmup from 0 to the peak, then the polynomial, linear, cosine, exponential or inverse-square-root '
     'decay with its cooldown, reaching the end value at decay_steps (the total number of steps by default) and staying there; it is never negative and never above '
     'the peak. Phases that do not fit and unknown schedules are rejected.',
     ['inputs', 'configurations'], 'every step count, within the listed configurations', 'tests evaluate a handful of steps',
     [T + 'schedule.py'], [('create_learning_rate_schedule', T + 'schedule.py'), ('big_vision_rsqrt_schedule', T + 'schedule.py'),
                           ('warmup_polynomial_decay_schedule', T + 'schedule.py')], SYM, NOTE, ['schedule(step)'])
prop('T02', 'The optimizer gives each parameter its own configured update',
     'For every gradient and parameter value the update is -lr * (optimizer(clip(scale * gradient)) + decay * that same parameter), with the scale and decay of the '
     'first matching pattern, whatever the key order; clipping bounds values or the global norm and keeps the direction; frozen parameters (or all but the trainable '
     'ones) never change; each step uses the learning rate of its own position; contradictory settings are rejected; reported norms are exact.',
     ['inputs', 'configurations', 'histories'], 'every gradient/parameter value, listed configurations, 3 consecutive steps',
     'tests use constant trees whose leaves are interchangeable', [T + 'optimizer.py', T + 'train_state.py'],
     [('create_optimizer', T + 'optimizer.py'), ('add_decayed_weights', T + 'optimizer.py'), ('gradient_scaling', T + 'optimizer.py'), ('gradient_clipping', T + 'optimizer.py'),
      ('freeze_weights', T + 'optimizer.py'), ('TrainState.apply_gradients_and_compute_global_norms', T + 'train_state.py')], SYM, NOTE, ['updates', 'new parameters'])
prop('T03', 'A training step uses every example once; microsteps equal the full batch',
     'One training step applies the gradient of (mean main loss + mean auxiliary loss) over the whole batch and reports these means; with microsteps every example is '
     'used exactly once and gradients and metrics equal those of the full batch, or the batch is rejected if it does not divide; random keys are fresh for every '
     'microstep and step and never reused; the step counter grows by one.',
     ['inputs', 'configurations', 'histories'], 'every image, label, parameter and noise value, batch and microstep counts within the bounds',
     'tests run one or two fixed batches', [T + 'trainer.py'], [('train_step', T + 'trainer.py'), ('accumulate_gradients_and_metrics', T + 'trainer.py'),
                                                               ('tree_rngs_split', 'vmoe/utils.py')], SYM, NOTE, ['new state', 'metrics'])
prop('T04', 'Mixup mixes images and labels with the same convex weights',
     'Mixup replaces each example by a convex combination of itself and the next examples of the same device, its own weight the largest, images and labels with the '
     'same weights, drawn per batch, device or example as configured; the train state given is not modified, the mixup key is refreshed, other keys are untouched; '
     'inconsistent shapes or settings are rejected.',
     ['inputs', 'configurations'], 'every image and label value and every point of the weight simplex', 'tests use a seeded draw',
     [T + 'trainer.py'], [('mixup', T + 'trainer.py'), ('wrap_train_step_with_mixup', T + 'trainer.py')], SYM, NOTE, ['images/labels given to the step', 'state'])
prop('T05', 'Training survives a crash at any point and ends complete',
     'Both training loops run each step once and in order with the next batch, call the hooks after each step with its parameters (and trigger them on the first and '
     'last step), label checkpoints with the number of updates and examples they contain, continue from the latest complete checkpoint after a crash at any point, stop '
     'at the requested step and leave a final checkpoint of the final state; epochs are converted to the smallest sufficient number of steps.',
     ['histories', 'crash_points', 'configurations'], 'every crash point (two in a row), training length and save interval within the bounds',
     'no test interrupts the training loop', [T + 'trainer.py', 'vmoe/projects/contrastive/trainer.py'],
     [('train_and_evaluate', T + 'trainer.py'), ('restore_or_create_train_state', T + 'trainer.py'), ('get_train_steps_and_epochs', T + 'trainer.py'),
      ('train_and_evaluate', 'vmoe/projects/contrastive/trainer.py')], DSE, NOTE_PY, ['checkpoint manager calls', 'hook calls'])
prop('P01', 'The logical mesh holds every device once, processes in contiguous blocks',
     'For every number of partitions and every device layout, get_auto_logical_mesh either rejects the request or returns a mesh with axes (expert, replica) and shape '
     '(num_partitions, devices/num_partitions) that contains every device exactly once, in which the devices of each process form one contiguous block, and which is the '
     'same on every process whatever the order of its device list.',
     ['configurations', 'configurations'], 'every number of partitions, process block, running process and device order within the bounds',
     'tests sample a few layouts', ['vmoe/partitioning.py'],
     [('get_auto_logical_mesh', 'vmoe/partitioning.py'), ('get_logical_mesh_tile_by_process', 'vmoe/partitioning.py'), ('get_hardware_mesh_tpu', 'vmoe/partitioning.py')],
     DSE, NOTE_PY, ['mesh devices array'])
prop('P02', 'Every array gets the sharding of the first pattern that matches its name',
     'tree_axis_resources_from_regexes returns a tree of the same structure in which every array of more than one element has the partition spec of the first pattern that '
     'matches anywhere in its slash-joined name (unpartitioned if none does) and every array of at most one element is replicated; parse_partition_spec accepts the '
     'documented forms.',
     ['inputs', 'configurations'], 'every shape, match relation and pattern order within the bounds', 'tests use one tree', ['vmoe/partitioning.py'],
     [('tree_axis_resources_from_regexes', 'vmoe/partitioning.py'), ('parse_partition_spec', 'vmoe/partitioning.py')], DSE, NOTE_PY, ['partition specs'])
prop('D01', 'Evaluation data is delivered exactly once in equal full batches',
     'For every number of examples, processes and batch size, evaluation pipelines deliver each (not filtered out) example exactly once over all processes, marked valid, '
     'in full batches, the same number on every process, padded with all-zero examples marked not valid; training pipelines repeat the share of each process forever, '
     'every pass delivering each example once; batch sizes that do not split evenly are rejected.',
     ['inputs', 'configurations'], 'every number of examples, filter outcome and batch size within the bounds', 'tests use a handful of sizes and no filter on several processes',
     ['vmoe/data/input_pipeline.py', 'vmoe/data/builder.py'],
     [('get_dataset', 'vmoe/data/input_pipeline.py'), ('_get_num_fake_examples', 'vmoe/data/builder.py'), ('as_dataset', 'vmoe/data/builder.py')], DSE, NOTE_PY,
     ['batches of every process'])
prop('D02', 'Prefetching delivers every batch once, in order, rows on the right devices',
     'prefetch_to_device yields exactly the batches of the iterator in order, whatever the buffer size, reads at most the buffer size ahead, and puts the rows of each '
     'process on its own devices so that the global array is the batch in row order; a batch that does not split evenly over the local devices is rejected.',
     ['inputs', 'histories'], 'every stream length, buffer size and stopping point within the bounds', 'tests use one buffer size', ['vmoe/data/pjit_utils.py'],
     [('prefetch_to_device', 'vmoe/data/pjit_utils.py'), ('put_to_devices', 'vmoe/data/pjit_utils.py')], DSE, NOTE_PY, ['yielded arrays', 'elements taken'])
prop('D03', 'Preprocessing operations compute what they say for every image and label',
     'value_range maps linearly (clipped if asked), onehot marks exactly the labels present, crops and resizes give the requested size and keep the stated region and '
     'aspect ratio, flips mirror or keep the image, keep/copy/reshape/flatten change only what they name, and a pipeline applies its operations in order.',
     ['inputs'], 'every pixel value, image size and label within the bounds', 'tests use a few fixed images', ['vmoe/data/pp_ops.py', 'vmoe/data/input_pipeline.py'],
     [('value_range', 'vmoe/data/pp_ops.py'), ('onehot', 'vmoe/data/pp_ops.py'), ('central_crop', 'vmoe/data/pp_ops.py'), ('resize_small', 'vmoe/data/pp_ops.py'),
      ('get_data_process_fn', 'vmoe/data/input_pipeline.py')], SYM, NOTE, ['processed example'])
prop('E01', 'Evaluation metrics are averages over exactly the valid examples',
     'Each periodic evaluation reports, per dataset, the loss and precision averaged over exactly the valid examples of all batches, starting afresh for each dataset and '
     'each evaluation (iterators are reset), with new noise for every batch and PRNG name, and never uses a donated buffer again; extra values are passed on.',
     ['inputs', 'histories'], 'every image, label, parameter and validity mask within the bounds', 'tests use one dataset and one mask', ['vmoe/evaluate/evaluator.py'],
     [('EvaluateMultipleDatasets', 'vmoe/evaluate/evaluator.py'), ('evaluate_step', 'vmoe/evaluate/evaluator.py')], SYM, NOTE, ['metrics written'])
prop('E02', 'Ensemble losses and predictions average the members of each example',
     'Training losses are the cross-entropy of every member against the labels of its own example; evaluation losses are the cross-entropy of the averaged probabilities of '
     'the members of each example, finite when an impossible class has a zero label; the predicted label is the class of largest averaged probability; losses without '
     'ensemble are the plain cross-entropies and unknown names are rejected.',
     ['inputs'], 'every logit and label within the bounds', 'tests compare a few random arrays', ['vmoe/evaluate/ensemble.py', T + 'trainer.py'],
     [('_ensemble_log_mean', 'vmoe/evaluate/ensemble.py'), ('ensemble_softmax_xent_eval', 'vmoe/evaluate/ensemble.py'), ('get_loss_fn', T + 'trainer.py')], SYM, NOTE,
     ['loss values', 'predicted labels'])
prop('E03', 'Few-shot evaluation uses the right examples and reports the best regulariser',
     'For every shot and seed the regression is trained on exactly min(shots, available) different valid training examples of every class with their own labels and tested '
     'on exactly the valid test examples; predictions are those of ridge regression; the regulariser chosen per shot is one with the best mean rank over data sets and '
     'the reported accuracies (main task averaged over seeds) are those of that regulariser; data sets are reset after use.',
     ['inputs', 'configurations'], 'every label, validity mask, accuracy, test feature and regulariser within the bounds', 'tests use fixed features and no padding',
     ['vmoe/evaluate/fewshot.py'],
     [('FewShotPeriodicAction', 'vmoe/evaluate/fewshot.py'), ('_compute_fewshot_metrics', 'vmoe/evaluate/fewshot.py'), ('_find_best_l2_reg', 'vmoe/evaluate/fewshot.py'),
      ('_precompute_cache', 'vmoe/evaluate/fewshot.py')], DSE, NOTE_PY, ['training and test sets of the regression', 'metrics written'])
CT = 'vmoe/projects/contrastive/'
prop('E04', 'Evaluation hooks run when due and show image-text evaluators one modality',
     'Evaluation, few-shot, retrieval and zero-shot hooks run exactly on the first, the last, the configured and the periodic steps, with the parameters of that step and one '
     'deterministic model built from the configuration and its overrides; few-shot and image-text evaluators give the model images only or texts only (anything else is '
     'refused) and get the embedding back in its place; every metric of every task is written once under its own name.',
     ['schedules', 'configurations'], 'every first and last step, period and configured set of steps within the bounds', 'the contrastive hooks are tested with one step',
     ['vmoe/train/trainer.py', CT + 'trainer.py', CT + 'evaluators.py'],
     [('create_evaluation_hook', 'vmoe/train/trainer.py'), ('create_retrieval_hook', CT + 'trainer.py'), ('create_zeroshot_hook', CT + 'trainer.py'),
      ('RetrievalPeriodicAction', CT + 'evaluators.py')], DSE, NOTE_PY, ['hook calls', 'written scalars'])
A = 'vmoe/projects/adversarial_attacks/'
I = 'vmoe/initialization/'
prop('A01', 'A PGD attack takes sign-gradient steps and stays within the pixel budget',
     'The stateless PGD attack updates every pixel by the step size times the sign of the gradient of the (auxiliary-loss-including) loss at the current image, with fresh '
     'noise per update, keeps every pixel within the budget of the original and within the valid range, leaves labels and parameters alone, and the train step wrapped with '
     'it trains on exactly those images.',
     ['inputs'], 'every image, label, weight, budget and noise draw within the bounds', 'tests run a few random images', [A + 'attacks.py', T + 'trainer.py'],
     [('stateless_attack_pgd', A + 'attacks.py'), ('wrap_train_step_with_adversarial_attack', T + 'trainer.py'), ('get_loss_including_auxiliary_fn', A + 'restore.py')],
     SYM, NOTE, ['attacked images', 'train state'])
prop('A02', 'Attack statistics count every valid example once and the experts tokens receive',
     'The accumulated attack statistics (number of images, changed and correct predictions, losses, routing changes) are sums over exactly the valid examples of all batches; '
     'the combine weights they compare are the weights with which each token really receives each expert (dropped assignments count as zero); stored examples are the '
     'attacked ones of the batch.',
     ['inputs', 'histories'], 'every loss, prediction, routing weight and validity mask within the bounds', 'tests use a fixed batch', [A + 'attacks.py', A + 'restore.py', A + 'lib.py'],
     [('stateful_attack', A + 'attacks.py'), ('AttackState', A + 'attacks.py'), ('get_combine_weights', A + 'restore.py'), ('run_pgd_attack', A + 'lib.py')], SYM, NOTE,
     ['attack state', 'files written'])
prop('I01', 'Initialization rules put the right source arrays into every target array',
     'Mapping a checkpoint onto a target by rules: the first matching rule decides for each source array, the target gets exactly that array transformed as documented '
     '(reshape, stack, expand, zoom position embeddings, ...) with its own dtype and sharding, other targets stay as they were, and unmatched sources or targets are '
     'reported if and only if the flags ask for it.',
     ['inputs', 'configurations'], 'every array value, tree and flag within the bounds', 'tests use a few trees', [I + 'mapping.py', I + 'rules.py'],
     [('map_state_dict', I + 'mapping.py'), ('Rules', I + 'rules.py')], SYM, NOTE, ['target tree', 'errors raised'])
prop('I02', 'Training starts from the latest checkpoint, else pre-trained plus fresh arrays',
     'A run resumes the latest complete checkpoint at its position in the data if there is one; otherwise every array that a rule maps to comes from the pre-trained '
     'checkpoint (V-MoE, ViT or Orbax) and every other one is freshly initialized from the seed, each parameter with its own draw and each PRNG name with its own unused '
     'key, all with the sharding the patterns ask for.',
     ['inputs', 'configurations'], 'every array value and draw within the bounds', 'tests mock the parts', [T + 'trainer.py', I + 'initialization.py'],
     [('restore_or_create_train_state', T + 'trainer.py'), ('create_or_reuse_train_state', T + 'trainer.py'), ('make_create_train_state_fn', T + 'trainer.py'),
      ('initialize_from_vmoe', I + 'initialization.py'), ('initialize_from_orbax', I + 'initialization.py')], SYM, NOTE, ['train state', 'checkpoint reads'])
C = 'vmoe/projects/contrastive/'
prop('C01', 'Contrastive training scores every image-text pair and updates from all of them',
     'The sigmoid loss of an image is minus the log-likelihood that it belongs to its own text and to no other text of the batch; the two-tower logits are scale times '
     'cosine of the embeddings plus bias, each tower seeing only its own input; one training step is one optimizer update with the gradient of the reported total loss '
     '(auxiliary loss included), microsteps using every pair once, with fresh noise; text representations are the pooled token sequence.',
     ['inputs'], 'every image, text, logit, parameter and noise value within the bounds', 'the loss and train step have no tests', [C + 'trainer.py', C + 'models.py'],
     [('sigmoid_loss', C + 'trainer.py'), ('train_step', C + 'trainer.py'), ('TwoTower', C + 'models.py'), ('TextTransformer', C + 'models.py')], SYM, NOTE,
     ['loss', 'train state', 'logits'])
prop('M12', 'Vision transformers assemble patches, residual blocks and experts as documented',
     'The (ensemble) vision transformer embeds disjoint patches, adds the class token first and the configured position embedding, applies pre-norm residual blocks '
     '(attention, then a dense perceptron or, exactly in the configured layers, experts), a final norm, the configured pooling and head; ensembles repeat every example '
     'once per member before the first expert layer; the auxiliary loss is the sum over the expert layers; rates, heads, noise and determinism reach every layer, and '
     'experts share initial parameters and dropout unless split_rngs says otherwise.',
     ['inputs', 'configurations'], 'every image within the bounds', 'tests look at shapes and a few values', ['vmoe/nn/vit_moe.py', 'vmoe/nn/vit_moe_ensemble.py'],
     [('VisionTransformerMoe', 'vmoe/nn/vit_moe.py'), ('EncoderMoe', 'vmoe/nn/vit_moe.py'), ('EncoderBlock', 'vmoe/nn/vit_moe.py'), ('MlpMoeBlock', 'vmoe/nn/vit_moe.py'),
      ('EncoderMoeEnsemble', 'vmoe/nn/vit_moe_ensemble.py')], SYM, NOTE, ['logits', 'metrics'])
prop('T06', 'Training reports carry the configured summaries, from one process, when due',
     'Array summaries apply the configured operations over the configured axes, in order, to every array (gradients of the step, state after it) whose name a rule matches, '
     'with unambiguous names, and refuse too many values or unknown operations; progress is reported exactly at the listed, periodic (in steps or seconds) and last steps, never at the first call, by the '
     'configured process only, with every metric under its full name; profiling runs on process 0 unless all are asked for.',
     ['inputs', 'schedules'], 'every array value, process, first step and time within the bounds', 'tests sample a few values', [T + 'tree_summarizer.py', T + 'periodic_actions.py', T + 'trainer.py'],
     [('TreeSummarizer', T + 'tree_summarizer.py'), ('ReportProgress', T + 'periodic_actions.py'), ('SingleProcessPeriodicAction', T + 'periodic_actions.py'),
      ('create_progress_hook', T + 'trainer.py'), ('train_step', T + 'trainer.py')], SYM, NOTE, ['written scalars'])
prop('U01', 'Strict zip, regex lists, NaN-safe product, call strings and PRNG keys are exact',
     'safe_zip and safe_map yield elements together, lazily, and report (never truncate) different lengths; a list of regexes matches a text exactly if one of them is found '
     'in it, whatever the others are; multiply_no_nan is the product, and 0 with finite gradients if the first factor is 0; a call string gives the named callable and '
     'its literal arguments, and anything else is refused; make_rngs and tree_rngs_split give distinct unused keys, a function of the seed or key; partial classes put '
     'given arguments first and let keywords be overridden.',
     ['inputs', 'histories'], 'every length, text, number and key within the bounds', 'tests sample a few values', ['vmoe/utils.py'],
     [('SafeZipIterator', 'vmoe/utils.py'), ('make_match_fn_from_regex_list', 'vmoe/utils.py'), ('multiply_no_nan', 'vmoe/utils.py'), ('parse_call', 'vmoe/utils.py'),
      ('tree_rngs_split', 'vmoe/utils.py')], SYM, NOTE, ['returned values'])
#NEXT#
prop('N01', 'Execution sharded over many devices equals execution on one device',
     'For every mesh and sharding of parameters and data, the compiled multi-device train and eval steps compute the values of the single-device program.',
     ['configurations'], 'every mesh and sharding', 'tests run on one CPU device', ['vmoe/moe.py', 'vmoe/partitioning.py'], [('with_sharding_constraint', 'vmoe/partitioning.py')], '', '', ['outputs'])
prop('N02', 'Transport solvers converge to a plan with the documented marginals',
     'The entropic, sparse and sparsity-constrained optimal-transport solvers used by the routers return plans that meet their marginal constraints up to the tolerance.',
     ['inputs'], 'every token and expert representation', 'tests use one random matrix', ['vmoe/projects/sparsity_constrained_ot/ot_routing.py'],
     [('ot_routing', 'vmoe/projects/sparsity_constrained_ot/ot_routing.py')], '', '', ['transport plan'])
NA.append(dict(property='N01', reason='the computation is done by XLA\'s SPMD partitioner and collectives (compiled C++), not by code of this repository; its layout annotations are '
               'covered by P02 and the one-device semantics by M11/T03'))
NA.append(dict(property='N02', reason='fixed-point iteration in floating point up to a tolerance inside ott/jaxopt: convergence is not a bounded property of terms; M10 checks the '
               'routers for an arbitrary plan instead'))


def main():
  with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for q in PROPS:
      f.write(json.dumps(q['p']) + '\n')
  man = dict(version=1, setup_cmd='bash setup.sh', checks=[], not_applicable=NA,
             notes='Every check: bash run.sh <ID>. Replays: bash run.sh <ID> --replay <file>.')
  na = {n['property'] for n in NA}
  for q in PROPS:
    i = q['p']['id']
    if i in na:
      continue
    man['checks'].append(dict(property=i, quick_cmd='bash run.sh %s --tier quick' % i, thorough_cmd='bash run.sh %s --tier thorough' % i,
                              evidence_file='evidence/%s.json' % i, technique=q['technique'], level='other', level_note=q['note']))
  with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
  for q in PROPS:
    assert len(q['p']['title']) <= 80, q['p']['title']


main()
