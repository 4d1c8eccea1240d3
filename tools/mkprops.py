#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files,
                          'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                          'mechanism': [dict(zip(('name', 'where'), m)) for m in mech],
                          'observe_at': list(observe), 'hook_needed': hook}})

p('C01', 'Worker pool: every task runs exactly once, and destruction waits for all',
  'Every task handed to the worker pool runs exactly once, tasks are taken in submission order, and an idle worker takes a waiting task even while other tasks are blocked. Destroying the pool returns only after every submitted task has finished and every worker has exited. There is no deadlock and no lost wake-up for any number of workers (at least one), tasks and any interleaving, spurious wake-ups included.',
  ['schedules'], 'all interleavings of the submitting thread and the workers, all worker and task counts',
  'The pool has no test of its own; other tests run it under whatever schedule the machine happens to produce.',
  ['src/utils/threadpool.cc', 'src/utils/threadpool.h'],
  [('queue guarded by one mutex, condition with predicate', 'ThreadPool::Invoke / Enqueue'), ('drain before exit, join all', 'ThreadPool::ShutDown')],
  [('tasks_', 'waiting tasks, FIFO', 'ThreadPool'), ('to_be_shutdown_', 'destruction has begun', 'ThreadPool')],
  ['Enqueue call/return', 'task start/end', 'destructor call/return'])

p('C02', 'Lazily loaded columns are loaded consistently under concurrent access',
  'When several threads ask a flat-file store for columns at the same time, every request for a given column returns the same column, complete and still valid for as long as the store lives, exactly as if the requests had been made one after another in some order. A column whose length differs from the columns loaded before it is refused in every such order, and no request deadlocks or crashes.',
  ['schedules'], 'all interleavings of concurrent lookups of the same and of different columns',
  'The flat-file test looks columns up from one thread only.',
  ['src/data_store/flatfiles_data_store.cc', 'src/data_store/flatfiles_data_store.h', 'src/gbdt_algo/utils.cc'],
  [('mutex around the column map', 'FlatfilesDataStore::GetColumn / LoadColumn')],
  [('column_map_', 'columns loaded so far', 'DataStore')], ['FlatfilesDataStore::GetColumn', 'LoadFeatures'])

p('C03', 'A data store is a consistent table under every history of operations',
  'After any history of additions and removals, every column present has the same number of rows, names are unique, and each column keeps the type, identity and content it was added with until it is removed. An addition that is refused (duplicate name, different row count) reports an error and changes nothing. Row count, column count, the per-type listings and the typed lookups (which answer only for the column\'s own type) always agree with each other.',
  ['histories'], 'all sequences of add/remove/lookup calls over all names, types and lengths, empty columns included',
  'Unit tests try one duplicate and one mismatching column on one store.',
  ['src/data_store/data_store.cc', 'src/data_store/data_store.h'],
  [('checks before insertion', 'DataStore::Add'), ('type check on lookup', 'DataStore::Get*Column')],
  [('column_map_', 'name to column', 'DataStore')], ['DataStore public API'])

p('C04', 'String columns reproduce every row exactly',
  'A string column gives back, row by row, exactly the strings added to it, in order and across any division into batches, whatever the number of distinct strings. Equal strings share one category and different strings never do, category and string lookups are inverse to each other, and the category 0 (missing) is used for the string "__missing__" and nothing else.',
  ['inputs'], 'all string sequences, batch divisions and dictionary sizes, in particular around the 8/16/32 bit encoding limits',
  'Tests encode a handful of strings; the encoding width changes at 256 and 65536 categories.',
  ['src/data_store/column.cc', 'src/data_store/column.h'],
  [('dictionary', 'StringColumn::Add'), ('width selection', 'StringColumn::Finalize')],
  [('map_to_strings_, map_to_indices_', 'dictionary', 'StringColumn')],
  ['get_row_string, col(), max_int, get_cat_string, get_cat_index'])

p('C05', 'Bucketizing a float column preserves order, bounds and missing values',
  'For finite values and any division into batches, every row of a bucketized column lies within the [min, max] of its bucket, buckets are disjoint and ordered like the values they hold (so a larger value never lands in a lower bucket and equal values share a bucket), and NaN and only NaN is missing. While fewer rows than twice the bucket budget are used to build the buckets the column is lossless: each distinct value has a bucket of its own. A value that makes up at least an average bucket\'s share of those rows is always the upper end of its bucket; a bucket holding several other values holds fewer of those rows than an average share plus an average share of what the heavy values leave, and there are at most about twice the budgeted number of buckets.',
  ['inputs'], 'all finite float sequences, bucket budgets and batch divisions, in particular around the encoding widths and the moment the buckets get built',
  'Tests bucketize a few short vectors; budgets, heavy values, ties, batches after the build and widths interact.',
  ['src/data_store/column.cc', 'src/data_store/column.h'],
  [('quantile buckets', 'BucketizedFloatColumn::BuildBuckets'), ('upper bound lookup', 'AddBucketizedVecHelper')],
  [('bucket_maxs_, bucket_mins_', 'bucket bounds', 'BucketizedFloatColumn'), ('buffer_', 'rows kept until the buckets are built', 'BucketizedFloatColumn')],
  ['get_row_min/max, get_bucket_min/max, col(), max_int'])

p('C06', 'Columns accept rows only until they are finalized',
  'A string or bucketized column takes any number of batches and is then finalized once; batches offered after that, and a second finalization, are refused with an error and leave every row readable and unchanged. Once a column has an error it keeps it, and nothing later changes its rows. Any division of the same rows into batches before finalization gives a column of the same length and, for string columns and columns whose buckets are built from all rows, the same content.',
  ['histories'], 'all sequences of batch additions and finalizations of string and bucketized columns',
  'Tests add once or twice and finalize once.',
  ['src/data_store/column.cc', 'src/data_store/column.h'],
  [('finalized_ flag and sticky status_', 'StringColumn / BucketizedFloatColumn Add, Finalize')],
  [('status_', 'first error', 'Column'), ('finalized_', 'no more rows', 'IntegerizedColumn')], ['Add, Finalize, status, row accessors'])

p('C07', 'Loading TSV blocks equals concatenating them, for any thread timing',
  'Loading a list of TSV blocks gives columns whose rows are those of the blocks in list order, with each requested column taken from its own header position and only the first block\'s header skipped; the result does not depend on the number of threads or their timing. If a block is unreadable, a requested column is absent, a row is too short or a number is malformed, loading reports an error and never returns a partly filled store as success. Missing-value markers in float columns become missing, empty lines are skipped, and a column requested more than once is loaded once.',
  ['schedules', 'inputs', 'configurations'], 'all block contents and divisions, column selections, thread counts and interleavings of readers and column builders',
  'Tests load three small files once with the default threads.',
  ['src/data_store/tsv_data_store.cc', 'src/data_store/tsv_block.cc', 'src/utils/utils.cc'],
  [('blocks read concurrently, processed in order through promises', 'TSVDataStore::LoadTSVs'), ('one task per column and block, pool joined per block', 'TSVDataStore::ProcessBlock')],
  [('blocks', 'promise per block', 'LoadTSVs')], ['TSVDataStore columns and status'])

p('C08', 'Flat files load with the declared type, from the first directory having them',
  'A flat-file column has the type its first line declares and exactly the file\'s rows in order: comment lines are skipped, a last line counts with or without its newline, text that is no number is missing in float columns, and lines are otherwise verbatim. With several directories the first one containing the file wins. A file that is absent, of unknown type, or of a different length than the columns already loaded is refused, without affecting the other columns.',
  ['inputs', 'histories'], 'all file contents, directory lists and orders of lookups',
  'Tests read three well-formed files from one directory.',
  ['src/data_store/flatfiles_data_store.cc', 'src/utils/utils.cc'],
  [('type line dispatch', 'FlatfilesDataStore::LoadColumn'), ('directory search', 'FindFlatfile')],
  [('flatfiles_dirs_', 'search path', 'FlatfilesDataStore')], ['FlatfilesDataStore::GetColumn and row accessors'])

p('C09', 'Routing rows through a split loses, duplicates and misplaces none',
  'Splitting a set of rows by any split (of a string column by categories, of a bucketized column by a threshold) sends every row to exactly one side: for a float split the rows whose value (the upper end of its bucket, where the column is lossy) is below the threshold go left, the others right, and missing rows to the side the split names; for a categorical split exactly the rows whose category is listed go left. Both sides together are a permutation of the rows given, and no row outside the given range is touched.',
  ['inputs'], 'all columns, splits (categories unknown to the data, thresholds outside the range, missing values) and row subsets',
  'Tests partition one small column with one split per kind.',
  ['src/gbdt_algo/split_algo.cc', 'src/utils/vector_slice.h'],
  [('in-place partition', 'Partition')], [('samples', 'slice of row numbers', 'VectorSlice')], ['Partition'])

p('C10', 'The best split of a feature is optimal and its reported gain is real',
  'For any rows, weights, gradients and settings, the split found for a float feature has the largest gain over all thresholds and both sides for missing rows, and for a categorical feature the largest over all groupings by score order (hence over all category subsets when unregularized and unconstrained). The reported gain is the gain of the partition the split actually makes on those rows, both sides exceed the minimum hessian, and the gain exceeds the minimum gain; no split is reported exactly when no candidate qualifies.',
  ['inputs', 'configurations'], 'all columns, weights, gradients, hessians, regularization, minimum gain and minimum hessian',
  'Tests check a few hand-computed splits; zero sums, ties, missing values, weights and close or extreme values are not covered.',
  ['src/gbdt_algo/split_algo.cc', 'src/loss_func/gradient_data.h'],
  [('histogram scan', 'FindBestSplitPoint'), ('score order', 'FindBestStringSplit')],
  [('histograms_', 'gradient sums per bucket', 'Histogram')], ['FindBestSplit followed by Partition'])

p('C11', 'Trees grow best-first within the leaf limit, with exact leaf scores',
  'A tree fitted to gradients has at most the configured number of leaves and at least one node; leaves are split in order of decreasing gain over all features offered, and growth stops only at the limit or when no leaf has an admissible split. Every node\'s score is the weighted gradient sum of the rows routed to it divided by their weighted hessian sum plus the regularization, and every recorded gain is that of its split on those rows.',
  ['inputs', 'configurations'], 'all data, gradients, weights, leaf limits, regularization, minimum gain and hessian',
  'Tests fit one or two small trees.',
  ['src/gbdt_algo/tree_algo.cc', 'src/gbdt_algo/split_algo.cc'],
  [('priority queue on gain', 'FitTreeToGradients'), ('feature arg max', 'FindBestFeatureAndSplit')],
  [('node_queue', 'leaves of the tree so far', 'FitTreeToGradients')], ['FitTreeToGradients'])

p('C12', 'Boosting: each step sees exactly the forest built so far',
  'In every iteration the loss function is given, for every row, the sum over the forest built so far (base forest, earlier trees as they will be output, and all constants); the final forest predicts exactly that sum after the last iteration. The output holds one constant tree, the base forest\'s trees unchanged and unscaled, and one new tree per iteration whose scores are the fitted ones times the learning rate, and the constants are never scaled (all of it exact up to the precision of the stored scores). A diverging loss stops training with an error.',
  ['histories', 'configurations'], 'all numbers of iterations, base forests, learning rates, sampling rates and loss behaviours',
  'Tests compare three trees of one data set with a stored model.',
  ['src/gbdt_algo/gbdt_algo.cc', 'src/gbdt_algo/compute_tree_scores.cc'],
  [('running function values', 'TrainGBDT'), ('constant tree', 'TrainGBDT'), ('ApplyShrinkage', 'gbdt_algo.cc'), ('InitializeWithBaseForest', 'gbdt_algo.cc')],
  [('f', 'current function value per row', 'TrainGBDT'), ('constant_tree', 'accumulated constants', 'TrainGBDT')],
  ['LossFunc::ComputeFunctionalGradientsAndHessians arguments', 'output forest'])

p('C13', 'Prediction is the sum of the leaves each row reaches',
  'The score of a row is the sum, over all trees of the forest, of the score of the one leaf the row is routed to. It depends on that row\'s values and the forest only: not on the other rows, their order, the number of threads, their timing, or earlier predictions on the same store.',
  ['inputs', 'schedules'], 'all forests, data, row orders, thread counts and interleavings',
  'Tests score one small data set with one forest.',
  ['src/gbdt_algo/compute_tree_scores.cc', 'src/gbdt_algo/evaluation.cc', 'src/gbdt_algo/split_algo.cc', 'src/utils/subsampling.cc'],
  [('disjoint slices of rows, one task each', 'ComputeTreeScores')],
  [('allsamples_, slices_', 'row numbers divided among tasks', 'ComputeTreeScores')], ['EvaluateForest'])

p('C14', 'Checkpoint scores are the scores of the forest cut at that tree',
  'Evaluating at a list of checkpoints, in any order and with repetitions, writes for each checkpoint between 1 and the size of the forest one file with the scores of the forest made of its first so many trees, one row per line in row order (to the six digits printed), and nothing for any other number. Evaluation intervals yield the checkpoints counted down from the full forest in steps of the interval, always including the full forest. A checkpoint file that cannot be written is an error.',
  ['inputs', 'histories'], 'all checkpoint lists, forests and evaluation intervals',
  'Tests do not cover checkpoint files at all.',
  ['src/gbdt_algo/evaluation.cc', 'src/gbdt_algo/utils.cc'],
  [('running scores written at each checkpoint', 'EvaluateForest'), ('GetTestPoints', 'utils.cc')],
  [('test_points', 'checkpoints still to write', 'EvaluateForest')], ['files in the output directory', 'GetTestPoints'])

p('C15', 'Training is reproducible: same inputs, seed and threads give the same model',
  'Training twice with the same data, configuration, random seed and number of threads gives exactly the same forest (apart from the time stamp in its description), whatever the timing of the threads and whatever was trained before in the same process. This holds for every loss function, with sampling of rows, features and pairs.',
  ['schedules', 'histories', 'configurations'], 'all interleavings of the worker threads, all loss functions and sampling settings, any earlier use of the process',
  'Tests train once; a data race shows only under particular timings.',
  ['src/gbdt_algo/gbdt_algo.cc', 'src/gbdt_algo/tree_algo.cc', 'src/loss_func/loss_func_pairwise.cc', 'src/loss_func/loss_func_pointwise.cc', 'src/utils/subsampling.cc'],
  [('results per slice, summed in order', 'ComputeWeightedSum, Pointwise, Pairwise'), ('seeding', 'Subsampling::Reseed')],
  [('generator_', 'random generator', 'Subsampling')], ['TrainGBDT output'])

p('C16', 'The number of threads does not change what is computed',
  'The number of threads only divides the work: with gradients whose sums are exact in floating point the trained forest is identical for every number of threads, and constants, gradients and predictions of the built-in losses agree up to rounding. This includes thread counts larger than the number of rows, groups or features.',
  ['configurations', 'inputs'], 'all thread counts from 1 upwards, all data sizes',
  'Tests run with the default of 16 threads only.',
  ['src/utils/subsampling.cc', 'src/gbdt_algo/tree_algo.cc', 'src/loss_func/loss_func_pointwise.cc', 'src/loss_func/loss_func_pairwise.cc', 'src/gbdt_algo/compute_tree_scores.cc'],
  [('division into slices covering everything once', 'Subsampling::DivideSamples')],
  [('slices_', 'work items', 'Pointwise, Pairwise, ComputeTreeScores')], ['TrainGBDT, ComputeFunctionalGradientsAndHessians, EvaluateForest with different FLAGS_num_threads'])

p('C17', 'Models are portable: JSON round trip and other data keep their meaning',
  'Writing a forest as JSON and reading it back gives the same forest, bit for bit in every score and threshold (but for the sign of a zero), and the same predictions. A forest means the same on every data set: categories are matched by their strings whatever order the data set lists them in, categories unknown to a data set match no row, and categories unknown to the forest follow the right-hand branch; a trained model carries no data-set-specific encodings.',
  ['inputs'], 'all forests and all encodings of the same data',
  'Tests convert one config and one forest; evaluation uses the training data only.',
  ['src/utils/json_utils.cc', 'src/gbdt_algo/gbdt_algo.cc', 'src/gbdt_algo/split_algo.cc', 'src/proto/tree.proto'],
  [('category strings in splits', 'FindBestFeatureAndSplit'), ('ClearInternalFields', 'gbdt_algo.cc')],
  [('category, internal_categorical_index', 'portable and internal form of a categorical split', 'tree.proto')], ['JsonUtils::ToJson/FromJson', 'EvaluateForest on permuted data'])

p('C18', 'Pair sampling draws exactly the ordered pairs of a group, uniformly',
  'For ranking losses a pair consists of two rows of the same group, the first with strictly larger target; every such pair can be drawn and all are equally likely, and nothing else is ever drawn. Each row belongs to the group its group value names (one group if there is no group column), and groups without any such pair are left alone. Per iteration a group gets a share of the draws configured by the pair sampling rate in proportion to its number of pairs. Re-ranking orders a group\'s rows by decreasing current score without changing its membership or pairs.',
  ['inputs', 'histories'], 'all group divisions, target multisets (ties included), scores and generator states',
  'Tests sample one group of a few rows and look at averages.',
  ['src/loss_func/group.cc', 'src/loss_func/group.h', 'src/loss_func/loss_func_pairwise.cc'],
  [('pair index to pair', 'Group::SamplePair'), ('group construction', 'Pairwise::Init'), ('Group::Rerank', 'group.cc')],
  [('pair_map_', 'accumulated pair counts per target block', 'Group'), ('ranks_', 'rank per row of the group', 'Group')], ['Group', 'per pair callback of Pairwise'])

p('C19', 'Pairwise gradients: opposite, group-local, weighted as configured',
  'Each sampled pair adds to its better row and subtracts from its worse row the same weighted gradient and adds the same weighted curvature to both, evaluated at the two rows\' current score difference; rows in no sampled pair get zero and nothing carries over from earlier iterations. The weight of a pair is the product of both row weights, the target difference if configured (for LambdaMART the target difference times the change in discount of the current ranks), and, if groups are to count equally, a factor inverse to the group\'s number of pairs (the largest number of pairs of any group over its own). The loss reported is the weighted mean over the pairs drawn.',
  ['inputs', 'histories', 'configurations'], 'all data, weights, groups, scores, iterations and weighting settings',
  'Tests look at averages over one or two groups with unit weights in a first iteration.',
  ['src/loss_func/loss_func_pairwise.cc', 'src/loss_func/loss_func_lambdamart.cc', 'src/loss_func/loss_func_auc.h', 'src/loss_func/loss_func_gbrank.h', 'src/loss_func/loss_func_pairwise_logloss.h'],
  [('per pair accumulation', 'Pairwise::ComputeFunctionalGradientsAndHessians'), ('PairWeightingFunc', 'Pairwise, LambdaMART')],
  [('gradient_data_vec', 'gradient and hessian per row', 'caller')], ['per pair loss callback and resulting gradients'])

p('C20', 'Pointwise losses: constant step balances the gradients, rows are independent',
  'For a pointwise loss the constant returned balances the weighted gradients (their weighted sum is zero up to the convergence tolerance, wherever the loss has curvature and a best constant exists, i.e. not for one-sided logistic targets), and each row\'s gradient and hessian are the loss derivatives of that row\'s own target at its current score plus the constant (up to the last, converged, correction of it), and the loss reported is the weighted mean (and the reduction reported the one from the first such loss). They do not depend on the previous content of the output, the order of rows or the number of threads, a row of weight zero influences nothing, and a row of weight k counts like k equal rows.',
  ['inputs', 'configurations', 'histories'], 'all targets, weights, current scores, row orders, thread counts and repeated calls',
  'Tests evaluate each loss on one short vector with unit weights.',
  ['src/loss_func/loss_func_pointwise.cc', 'src/loss_func/loss_func_math.cc', 'src/loss_func/loss_func_logloss.cc', 'src/loss_func/loss_func_huberized_hinge.cc', 'src/loss_func/loss_func_mse.h'],
  [('Newton steps on the constant', 'Pointwise::ComputeFunctionalGradientsAndHessians')],
  [('c', 'constant', 'caller'), ('slices_', 'rows per task', 'Pointwise')], ['ComputeFunctionalGradientsAndHessians'])

p('C21', 'Invalid input is refused with an error, never with a crash or a bogus model',
  'A configuration or input that cannot be trained on or evaluated (non-positive tree or leaf counts, sampling rates outside (0,1], unknown loss function, non-binary targets for classification losses, non-positive pair sampling, a feature, group or base-forest column that is missing, a group column or a split of the forest whose column has another type, missing group values, malformed JSON) makes the library call return an error and leaves the data store usable. Every combination of settings within the documented ranges is accepted and terminates with a forest of the documented size.',
  ['configurations', 'inputs', 'histories'], 'all combinations of settings and defects, and valid calls following a refused one on the same store',
  'Tests check single settings in isolation, and few of the error paths.',
  ['src/gbdt_algo/utils.cc', 'src/gbdt_algo/gbdt_algo.cc', 'src/gbdt_algo/evaluation.cc', 'src/loss_func/loss_func_factory.cc', 'src/loss_func/loss_func_logloss.cc', 'src/loss_func/loss_func_pairwise.cc', 'src/utils/json_utils.cc'],
  [('CheckConfig', 'utils.cc'), ('LoadFeatures', 'utils.cc'), ('Init of each loss', 'loss_func/*')],
  [('status', 'result of each call', 'API')], ['TrainGBDT, EvaluateForest, JsonUtils, LossFuncFactory'])

p('C22', 'Feature importance is the normalized total gain of the splits made',
  'The importance of a feature is the sum of the gains of all splits on it in the forest divided by the largest such sum: the list contains every feature used by some split once and no other, in non-increasing order, starting with 1 (unless no gain is recorded at all). The features collected from a forest for loading are exactly those its splits name.',
  ['inputs'], 'all forests',
  'Tests compute the importance of one small forest.',
  ['src/gbdt_algo/utils.cc'],
  [('ComputeFeatureImportance, CollectAllFeatures', 'utils.cc')], [('feature_importance_map', 'sum of gains', 'ComputeFeatureImportance')], ['ComputeFeatureImportance', 'CollectAllFeatures'])

p('C23', 'Sampling and work division: sorted subsets at the given rate, exact covers',
  'Subsampling n items at a rate returns strictly increasing indices below n, all of them at rate 1, each index with probability equal to the rate independently of the others, and the same indices again after the same seed. Dividing items among any positive number of workers gives consecutive ranges that cover every item exactly once in order and differ in size by at most one.',
  ['inputs', 'histories'], 'all sizes, rates, seeds, group counts and preceding draws',
  'Tests divide two sizes and sample once.',
  ['src/utils/subsampling.cc', 'src/utils/subsampling.h', 'src/utils/vector_slice.h'],
  [('UniformSubsample, DivideSamples', 'subsampling.cc')], [('generator_', 'random generator', 'Subsampling')], ['Subsampling public API'])

p('C24', 'Python sessions: stores, training, prediction and models behave as one system',
  'Through the Python package, any sequence of building stores (from columns or TSVs), adding, erasing and reading columns, training, continuing from a base forest, predicting, predicting at checkpoints and saving and reloading models behaves as the operations on tables and forests it names: every failure surfaces as an exception and leaves all objects as they were, a copy or slice has the rows named, and predictions depend only on the forest and the rows. Column handles stay readable as long as they are referenced, and no sequence crashes the interpreter.',
  ['histories'], 'all sequences of calls of the Python interface, failing ones included',
  'There are no tests of the Python package.',
  ['gbdt/_data_store.py', 'gbdt/_forest.py', 'gbdt/_gbdt.py', 'src/python/datastore_py.cc', 'src/python/forest_py.cc', 'src/python/train_gbdt_py.cc', 'src/python/column_py.cc', 'src/python/gbdt_py_base.cc'],
  [('status to exception', 'ThrowException'), ('ownership of columns', 'DataStorePy')],
  [('data_store_', 'the store, if any', 'DataStorePy')], ['the gbdt Python package'])

p('C25', 'Command line: train and test agree with each other and fail loudly',
  'Training from the command line on TSV blocks or flat files writes a model and its feature importances, and testing that model writes, at the configured intervals, the scores which the model assigns to the rows in order; training data given as flat files or as TSVs with the same rows give the same model. A missing or malformed config, data file, column or model makes the program exit with a failure status without writing a model or scores.',
  ['histories', 'configurations'], 'all train/test/continue sequences over input formats, intervals, base models and defects',
  'There are no tests of the command line program.',
  ['src/main.cc', 'src/flags.cc', 'src/gbdt_algo/evaluation.cc', 'src/gbdt_algo/utils.cc'],
  [('Train, Test', 'main.cc'), ('LoadDataStoreOrDie', 'main.cc')], [('output directory', 'files written', 'main.cc')], ['exit status and files of the gbdt binary'])

p('C26', 'Python displays show the data and the model',
  'A data store turned into a data frame has the same columns and values; a data frame turned into a data store has its numeric columns as bucketized floats and the others as strings, except for those whose type is overridden. A drawing of tree i shows each node once with its condition and score, and edges from parents to children; the importance chart has one bar per feature in descending order; a partial dependency plot shows, for each value in order, the mean and 95% band over the rows of the change in score when the feature is set to that value rather than to the base value. None of them changes the store or the forest.',
  ['inputs', 'histories'], 'all tables, forests, features, values and overrides',
  'There are no tests of the Python package.',
  ['gbdt/_data_store.py', 'gbdt/_forest.py', 'gbdt/_forest_visualizer.py', 'gbdt/_partial_dependency_plot.py'],
  [('DataLoader.from_df', '_data_store.py'), ('plot_partial_dependency', '_partial_dependency_plot.py')],
  [('what is drawn', 'the calls made to graphviz and matplotlib', 'ForestVisualizer')], ['the gbdt Python package'])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
