#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Model predictions on the training rows equal the predictions made while training",
  "After a boosting run, the returned model's prediction for every training row, in the bag or out of it, equals (up to rounding) the prediction the objective accumulated for that row while the trees were grown. "
  "This holds for every objective, feature type, gradient width, sampling setting and compression threshold.",
  ["inputs", "configurations"],
  "every data set the loader accepts (any mix of low-/high-cardinality categorical and numerical columns, any row count), every valid configuration",
  "No existing test trains a booster and compares it with its own model; masks used in training and predicates used in prediction are two code paths that agree only by convention, and a disagreement needs particular values (bin edges, unseen categories in the bag, compressed nodes).",
  ["src/tree/learner.rs", "src/tree/tree.rs", "src/dataset.rs", "src/objective.rs", "src/boost.rs"],
  [("leaf membership from bit masks", "TreeLearner::predict_leaf_value / predict_child_leaf_values"), ("routing by split criterion", "Tree::predict_leaf_id_of_example"), ("out-of-bag update", "TreeLearner::predict_out_of_bag_examples")],
  ["Booster::train -> AdditiveTree::predict", "Objective::predictions"])

p("C02", "Every split is the best admissible one for the quantised gradients",
  "In every tree, each node that is split uses a candidate split whose gain (regularised squared-loss reduction computed from the quantised gradients of the node's examples) is the largest among all candidates of the active features that leave at least min_examples_leaf examples on both sides, and exceeds min_gain. "
  "A node above the maximum depth stays a leaf only if no admissible candidate has a gain exceeding min_gain.",
  ["inputs", "configurations"],
  "every data set and gradient vector, all four gradient widths, all regularisation / leaf-size / depth / binning / compression settings; gains compared up to f32 rounding",
  "Unit tests of the kernels use a few fixed vectors and none looks at the learner: whether the histogram of a deep, compressed or derived (parent minus sibling) node still describes that node can only be judged per node, over many trees.",
  ["src/tree/learner.rs", "src/slice_store.rs", "src/simd.rs", "src/dataset.rs"],
  [("best-gain scan", "TreeLearner::find_best_split"), ("histogram construction / subtraction", "build_histograms!, HistStore::hists_subtract"), ("quantisation", "BitSlice::set_scaled_value, BitSliceLayout::linproj")],
  ["TreeLearner::train with an observing Objective", "Dataset::get_bitvec"])

p("C03", "Leaves partition the in-bag rows and respect depth, size and the split tests",
  "For every tree grown, each in-bag row is assigned to exactly one leaf and no out-of-bag row to any; no leaf is deeper than max_tree_depth and (unless it is the root) none is empty or holds fewer than min_examples_leaf rows; the numbers of leaves, internal nodes and leaf assignments agree. "
  "Prediction sends every training row to the leaf it was assigned to, and every row to exactly one of the leaves, deciding each test as equality for low-cardinality categories, group membership for high-cardinality ones (unseen categories go right), and strictly-less-than for numbers.",
  ["inputs", "configurations"],
  "every data set, bag, gradient vector and configuration; rows outside the training set included",
  "The only tree test checks four size formulas on an empty tree.",
  ["src/tree/learner.rs", "src/tree/tree.rs", "src/dataset.rs"],
  [("mask splitting and compression", "TreeLearner::split_examples, compress_examples!"), ("leaf example extraction", "extend_examples!, IndexIter"), ("tree routing", "Tree::predict_leaf_id_of_example")],
  ["Objective::predict_leaf_value arguments", "Tree::predict", "Tree::nnodes / node_value"])

p("C04", "Compressing the instance sets never changes the result",
  "For the same data, configuration and seed, training with any two compression thresholds (never compressing, always compressing when possible, anything between) gives the same trees: identical predictions on every row, seen or unseen.",
  ["inputs", "configurations"],
  "every data set (in particular those whose rows are clustered so that nodes contain many zero blocks) and every pair of thresholds, all gradient widths, with and without bagging",
  "No test trains at all; compressed kernels are tested on single fixed vectors.",
  ["src/tree/learner.rs", "src/slice_store.rs", "src/simd.rs"],
  [("compression of masks, indices and gradients", "compress_examples!"), ("compressed kernels", "btslce_summ*_c, bitvec_count_and_c"), ("compressed iteration", "index_iter_*_compr")],
  ["Booster::train -> AdditiveTree::predict"])

p("C05", "Training is deterministic and independent of the number of threads",
  "Training twice on the same data with the same configuration gives bit-identical predictions, in the same process or another, whatever the number of worker threads. "
  "When neither features nor examples are sampled the random seed has no effect either.",
  ["schedules", "inputs", "configurations"],
  "every data set and configuration, repeated runs in one process and in others, thread pools of different sizes",
  "No test trains; histogram bins are computed in parallel and written through a lock, so an order dependence would show only under some schedules.",
  ["src/tree/learner.rs", "src/dataset.rs", "src/boost.rs"],
  [("parallel histogram construction", "build_histograms! (rayon)"), ("seeded generator", "InnerDataset::rng")],
  ["Booster::train -> AdditiveTree::predict"])

p("C06", "Prediction treats every row on its own",
  "A model's prediction for a row depends only on that row's feature values: permuting, dropping, duplicating or adding rows, changing the target column or the declared feature types of the container predicted on, or predicting into a dirty buffer never changes it. "
  "Rows containing values or categories unseen in training get a finite prediction that is the bias plus one leaf value per tree.",
  ["inputs", "programs"],
  "every trained model and every prediction data set (valid categories, any finite numbers), any rearrangement",
  "No test predicts.",
  ["src/tree/tree.rs", "src/data.rs"],
  [("row-wise routing", "Tree::predict_leaf_id_of_example"), ("unseen category rule", "supercats lookup in HiCardCatLt"), ("accumulation", "AdditiveTree::predict_buf")],
  ["AdditiveTree::predict / predict_buf", "Tree::predict"])

p("C07", "Shorter runs are prefixes of longer ones",
  "Training for k iterations and for n > k iterations with otherwise equal settings builds the same first k trees; with zero iterations the model predicts the objective's starting value everywhere. "
  "A single tree learned with the tree interface plus its bias predicts the same as one boosting iteration.",
  ["inputs", "configurations", "histories"],
  "every data set, configuration (sampling included) and pair of iteration counts",
  "No test trains; learner resources (histogram, mask, index and gradient stores) are reused between iterations, so stale state shows only after several of them.",
  ["src/boost.rs", "src/tree/learner.rs", "src/slice_store.rs", "src/bin/run.rs"],
  [("resource reuse", "TreeLearnerContext::reset, SliceStore::reset"), ("iteration driver", "Booster::train_one_iter")],
  ["Booster::train", "Tree::set_bias / predict"])

p("C08", "Leaf values are the objective's optimum for the leaf, times the learning rate",
  "For each objective, the leaf value returned for a set of rows is the learning rate times that objective's leaf formula over exactly those rows: mean residual (L2), median residual to the resolution of 1/1024 of the residual range (L1), Friedman's Huber update around that median (Huber), the Newton step from the gradients (binary log loss), and the mean signed squared margin shortfall (hinge). "
  "The accumulated predictions of exactly those rows increase by exactly that value; all other rows keep theirs, and out-of-bag rows only change through their own update.",
  ["inputs", "histories"],
  "every target vector the objective accepts, every sequence of leaf sets and updates, every learning rate",
  "No test exercises any objective.",
  ["src/objective.rs", "src/binner.rs"],
  [("leaf formulas", "Objective::predict_leaf_value"), ("prediction update", "update_predictions / update_out_of_bag_prediction"), ("median by binning", "quantile!/median!")],
  ["Objective::predict_leaf_value, predictions"])

p("C09", "Bias, gradients and gradient bounds follow each objective's definition",
  "The starting value is the mean (L2), the median to 1/1024 of the range (L1, Huber), half the log-odds (binary log loss) or the class-count difference ratio (hinge) of the targets, and all predictions start there. "
  "After each update the gradients are the derivative of the objective's loss at the current predictions (prediction minus target for L2, its sign for L1, its clipped value for Huber, the log-loss derivative, the hinge derivative, which is zero from the margin on), positive when the prediction is too high, and the advertised gradient bounds are those the objective defines, with lower below or equal to upper.",
  ["inputs", "histories"],
  "every target vector the objective accepts, after any sequence of updates",
  "No test exercises any objective.",
  ["src/objective.rs", "src/binner.rs"],
  [("initialisation", "Objective::initialize"), ("gradient update", "Objective::update"), ("bounds", "Objective::bounds")],
  ["Objective::bias, gradients, bounds, predictions"])

p("C10", "L2 boosting never increases the training error",
  "With the squared-error objective, a learning rate in (0, 1] and no example sampling, the mean squared error over the training rows after k+1 iterations is at most that after k iterations (up to rounding), whatever the other settings.",
  ["inputs", "configurations", "histories"],
  "every regression data set and configuration without bagging, every iteration",
  "No test trains.",
  ["src/tree/learner.rs", "src/objective.rs", "src/boost.rs", "src/tree/tree.rs"],
  [("leaf value is mean residual of the leaf's rows", "L2::predict_leaf_value"), ("each row in one leaf", "TreeLearner")],
  ["Objective::predictions after each iteration", "AdditiveTree::predict"])

p("C11", "Bit-sliced storage returns what was stored; quantisation is within half a step",
  "Writing a value of the slice's width at any index and reading it back returns it, and leaves the values at all other indices unchanged; copying a 32-value block moves exactly those 32 values. "
  "Storing a real number within bounds and reading it back scaled differs from it by at most half a quantisation step, numbers outside the bounds are clamped to them, and quantisation is monotone.",
  ["inputs", "histories"],
  "widths 1, 2, 4 and 8, both bit-slice implementations, any length, any sequence of writes, reads and block copies, any bounds lo < hi",
  "The tests write one value pattern per width.",
  ["src/bitslice.rs", "src/slice_store.rs"],
  [("lane layout", "get_indices, bitslice_blockpos_u32"), ("quantise / project", "set_scaled_value, linproj"), ("block copy", "copy_block_from")],
  ["BitSlice / BitsliceWithLayout get_value, set_value, get_scaled_value, set_scaled_value, copy_block_from"])

p("C12", "Vectorised masked counts and sums equal the naive ones",
  "For all instance masks, feature masks, index lists and bit slices of any length, the vectorised count of commonly set bits and the vectorised sum of the masked values (uncompressed, one side compressed, both sides compressed; widths 1, 2, 4, 8) equal the results of a bit-by-bit computation.",
  ["inputs"],
  "any number of blocks (below, at and above multiples of the 16-block unrolling), any bit patterns incl. all ones/zeros, any valid strictly increasing index lists with zero-mask padding",
  "The tests use a few lengths and patterns per kernel; carry-save adder and tail errors depend on length mod 16 and on specific bit densities.",
  ["src/simd.rs", "src/count_and_sum.rs", "src/slice_store.rs"],
  [("Harley-Seal kernels", "harvey_seal_64/32, harley_seal64/32"), ("gather loads", "load_mask_and_u32_w*_c, load_and3_w*_c10"), ("merge of two compressed sets", "count_and_sum_c11!")],
  ["BitVec::count_ones_and*, BitSlice::sum_all_masked2*, sum_masked*, count_and2_*, sum_and3_*"])

p("C13", "Iterating a bit set yields exactly its set positions in order",
  "Iterating a bit vector, plain or compressed, alone, intersected with or minus another one, yields exactly the (decompressed) positions of the resulting set bits, each once, in increasing order; the callback form yields the same and stops when asked to.",
  ["inputs"],
  "any length, any bit pattern, any strictly increasing block index list (compressed form)",
  "The tests use one or two fixed patterns per iterator.",
  ["src/slice_store.rs"],
  [("lazy iterator", "IndexIter"), ("callback iteration", "for_each_index*")],
  ["BitVec::index_iter*, for_each_index*"])

p("C14", "Bit containers behave like arrays of bits",
  "After any sequence of setting, enabling, disabling, resizing and typed writes, each bit of a bit block, bit-block list, bit set or bit vector reads as a plain boolean array would, and constructors (zeros, ones, from integers, from booleans) set exactly the requested bits with all padding bits zero. "
  "Population counts, zero tests and typed views agree with those bits.",
  ["inputs", "histories"],
  "any sequence of operations, any sizes",
  "The tests check single calls on single values; bit clearing on bit sets is not called by any test.",
  ["src/bitblock.rs", "src/bitset.rs", "src/slice_store.rs"],
  [("bit addressing", "get_blockpos / get_bitpos"), ("tail masking", "one_bits, alloc_one_bits")],
  ["BitBlock, BitBlocks, Bitset, BitVec methods"])

p("C15", "The slice allocator never overlaps, moves or corrupts live slices",
  "After any sequence of allocations, frees, growths and resets, live slices are disjoint, aligned, keep their contents until overwritten by their owner, and each newly allocated slice has the requested length and initial contents. "
  "Histograms occupy disjoint parts of their slice, and histogram subtraction writes parent minus sibling into the target and nothing else.",
  ["histories", "inputs"],
  "any interleaving of allocate / free / write / reset, sizes from one element to beyond the initial capacity, several live slices at once",
  "Tests allocate a handful of slices in fixed orders and never outgrow the initial capacity with live contents checked.",
  ["src/slice_store.rs"],
  [("first-fit free list", "SliceStore::alloc_slice / free_slice"), ("growth", "SliceStore::resize / realloc"), ("two mutable slices", "get_two_slices_mut"), ("subtraction", "HistStore::hists_subtract")],
  ["SliceStore, BitBlockStore, HistStore public methods"])

p("C16", "Binned quantiles bound the exact order statistics",
  "For any values within the limits and any non-decreasing ranks below the total weight, the bin reported for a rank is the one that contains the value of that rank in sorted order, so the bin's range brackets the exact order statistic to one bin width. "
  "Every value is put in the bin whose range contains it, values outside the limits in the first or last bin.",
  ["inputs"],
  "any multiset of values, any limits lo < hi, any number of bins, weighted and unweighted, several ranks per pass",
  "One test, twelve values, four bins.",
  ["src/binner.rs"],
  [("bin lookup", "Binner::get_bin"), ("rank scan", "RankIter::next"), ("representative", "bin_representative")],
  ["Binner::insert, bin_with_rank, rank_iter, bin_representative"])

p("C17", "Candidate splits are exactly their tests, nested, bounded and well placed",
  "After every data-set update, each candidate's row set is exactly the set of active rows passing the candidate's own test; there are at most max_nbins candidates per feature (one per category for low-cardinality features, one for two categories), candidate sets of numerical and high-cardinality features contain one another in test order, and constant features have none in use. "
  "Numerical cut points lie within the feature's range at approximately the gradient-weighted quantiles.",
  ["inputs", "configurations", "histories"],
  "any column contents, gradients, bags and numbers of updates",
  "Three fixed data sets are tested, none with bagging and numerical features together.",
  ["src/dataset.rs", "src/binner.rs", "src/data.rs"],
  [("candidate construction", "InnerDataset::update_locard_cat / update_hicard_cat / update_num"), ("cumulative masks", "fill_bitvecs / accumulate_bitvecs")],
  ["Dataset::get_nbins, get_bitvec, get_split_value, get_supercats"])

p("C18", "High-cardinality categories are grouped in order of their mean gradient",
  "For a high-cardinality feature, categories present in the bag are grouped so that a group never contains a category with a smaller mean gradient (beyond one bin width) than one in an earlier group, using the gradients of the rows that actually have that category. "
  "Group boundaries are placed at evenly spaced ranks of the active rows ordered by their category's mean gradient, to the resolution of 1/512 of the gradient range.",
  ["inputs", "configurations"],
  "any category distribution, gradient vector, gradient bounds, bag and number of bins",
  "One test with one data set, no bagging.",
  ["src/dataset.rs"],
  [("mean gradient per category", "InnerDataset::update_hicard_cat"), ("rank cuts", "Binner::rank_iter")],
  ["Dataset::get_supercats, get_bitvec"])

p("C19", "Sampling draws the requested number of distinct rows and features, reproducibly",
  "With example or feature sampling, each resampling activates exactly the rounded fraction of rows (at least one) and of usable features, without repetition; in-bag and out-of-bag rows together are all rows exactly once, in increasing order. "
  "Samples change only at the configured frequency, depend only on the seed and history, and over many resamplings every row and feature is drawn about equally often.",
  ["inputs", "configurations", "histories"],
  "any sizes, fractions, frequencies, seeds and numbers of updates",
  "Tests look at one draw of the shuffling helper.",
  ["src/dataset.rs"],
  [("partial shuffle", "shuffle_first_k"), ("complement iteration", "InactiveExampleIter"), ("frequency", "Dataset::update")],
  ["Dataset::active_features, active_examples_iter, inactive_examples_iter, map_index"])

p("C20", "Metrics equal their definitions",
  "For any targets and predictions, each metric equals its textbook definition evaluated in higher precision, up to f32 rounding: mean squared error and its root, mean log loss of y*p with y in {-1,1}, and error rates with thresholds 0 and 0.5. "
  "Metric and objective names are resolved case-insensitively to the documented implementation and unknown names are rejected.",
  ["inputs"],
  "any finite vectors, any names",
  "No test evaluates a metric.",
  ["src/metric.rs", "src/objective.rs"],
  [("definitions", "impl_metric!"), ("lookup", "metric_from_name, metrics_from_names, objective_from_name")],
  ["Metric::eval, metric_from_name, objective_from_name"])

p("C21", "Configuration parsing sets exactly the named fields and rejects everything else",
  "Parsing a list of name=value lines yields the defaults with exactly the named fields set to the given values (last one wins, surrounding blanks ignored, the value being everything after the first equals sign), for every field and every representable value. "
  "A line without an equals sign, an unknown name or a value that is not of the field's type is rejected with an error, never a panic, and the generated documentation lists every field with its default.",
  ["inputs"],
  "any sequence of lines, any strings",
  "One test parses three lines of a toy configuration.",
  ["src/config.rs", "src/bin/bitboost_gen_config_csv.rs"],
  [("record parsing", "parse_config!"), ("documentation", "write_doc_csv")],
  ["Config::parse, parse_record, write_doc_csv"])

p("C22", "CSV loading is faithful or fails cleanly",
  "Loading well-formed numeric CSV text (any delimiter, with or without header) gives exactly the table's values, names, limits, feature types and cardinalities: the last column is the target, declared categorical columns have cardinality one plus the largest category and are low-cardinality exactly when that is at most max_nbins. "
  "Any other text (ragged rows, non-numbers, negative, fractional or non-finite categories, no rows, arbitrary bytes) is rejected with an error, never a panic or a partial table.",
  ["inputs", "configurations"],
  "any byte string, any configuration of header, delimiter and categorical columns; categories up to a million; infinity and not-a-number literals in numerical columns are outside the property",
  "Three small tables are loaded by tests, no malformed one.",
  ["src/data.rs"],
  [("reader", "Data::from_csv"), ("category check", "Data::check_categorical_value")],
  ["Data::from_csv, from_csv_reader, from_csv_path and the accessors"])

p("C23", "Training accepts all valid data, degenerate ones included, and stays finite",
  "For every data set of finite values and every valid configuration, training completes and all predictions, on the training data and on any other valid data, are finite; this includes single rows, constant or duplicate columns, constant or single-class targets, more features than rows, single-category columns, perfectly fitted targets, tiny sampling fractions and no features at all.",
  ["inputs", "configurations"],
  "every data set of finite values whose sums and squares stay representable in single precision, all objectives, all valid configurations (at least one bin, depth one, gradient width 1, 2, 4 or 8, fractions and learning rate in (0, 1])",
  "No test trains.",
  ["src/boost.rs", "src/tree/learner.rs", "src/dataset.rs", "src/objective.rs", "src/binner.rs", "src/slice_store.rs"],
  [("degenerate-range guards", "Binner::new callers"), ("finite checks", "safety_check! in update_predictions")],
  ["Booster::train, AdditiveTree::predict"])

p("C24", "The C interface is a faithful, crash-free state machine",
  "Any sequence of C calls with valid pointers succeeds or fails with the documented code exactly according to the state (no configuration after data, no training or prediction without data, no prediction without model, arguments in range), never unwinding or crashing. "
  "A failed call leaves the context as it was, contexts are independent, and successful training and prediction give what the library gives for the same configuration and data; releasing a context frees all its memory.",
  ["histories", "inputs"],
  "any sequence of calls on any number of contexts, any arguments except dangling pointers",
  "No test touches the C interface.",
  ["src/c_api.rs", "src/data.rs", "src/config.rs"],
  [("panic barrier", "wrap_catch_unwind!"), ("state checks", "bb_* functions"), ("context lifetime", "Context::alloc / dealloc")],
  ["bb_alloc, bb_dealloc, bb_refresh_data, bb_set_feature_data, bb_set_config_field, bb_train, bb_predict"])

p("C25", "Data set column by column equals the same data loaded from CSV",
  "Filling a data container column by column gives the same values, limits, feature types, cardinalities and trained model as loading the same table from CSV text; setting a column again replaces it completely, and a rejected column leaves the container unchanged.",
  ["inputs", "histories"],
  "any table, any order and repetition of column assignments, categorical or not",
  "One test sets columns once.",
  ["src/data.rs"],
  [("column assignment", "Data::set_feature_data"), ("empty container", "Data::empty"), ("CSV reader", "Data::from_csv")],
  ["Data accessors", "Booster::train"])

p("C26", "The command line program reports what the library computes",
  "For any data files and settings, the command line program's raw predictions for training and test data are exactly those of the library for the same inputs, its tree and boost summaries print the values of the configured metrics for the model's predictions, and metrics are reported every metric_frequency iterations. "
  "Invalid arguments, settings or files end in a non-zero exit, without predictions.",
  ["inputs", "configurations"],
  "any CSV files, any settings on the command line",
  "No test runs the program.",
  ["src/bin/run.rs", "src/boost.rs"],
  [("commands", "main, boost, single_tree, summary"), ("loading", "load_data")],
  ["run_bitboost tree | boost | boost_and_predict_raw"])

p("C27", "The Python wrapper hands over data, settings and results unchanged",
  "For any numeric matrix in any memory layout, target, set of categorical columns and settings, fitting and predicting through the Python wrapper gives exactly the core library's predictions for that data and those settings, and the wrapper's parameter list matches the core configuration. "
  "Switching an existing model to other data predicts on that data, and a call the native library refuses raises an exception.",
  ["inputs", "configurations", "histories"],
  "any matrices, layouts, settings and call orders the wrapper accepts",
  "There are no Python tests.",
  ["python/bitboost/bitboost.py", "src/c_api.rs", "python/bitboost_config.gen.csv"],
  [("marshalling", "RawBitBoost.set_feature_data / set_data / predict"), ("settings", "set_config_field")],
  ["RawBitBoost"])

p("C28", "No input makes the library read or write outside its memory",
  "Whatever data, configurations and call sequences loading, training, prediction and the C interface are given, and whatever arguments within their preconditions the low-level bit structures, kernels and stores are given, the library performs no out-of-bounds, use-after-free or misaligned memory access and no double free.",
  ["inputs", "histories", "configurations"],
  "all generators of the other properties, run on a sanitised build",
  "Tests run without sanitizers on small fixed inputs; the unsafe kernels and the manual allocator are exercised at few sizes.",
  ["src/slice_store.rs", "src/simd.rs", "src/count_and_sum.rs", "src/bitblock.rs", "src/bitslice.rs", "src/dataset.rs", "src/c_api.rs", "src/tree/learner.rs"],
  [("unchecked accesses guarded by assertions", "safety_check!, assert! before unsafe"), ("manual allocation", "SliceStore::alloc / realloc / drop"), ("vector reuse", "InnerDataset::update_num")],
  ["sanitised build of the library under all generators"])

p("C29", "Irrelevant changes of the training data do not change the model",
  "Appending constant feature columns anywhere, appending a copy of an existing column at the end, renaming columns, or giving the rows in another order when all sums are exact, leaves the predictions unchanged (without sampling). "
  "Multiplying all targets by a power of two multiplies the predictions of squared-error boosting on categorical features by it when min_gain is zero; multiplying a numerical column by a power of two, in training and in prediction, changes nothing. "
  "Giving every row twice, with reg_lambda, min_gain and min_examples_leaf doubled, leaves a tree grown on ungrouped categories with exact sums as it is.",
  ["inputs", "configurations"],
  "every data set and configuration in the stated classes",
  "No test trains.",
  ["src/dataset.rs", "src/tree/learner.rs", "src/objective.rs"],
  [("useful-feature filter", "InnerDataset::new"), ("strict comparison of gains", "find_best_split"), ("scale-free quantisation", "set_scaled_value")],
  ["Booster::train -> AdditiveTree::predict"])

p("C30", "A tree or model sends every row where its tests send it",
  "For any decision tree (equality, membership and threshold tests in any arrangement) and any row, prediction gives the value of the leaf reached by answering the tests from the root, a category unknown to a test going to its right; an additive model gives its bias plus the sum of its trees' leaf values. "
  "Shrinkage multiplies all leaf values, biases add to them, and all prediction entry points agree.",
  ["inputs"],
  "every tree training can make and every row, unknown categories included",
  "One test predicts with one small tree of fixed tests.",
  ["src/tree/tree.rs", "src/tree/mod.rs"],
  [("node arithmetic", "Tree::left_child / right_child / is_leaf_node"), ("prediction", "Tree::predict_leaf_id_of_example, predict_and_accumulate"), ("sum of trees", "AdditiveTree::predict / predict_and_accumulate / push_tree")],
  ["Tree, AdditiveTree"])

p("C31", "Growing a tree does not depend on what was grown before",
  "With the same rows, gradients, sample and configuration, growing a tree in a working memory (learner context) and data set that served any earlier rounds gives exactly the tree that new ones give; nothing is carried over from earlier trees.",
  ["histories", "inputs", "configurations"],
  "any sequence of rounds with any gradients, sampling included",
  "Tests grow one tree with a new context.",
  ["src/tree/learner.rs", "src/dataset.rs", "src/slice_store.rs"],
  [("reset of the working memory", "TreeLearnerContext::reset, SliceStore::reset, HistStore reset"), ("data set update", "Dataset::update")],
  ["TreeLearner::train", "Dataset::update"])

p("C32", "Memory does not grow from one boosting iteration to the next",
  "What growing a tree needs is given back or reused afterwards: repeating iterations on the same data neither increases the memory held between trees nor the peak within a tree, and over a whole boosting run the memory held grows by no more than the trees of the model.",
  ["histories", "inputs", "configurations"],
  "any data, configuration and number of iterations",
  "No test trains for more than one iteration or looks at memory.",
  ["src/slice_store.rs", "src/tree/learner.rs", "src/dataset.rs", "src/boost.rs"],
  [("reuse of stores", "SliceStore::reset / free, TreeLearnerContext"), ("per-iteration vectors", "Dataset::update, Booster::train")],
  ["Booster::train, TreeLearner::train"])

p("C33", "Stopping settings only cut the tree off",
  "For the same data, gradients and other settings, a tree grown with a smaller max_tree_depth is the larger tree cut off at that depth, and one grown with a larger min_gain is a pruning of the other: the nodes of the smaller tree hold the same rows as the same nodes of the bigger one. With a min_gain or min_examples_leaf that no split can satisfy there is no split at all.",
  ["inputs", "configurations"],
  "any data, gradients and pairs of settings",
  "No test compares trees of two configurations.",
  ["src/tree/learner.rs"],
  [("stopping rules", "TreeLearner::train / process nodes, max_tree_depth, min_gain")],
  ["TreeLearner::train"])

p("C34", "Work in several threads at the same time is independent",
  "Training, predicting, loading data, evaluating metrics and using contexts of the C interface in several threads at the same time gives each thread exactly the results it gets when it works alone; a model and a data set may be shared by threads that only read them.",
  ["schedules", "inputs", "configurations"],
  "any mix of such work in any number of threads, under any schedule",
  "No test uses the library from more than one thread or compares with work done alone.",
  ["src/objective.rs", "src/dataset.rs", "src/tree/learner.rs", "src/tree/tree.rs", "src/metric.rs", "src/c_api.rs", "src/slice_store.rs"],
  [("no shared mutable state", "buffers owned by Objective, Dataset, TreeLearnerContext, Context"), ("threads of a learner", "build_histograms (rayon), unsafe impl Send/Sync for SliceStore")],
  ["Booster::train, AdditiveTree::predict, Dataset::update, Metric::eval, bb_*"])

p("C35", "Settings that do not concern a run do not change its model",
  "Training the same table twice with settings that differ only where they do not concern the run gives bit-identical models: metrics and their frequency, the file names and CSV settings for data handed over column by column, huber_alpha and binary_gradient_bound for other objectives, the seed without sampling, the letter case of the objective's name, sampling fractions that round to everything, and, for tables of low-cardinality columns, max_nbins (above all categories) and sample_freq.",
  ["inputs", "configurations"],
  "any data, configuration and pair of such settings",
  "No test trains with metrics or compares runs of two configurations.",
  ["src/boost.rs", "src/objective.rs", "src/dataset.rs", "src/data.rs", "src/config.rs"],
  [("metrics only report", "Booster::train_one_iter"), ("settings of one objective", "objective_struct!, initialize of each Objective"), ("what is sampled and refreshed", "Dataset::new, Dataset::update")],
  ["Booster::train"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
