#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json, os
P = []
T = 'convst/transformers/'
US, UV = T + '_univariate_same_length.py', T + '_univariate_variable_length.py'
MS, MV = T + '_multivariate_same_length.py', T + '_multivariate_variable_length.py'
CM, RD, IT = T + '_commons.py', T + 'rdst.py', T + '_input_transformers.py'
RI, EN = 'convst/classifiers/rdst_ridge.py', 'convst/classifiers/rdst_ensemble.py'
CK, DS = 'convst/utils/checks_utils.py', 'convst/utils/dataset_utils.py'
EX, NU, PL = 'convst/utils/experiments_utils.py', 'convst/utils/numba_utils.py', 'convst/utils/plot_utils.py'
IN = 'convst/interpreters/rdst_interpreter.py'
NT = "The 22 runnable tests only call check_array_1D/2D/3D; "


def p(id, title, statement, over, text, why, files, mech, observe=(), hook=None, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": text},
              "why_tests_cant": why,
              "anchors": {"files": list(files),
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": hook}})


p("C01", "Univariate transform yields exact min / argmin / occurrence features",
  "For a fitted R_DST on univariate data (equal- or variable-length) and any batch of series, transform returns one row per series and three consecutive columns per shapelet, in shapelet order: the minimum over all admissible start positions of the Manhattan distance between shapelet and dilated subsequence, the first start position attaining it, and the number of positions whose distance is at most the shapelet's threshold. Subsequences are z-normalised ((v-mean)/(std+1e-8), each on its own) exactly for the shapelets flagged as normalised, and positions wrap around the end of the series exactly when phase invariance is on. Each row depends only on its own series (its own observed points, for variable-length data), and each column triple only on its own shapelet.",
  ["inputs", "configurations"], "every series content, shapelet values, thresholds, lengths, dilations and normalisation flags, for every mix of shapelets and series lengths in a batch",
  NT + "no test that can run executes transform, and the others compare accuracy only, so a feature that is off by one position, column, threshold tie or normalisation goes unnoticed.",
  [US, UV, CM, RD], [("U_SL_apply_all_shapelets", US), ("U_VL_apply_all_shapelets", UV), ("apply_one_shapelet_one_sample_univariate", CM), ("_combinations_1d grouping of (length, dilation)", CM), ("R_DST.transform", RD)],
  ["R_DST.transform output matrix"])

p("C02", "Multivariate transform yields exact min / argmin / occurrence features",
  "For a fitted R_DST on multivariate data (equal- or variable-length) and any batch, transform returns one row per series and three consecutive columns per shapelet, in shapelet order: minimum distance, first position attaining it, and number of positions with distance at most the threshold, where the distance at a position is the sum over the shapelet's own channels of the Manhattan distance between that channel's values and the dilated subsequence of the same channel of the series. Each channel's subsequence is z-normalised on its own exactly for normalised shapelets, positions wrap exactly when phase invariance is on, and only observed points of a variable-length series count.",
  ["inputs", "configurations"], "every series content and every set of shapelets with differing lengths, dilations, channel counts and channel choices packed in one flat value array",
  NT + "the packed offsets (values and channel ids of all shapelets share flat arrays) are only exercised by accuracy tests that need downloads.",
  [MS, MV, CM, RD], [("M_SL_apply_all_shapelets", MS), ("M_VL_apply_all_shapelets", MV), ("apply_one_shapelet_one_sample_multivariate", CM), ("cumulative offsets a1/a2", MS)],
  ["R_DST.transform output matrix"])

p("C03", "Dilated subsequences and distance vectors cover each position exactly once",
  "For a series x, length l and dilation d, the extracted candidates are x[i], x[i+d], ..., x[i+(l-1)d] for i = 0 .. n-(l-1)d-1, or for every i in 0..n-1 with indices modulo n when phase invariance is used, and a single subsequence extraction agrees with row i of the candidates. Multi-channel extraction does the same for every channel separately, z-normalising a single subsequence subtracts its own mean and divides by its own (population) std + 1e-8, and the distance vector between a shapelet and a series has one entry per candidate: the Manhattan distance to that (optionally z-normalised) candidate.",
  ["inputs"], "every series content, window size, dilation, start index, normalisation and phase choice that fits the series",
  "test_commons_transform.py (not runnable here) compares only the first candidate of three configurations; the distance vector, the phase-invariant paths and normalisation have no test.",
  [CM], [("generate_strides_1D/2D", CM), ("get_subsequence", CM), ("compute_shapelet_dist_vector", CM), ("manhattan", CM)],
  ["generate_strides_1D, generate_strides_2D, get_subsequence, compute_shapelet_dist_vector"])

p("C04", "Fitted shapelets have admissible length, dilation, channels and packing",
  "Every fitted shapelet has a length taken from the requested lengths and an integer dilation d >= 1 with (length-1)*d <= n-1, where n is the length of the shortest training series; with prime dilations d is 1 or a prime. At most n_shapelets shapelets are kept, all parameter arrays describe the same shapelets in the same order and sizes, and a multivariate shapelet uses between 1 and max_channels distinct existing channels with exactly length values per channel. Unused positions of a univariate value row are zero, the normalisation flags are all off for proba_norm 0 and all on for proba_norm 1, and fit succeeds for every valid input.",
  ["inputs", "configurations", "histories"], "every outcome of the random draws, every series length, length set, proba_norm, channel limit and prime option",
  NT + "the fit functions draw everything at random: a test samples one draw, and an inadmissible dilation or packing offset shows only for particular draws (numba does no bounds checking, so it reads garbage instead of failing).",
  [US, UV, MS, MV, CM, RD], [("*_init_random_shapelet_params", US), ("prime_up_to/choice_log", CM), ("mask_return repacking", MS)],
  ["R_DST.shapelets_"])

p("C05", "Shapelet values are genuine dilated subsequences of training series",
  "The values of every fitted shapelet are the length points i, i+d, ..., i+(length-1)d of one channel of one training series (for a multivariate shapelet: of the same series and start for each of its listed channels), wrapping only when phase invariance is on, z-normalised exactly if the shapelet is flagged as normalised. With variable-length data only observed points are used, never padding, whatever subset of samples is selected.",
  ["inputs", "histories", "configurations"], "every data content, series length mix, labels and outcome of the random draws, with and without sample subsetting",
  NT + "no test relates the shapelets to the training data; padding or a wrong channel would only lower accuracy slightly.",
  [US, UV, MS, MV, CM, RD], [("get_subsequence call and storage in values", US), ("X_len bounds", UV), ("R_DST.fit sample subsetting", RD)],
  ["R_DST.shapelets_"])

p("C06", "Occurrence threshold lies in the percentile range of a same-class series",
  "Each fitted shapelet's threshold lies between the two requested percentiles of the distance vector between that shapelet and one training series of the same class as the series it was extracted from; this is a different series of that class whenever there is one, and the source series itself otherwise. The distance vector uses the shapelet's own normalisation, dilation, phase and (for multivariate) all of its channels.",
  ["inputs", "histories", "configurations"], "every data content, every labelling, and every outcome of the random draws",
  NT + "the threshold is random within a data-dependent range, so tests can only observe it through accuracy.",
  [US, UV, MS, MV], [("percentile(x_dist, [p_min, p_max]) and uniform", US), ("loc_others selection", US)],
  ["R_DST.shapelets_ threshold array"])

p("C07", "Alpha-similarity bounds the overlap of shapelets from the same series",
  "For univariate data without phase invariance and a single shapelet length L, two fitted shapelets with the same dilation and the same normalisation flag taken from the same training series share at most max(1, floor((1-alpha)*L)) time points when alpha > 0; sampling in one series, one dilation or one normalisation mode never blocks sampling in another. Positions that respect this remain eligible: a shapelet is only dropped when no eligible start position is left (or its values are all zero).",
  ["inputs", "histories", "configurations"], "every sequence of random draws, every alpha, length, dilation and series length",
  NT + "needs several shapelets drawn from the same series at nearby positions, and reference to the source positions.",
  [US, UV], [("mask_sampling update with alpha_size", US), ("i_mask = where(mask_dil[:, :d_shape])", US)],
  ["R_DST.shapelets_"])

p("C08", "Padding and batch composition never influence variable-length results",
  "Transforming a variable-length batch gives each series the same features as transforming that series alone, for any other series in the batch and hence any padding; on equal-length data the variable-length transformers give the same features as the equal-length ones, and a one-channel multivariate shapelet set gives the same features as the univariate one. The conversion of a list of series to the padded array keeps every observed value, reports each true length, and rejects samples with differing channel counts.",
  ["inputs", "configurations"], "every batch of series with any mix of lengths, and every shapelet set",
  NT + "there is no test that compares a batch with its members or one transformer kind with another.",
  [UV, MV, US, MS, RD], [("X[i_sample, :, :X_len[i_sample]] slicing", UV), ("_format_uneven_timestamps", RD)],
  ["R_DST.transform"])

p("C09", "Phase invariance: circular shifts leave min and occurrence unchanged",
  "With phase invariance on, rotating a series by any number of points leaves the minimum-distance and occurrence features of every shapelet unchanged, and the position feature of a unique minimum moves by exactly that rotation modulo the series length. With phase invariance off no candidate ever wraps around the end of the series.",
  ["inputs", "configurations"], "every series content, rotation, shapelet, threshold, for the four data kinds",
  NT + "phase_invariance=True is not used by any test.",
  [CM, US, UV, MS, MV], [("_generate_strides_1D_phase / _2D_phase", CM)],
  ["R_DST.transform with phase_invariance=True"])

p("C10", "Same seed and data give the same model; refitting has no memory",
  "Two estimators built with the same parameters and the same integer random_state and fitted on the same data obtain identical shapelets, whatever the global random state was before (with one thread; for every option, including sample subsetting), and R_DST_Ensemble gives each member its own seed independently of the order in which the members are fitted. Fitting an estimator again gives what a fresh estimator with the same parameters would give on that data: nothing derived from an earlier fit (relative lengths, minimum length, channel limit, data kind, random state) carries over.",
  ["inputs", "histories", "schedules", "configurations"], "every seed, data set, option combination, order of member fits and previous fit",
  NT + "no test fits twice or compares two fits.",
  [RD, EN, RI, US, UV, MS, MV], [("seed(r_seed) at the start of generation", US), ("_check_params seed drawing", RD), ("R_DST.fit resample", RD), ("R_DST_Ensemble.fit", EN)],
  ["R_DST.shapelets_ after fit"])

p("C11", "Parallel loops are free of races: results do not depend on the schedule",
  "Iterations of the loops that are compiled as parallel never write a memory cell that another iteration reads or writes, and no scalar value is carried from one iteration to the next. Hence running the iterations of fit, transform and dataset normalisation in any order gives the same shapelets (for the same draws) and features.",
  ["schedules", "inputs"], "every interleaving of the iterations of the parallel loops, every data content and shapelet set",
  "Tests run without numba or with one schedule; a race shows only under a particular interleaving.",
  [US, UV, MS, MV, IT], [("prange loops of @njit(parallel=...) functions", US), ("z_norm_all_samples", IT)],
  ["R_DST.fit / R_DST.transform / Z_normalizer.transform"])

p("C12", "Requested shapelet lengths are resolved within the series length",
  "With bounds [a, b] (absolute, or relative to the minimum series length) the lengths considered are increasing, evenly spaced, start at the lower bound (at least 3), never exceed the upper bound (beyond that minimum), contain every integer between the bounds when the reduction is 0, and otherwise contain at least the requested proportion of them. Explicit relative lengths become floor(length * minimum series length); every length passed on is an integer >= 2 that fits the shortest series, lengths that are too long being replaced by a length that fits, and lengths < 2 or series with fewer than 3 points being rejected with ValueError.",
  ["inputs", "configurations"], "every pair of bounds, reduction, length list and series length",
  "test_length_bounds (not runnable) covers four settings on one dataset and accepts random misses.",
  [RD], [("R_DST._set_lengths", RD), ("R_DST._check_params", RD)],
  ["lengths of R_DST.shapelets_"])

p("C13", "Input kind is recognised and every supported input is accepted",
  "With transform_type 'auto' the data kind is univariate/multivariate according to the number of channels and equal-/variable-length according to the container (3D numeric array of any integer or float dtype versus list or object array of 2D arrays), and the fitted features are those of that kind. Every documented explicit transform_type is accepted, unknown ones are rejected with ValueError, and 3D arrays with an empty dimension, fewer than 3 time points or another number of dimensions are rejected with ValueError.",
  ["inputs", "configurations"], "every container, dtype, channel count and shape",
  "test_auto_type (not runnable) covers four datasets, all float64.",
  [RD, CK], [("R_DST._auto_class", RD), ("R_DST._set_fit_transform", RD), ("R_DST._validate_transform_type", RD), ("check_array_3D", CK)],
  ["R_DST.fit, R_DST.transform_type"])

p("C14", "Estimator parameters reach shapelet generation and transform unaltered",
  "Every user parameter of R_DST takes effect: n_shapelets, lengths, alpha, proba_norm, percentiles, phase invariance, channel limit, minimum length, prime option and seed reach generation, the same phase setting is used by fit and transform, and sample subsetting selects matching rows of data, labels and lengths. R_DST_Ridge and R_DST_Ensemble hand each of their transformer parameters (per member: its own input representation and proba_norm) to their R_DST unchanged, train the classifier on the transform of the training data with its labels, and predict on the transform of the given data.",
  ["inputs", "configurations"], "every value of every parameter",
  NT + "a swapped or dropped parameter still trains and predicts with plausible accuracy.",
  [RD, RI, EN], [("R_DST.fit fitter calls", RD), ("R_DST_Ridge._init_components", RI), ("R_DST_Ensemble.fit", EN)],
  ["arguments observed at shapelet generation, transform and classifier"])

p("C15", "normalize_output divides position and occurrence features by series length",
  "With normalize_output on, the position and occurrence features of each series are the plain features divided by that series' own number of time points and the minimum-distance feature is unchanged; with it off the features are the plain ones.",
  ["inputs", "configurations"], "every series content, length mix and shapelet set, for the four data kinds",
  NT + "normalize_output=True is not used by any test.",
  [RD], [("R_DST.transform", RD)], ["R_DST.transform with normalize_output=True"])

p("C16", "Ensemble prediction is the weighted vote mapped to the class labels",
  "R_DST_Ensemble.predict returns for every series the class label whose sum over members of (member probability of the class) * (member weight) is largest (first in label order on ties), where a member's weight is its leave-one-out training accuracy at the selected regularisation raised to the power a_w. Labels of any kind (not only 0..k-1) are returned as given in training, for two or more classes, and a member's class probabilities are the softmax of its decision scores on the member's own scaling.",
  ["inputs", "configurations"], "every member probability, weight, class count and label set",
  NT + "the ensemble classifier has no test.",
  [EN], [("R_DST_Ensemble.predict", EN), ("_internalRidgeCV.get_loocv_train_acc", EN), ("_internalRidgeCV.predict_proba", EN)],
  ["R_DST_Ensemble.predict, model_weights"])

p("C17", "Job counts stay within the machine and split without oversubscription",
  "For n_jobs None, -1, or any other integer, the number of jobs used is between 1 and the number of CPUs: None gives 1, k > 0 gives min(k, CPUs), negative k gives CPUs+1+k but never less than 1; booleans and non-integers are rejected with ValueError. In the ensemble, member jobs times threads per member never exceeds that number and both are at least 1.",
  ["inputs", "configurations"], "every integer n_jobs, every CPU count and ensemble size",
  "check_n_jobs and _manage_n_jobs have no test.",
  [CK, EN, RI], [("check_n_jobs", CK), ("R_DST_Ensemble._manage_n_jobs", EN)], ["check_n_jobs, R_DST_Ensemble.n_jobs"])

p("C18", "Stratified resampling is a class-preserving partition of the same pairs",
  "The resampling used by cross validation returns a train and a test part that together contain every original (series, label) pair exactly once, with the sizes per class of the original train and test parts, for arrays and for lists of variable-length series. It leaves its inputs unmodified, is a function of the seed and the data, and every eligible assignment of the samples of a class can occur.",
  ["inputs", "histories"], "every label arrangement, data content, container and shuffle outcome",
  "_resample has no test.",
  [EX], [("_resample", EX)], ["_resample return values"])

p("C19", "Cross validation evaluates on held-out data and matching indices",
  "Fold 0 uses the original train/test split and fold i > 0 the resample seeded with i; each fold fits on its train part only and scores the predictions for its test part against that part's labels. The index-based splitter yields for every fold train and test indices that point, in order, to samples identical in all channels to those of the fold.",
  ["inputs", "histories"], "every data set, label arrangement, number of folds and scorer set",
  "cross_validate_UCR_UEA is used by a download-dependent accuracy test only; _sklearn_cv has no test.",
  [EX], [("cross_validate_UCR_UEA.score", EX), ("_sklearn_cv.split", EX)], ["score(), split()"])

p("C20", "Z-normalisation standardises each series and channel on its own",
  "z_norm_3D, z_norm_3D_list and Z_normalizer replace every channel of every series by (x - mean) / (std + 1e-8) computed from that channel alone, for any number of samples, channels and points and, for lists, differing lengths; constant channels become zeros and no value leaks between channels or samples. Z_normalizer leaves its input unmodified.",
  ["inputs"], "every content, shape and list of lengths",
  "test_z_norm_3D (not runnable) uses two constant arrays, for which almost any implementation returns zeros.",
  [DS, IT], [("z_norm_3D", DS), ("z_norm_3D_list", DS), ("z_norm_all_samples", IT)], ["z_norm_3D, z_norm_3D_list, Z_normalizer.transform"])

p("C21", "Input representations and column selection are applied consistently",
  "Derivate(order=k) returns the k-th discrete difference along time of every channel; Raw returns its input; Periodigram gives every channel's periodogram (configured window, no detrending) and FastHankelTransform its fast Hankel transform with the configured dln, mu and bias at the optimal offset for them, each independently of the others and in its sample/channel position; none modifies its input. The scalers used before the classifier drop exactly the features that are constant on the training data and select the same columns, in the same order, at prediction time.",
  ["inputs", "configurations"], "every data content, shape, order and pattern of constant columns",
  "convst.transformers._input_transformers has no test.",
  [IT], [("Derivate.transform", IT), ("Periodigram.transform", IT), ("c_StandardScaler / c_MinMaxScaler", IT)], ["transform outputs"])

p("C22", "Input checks accept exactly the documented shapes and types, unchanged",
  "check_array_1D/2D/3D accept an array or list if and only if it has that number of dimensions and no empty dimension (for 3D also more than min_timestamps time points and, if asked, a single channel), return the data unchanged and raise ValueError otherwise. check_is_numeric accepts exactly Python/numpy integers and floats (no booleans), check_is_boolean exactly booleans, both returning the value; R_DST rejects length bounds that are not a pair, a reduction >= 1 and percentiles that are not a numeric pair in non-decreasing order, and accepts pairs of any integer or float type.",
  ["inputs"], "every shape, dtype and value",
  "The tests cover a handful of shapes; list inputs, min_timestamps, is_univariate, numeric and boolean checks are not covered.",
  [CK, RD], [("check_array_1D/2D/3D", CK), ("check_is_numeric, check_is_boolean", CK), ("R_DST.__init__", RD)], ["return values and exceptions"])

p("C23", "Interpretation agrees with what transform and the classifier computed",
  "For a fitted univariate model the shapelet plotted for an id is the one behind that id's feature columns: its distance vector has the transform's minimum at the transform's position, its best match is drawn at positions argmin + k*dilation (modulo the series length) with normalised shapelets rescaled to the matched window, and the threshold line is its threshold. The shapelets shown for a class are those with the largest classifier coefficients for that class, mapped back through the dropped constant features, best first and without repetition; each figure shows the box plots of that shapelet's minimum, position and occurrence feature, its best match and its distance vectors, each under its own title and label. Drawing leaves the series and the fitted model unmodified.",
  ["inputs", "configurations"], "every series, shapelet set, coefficient vector and set of dropped features",
  "The interpreter has no test.",
  [IN, CM], [("Shapelet.plot_on_X / plot_distance_vector", IN), ("RDST_interpreter._get_params", IN), ("RDST_Ridge_interpreter._get_shp_importance", IN)], ["data passed to the plotting functions"])

p("C24", "fit, transform and predict never modify their inputs or the fitted model",
  "Fitting, transforming and predicting leave the user's data, labels and parameter lists unmodified, transform and predict leave the fitted shapelets unmodified, and calling transform twice returns equal, independent results.",
  ["inputs", "histories"], "every data content, container and shapelet set, any sequence of calls",
  "No test looks at its inputs after a call.",
  [US, UV, MS, MV, RD, RI], [("in-place normalisation of strides", US), ("astype copies in R_DST.fit/transform", RD)], ["inputs and shapelets_ after calls"])

p("C25", "Helper tables: primes, (length, dilation) pairs, log choice, unique rows",
  "is_prime and prime_up_to report exactly 1 and the prime numbers up to n in increasing order; the combination helper lists every distinct (x[i], y[i]) pair exactly once; choice_log returns the requested number of indices, all in 0..n_choice-1; nb_unique returns the distinct rows (or columns) in lexicographic order with the index of its first occurrence in the input and how often it occurs; the numba overload of np.all agrees with np.all for 1D and 2D inputs with axis None, 0 or 1; manhattan, squared_euclidean and euclidean return the sum of absolute differences, the sum of squared differences and its square root.",
  ["inputs"], "every n, every pair of integer arrays, every random draw, every 2D array",
  "Only is_prime is called (inside a download-dependent test, as its own oracle).",
  [CM, NU], [("is_prime/prime_up_to", CM), ("_combinations_1d", CM), ("choice_log", CM), ("nb_unique, np_all", NU)], ["return values"])

p("C26", "Dataset loading encodes labels consistently and reports the minimum length",
  "load_UCR_UEA_dataset_split returns the archive's train and test series in order, labels encoded 0..k-1 by the sorted training labels consistently for train and test, and the minimum series length over both parts; normalize=True z-normalises every channel of every series and normalize=False changes nothing. load_UCR_UEA_dataset returns train followed by test, series and labels aligned, for equal- and variable-length datasets.",
  ["inputs", "configurations"], "every dataset content, label set, container and length mix",
  "The tests that touch it need downloads and check shapes only.",
  [DS], [("load_UCR_UEA_dataset_split", DS), ("load_UCR_UEA_dataset", DS)], ["return values"])

p("C27", "Comparison plots report correct win/draw/loss counts and Holm decisions",
  "For every competitor the pairwise plot counts each dataset once as win, draw or loss of the baseline, a draw being a difference of at most the margin. The critical-difference analysis compares every pair of classifiers once on their accuracies paired by dataset, whatever the order of the rows, marks a pair as different exactly when Holm's step-down procedure at level alpha rejects it, groups into one clique only classifiers that are pairwise not marked as different, and reports average ranks with the best accuracy ranked first and tied accuracies sharing the mean of their ranks.",
  ["inputs"], "every table of accuracies and every set of p-values",
  "plot_utils has no test.",
  [PL], [("pairwise_plot", PL), ("_wilcoxon_holm", PL), ("_form_cliques", PL)], ["text drawn on the figure, returned p-value table and cliques"])

p("C28", "Estimators follow the scikit-learn parameter protocol",
  "R_DST, R_DST_Ridge, R_DST_Ensemble and the input representations report every constructor argument through get_params with the value given (n_jobs as a resolved number), can be cloned by scikit-learn's clone, and fit changes none of their parameters and returns the estimator. A clone - of a fitted estimator as well - has the same parameters, is not fitted, and when fitted (on data of any kind) behaves like a freshly constructed estimator. After set_params on a parameter (lists as well as arrays, before or after a fit) fitting behaves as if the estimator had been constructed with that value. transform and predict before fit raise NotFittedError.",
  ["configurations", "histories"], "every parameter set of the three estimators, every change of one parameter, every pair of data kinds for consecutive fits, cloned before and after fitting",
  "No test touches get_params, set_params or clone; a parameter that is dropped, converted or overwritten shows up only in grid searches or refits with particular values.",
  [RD, RI, EN, IT], [("constructors of the estimators", RD), ("_validate_transform_type/_set_fit_transform", RD), ("_manage_n_jobs", EN), ("R_DST._set_lengths", RD)],
  ["get_params, clone, set_params, fit, NotFittedError"])

p("C29", "Classifier predictions are per series, scores the share of correct ones",
  "R_DST_Ridge and R_DST_Ensemble predict for each series of a batch the label they predict for that series alone, whatever the number, order and lengths of the other series in the batch, and the label is always one of the training labels, of the same type; R_DST_Ridge predicts the class with the largest decision score. score(X, y) is the number of series whose predicted label equals y divided by the number of series, also when y contains labels never seen in training.",
  ["inputs", "configurations"], "every decision score and member probability, label type, batch order and assignment of true labels, for the four data kinds",
  "The only tests of the classifiers need downloads and compare one accuracy with a fixed bound; batches of other sizes, orders or labels are never compared.",
  [RI, EN], [("R_DST_Ridge.predict/score", RI), ("R_DST_Ensemble.predict, _parallel_predict", EN), ("_internalRidgeCV.predict_proba", EN)],
  ["predict, score"])

p("C30", "Every admissible candidate can be drawn",
  "No admissible candidate is excluded from the random search: for every requested length, every dilation the shortest training series admits (with prime dilations every prime one; otherwise all but the largest, which the half-open interval of the exponent only reaches when it is 1), every training series and every start position there are draws for which fit extracts exactly that subsequence, with and without normalisation when both are allowed, for each of the four data kinds and with phase invariance for every rotation. For multivariate data every set of 1 to max_channels channels can be selected, and with several other series of the class every one of them can supply the threshold.",
  ["inputs", "configurations"], "every outcome of every random draw",
  "A test fixes one seed and sees one sample of the draws; a candidate that can never be drawn leaves no trace in any single result.",
  [US, UV, MS, MV], [("U_SL/U_VL/M_SL/M_VL_generate_shapelet", US), ("_get_dilations / choice of length, sample, channel and position", UV)],
  ["shapelets_ after fit"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P), 'properties')
