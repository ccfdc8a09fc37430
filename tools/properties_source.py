prop('P01', 'Scores of boosted models are the sum of the covering rules\' predictions',
     'The scores a boosted rule model predicts for an example are, per output, exactly the sum of the values predicted by the '
     'rules in use whose conditions the example satisfies, where a missing value satisfies no condition. This holds for any '
     'representation of the query data, any number of used rules and any limit on the number of rules.',
     ['inputs', 'configurations'],
     'all models a boosting learner may produce, all query matrices (dense, sparse with any sparse value, missing values, '
     'values at or next to thresholds), all limits on the number of rules',
     'Tests print the predictions of a few models on two data sets; the models, limits and query values they use are a '
     'handful, and missing values, explicit sparse values or values between those seen in training hardly occur.',
     [f'{B}/src/mlrl/boosting/prediction/predictor_score_output_wise.cpp', f'{C}/src/mlrl/common/model/body_conjunctive.cpp',
      f'{B}/include/mlrl/boosting/prediction/predictor_score_common.hpp'],
     [('covering', f'{C}/src/mlrl/common/model/body_conjunctive.cpp'), ('summation', f'{B}/include/mlrl/boosting/prediction/predictor_score_common.hpp')],
     'property-based testing: generated data, configurations and queries; oracle: reference evaluation of the visited rules',
     'random exploration, about 2,000 generated models per second; no exhaustive bound',
     'at least one rule with conditions covers some, but not all of the query examples')

prop('P02', 'The representation of feature matrices affects neither training nor prediction',
     'The same feature values result in the same model and the same predictions, no matter whether they are given as dense '
     'arrays of any memory layout or data type or as sparse matrices of any format, with or without explicitly stored sparse '
     'values, and no matter which policy for handling feature formats is used during prediction.',
     ['inputs', 'configurations'],
     'all feature matrices including missing, sparse, nominal and ordinal values, all formats, all sparse values, all '
     'learners and their configurations',
     'Tests run a few data sets in dense and sparse format and compare each run with its own recorded output, never the '
     'runs with each other, and never use unusual formats, unsorted or explicit elements.',
     [f'{PC}/rule_learners.py', f'{C}/src/mlrl/common/input/feature_matrix_csc.cpp',
      f'{C}/src/mlrl/common/input/feature_matrix_fortran_contiguous.cpp', f'{C}/src/mlrl/common/model/body_conjunctive.cpp'],
     [('conversion of inputs', f'{PC}/rule_learners.py'), ('sparse coverage', f'{C}/src/mlrl/common/model/body_conjunctive.cpp')],
     'property-based testing: metamorphic relation between representations of the same data',
     'sparse training is compared with sparse training and dense with dense, since ties may be broken differently',
     'the model consists of at least one rule with conditions')

prop('P03', 'The representation of ground truth and predictions does not matter',
     'Labels or regression scores result in the same model, no matter in which dense or sparse format and data type they are '
     'given, and binary predictions are the same, no matter whether they are returned as a dense or sparse matrix. Sparse '
     'predictions are returned if and only if requested and are well-formed.',
     ['inputs', 'configurations'],
     'all ground truth matrices, formats, configurations of all three learners and both prediction formats',
     'Tests compare individual runs with recorded output instead of comparing formats with each other.',
     [f'{PC}/rule_learners.py', f'{C}/src/mlrl/common/input/label_matrix_csr.cpp', f'{C}/src/mlrl/common/input/label_matrix_c_contiguous.cpp',
      f'{B}/src/mlrl/boosting/prediction/predictor_binary_output_wise.cpp', f'{S}/src/mlrl/seco/prediction/predictor_binary_output_wise.cpp'],
     [('sparse label matrices', f'{C}/src/mlrl/common/input/label_matrix_csr.cpp'),
      ('sparse predictions', f'{C}/include/mlrl/common/prediction/predictor_common.hpp')],
     'property-based testing: metamorphic relation between representations of ground truth and predictions',
     'stratified sampling by label vectors may pick different, equally good samples and is left out of the comparison between '
     'dense and sparse labels',
     'the model consists of at least one rule with conditions')

prop('P04', 'Results do not depend on the number of threads or on earlier use',
     'For a given random state, the model and all predictions are the same for any number of threads used for training and '
     'prediction and for repeated runs, including runs that reuse an already fitted learner. Predictions for an example do '
     'not depend on the other examples they are obtained for.',
     ['schedules', 'configurations', 'histories'],
     'all interleavings of the worker threads, all numbers of threads, all data sets and configurations',
     'Tests use fixed numbers of threads once per configuration; a race only shows up for particular interleavings.',
     [f'{C}/src/mlrl/common/rule_refinement/rule_refinement_statistics_based.cpp', f'{C}/src/mlrl/common/rule_refinement/feature_space_tabular.cpp',
      f'{C}/include/mlrl/common/prediction/predictor_common.hpp', f'{S}/src/mlrl/seco/data/matrix_coverage_dense.cpp'],
     [('parallel rule refinement', f'{C}/src/mlrl/common/rule_refinement/rule_refinement_statistics_based.cpp'),
      ('parallel statistic updates', f'{C}/src/mlrl/common/rule_refinement/feature_space_tabular.cpp'),
      ('coverage matrix', f'{S}/src/mlrl/seco/data/matrix_coverage_dense.cpp')],
     'property-based testing: single-threaded run as reference for runs with random numbers of threads (more threads than '
     'cores, 8 processes at once, to perturb the schedules)',
     'schedules are sampled by the operating system, not enumerated',
     'at least one rule with conditions and at least one setting with more than one thread', nondeterministic=True, quick_s=35)

prop('P05', 'Saving and loading a learner preserves its model and predictions',
     'A fitted learner that has been saved and loaded, any number of times, has the same parameters, consists of the same '
     'rules, of which the same number is used, and provides the same predictions of any type as the original. The original '
     'remains unaffected and both may be fitted again with the same result.',
     ['inputs', 'configurations', 'histories'],
     'all models, feature types, calibration models, label vector sets, serialization protocols and numbers of rounds',
     'Tests only store models and load them in separate runs with identical command lines, comparing recorded evaluation results.',
     [f'{PC}/cython/rule_model.pyx', f'{PC}/cython/feature_info.pyx', f'{PC}/cython/output_space_info.pyx', f'{PC}/cython/probability_calibration.pyx'],
     [('serialization of models', f'{PC}/cython/rule_model.pyx'), ('serialization of label vectors', f'{PC}/cython/output_space_info.pyx')],
     'property-based testing: round-trip',
     'random exploration; all kinds of predictions are compared bit by bit',
     'the model consists of at least one rule with conditions')

prop('P06', 'Incremental predictions agree with predictions of model prefixes',
     'After any sequence of steps, predictions that are obtained incrementally equal the predictions of the rules used so far, '
     'the number of remaining rules is reported correctly, and after all rules have been used the result equals the regular '
     'prediction. Incremental prediction is available for exactly those predictors that support it and fails with an error '
     'otherwise.',
     ['histories', 'configurations', 'inputs'],
     'all sequences of step sizes, limits on the number of rules, predictors and formats',
     'Tests use a fixed step size of 50 on a single model per predictor and compare with recorded output.',
     [f'{C}/include/mlrl/common/prediction/predictor_common.hpp', f'{PC}/cython/prediction.pyx', f'{PC}/rule_learners.py',
      f'{B}/src/mlrl/boosting/prediction/predictor_probability_marginalized.cpp'],
     [('incremental predictors', f'{C}/include/mlrl/common/prediction/predictor_common.hpp')],
     'property-based testing: generated sequences of operations; oracle: regular predictions of the corresponding prefix',
     'up to 20 steps per predictor',
     'at least two incremental steps were performed')

prop('P07', 'Rules of boosted models predict optimally for the examples they cover',
     'Given the scores predicted by all previous rules, the values predicted by each rule are the closed-form minimiser of the '
     'regularised second-order approximation of the loss over exactly the examples it covers, multiplied by the shrinkage '
     'parameter (except for the default rule), within the bins of outputs if they are binned. Each rule covers at '
     'least one training example.',
     ['inputs', 'configurations'],
     'all data sets, losses, head types, regularisation weights, label binning options and sampling configurations modelled '
     'by the reference implementation',
     'Tests compare with recorded output, which was produced by the same implementation, for a few configurations.',
     [f'{B}/src/mlrl/boosting/rule_evaluation/rule_evaluation_decomposable_complete.cpp', f'{B}/src/mlrl/boosting/rule_evaluation/rule_evaluation_non_decomposable_complete_common.hpp',
      f'{B}/src/mlrl/boosting/losses/loss_decomposable_logistic.cpp', f'{C}/src/mlrl/common/input/feature_based_search_numerical.hpp'],
     [('losses', f'{B}/src/mlrl/boosting/losses/loss_decomposable_logistic.cpp'),
      ('scores', f'{B}/src/mlrl/boosting/rule_evaluation/rule_evaluation_decomposable_complete.cpp'),
      ('aggregation of statistics', f'{C}/src/mlrl/common/input/feature_based_search.hpp')],
     'property-based testing: each model is replayed against an independent reference model of losses, heads and coverage',
     'data affected by the known findings F01 and F07-F10 is left out by construction',
     'at least one rule with conditions was compared with the reference model')

prop('P08', 'No available condition would have given a better rule than a learned one',
     'Without sampling, a boosted rule learned by the greedy top-down search is at least as good, in terms of the regularised '
     'objective it minimises, as every rule with a single condition that covers enough examples, it satisfies the configured '
     'minimum coverage and maximum number of conditions, and unless these limits have been reached, no condition on a feature '
     'it does not use yet would improve it. Training ends before the maximum number of rules only if no condition improves the objective.',
     ['inputs', 'configurations'],
     'all data sets (numerical, nominal, ordinal, missing values, dense and sparse), losses, heads, regularisation, '
     'limits on coverage, conditions and head refinements',
     'Tests record the rules learned on two data sets; whether a better rule has been overlooked is never examined.',
     [f'{C}/src/mlrl/common/input/feature_based_search_numerical.hpp', f'{C}/src/mlrl/common/input/feature_based_search_nominal.hpp',
      f'{C}/src/mlrl/common/input/feature_based_search_ordinal.hpp', f'{C}/src/mlrl/common/rule_induction/rule_induction_top_down_greedy.cpp',
      f'{C}/src/mlrl/common/rule_refinement/rule_refinement_statistics_based.cpp'],
     [('search', f'{C}/src/mlrl/common/input/feature_based_search_numerical.hpp'), ('greedy induction', f'{C}/src/mlrl/common/rule_induction/rule_induction_top_down_greedy.cpp')],
     'property-based testing: replay of the training history; oracle: exhaustive enumeration of all conditions in a numpy model of the objective',
     'up to 32 examples, 4 features and 4 outputs; feature values affected by F01 are left out; partial heads are compared in '
     'terms of limits only, since their size is determined by their scores',
     'at least two candidate conditions have been compared with a learned rule')

prop('P09', 'Random samples have the configured sizes and favour no elements',
     'For all data sets, sampling methods and their options, each sample of examples, features or outputs has the configured size within the '
     'configured minimum and maximum, contains no element twice unless drawn with replacement and none of a holdout set, always includes retained '
     'features, and all elements are equally likely to be drawn. Training and holdout sets are disjoint, complete and of the configured size. '
     'Stratified methods draw from each class (distinct label vectors or examples of a label) proportionally. Round-robin sampling visits '
     'all outputs in order. Unless distinct label vectors are used as classes, dense and sparse label matrices result in the same samples.',
     ['inputs', 'configurations', 'histories'],
     '1 to 400 examples, features or outputs, 1 to 5 labels, up to 600 successive samples per case, all methods and options',
     'Tests merely compare the models that result from a single seed to recorded ones and cannot tell whether sizes are right or elements are favoured.',
     [f'{C}/src/mlrl/common/sampling/index_sampling.hpp', f'{C}/include/mlrl/common/sampling/weight_sampling.hpp',
      f'{C}/src/mlrl/common/sampling/stratified_sampling_output_wise.cpp', f'{C}/src/mlrl/common/sampling/stratified_sampling_example_wise.cpp',
      f'{C}/src/mlrl/common/sampling/instance_sampling_with_replacement.cpp', f'{C}/src/mlrl/common/random/rng.cpp', f'{C}/include/mlrl/common/util/math.hpp'],
     [('drawing without replacement', f'{C}/include/mlrl/common/sampling/weight_sampling.hpp'),
      ('stratification', f'{C}/src/mlrl/common/sampling/stratified_sampling_output_wise.cpp')],
     'property-based testing with generated data, options and seeds via a driver of the C++ interfaces, against reference sizes, reference strata '
     'and the frequencies of elements and pairs',
     'frequencies are compared with a tolerance of 7 standard deviations; rounding of sizes up or down is accepted',
     'elements are sampled from more than one', quick_s=45)

prop('P10', 'Binary predictions and probabilities follow from the scores as documented',
     'Given the scores of a boosted model, output-wise predictions are the labels whose score (or calibrated marginal '
     'probability) exceeds the threshold; example-wise predictions are a label vector of the training data that is closest to '
     'the scores (or the most probable one); the GFM predictor maximises the expected F-measure; probabilities are the '
     'calibrated logistic transformation of the scores or its marginalisation over the label vectors of the training data and '
     'lie in [0, 1]. Automatic predictors choose by the type of the loss, and predictions a loss does not support are rejected.',
     ['inputs', 'configurations'],
     'all losses, predictors and their options, calibration models, data sets and queries',
     'Tests record the predictions of single models; whether a prediction is optimal according to the documented criterion is '
     'never checked.',
     [f'{B}/src/mlrl/boosting/prediction/predictor_binary_output_wise.cpp', f'{B}/src/mlrl/boosting/prediction/predictor_binary_example_wise.cpp',
      f'{B}/src/mlrl/boosting/prediction/predictor_binary_gfm.cpp', f'{B}/src/mlrl/boosting/prediction/predictor_probability_marginalized.cpp',
      f'{B}/src/mlrl/boosting/prediction/probability_function_chain_rule.cpp'],
     [('GFM', f'{B}/src/mlrl/boosting/prediction/predictor_binary_gfm.cpp'), ('marginalisation', f'{B}/src/mlrl/boosting/prediction/predictor_probability_marginalized.cpp')],
     'property-based testing: generated models and queries; oracle: exhaustive optimisation over label vectors from the scores',
     'at most six labels, so that the optimum is found by enumeration; undefined calibrated probabilities (F12) are not judged',
     'at least one prediction has been judged and the scores differ between query examples')

prop('P11', 'Limiting the number of rules or time results in a prefix of a model',
     'For all data sets and configurations, a model that is learned with a limit on the number of rules (including the default rule) contains at most '
     'this many rules, and exactly those that are learned first without the limit. It contains as many rules as allowed, '
     'unless training ends beforehand even without the limit. Models for which the training time is limited are equal to those that result from limiting the '
     'number of rules to the number learned in this time. The default rule does not depend on the limit.',
     ['inputs', 'configurations', 'histories'],
     '1 to 25 examples, 1 to 5 features, 1 to 4 outputs, up to 16 rules (thousands if the time is limited), all options except for sequential post-optimisation',
     'Tests learn models of a single fixed size per configuration and never compare models of different sizes.',
     [f'{C}/src/mlrl/common/stopping/stopping_criterion_size.cpp', f'{C}/src/mlrl/common/stopping/stopping_criterion_time.cpp',
      f'{C}/src/mlrl/common/rule_model_assemblage/rule_model_assemblage_sequential.cpp', f'{C}/src/mlrl/common/model/rule_list.cpp'],
     [('stopping criteria', f'{C}/src/mlrl/common/stopping/stopping_criterion_size.cpp'),
      ('sequential rule induction', f'{C}/src/mlrl/common/rule_model_assemblage/rule_model_assemblage_sequential.cpp')],
     'property-based testing with generated data sets and configurations, metamorphic relation between models learned with different limits',
     'models to which global pruning is applied are only compared regarding the rules they have in common; lower bounds of time are not checked',
     'the limited model contains rules with conditions, but fewer than the other one', quick_s=35)

prop('P12', 'Global pruning uses the number of rules that is best according to the loss',
     'If a model is pruned globally, the number of rules that are used is the smallest one whose score according to the loss (on '
     'the holdout set, or the training set if there is none or it should be used) is minimal among all prefixes of the model with '
     'at least the minimum number of rules (post-pruning), respectively the training stops and rules are discarded as soon as '
     'the aggregated scores of the recent past do not improve on those of the past by the configured percentage, at the configured '
     'intervals (pre-pruning). The rules themselves are those that are learned without pruning.',
     ['inputs', 'configurations', 'histories'],
     'all data sets, losses, shrinkage, holdout strategies, and options of pre- and post-pruning',
     'Tests record how many rules result for a few configurations; that this number is the best one is never examined.',
     [f'{C}/src/mlrl/common/post_optimization/post_optimization_phase_list.cpp', f'{C}/src/mlrl/common/stopping/global_pruning_post.cpp',
      f'{C}/src/mlrl/common/stopping/global_pruning_pre.cpp', f'{B}/src/mlrl/boosting/losses/loss_decomposable_sparse_common.hpp'],
     [('post-pruning', f'{C}/src/mlrl/common/stopping/global_pruning_post.cpp'), ('pre-pruning', f'{C}/src/mlrl/common/stopping/global_pruning_pre.cpp')],
     'property-based testing: differential with the unpruned model, whose prefixes are evaluated by a reference model of the loss and criterion',
     'up to 16 rules; the holdout set is inferred by enumerating the subsets that explain the rules, so that there are at most nine examples if there is one',
     'the criterion had to choose between at least two numbers of rules with different scores')

prop('P13', 'Calibration models fit the observed frequencies by an increasing function',
     'The isotonic calibration model of each label (label vector) that is fitted during training consists of bins with strictly '
     'increasing thresholds and strictly increasing probabilities in [0, 1]. The thresholds are probabilities that the model '
     'predicts for training examples, starting with the smallest one. Each probability lies within the frequencies of '
     'the label (label vector) among the examples of its bin, equals the frequency if all examples of the bin have the same '
     'predicted probability, and examples with increasing frequencies are not pooled.',
     ['inputs', 'configurations'],
     'all data sets, logistic losses and configurations with marginal and/or joint isotonic calibration and no holdout set',
     'Tests record calibration models of single runs and cannot tell whether they are isotonic or fit the data in general.',
     [f'{C}/src/mlrl/common/prediction/probability_calibration_isotonic.cpp', f'{B}/src/mlrl/boosting/prediction/probability_calibration_isotonic.cpp',
      f'{B}/src/mlrl/boosting/prediction/probability_function_chain_rule.cpp'],
     [('isotonic regression', f'{C}/src/mlrl/common/prediction/probability_calibration_isotonic.cpp'), ('extraction of probabilities', f'{B}/src/mlrl/boosting/prediction/probability_calibration_isotonic.cpp')],
     'property-based testing: generated models; oracle: predicates over the bins and the probabilities and frequencies recomputed from the rules',
     'pooling is judged by its bounds only, as pools are averaged without weights; label vectors are prefix-free (F04); no sequential post-optimisation (F14)',
     'a calibration model with at least two bins has been fitted')

prop('P14', 'SeCo models predict like decision lists',
     'The label predicted by a SeCo model is the one of the first rule in use that covers the example and predicts for the label. The rules '
     'in use always end with a default rule that predicts for all labels, also if the number of rules is limited when '
     'predicting, and no other rule has an empty body. This holds irrespective of the format of the features and the predictions.',
     ['inputs', 'configurations'],
     'all models learned with all options, dense and sparse queries (including different sparse values, explicit zeros and missing values)',
     'Tests compare the predictions for a single data set with recorded ones.',
     [f'{S}/src/mlrl/seco/prediction/predictor_binary_output_wise.cpp', f'{S}/src/mlrl/seco/model/decision_list_builder.cpp',
      f'{C}/src/mlrl/common/model/rule_list.cpp', f'{C}/src/mlrl/common/model/body_conjunctive.cpp'],
     [('decision list', f'{S}/src/mlrl/seco/prediction/predictor_binary_output_wise.cpp'), ('rule list', f'{C}/src/mlrl/common/model/rule_list.cpp')],
     'property-based testing: generated models and queries; oracle: evaluation of the exported rules as a decision list',
     'sparse predictions are not judged for labels affected by F11',
     'at least one rule with conditions covers some but not all queries')

prop('P15', 'Separate-and-conquer: each SeCo rule is best for what its predecessors left',
     'Without sampling and pruning, each rule of a SeCo model predicts the opposite of the majority for its labels, covers at '
     'least the minimum number of examples, and, according to the configured heuristic (and lift function) evaluated on exactly those '
     'labels no previous rule has predicted, is at least as good as each rule with a single condition, as its own conditions with '
     'a different head, and as its extension by a further condition. The last rule predicts the majority of each label. '
     'Learning does not end while labels are left that deviate from the majority, there is a rule of positive quality, and '
     'the maximum number of rules has not been reached, and it ends if there are none.',
     ['inputs', 'configurations', 'histories'],
     'all data sets, heuristics, lift functions, head types and limits of the greedy search',
     'Tests record the rules of a few models on one data set; that a rule maximises the heuristic is never examined.',
     [f'{S}/src/mlrl/seco/heuristics/heuristic_accuracy.cpp', f'{S}/src/mlrl/seco/rule_evaluation/rule_evaluation_decomposable_partial.cpp',
      f'{S}/src/mlrl/seco/lift_functions/lift_function_peak.cpp', f'{S}/src/mlrl/seco/data/vector_confusion_matrix_dense.cpp',
      f'{S}/src/mlrl/seco/statistics/statistics_provider_decomposable_dense.cpp', f'{S}/src/mlrl/seco/stopping/stopping_criterion_coverage.cpp'],
     [('heuristics', f'{S}/src/mlrl/seco/heuristics/heuristic_f_measure.cpp'), ('coverage', f'{S}/src/mlrl/seco/data/matrix_coverage_dense.cpp')],
     'property-based testing: replay of the training history; oracle: exhaustive enumeration of conditions and heads by a numpy model of the heuristics',
     'up to 32 examples, 4 features and 5 labels; feature values affected by F01 are left out',
     'at least two candidate conditions have been compared with a learned rule')

prop('P18', 'Valid data and configurations never cause invalid memory accesses',
     'For all data sets (including few or many examples, features and outputs, missing values, empty rows, dense and sparse formats) and all '
     'valid configurations, training, predicting, predicting incrementally and saving and loading a model terminate without '
     'accesses to memory outside of the bounds of an object or after its lifetime and without undefined behaviour.',
     ['inputs', 'configurations', 'histories'],
     'data sets with 1 to 70 examples, 1 to 14 features and 1 to 16 outputs, all options except for feature binning and beam search',
     'Tests run without sanitizers on two data sets of fixed shape; reading beyond a buffer usually goes unnoticed.',
     [f'{C}/src/mlrl/common/sampling/feature_sampling_without_replacement.cpp', f'{C}/src/mlrl/common/input/feature_vector_numerical_allocated.hpp',
      f'{C}/include/mlrl/common/data/view_vector.hpp', f'{B}/src/mlrl/boosting/binning/label_binning_equal_width.cpp',
      f'{S}/src/mlrl/seco/statistics/statistics_decomposable_common.hpp'],
     [('views', f'{C}/include/mlrl/common/data/view_vector.hpp'), ('sampling', f'{C}/src/mlrl/common/sampling/feature_sampling_without_replacement.cpp')],
     'property-based testing/fuzzing with structured generators of a build instrumented by AddressSanitizer and UndefinedBehaviorSanitizer',
     'memory of LAPACK is not instrumented; feature binning (F05) and beam search (F06) are left out',
     'a model that contains a rule with conditions has been learned', quick_s=60, variant='asan')

prop('P16', 'Parameters are validated and take effect however they are spelled',
     'Invalid values of parameters and their options, e.g. values outside of the documented range, unknown names or malformed '
     'numbers, are rejected with an error before training and do not affect subsequent use of a learner. The order of options, '
     'the way numbers are written and explicitly giving a documented default do not alter the learned model or its predictions.',
     ['inputs', 'configurations'],
     'all parameters of the three learners and their options, all spellings of valid values, all values outside of their domain',
     'Tests pass one or two valid values per parameter via the command line and never check that one which is given takes effect or that '
     'one that is invalid is rejected.',
     [f'{PC}/options.py', f'{PC}/config.py', 'python/subprojects/boosting/mlrl/boosting/config.py', 'python/subprojects/seco/mlrl/seco/config.py',
      f'{PC}/cython/validation.py', f'{PC}/rule_learners.py'],
     [('parsing of options', f'{PC}/options.py'), ('validation', f'{PC}/cython/validation.py')],
     'property-based testing: metamorphic relation (respelled configurations) and rejection of generated invalid values',
     'a specification of all parameters, their options, domains and defaults is part of the check',
     'a value has been respelled and the model contains rules with conditions, or an invalid value has been given', quick_s=35)

prop('P17', 'Data sets are loaded, saved, encoded and split without altering them',
     'Loading an ARFF file (and its Mulan XML file) yields exactly the values, names, types and order it specifies, saving and loading '
     'restores a data set, one-hot encoding keeps all information in documented order and each way of splitting a data set uses every '
     'example in exactly the training and test sets it is supposed to be part of.',
     ['inputs', 'configurations'],
     'dense and sparse ARFF files in any style of notation, any position and naming of outputs, nominal, numeric and missing values, '
     'any number of folds, sizes of test sets and predefined splits',
     'Tests use a few well-formed files; incorrect splits or values still lead to plausible evaluation results.',
     [f'{PT}/data.py', f'{PT}/data_splitting.py'],
     [('ARFF files', f'{PT}/data.py'), ('splitting', f'{PT}/data_splitting.py')],
     'property-based testing: generated files and splits against the data they have been generated from (round trip and reference model)',
     'unquoted special characters and outputs in the middle of a file are not generated',
     'a data set with several rows and features or outputs is checked', quick_s=25)

prop('P19', 'Results reported by experiments describe the actual data and models',
     'Evaluation results, predictions, ground truth, characteristics of data, models and predictions, label vectors, rules, calibration models '
     'and parameters that are written by an experiment are those of the data set, model and predictions they are reported for, for every fold, '
     'on average and at each step of an incremental evaluation.',
     ['inputs', 'configurations', 'histories'],
     'data sets, configurations of the learners, ways of splitting, formats and options of all outputs',
     'Tests compare the output of fixed experiments with recordings that have been created by the program itself.',
     [f'{PT}/evaluation.py', f'{PT}/predictions.py', f'{PT}/prediction_scope.py', f'{PT}/experiments.py', f'{PT}/data_characteristics.py',
      f'{PT}/prediction_characteristics.py', f'{PT}/model_characteristics.py', f'{PT}/models.py', f'{PT}/label_vectors.py',
      f'{PT}/probability_calibration.py', f'{PT}/output_writer.py', f'{PT}/parameters.py', f'{PT}/persistence.py'],
     [('evaluation', f'{PT}/evaluation.py'), ('writing', f'{PT}/output_writer.py')],
     'property-based testing: complete experiments on generated data sets, all files are compared with independently recomputed values',
     'the learned models themselves are taken as given (see the other properties)',
     'an experiment has been run and at least one written file has been compared', quick_s=50)

NOT_APPLICABLE = []
