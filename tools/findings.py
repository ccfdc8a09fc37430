#!/usr/bin/env python3
"""Writes known_findings.json."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [  # property, commit, what failed
 ('P18', '38bf39c', 'incremental predictors accessed the calibration model of a deleted learner'),
 ('P06', '482c167', 'incremental predictions were views on memory that is modified by later steps and freed with the predictor'),
 ('P18', '90b186f', 'heap overflow when a SeCo rule is evaluated for more labels than there are examples'),
 ('P06', '075f811', 'predicting with a build or configuration without threads accessed the buffer of another thread'),
 ('P01', '0417d60', 'missing feature values satisfied some conditions when predicting, although not in training'),
 ('P12', 'ccae76a', 'pre-pruning removed unused rules or not, depending on uninitialised memory'),
 ('P16', '7977a3a', 'mixed feature types were rejected if only nominal or only ordinal indices were specified'),
 ('P18', '84b60cb', 'feature sampling with retained features never terminated or wrote beyond a buffer for few features'),
 ('P15', '6634990', 'the peak lift function was not decreasing after its peak and exceeded its maximum'),
 ('P18', '71b356f', 'equal-width feature binning wrote beyond the end of a buffer'),
 ('P18', 'b057cd2', 'equal-width label binning wrote beyond the end of a buffer'),
 ('P07', 'be98907', 'L1 regularisation pushed scores away from zero instead of towards zero'),
 ('P13', '97d9e86', 'the probability aggregated for the last threshold was lost when fitting isotonic calibration models'),
 ('P06', '11075af', 'endless recursion if probabilities cannot be predicted incrementally'),
 ('P02', '37d572e', 'sparse matrices without explicit elements were rejected or crashed'),
 ('P02', '74ca648', 'explicit zeros of a sparse feature matrix were replaced by the sparse value'),
 ('P03', '927ca50', 'explicit zeros of a sparse label matrix were considered as relevant labels'),
 ('P07', '1d3ca06', 'conditions separating positive from sparse values excluded examples with negative values'),
 ('P07', 'd22aa48', 'examples with missing values were counted as covered by conditions on the feature'),
 ('P18', '31c230c', 'rows of sparse label matrices were read beyond their end'),
 ('P07', '83d575d', 'missing values were considered as covered after adding a condition using != to a rule'),
 ('P07', '2722496', 'thresholds between very large feature values overflowed'),
 ('P07', '508a94b', 'default rules of models using sparse statistics predicted for the wrong outputs'),
 ('P03', '3e71eb8', 'unsorted sparse regression matrices resulted in different models'),
 ('P04', '6dcfa7c', 'a data race made the number of rules learned by SeCo depend on the schedule of threads'),
 ('P05', 'a2fbb4e', 'fitting joint isotonic calibration models crashed if a label vector does not occur in the holdout set'),
 ('P10', 'af56856', 'the automatic binary predictor always was the output-wise predictor'),
 ('P12', '5c1df56', 'global pruning evaluated models that use sparse statistics wrongly'),
 ('P15', 'cccba57', 'the accuracy heuristic considered wrong predictions outside of a rule as correct for rules that predict negatively'),
 ('P17', '8a13e9f', 'trailing rows and columns without non-zero values were lost when loading sparse ARFF files'),
 ('P17', '757f590', 'negative numbers of outputs (-C -n) in the @relation declaration of ARFF files were misinterpreted'),
 ('P19', '8e4dd50', 'label vectors without relevant labels could not be written'),
 ('P19', '2e072e6', 'thresholds and probabilities were swapped in CSV files of calibration models'),
 ('P19', '434ecdc', 'bins of calibration models were duplicated if several sinks are used'),
 ('P19', 'a1c2bce', 'the option of the median absolute error was that of another measure'),
 ('P19', 'e03dba1', 'the maximum size was not respected by incremental evaluations'),
 ('P19', '40ed068', 'averages of incremental evaluations mixed up models of different size'),
 ('P19', '23752bf', 'numerical predictions were declared as nominal values in ARFF files'),
 ('P17', '3046465', 'indices of nominal values were written to ARFF files'),
 ('P17', '50b02d1', 'names of outputs were assigned to the wrong columns of ARFF files'),
 ('P17', 'd708c3a', 'one-hot encoding failed for predefined folds'),
 ('P17', 'f379540', 'explicit zeros in sparse ARFF files were treated differently than omitted values'),
 ('P19', 'f168ffa', 'writing characteristics of incremental predictions failed'),
 ('P05', '9214bf8', 'empty label vectors were restored as arrays of a different type'),
 ('P03', '840ff54', 'sparse predictions were of a different type if no labels are predicted'),
 ('P16', '047478d', 'NaN was accepted as the value of parameters and ended the process'),
 ('P18', '8a67944', 'unsorted sampled outputs led to accesses before the begin of a buffer'),
 ('P16', 'c9b2330', 'the automatic values of parameters of the BOOMER algorithm were rejected'),
 ('P16', 'b517293', 'the documented default of the parameter head_type was rejected'),
 ('P16', '5b8e753', 'the parameter random_state of regressors was ignored and not validated'),
 ('P16', 'd07cc1d', 'zero was accepted as the interval after which pre-pruning may stop, which is a division by zero'),
 ('P09', 'fab0656', 'the minimum and maximum number of features were ignored if the sample size is computed automatically'),
 ('P09', '6915654', 'the minimum and maximum number of examples were ignored by stratified sampling methods'),
]
KNOWN = [  # property, finding, what
 ('P07', 'F01', 'of the feature values that are not less than the sparse value, the smallest one is ignored by the numerical search (recorded output of 177 tests depends on it)'),
 ('P07', 'F03', 'the non-decomposable squared error loss treats regression scores as binary labels (recorded output of 5 tests)'),
 ('P07', 'F08', 'rules with partial or single heads update the statistics of the wrong outputs if regression scores are given as a dense matrix (recorded output of 5 tests)'),
 ('P07', 'F09', 'the ordinal search mixes up feature values if examples with zero weight exist (recorded output of 2 tests)'),
 ('P07', 'F10', 'after IREP has pruned a rule, statistics of the wrong examples are updated unless exactly one condition is removed (recorded output of 79 tests)'),
 ('P03', 'F11', 'sparse SeCo predictions contain labels for which an earlier covering rule predicts the opposite (recorded output of 6 tests)'),
 ('P10', 'F12', 'isotonic calibration of a probability that is exactly 0 or 1 divides zero by zero, all probabilities become 0 (recorded output of 8 tests)'),
 ('P15', 'F13', 'SeCo stops although labels are left, because covered labels that equal the majority are subtracted from the number of those that do not'),
 ('P13', 'F14', 'sequential post-optimisation retains a rule that cannot be replaced, but its prediction has been removed from the statistics, so that subsequent rules and calibration models do not take it into account (recorded output of 1 test)'),
 ('P17', 'F15', 'regression scores of data sets are converted to unsigned 8 bit integers when a data set is loaded to be split (recorded output of the regression tests depends on it)'),
 ('P17', 'F16', 'missing values in dense ARFF files are replaced by zeros (recorded output of 4 tests depends on it)'),
]
exec(open(os.path.join(HERE, 'tools', 'more_findings.py')).read()) if os.path.exists(os.path.join(HERE, 'tools', 'more_findings.py')) else None
out = [dict(property=p, status='known', id=f, what=f'{f}: {w}', replay=f'findings/{p}-{f}.json') for p, f, w in KNOWN]
out += [dict(property=p, status='fixed', what=f'fixed: property={p} {c} {w}') for p, c, w in FIXED]
for e in out:
    if e['status'] == 'known':
        assert os.path.exists(os.path.join(HERE, e['replay'])), e
with open(os.path.join(HERE, 'known_findings.json'), 'w') as f:
    json.dump({'findings': out}, f, indent=1)
    f.write('\n')
