"""Files and messages written by an experiment describe the actual data, models and predictions."""
import os
import pickle
import random
import re
import shutil
import tempfile

from core import *
import gen
import tbed as T
from props.p10 import _Vectors, bins_of_model
from props.p17 import shrink_candidates as data_candidates, table

NAMES = ['a', 'b1', 'X_0', 'y0', 'y10', 'y2', 'f 1', 'Größe', 'a.b', 'class', 'attr', 'real', 'label one', 'l<2>', 'p&q', 'data']
VALUES = ['red', 'blue', 'light green', '0', '1', '-2.5', 'Blue', 'TRUE', 'ä']
MULTI = ['hamming_loss', 'hamming_accuracy', 'subset_zero_one_loss', 'subset_accuracy', 'micro_precision', 'macro_f1',
         'example_wise_jaccard', 'micro_recall']
SINGLE = ['accuracy', 'zero_one_loss', 'precision', 'f1']
SCORE = ['mean_absolute_error', 'mean_squared_error', 'median_absolute_error', 'mean_absolute_percentage_error']
RANK = ['rank_loss', 'coverage_error', 'lrap', 'dcg', 'ndcg']


def sink(r, options):
    """-> None (not used) or the options of the sink"""
    return {k: r.choice(v) for k, v in options.items() if r.random() < 0.4} if r.random() < 0.6 else None


def generate(r):
    kind = gen.pick(r, [(5, 'bc'), (2, 'br'), (2, 'sc')])
    n, d, m = r.randint(6, 22), r.randint(1, 4), gen.pick(r, [(1, 1), (4, r.randint(2, 4))])
    types = [r.choice(['numeric', 'real', 'integer', 'nominal']) for _ in range(d)]
    nominal = [r.sample(VALUES, r.randint(1, 4)) if t == 'nominal' else None for t in types]
    sparse = r.random() < 0.4
    x = [[T.cell(r, types[j], nominal[j], 0.5 if sparse else 0.2) for j in range(d)] for _ in range(n)]
    if not sparse:  # F16
        x = [[0 if v is None else v for v in row] for row in x]
    if kind == 'br':
        y = [[r.randint(0, r.choice([9, 255])) for _ in range(m)] for _ in range(n)]
    else:
        rare = r.choice([0.1, 0.4, 0.6])
        y = [[int(r.random() < rare or (bool(row[0]) and r.random() < 0.4)) for _ in range(m)] for row in x]
    split = gen.pick(r, [(2, 'none'), (4, 'train-test'), (5, 'cv'), (1, 'given-train-test'), (2, 'given-cv')])
    if kind == 'sc':
        config = gen.seco_config(r, max_rules=6, sampling=0.3, wild=False)
    else:
        config = gen.boosting_config(r, kind, max_rules=8, sampling=0.3, wild=False)
        if kind == 'bc':
            for key, choices in (('marginal_probability_calibration', ['isotonic']), ('joint_probability_calibration', ['isotonic']),
                                 ('binary_predictor', ['output-wise', 'example-wise', 'auto']),
                                 ('probability_predictor', ['output-wise', 'marginalized', 'auto'])):
                if r.random() < 0.25:
                    config[key] = r.choice(choices)
    config = {k: v for k, v in config.items() if not k.startswith('parallel') and k != 'random_state'}
    measures = {k: [True, False] for k in r.sample(MULTI + SINGLE + SCORE + RANK, 6)}
    evaluation = dict(decimals=[0, 1, 2, 4], percentage=[True, False], enable_all=[True, False], **measures)
    rules = dict(print_feature_names=[True, False], print_output_names=[True, False], print_nominal_values=[True, False],
                 print_bodies=[True, False], print_heads=[True, False], decimals_body=[0, 1, 3], decimals_head=[0, 1, 3])
    charas = dict(decimals=[0, 1, 3], percentage=[True, False], output_density=[False], label_cardinality=[False], outputs=[False])
    sinks = dict(store_evaluation=sink(r, evaluation), print_evaluation=sink(r, evaluation),
                 store_predictions=sink(r, dict(decimals=[0, 1, 3])),
                 store_prediction_characteristics=sink(r, charas), store_data_characteristics=sink(r, charas),
                 store_label_vectors=sink(r, dict(sparse=[True, False])),
                 store_rules=sink(r, rules), print_rules=sink(r, rules),
                 store_marginal_probability_calibration_model=sink(r, dict(decimals=[0, 1, 3])),
                 store_joint_probability_calibration_model=sink(r, dict(decimals=[0, 1, 3])))
    incremental = None
    if r.random() < 0.35:
        incremental = dict(min_size=r.choice([None, 0, 1, 2, 3]), step_size=r.choice([None, 1, 2, 4]), max_size=r.choice([None, 0, 4, 5, 9]))
    return dict(kind=kind, names=r.sample(NAMES, d + m), types=types, nominal=nominal, x=x, y=y, regression=kind == 'br', sparse=sparse,
                start=r.random() < 0.3, xml=r.random() < 0.7, xml_order=0, style=r.randrange(1 << 30), zeros=r.choice([0, 0, 0.5]),
                split=split, test_size=r.choice([0.2, 0.33, 0.5]), folds=r.randint(2, 3), fold=r.choice([0, 0, 0, 1, 2]), seed=r.randint(1, 9),
                one_hot=r.random() < 0.2, parts=[r.randint(2, 6) for _ in range(4)], config=config, sinks=sinks, incremental=incremental,
                prediction=gen.pick(r, [(3, 'binary'), (2, 'scores'), (2, 'probabilities')]),
                training=r.random() < 0.35, model_characteristics=r.random() < 0.4, parameters=r.random() < 0.4,
                formats={k: r.choice(['dense', 'sparse', 'auto']) for k in ('feature_format', 'output_format', 'prediction_format') if r.random() < 0.3},
                again=r.choice(['', '', 'model', 'parameters']))


# ------------------------------------------------------------------------------------------------------------ measures


def ratio(a, b):
    """a / b, 1 if undefined"""
    return np.where(b > 0, a / np.where(b > 0, b, 1), 1.0)


def binary_measures(y, p):
    y, p = y > 0, p > 0
    if y.shape[1] == 1:
        acc = float(np.mean(y == p))
        res = {'Accuracy': acc, '0/1 Loss': 1 - acc}
        groups = {'': None}
    else:
        h, s = float(np.mean(y == p)), float(np.mean((y == p).all(axis=1)))
        res = {'Hamming Accuracy': h, 'Hamming Loss': 1 - h, 'Subset Accuracy': s, 'Subset 0/1 Loss': 1 - s}
        groups = {'Micro ': None, 'Macro ': 0, 'Example-wise ': 1}
    for prefix, axis in groups.items():
        tp, fp, fn = ((y & p).sum(axis=axis).astype(float), (~y & p).sum(axis=axis).astype(float), (y & ~p).sum(axis=axis).astype(float))
        res[prefix + 'Precision'] = float(np.mean(ratio(tp, tp + fp)))
        res[prefix + 'Recall'] = float(np.mean(ratio(tp, tp + fn)))
        res[prefix + 'F1'] = float(np.mean(ratio(2 * tp, 2 * tp + fp + fn)))
        res[prefix + 'Jaccard'] = float(np.mean(ratio(tp, tp + fp + fn)))
    return res, set(res)


def score_measures(y, p):
    e = np.abs(y - p)
    return {'Mean Absolute Error': float(e.mean()), 'Mean Squared Error': float((e * e).mean()),
            'Median Absolute Error': float(np.mean(np.median(e, axis=0))),
            'Mean Absolute Percentage Error': float((e / np.maximum(np.abs(y), np.finfo(np.float64).eps)).mean())}


def ranking_measures(y, p):
    rank, cov, lrap, dcg, ndcg = [], [], [], [], []
    for t, s in zip(y > 0, p):
        pos, neg = s[t], s[~t]
        rank.append(sum(float(a <= b) for a in pos for b in neg) / (len(pos) * len(neg)) if len(pos) and len(neg) else 0.0)
        cov.append(int((s >= pos.min()).sum()) if len(pos) else 0)
        lrap.append(float(np.mean([(pos >= a).sum() / (s >= a).sum() for a in pos])) if len(pos) and len(neg) else 1.0)
        discount = 1 / np.log2(np.arange(len(s)) + 2)
        total, k = 0.0, 0
        for v in sorted(set(s.tolist()), reverse=True):  # ties: the expected gain
            group = t[s == v]
            total += group.mean() * discount[k:k + len(group)].sum()
            k += len(group)
        dcg.append(total)
        ideal = discount[:len(pos)].sum()
        ndcg.append(total / ideal if ideal > 0 else 0.0)
    return {'Ranking Loss': np.mean(rank), 'Coverage Error': np.mean(cov), 'Label Ranking Average Precision': np.mean(lrap),
            'Discounted Cumulative Gain': np.mean(dcg), 'NDCG': np.mean(ndcg)}


OPTION_OF = {
    'Hamming Accuracy': 'hamming_accuracy', 'Hamming Loss': 'hamming_loss', 'Subset Accuracy': 'subset_accuracy',
    'Subset 0/1 Loss': 'subset_zero_one_loss', '0/1 Loss': 'zero_one_loss', 'Ranking Loss': 'rank_loss',
    'Label Ranking Average Precision': 'lrap', 'Discounted Cumulative Gain': 'dcg', 'NDCG': 'ndcg'
}


def option_of(name):
    return OPTION_OF.get(name, name.lower().replace('-', '_').replace(' ', '_'))


def evaluate(case, y, p):
    """-> scores, names of measures that are given as percentages"""
    if case['kind'] != 'br' and case['prediction'] == 'binary':
        return binary_measures(y, p)
    if case['kind'] == 'br':
        return score_measures(y, p), set()
    if y.shape[1] == 1:
        return score_measures(y, p[:, -1:]), set()
    return dict(score_measures(y, p), **ranking_measures(y, p)), {'NDCG'}


def number_matches(text, expected, decimals, noise=0.0):
    try:
        v = float(text)
    except ValueError:
        return False
    if decimals > 0 and not re.fullmatch(r'-?(\d+\.\d{%d}|inf|nan)' % decimals, str(text)):
        return False
    if math.isnan(expected) or math.isinf(expected):
        return repr(v) == repr(float(expected))
    return abs(v - expected) <= 1e-6 * abs(expected) + 1e-7 + noise + (0.5001 * 10.0**-decimals if decimals > 0 else 0)


def expect_number(what, text, expected, decimals, noise=0.0):
    if text is None or not number_matches(text, expected, decimals, noise):
        fail('%s: %s, but should be %s (decimals: %s)', what, text, expected, decimals)


# ----------------------------------------------------------------------------------------------------------- experiment


def flag(name):
    return '--' + name.replace('_', '-')


def arguments(case, data, out, models=None, parameters=None, load=False):
    program = 'mlrl.seco' if case['kind'] == 'sc' else 'mlrl.boosting'
    args = [program, '--data-dir', data, '--dataset', 'data', '--output-dir', out, '--random-state', case['seed']]
    if models:
        args += ['--model-dir', models]
    if parameters:
        args += ['--parameter-dir', parameters]
    if not load:
        for k, v in case['config'].items():
            args += [flag(k), v]
    if case['kind'] == 'br':
        args += ['--problem-type', 'regression']
    split = case['split']
    args += ['--data-split', 'none' if split == 'none' else value('cross-validation', num_folds=case['folds'], current_fold=case['fold'] or None)
             if split in ('cv', 'given-cv') else value('train-test', test_size=case['test_size'])]
    for k in ('store_evaluation', 'print_evaluation'):
        if case['sinks'][k] is None:
            args += [flag(k), 'false']
    for k, opts in case['sinks'].items():
        if opts is not None:
            args += [flag(k), value('true', **opts)]
    if case['incremental'] is not None:
        args += ['--incremental-evaluation', value('true', **case['incremental'])]
    for k, v in (('evaluate_training_data', case['training']), ('store_model_characteristics', case['model_characteristics']),
                 ('store_parameters', parameters and not load), ('one_hot_encoding', case['one_hot'])):
        if v:
            args += [flag(k), 'true']
    for k, v in case['formats'].items():
        if k != 'output_format' or case['kind'] != 'br':
            args += [flag(k), v]
    return args + ['--prediction-type', case['prediction']]


def option(opts, name, default):
    v = opts.get(name)
    return default if v is None else v


def predictions(case, learner, x):
    """-> [(model size, predictions)], the size is 0 if the entire model is used"""
    inc, prediction = case['incremental'], case['prediction']
    kwargs = dict(predict_scores=True) if prediction == 'scores' and case['kind'] != 'br' else {}
    if inc is None:
        return [(0, learner.predict_proba(x) if prediction == 'probabilities' else learner.predict(x, **kwargs))]
    make_predictor = lambda: learner.predict_proba_incrementally(x) if prediction == 'probabilities' else learner.predict_incrementally(x, **kwargs)
    total = make_predictor().get_num_next()
    low, step, high = inc['min_size'] or 0, inc['step_size'] or 1, inc['max_size'] or 0
    total = min(total, high) if high else total
    sizes, size = [], 0
    while size < total:
        size = min(size + (low if size == 0 and low else step), total)
        sizes.append(size)
    return [(k, make_predictor().apply_next(k)) for k in sizes]


def expected_rule(case, rule, opts, encoded):
    """-> the conditions and predictions of a rule"""
    names, types, nominal = case['names'], case['types'], case['nominal']
    d = len(types)
    conds = []
    for op, f, t in rule.conds:
        name = names[f] if not encoded and option(opts, 'print_feature_names', True) else str(f)
        if not encoded and nominal[f] is not None:
            v = '"' + nominal[f][int(t)] + '"' if option(opts, 'print_nominal_values', True) else str(int(t))
        else:
            v = (option(opts, 'decimals_body', 2), t)
        conds.append((name + ' ' + op.replace('o', '') + ' ', v))
    head = []
    for j, s in zip(rule.outputs(len(rule.scores)), rule.scores):
        head.append((names[d + j] if option(opts, 'print_output_names', True) else str(j), s))
    return conds, head


def check_rules(case, what, text, rules, opts, encoded):
    lines = [v for v in text.split('\n') if v]
    bodies, heads = option(opts, 'print_bodies', True), option(opts, 'print_heads', True)
    if not bodies and not heads:
        if lines:
            fail('%s contains text although nothing should be printed: %s', what, lines)
        return
    if len(lines) != len(rules):
        fail('%s contains %d rules instead of %d', what, len(lines), len(rules))
    for line, rule in zip(lines, rules):
        conds, head = expected_rule(case, rule, opts, encoded)
        rest = line
        if bodies:
            i = line.rfind('} => (') if heads else len(line) - 1
            body, rest = line[1:i], line[i + 5:]
            parts = body.split(' & ') if body else []
            if line[0] != '{' or len(parts) != len(conds):
                fail('%s: %s does not consist of the conditions %s', what, line, conds)
            for part in parts:
                for c in conds:
                    if part.startswith(c[0]) and (part[len(c[0]):] == c[1] if isinstance(c[1], str) else
                                                  number_matches(part[len(c[0]):], c[1][1], c[1][0])):
                        conds.remove(c)
                        break
                else:
                    fail('%s: unexpected condition %s in %s, expected %s', what, part, line, conds)
        if heads:
            if rest[:1] != '(' or rest[-1:] != ')':
                fail('%s: %s does not contain a head', what, line)
            parts = [v.split(' = ') for v in rest[1:-1].split(', ')]
            if [v[0] for v in parts] != [h[0] for h in head]:
                fail('%s: %s should predict for %s', what, line, [h[0] for h in head])
            for (name, text_), (_, s) in zip(parts, head):
                expect_number('%s: prediction for %s in %s' % (what, name, line), text_, s, option(opts, 'decimals_head', 2))


def label_characteristics(y, labels):
    y = np.asarray(y)
    nz = np.count_nonzero(y)
    res = {'Outputs': (y.shape[1], False), 'Output Density': (nz / y.size, True), 'Output Sparsity': (1 - nz / y.size, True)}
    if labels:
        per = np.count_nonzero(y, axis=0)
        per = per[per > 0]
        res['Label Imbalance Ratio'] = (float(np.mean(per.max() / per)) if len(per) else 0.0, False)
        res['Label Cardinality'] = (nz / len(y), False)
        res['Distinct Label Vectors'] = (len({tuple(v) for v in (y > 0).tolist()}), False)
    return res


def check_columns(what, row, expected, opts):
    expected = {k: v for k, v in expected.items() if option(opts, option_of(k), True)}
    if set(row) != set(expected):
        fail('%s contains the columns %s, expected %s', what, sorted(row), sorted(expected))
    for k, (v, percentage) in expected.items():
        expect_number(what + ': ' + k, row[k], v * (100 if percentage and option(opts, 'percentage', True) else 1), option(opts, 'decimals', 0))


def check(case):
    d, m, n = len(case['types']), len(case['y'][0]) if case['y'] else 0, len(case['x'])
    if not case['x'] or any(len(r) != d for r in case['x']) or len({len(r) for r in case['y']}) != 1 or len(case['y']) != n or n < 4:
        raise Skip('invalid')
    if not case['regression'] and any(v not in (0, 1) for r in case['y'] for v in r):
        raise Skip('invalid')
    if not case['sparse'] and not case.get('known') and any(v is None for row in case['x'] for v in row):
        raise Skip('F16')
    for j, v in enumerate(case['nominal']):
        if any(v is not None and row[j] is not None and row[j] not in range(len(v)) for row in case['x']):
            raise Skip('invalid')
        if v is not None and case['one_hot'] and any(row[j] is None for row in case['x']):
            raise Skip('missing nominal values')
    gen.require_valid(case)
    if case['again'] == 'parameters':
        case = dict(case, parameters=True)
    if case['prediction'] == 'probabilities' and case['kind'] != 'bc':
        case = dict(case, prediction='scores')
    if case['prediction'] == 'scores' and case['kind'] == 'sc':
        case = dict(case, prediction='binary')
    if case['incremental'] is not None and case['incremental']['max_size'] and case['incremental']['max_size'] <= (case['incremental']['min_size'] or 0):
        raise Skip('invalid')
    path = tempfile.mkdtemp(prefix='p19-')
    try:
        return check_experiment(case, path)
    finally:
        shutil.rmtree(path, ignore_errors=True)


def write_data(case, path):
    """Writes the data set and returns what is used for training and testing by the individual runs."""
    split, n, folds = case['split'], len(case['x']), case['folds']
    if split.startswith('given'):
        k = 2 if split == 'given-train-test' else folds
        bounds = [min(int(b), n - k + i) for i, b in enumerate(np.cumsum([0] + case['parts'][:k - 1]))] + [n]
        if any(b - a < 1 for a, b in zip(bounds, bounds[1:])):
            raise Skip('too few examples')
        for i, (a, b) in enumerate(zip(bounds, bounds[1:])):
            name = ('data_training', 'data_test')[i] if split == 'given-train-test' else 'data_fold-%d' % (i + 1)
            T.write(dict(case, x=case['x'][a:b], y=case['y'][a:b]), path, name, xml='data')
    else:
        if n < 2 * folds and split == 'cv' or split == 'train-test' and math.ceil(n * case['test_size']) >= n - 1:
            raise Skip('too few examples')
        T.write(case, path, 'data')
    if case['fold'] > folds:
        raise Skip('invalid')
    return T.split('cv' if split in ('cv', 'given-cv') else split, path, case, case['fold'] - 1)


def check_experiment(case, path):
    data, out, models, parameters = (os.path.join(path, v) for v in ('data', 'out', 'models', 'parameters'))
    for v in (data, out, models, parameters):
        os.mkdir(v)
    with open(os.path.join(out, 'old.csv'), 'w') as f:
        f.write('old')
    runs = write_data(case, data)
    classification = case['kind'] != 'br'
    try:
        text = T.run(arguments(case, data, out, models, parameters if case['parameters'] else None))
    except ValueError as e:
        raise Skip('rejected') from e
    folds = [r['split'].get_fold() for r in runs]
    is_cv = case['split'] in ('cv', 'given-cv')
    suffix = {f: 'overall' if f is None else 'fold-%d' % (f + 1) for f in folds}
    expected_files = set()
    learners = []
    names, d, sinks = case['names'], len(case['types']), case['sinks']
    encoded = case['one_hot'] and any(case['nominal'])
    m = len(names) - d
    if not case['fold'] or not is_cv:
        if os.path.exists(os.path.join(out, 'old.csv')):
            fail('files of previous experiments are retained')
    else:
        expected_files.add('old.csv')
    messages = T.messages(text)

    def message(title, data_type, size, fold, average=False):
        head = title + (' for %s data' % data_type if data_type else '') + (' using a model of size %d' % size if size else '')
        if is_cv:
            head += ' (Average across %d folds)' % case['folds'] if average else ' (Fold %d)' % (fold + 1)
        found = [v for v in messages if v.startswith(head + ':\n\n')]
        if len(found) != 1:
            fail('%d messages start with "%s"', len(found), head)
        return found[0][len(head) + 3:]

    def store(name, kind):
        expected_files.add(name)
        p = os.path.join(out, name)
        if not os.path.isfile(p):
            fail('%s has not been written, files: %s', name, sorted(os.listdir(out)))
        if kind == 'csv':
            return T.read_csv(p)
        return T.read_arff(p) if kind == 'arff' else open(p, encoding='utf-8').read()

    all_scores = {}  # (data type, size) -> {fold: scores}
    for run, f in zip(runs, folds):
        with open(os.path.join(models, ('boomer' if case['kind'] != 'sc' else 'seco') + '_' + suffix[f] + '.model'), 'rb') as file:
            learner = pickle.load(file)
        learners.append(learner)
        # the model has been trained on the expected data
        fresh = LEARNERS[case['kind']](**learner.get_params())
        given = {k: str(v) for k, v in learner.get_params().items() if v is not None}
        for k, v in dict(case['config'], random_state=case['seed'], **{k: v for k, v in case['formats'].items()
                                                                      if k != 'output_format' or classification}).items():
            if given.get(k) != str(v) and not (number_matches(given.get(k, ''), float(v), 0) if isinstance(v, (int, float)) else False):
                fail('parameter %s of the model is %s instead of %s', k, given.get(k), v)
        if not encoded:
            fresh.set_nominal_feature_indices([j for j, t in enumerate(case['types']) if t == 'nominal'])
            fresh.set_ordinal_feature_indices([j for j, t in enumerate(case['types']) if t == 'integer'])
        fresh.fit(run['train_x'], run['train_y'])
        rules = rules_of(learner.model_)
        diff = same_rules(rules, rules_of(fresh.model_))
        if diff:
            fail('model of run %s differs from a model that is trained on the same data: %s', suffix[f], diff)
        parts = [('test' if case['split'] != 'none' else 'training', run['test_x'], run['test_y'])]
        if case['training'] and case['split'] != 'none':
            parts.append(('training', run['train_x'], run['train_y']))
        for part, x, y in parts:
            y = dense(y).astype(np.float64)
            try:
                obtained = predictions(case, learner, x)
            except RuntimeError:
                used = any(sinks[k] is not None for k in ('store_evaluation', 'print_evaluation', 'store_predictions', 'store_prediction_characteristics'))
                if case['prediction'] != 'probabilities' or used and 'Prediction of probabilities not supported' not in text:
                    raise
                obtained = []
            for size, p in obtained:
                p = dense(p).astype(np.float64).reshape(len(y), -1)
                all_scores.setdefault((part, size), {})[f] = evaluate(case, y, p)
                scope = '_model-size-%d' % size if size else ''
                opts = sinks['store_predictions']
                if opts is not None and not (p.shape[1] != m):
                    what = 'predictions_%s%s_%s.arff' % (part, scope, suffix[f])
                    columns, types, rows = store(what, 'arff')
                    if columns != [v + name for v in ('Ground Truth ', 'Prediction ') for name in names[d:]]:
                        fail('%s: columns %s', what, columns)
                    rows = np.array(rows).reshape(len(rows), -1)
                    digits = option(opts, 'decimals', 0)
                    tol = 0.5001 * 10.0**-digits if digits and not (classification and case['prediction'] == 'binary') else 0
                    if rows.shape != (len(y), 2 * m) or not np.array_equal(rows[:, :m], y) or not np.all(
                            (np.abs(rows[:, m:] - p) <= tol + 1e-6 * np.abs(p)) | (np.isnan(p) & np.isnan(rows[:, m:]))):
                        fail('%s contains %s, ground truth %s, predictions %s', what, rows.tolist(), y.tolist(), p.tolist())
                    binary = classification and case['prediction'] == 'binary'
                    for k, t in enumerate(types):
                        if (t.startswith('{')) != (classification if k < m else binary):
                            fail('%s: column %d is declared as %s', what, k, t)
                opts = sinks['store_prediction_characteristics']
                if opts is not None and case['prediction'] == 'binary':
                    what = 'prediction_characteristics_%s_%s.csv' % (part, suffix[f])
                    rows = store(what, 'csv')
                    rows = [{k: v for k, v in row.items() if k != 'Model size'} for row in rows if not size or int(row['Model size']) == size]
                    if len(rows) != 1:
                        fail('%s contains %d rows for model size %d', what, len(rows), size)
                    check_columns(what, rows[0], label_characteristics(p, classification), opts)
        opts = sinks['store_rules']
        if opts is not None:
            what = 'rules_%s.txt' % suffix[f]
            check_rules(case, what, store(what, 'txt'), rules, opts, encoded)
        if sinks['print_rules'] is not None:
            check_rules(case, 'console', message('Model', None, 0, f), rules, sinks['print_rules'], encoded)
        train_y = dense(run['train_y']).astype(np.float64)
        train_x = dense(run['train_x']).astype(np.float64)
        opts = sinks['store_data_characteristics']
        if opts is not None and not encoded:
            nz = np.count_nonzero(train_x) / train_x.size
            types = case['types']
            expected = {'Examples': (len(train_x), False), 'Features': (d, False),
                        'Numerical Features': (sum(t in ('numeric', 'real') for t in types), False),
                        'Ordinal Features': (types.count('integer'), False), 'Nominal Features': (types.count('nominal'), False),
                        'Feature Density': (nz, True), 'Feature Sparsity': (1 - nz, True)}
            what = 'data_characteristics_%s.csv' % suffix[f]
            rows = store(what, 'csv')
            if len(rows) != 1:
                fail('%s contains %d rows', what, len(rows))
            check_columns(what, rows[0], dict(expected, **label_characteristics(train_y, classification)), opts)
        elif opts is not None:
            expected_files.add('data_characteristics_%s.csv' % suffix[f])
        opts = sinks['store_label_vectors']
        if opts is not None:
            what = 'label_vectors_%s.csv' % suffix[f]
            rows = store(what, 'csv')
            count = {}
            for row in train_y > 0:
                key = tuple(int(v) for v in (np.nonzero(row)[0] if option(opts, 'sparse', False) else row))
                count[key] = count.get(key, 0) + 1
            found = {}
            for i, row in enumerate(rows):
                if row['Index'] != str(i + 1):
                    fail('%s: index %s in row %d', what, row['Index'], i + 1)
                key = tuple(int(v) for v in row['Label vector'].strip('[]').split())
                if key in found:
                    fail('%s contains %s twice', what, key)
                found[key] = int(row['Frequency'])
            if found != count:
                fail('%s: %s, but the label vectors are %s', what, found, count)
        for name, title in (('marginal', 'Label'), ('joint', 'Label vector')):
            opts = sinks['store_%s_probability_calibration_model' % name]
            if opts is None or case['kind'] != 'bc':
                continue
            model = getattr(learner, name + '_probability_calibration_model_')
            bins = bins_of_model(model)
            what = '%s_probability_calibration_model_%s.csv' % (name, suffix[f])
            if not bins:
                continue
            rows = store(what, 'csv')
            if len(rows) != max(len(v) for v in bins.values()):
                fail('%s contains %d rows', what, len(rows))
            for i, row in enumerate(rows):
                expected = set()
                for k, b in bins.items():
                    for c, column in enumerate(('thresholds', 'probabilities')):
                        key = '%s %d %s' % (title, k + 1, column)
                        expected.add(key)
                        if i < len(b):
                            expect_number(what + ': ' + key, row.get(key), b[i][c], option(opts, 'decimals', 0))
                        elif row.get(key):
                            fail('%s: row %d contains a value for %s', what, i, key)
                if set(row) != expected:
                    fail('%s contains the columns %s, expected %s', what, sorted(row), sorted(expected))
        if case['model_characteristics'] and rules:
            check_model_characteristics('model_characteristics_%s.csv' % suffix[f], store('model_characteristics_%s.csv' % suffix[f], 'csv'), rules)
        if case['parameters']:
            what = 'parameters_%s.csv' % suffix[f]
            rows = T.read_csv(os.path.join(parameters, what))
            if rows != [given]:
                fail('%s: %s, but the parameters are %s', what, rows, given)
    check_evaluation(case, all_scores, folds, suffix, is_cv, store, message)
    unexpected = {v for v in os.listdir(out) if v not in expected_files and not (v.startswith('predictions_') and m == 1)}
    if unexpected:
        fail('unexpected files %s', sorted(unexpected))
    if case['again']:
        other = os.path.join(path, 'other')
        os.mkdir(other)
        if case['again'] == 'model':
            T.run(arguments(case, data, other, models))
        else:
            T.run(arguments(case, data, other, parameters=parameters, load=True))
        a, b = (sorted(v for v in os.listdir(o) if v != 'old.csv') for o in (out, other))
        if a != b:
            fail('an experiment that reuses the %s writes different files: %s, %s', case['again'], a, b)
        for name in a:
            a, b = (open(os.path.join(o, name), encoding='utf-8').read() for o in (out, other))
            if name.startswith('evaluation'):
                a, b = ([{k: v for k, v in row.items() if 'Time' not in k} for row in T.read_csv(os.path.join(o, name))] for o in (out, other))
            if a != b:
                fail('an experiment that reuses the %s writes a different file %s: %s, %s', case['again'], name, a, b)
    return dict(nontrivial=len(expected_files) > 1 and any(rules_of(v.model_) for v in learners),
                tags=dict(kind=case['kind'], split=case['split'], prediction=case['prediction'], incremental=case['incremental'] is not None,
                          again=case['again'], sparse=case['sparse']))


def check_model_characteristics(what, rows, rules):
    if len(rows) != len(rules):
        fail('%s describes %d rules instead of %d', what, len(rows), len(rules))
    ops = [('numerical', '<=', '<='), ('numerical', '>', '>'), ('ordinal', '<=', 'o<='), ('ordinal', '>', 'o>'), ('nominal', '==', '=='),
           ('nominal', '!=', '!=')]
    for i, (row, rule) in enumerate(zip(rows, rules)):
        expected = {'Rule': 'Rule %d%s' % (i + 1, '' if rule.conds else ' (Default rule)'), 'conditions': len(rule.conds),
                    'predictions': len(rule.scores), 'pos. predictions': int((rule.scores > 0).sum()),
                    'neg. predictions': int((~(rule.scores > 0)).sum())}
        for kind, op, key in ops:
            k = sum(c[0] == key for c in rule.conds)
            expected['%s %s operator' % (kind, op)] = k
            expected[kind + ' conditions'] = expected.get(kind + ' conditions', 0) + k
        if row != {k: str(v) for k, v in expected.items()}:
            fail('%s: %s, but rule %d is %s', what, row, i, rule)


def check_evaluation(case, all_scores, folds, suffix, is_cv, store, message):
    last = folds[-1]
    for (part, size), per_fold in all_scores.items():
        variants = [(f, per_fold[f]) for f in folds if f in per_fold]
        if is_cv and not case['fold'] and last in per_fold:
            first = next(iter(per_fold.values()))
            mean = {k: float(np.mean([v[0][k] for v in per_fold.values()])) for k in first[0]}
            std = {k: float(np.std([v[0][k] for v in per_fold.values()])) for k in first[0]}
            variants.append(('overall', (mean, first[1])))
        for f, (scores, percentages) in variants:
            overall = f == 'overall'
            opts = case['sinks']['store_evaluation']
            factor = lambda k: 100 if k in percentages and option(opts, 'percentage', True) else 1
            if opts is not None:
                expected = {k: v for k, v in scores.items() if option(opts, option_of(k), option(opts, 'enable_all', True))}
                what = 'evaluation_%s_%s.csv' % (part, 'overall' if overall else suffix[f])
                rows = [row for row in store(what, 'csv') if not size or row.get('Model size') == str(size)]
                times = {k for k in ('Training Time', 'Prediction Time') if option(opts, option_of(k), option(opts, 'enable_all', True))}
                if not expected and not times and not size:
                    continue
                if len(rows) != 1:
                    fail('%s contains %d rows for model size %d', what, len(rows), size)
                row = {k: v for k, v in rows[0].items() if 'Time' not in k and k != 'Model size'}
                deviations = {'Std.-dev. ' + k for k in expected} if overall else set()
                if set(row) != set(expected) | deviations:
                    fail('%s contains the columns %s, expected %s', what, sorted(row), sorted(expected))
                for k, v in expected.items():
                    expect_number(what + ': ' + k, row[k], v * factor(k), option(opts, 'decimals', 0))
                    if overall:
                        expect_number(what + ': std.-dev. of ' + k, row['Std.-dev. ' + k], std[k] * factor(k), option(opts, 'decimals', 0),
                                      1e-9 * abs(v * factor(k)))
                found = {k for k in rows[0] if 'Time' in k and not k.startswith('Std')}
                if times != found or any(float(rows[0][k]) < 0 for k in found):
                    fail('%s contains the durations %s, expected %s', what, {k: rows[0][k] for k in found}, times)
            opts = case['sinks']['print_evaluation']
            if opts is not None:
                lines = message('Evaluation result', part, size, f, overall).strip('\n').split('\n')
                lines = [v for v in lines if v]
                expected = {k: v for k, v in scores.items() if option(opts, option_of(k), option(opts, 'enable_all', True))}
                if len(lines) != len(expected):
                    fail('%d results are printed instead of %d: %s', len(lines), len(expected), lines)
                for line in lines:
                    match = re.fullmatch(r'(.*?)  +(-?\S+)(?: +±(\S+))? *', line)
                    if not match or match.group(1) not in expected or (match.group(3) is not None) != overall:
                        fail('unexpected line "%s" is printed', line)
                    k = match.group(1)
                    decimals = option(opts, 'decimals', 2)
                    noise = 1e-9 * abs(scores[k] * factor(k))
                    for s, v in ((match.group(2), scores[k]),) + (((match.group(3), std[k]),) if overall else ()):
                        if abs(float(s) - v * factor(k)) > 0.5001 * 10.0**-decimals * (decimals > 0) + 1e-5 * abs(v * factor(k)) + 1e-6 + noise:
                            fail('"%s" is printed, but the result is %s', line, v * factor(k))


def shrink_candidates(case):
    yield from data_candidates(case)
    for k in case['config']:
        if k not in ('max_rules', 'loss'):
            yield dict(case, config={a: b for a, b in case['config'].items() if a != k})
    for k, v in case['sinks'].items():
        if v is not None:
            yield dict(case, sinks=dict(case['sinks'], **{k: None}))
            if v:
                yield dict(case, sinks=dict(case['sinks'], **{k: {}}))
    for k, v in (('incremental', None), ('formats', {}), ('training', False), ('model_characteristics', False), ('parameters', False),
                 ('again', ''), ('fold', 0), ('zeros', 0), ('split', 'none'), ('split', 'train-test'), ('prediction', 'binary')):
        if case[k] != v:
            yield dict(case, **{k: v})
    if case['config'].get('max_rules', 1) > 1:
        yield dict(case, config=dict(case['config'], max_rules=case['config']['max_rules'] - 1))
