"""Structured random generators.  Everything is drawn from a random.Random, cases are plain JSON values."""
import math

import numpy as np

from core import value


def pick(r, weighted):
    """weighted: list of (weight, value)"""
    total = sum(w for w, _ in weighted)
    x = r.random() * total
    for w, v in weighted:
        x -= w
        if x < 0:
            return v
    return weighted[-1][1]


def size(r, lo, hi):
    """Sizes between lo and hi, biased towards small ones but reaching the maximum regularly."""
    k = r.random()
    if k < 0.15:
        return r.randint(lo, min(hi, lo + 2))
    if k < 0.3:
        return r.randint(max(lo, (lo + hi) // 2), hi)
    return r.randint(lo, hi)


def f32(v):
    return float(np.float32(v))


NUM_KINDS = [(3, 'ints'), (3, 'cont'), (2, 'sparsepos'), (2, 'sparsemix'), (2, 'sparseneg'), (1, 'bin'), (0.5, 'const'),
             (1, 'close'), (0.7, 'big'), (1, 'grid')]


# numerical columns without positive values (see known finding F01: of the feature values that are not less than zero the
# smallest one is ignored when searching for conditions)
NEG_KINDS = [(3, 'negints'), (3, 'negcont'), (2, 'negsparse'), (1, 'negclose'), (0.7, 'negbig'), (0.3, 'const')]


def num_column(r, n, kinds=None):
    kind = pick(r, kinds or NUM_KINDS)
    if kind == 'ints':
        lo, hi = r.choice([(-3, 3), (0, 4), (0, 2), (-2, 0), (1, 9)])
        return [float(r.randint(lo, hi)) for _ in range(n)]
    if kind == 'cont':
        return [f32(r.gauss(0, 1)) for _ in range(n)]
    if kind in ('sparsepos', 'sparseneg', 'sparsemix'):
        p = r.choice([0.05, 0.2, 0.5])
        vals = r.choice([[1.0], [0.5, 1.0, 2.0], None])
        col = []
        for _ in range(n):
            if r.random() >= p:
                col.append(0.0)
            else:
                v = r.choice(vals) if vals else f32(abs(r.gauss(0, 1)) + 0.001)
                if kind == 'sparseneg' or (kind == 'sparsemix' and r.random() < 0.5):
                    v = -v
                col.append(v)
        return col
    if kind.startswith('neg'):
        if kind == 'negints':
            lo = r.choice([-9, -4, -3])
            return [float(r.randint(lo, r.choice([-1, -1, 0]))) for _ in range(n)]
        if kind == 'negcont':
            return [f32(-abs(r.gauss(0, 1)) - 0.001) for _ in range(n)]
        if kind == 'negclose':
            vals = [np.float32(r.choice([-1.0, -1000.0, -0.1, -7.3]))]
            for _ in range(r.randint(1, 4)):
                vals.append(np.nextafter(vals[-1], np.float32(-np.inf)))
            return [float(r.choice(vals)) for _ in range(n)]
        if kind == 'negbig':
            return [f32(r.choice([-1e30, -3e38, -1e-30, -1e-38, 0.0, -16777216.0, -16777218.0, -2e38])) for _ in range(n)]
        # negsparse
        p, vals = r.choice([0.1, 0.3, 0.6]), r.choice([[-1.0], [-0.5, -1.0, -2.0], None])
        return [0.0 if r.random() >= p else (r.choice(vals) if vals else f32(-abs(r.gauss(0, 1)) - 0.001))
                for _ in range(n)]
    if kind == 'bin':
        p = r.random()
        return [float(r.random() < p) for _ in range(n)]
    if kind == 'const':
        v = r.choice([0.0, 1.0, -2.5])
        return [v] * n
    if kind == 'close':
        base = np.float32(r.choice([1.0, -1.0, 1000.0, 0.1, -7.3]))
        vals = [base]
        for _ in range(r.randint(1, 4)):
            vals.append(np.nextafter(vals[-1], np.float32(np.inf)))
        return [float(r.choice(vals)) for _ in range(n)]
    if kind == 'big':
        vals = [1e30, -1e30, 3e38, -3e38, 1e-30, -1e-38, 0.0, 16777216.0, 16777218.0]
        return [f32(r.choice(vals)) for _ in range(n)]
    # grid
    step = r.choice([0.25, 0.1, 1.0])
    return [f32(r.randint(-8, 8) * step) for _ in range(n)]


def cat_column(r, n):
    vals = r.choice([[0, 1], [0, 1, 2], [-1, 0, 1], [1, 2, 3, 5], [-3, 7], [2, 4, 6, 8, 10], [0], [0, 0, 0, 1, 2, 3]])
    weights = [r.random() + 0.05 for _ in vals]
    return [float(v) for v in r.choices(vals, weights, k=n)]


def add_nans(r, col, p_any):
    if r.random() < p_any:
        rate = r.choice([0.05, 0.2, 0.5, 0.9, 1.0])
        return [None if r.random() < rate else v for v in col]
    return col


def features(r, n, d, p_nan=0.3, p_cat=0.3, kinds=None):
    cols, nominal, ordinal = [], [], []
    cat_mode = r.random()
    for j in range(d):
        if cat_mode < p_cat and r.random() < (1.0 if cat_mode < p_cat * 0.25 else 0.5):
            col = cat_column(r, n)
            if cat_mode < p_cat * 0.12:
                nominal.append(j)
            elif cat_mode < p_cat * 0.25:
                ordinal.append(j)
            else:
                (nominal if r.random() < 0.6 else ordinal).append(j)
        else:
            col = num_column(r, n, kinds)
        cols.append(add_nans(r, col, p_nan))
    x = [[cols[j][i] for j in range(d)] for i in range(n)]
    return x, nominal, ordinal


def _signal(r, x, n, d):
    """A random function of the features with values in {0, 1}."""
    j = r.randrange(d)
    vals = sorted({row[j] for row in x if row[j] is not None})
    if not vals:
        return [r.random() < 0.5 for _ in range(n)]
    t = r.choice(vals)
    if r.random() < 0.5:
        return [row[j] is not None and row[j] <= t for row in x]
    if d > 1 and r.random() < 0.5:
        k = r.randrange(d)
        vk = [row[k] for row in x if row[k] is not None]
        tk = r.choice(vk) if vk else 0
        return [row[j] is not None and row[j] <= t and row[k] is not None and row[k] >= tk for row in x]
    return [row[j] is not None and row[j] == t for row in x]


def labels(r, x, n, d, num):
    cols = []
    base = _signal(r, x, n, d)
    for j in range(num):
        k = r.random()
        if k < 0.05:
            cols.append([r.random() < 0.5] * 1 * n if r.random() < 0.5 else [False] * n)
        elif k < 0.2:
            p = r.choice([0.1, 0.3, 0.5, 0.8])
            cols.append([r.random() < p for _ in range(n)])
        else:
            s = base if r.random() < 0.3 else _signal(r, x, n, d)
            noise = r.choice([0.0, 0.1, 0.3])
            flip = r.random() < 0.3
            cols.append([(v != flip) != (r.random() < noise) for v in s])
    return [[int(cols[j][i]) for j in range(num)] for i in range(n)]


def targets(r, x, n, d, num):
    cols = []
    for j in range(num):
        k = r.random()
        if k < 0.15:
            cols.append([float(r.randint(-2, 2)) for _ in range(n)])
        elif k < 0.25:
            cols.append([0.0 if r.random() < 0.7 else f32(r.gauss(0, 3)) for _ in range(n)])
        else:
            s = _signal(r, x, n, d)
            a, b, noise = r.gauss(0, 2), r.gauss(0, 2), r.choice([0.0, 0.1, 1.0])
            cols.append([f32((a if v else b) + noise * r.gauss(0, 1)) for v in s])
    return [[cols[j][i] for j in range(num)] for i in range(n)]


def dataset(r, kind, max_n=30, max_d=5, max_l=4, min_n=2, p_nan=0.3, p_cat=0.3, kinds=None):
    n = size(r, min_n, max_n)
    d = size(r, 1, max_d)
    num = size(r, 1, max_l)
    x, nominal, ordinal = features(r, n, d, p_nan, p_cat, kinds)
    y = targets(r, x, n, d, num) if kind == 'br' else labels(r, x, n, d, num)
    return {'x': x, 'y': y, 'nominal': nominal, 'ordinal': ordinal}


def queries(r, x, d, max_q=25, cat=()):
    """Query examples: training rows, perturbed ones, values never seen in training, missing values."""
    n = len(x)
    q = []
    for _ in range(r.randint(1, max_q)):
        row = []
        src = r.randrange(n)
        mode = r.random()
        for j in range(d):
            if r.random() < 0.7:
                v = x[src][j]
            else:
                v = x[r.randrange(n)][j]
            if mode < 0.6 and r.random() < 0.4:
                k = r.random()
                if k < 0.25:
                    v = None
                elif k < 0.5:
                    v = 0.0
                elif k < 0.75:
                    v = float(r.randint(-5, 12))
                elif v is not None and j not in cat:
                    a = np.float32(v)
                    v = float(np.nextafter(a, np.float32(r.choice([-1e38, 1e38]))))
            row.append(v)
        q.append(row)
    return q


# --------------------------------------------------------------------------------------------------------------- configs


CLS_LOSSES = ['logistic-decomposable', 'logistic-non-decomposable', 'squared-error-decomposable',
              'squared-error-non-decomposable', 'squared-hinge-decomposable', 'squared-hinge-non-decomposable']
REG_LOSSES = ['squared-error-decomposable', 'squared-error-non-decomposable']


def threads(r):
    return pick(r, [(2, 'false'), (1, None), (2, value('true', num_preferred_threads=r.choice([1, 2, 3, 4])))])


def head_type(r):
    return pick(r, [(3, 'single'), (3, 'complete'),
                    (2, value('partial-fixed', output_ratio=r.choice([None, 0.3, 0.5, 0.75]),
                              min_outputs=r.choice([None, 2, 3]), max_outputs=r.choice([None, 0, 3]))),
                    (2, value('partial-dynamic', threshold=r.choice([None, 0.02, 0.3, 0.8]),
                              exponent=r.choice([None, 1.0, 2.0, 3.5])))])


def rule_induction(r, beam=0.0):
    opts = dict(min_coverage=r.choice([None, None, 1, 2, 5]), min_support=r.choice([None, None, None, 0.1, 0.3]),
                max_conditions=r.choice([None, 2, 3, 4]), max_head_refinements=r.choice([None, None, 0, 1, 2]))
    if r.random() < beam:
        return value('top-down-beam-search', beam_width=r.choice([None, 2, 3, 5]),
                     resample_features=r.choice([None, True, False]), **opts)
    if opts['max_conditions'] is not None and r.random() < 0.3:
        opts['max_conditions'] = 1
    return value('top-down-greedy', **opts)


def sampling_opts(r):
    return dict(sample_size=r.choice([None, 0.3, 0.5, 0.66, 0.9]))


def instance_sampling(r, kind):
    opts = sampling_opts(r)
    names = ['with-replacement', 'without-replacement']
    if kind != 'br':
        names += ['stratified-output-wise', 'stratified-example-wise']
    return value(r.choice(names), **opts)


def feature_sampling(r):
    return value('without-replacement', sample_size=r.choice([None, 0, 0.3, 0.6]), num_retained=r.choice([None, 0, 1]))


def output_sampling(r):
    if r.random() < 0.5:
        return 'round-robin'
    max_samples = r.choice([None, 0, 0, 2, 3])  # the default is 1
    return value('without-replacement', sample_size=r.choice([None, 0.3, 0.6]), min_samples=r.choice([None, 1, 2 if max_samples is not None else 1]),
                 max_samples=max_samples)


def holdout(r, kind):
    names = ['random']
    if kind != 'br':
        names += ['stratified-output-wise', 'stratified-example-wise']
    return value(r.choice(names), holdout_set_size=r.choice([None, 0.2, 0.33, 0.5]))


def feature_binning(r):
    return value(r.choice(['equal-width', 'equal-frequency']), bin_ratio=r.choice([None, 0.1, 0.3, 0.6]),
                 min_bins=r.choice([None, 2, 3]), max_bins=r.choice([None, 0, 4]))


def label_binning(r):
    return value('equal-width', bin_ratio=r.choice([None, 0.04, 0.3, 0.7]), min_bins=r.choice([None, 1, 2]),
                 max_bins=r.choice([None, 0, 2]))


def boosting_config(r, kind, max_rules=10, sampling=0.4, beam=0.0, binning=0.0, wild=True):
    """A random, valid configuration of a boosting learner, any combination of options."""
    c = {'max_rules': r.randint(1, max_rules), 'random_state': r.randint(1, 1000)}
    c['loss'] = r.choice(REG_LOSSES if kind == 'br' else CLS_LOSSES)
    ht = head_type(r)
    if r.random() < 0.85:
        c['head_type'] = ht
    if r.random() < 0.6:
        c['rule_induction'] = rule_induction(r, beam)
    if r.random() < 0.7:
        c['shrinkage'] = r.choice([1.0, 0.5, 0.3, 0.1])
    if r.random() < 0.5:
        c['l2_regularization_weight'] = r.choice([0.0, 0.5, 1.0, 4.0])
    if c['loss'].endswith('non-decomposable') and c.get('l2_regularization_weight') == 0.0:
        c['l2_regularization_weight'] = 0.5
    if r.random() < 0.25:
        c['l1_regularization_weight'] = r.choice([0.0, 0.1, 1.0])
    if r.random() < 0.4:
        c['default_rule'] = r.choice(['true', 'false', 'auto'])
    if r.random() < 0.4:
        c['statistic_format'] = r.choice(['dense', 'sparse', 'auto']) if kind == 'bc' else 'dense'
    if kind == 'bc' and r.random() < 0.4:
        c['label_binning'] = pick(r, [(1, 'none'), (2, label_binning(r))])
    if r.random() < binning:
        c['feature_binning'] = feature_binning(r)
    for name in ('parallel_rule_refinement', 'parallel_statistic_update', 'parallel_prediction'):
        t = threads(r)
        if t is not None:
            c[name] = t
    if r.random() < sampling:
        c['instance_sampling'] = instance_sampling(r, kind)
        if r.random() < 0.5:
            c['rule_pruning'] = r.choice(['irep', 'none'])
    if r.random() < sampling:
        c['feature_sampling'] = feature_sampling(r)
    if r.random() < sampling * 0.7:
        c['output_sampling'] = output_sampling(r)
    if wild:
        if r.random() < 0.2:
            c['holdout'] = holdout(r, kind)
        if r.random() < 0.2:
            c['global_pruning'] = global_pruning(r)
        if r.random() < 0.15:
            c['sequential_post_optimization'] = value('true', num_iterations=r.choice([None, 1, 2]),
                                                      refine_heads=r.choice([None, True, False]),
                                                      resample_features=r.choice([None, True, False]))
    if c['loss'].startswith('squared-') and c['loss'].endswith('non-decomposable'):
        c.pop('sequential_post_optimization', None)  # F07: removing predictions results in scores close to zero and singular Hessians
    return c


def global_pruning(r):
    if r.random() < 0.5:
        return value('post-pruning', use_holdout_set=r.choice([None, True, False]),
                     remove_unused_rules=r.choice([None, True, False]), min_rules=r.choice([1, 2, 3, 5]),
                     interval=r.choice([None, 1, 2, 3]))
    return value('pre-pruning', use_holdout_set=r.choice([None, True, False]),
                 remove_unused_rules=r.choice([None, True, False]), min_rules=r.choice([1, 2, 3, 5]),
                 aggregation=r.choice([None, 'min', 'max', 'avg']), update_interval=r.choice([1, 2]),
                 stop_interval=r.choice([2, 4]), num_past=r.choice([1, 2, 3]), num_recent=r.choice([1, 2, 3]),
                 min_improvement=r.choice([None, 0.0, 0.005, 0.1]))


HEURISTICS = ['accuracy', 'precision', 'recall', 'laplace', 'weighted-relative-accuracy', 'f-measure', 'm-estimate']


def heuristic(r):
    h = r.choice(HEURISTICS)
    if h == 'f-measure':
        return value(h, beta=r.choice([None, 0.0, 0.25, 0.5, 1.0, 2.0]))
    if h == 'm-estimate':
        return value(h, m=r.choice([None, 0.0, 1.0, 22.466, 100.0]))
    return h


def lift_function(r):
    return r.choice(['none', value('kln', k=r.choice([None, 0.04, 0.2, 1.0])),
                     value('peak', peak_label=r.choice([None, 0, 1, 2, 3]), max_lift=r.choice([None, 1.0, 1.08, 1.5, 2.0]),
                           curvature=r.choice([None, 0.5, 1.0, 2.0, 3.0]))])


def seco_config(r, max_rules=10, sampling=0.4, beam=0.0, binning=0.0, wild=True):
    c = {'max_rules': r.randint(1, max_rules), 'random_state': r.randint(1, 1000)}
    if r.random() < 0.7:
        c['head_type'] = r.choice(['single', 'partial'])
    if r.random() < 0.7:
        c['lift_function'] = lift_function(r)
    if r.random() < 0.8:
        c['heuristic'] = heuristic(r)
    if r.random() < 0.4:
        c['pruning_heuristic'] = heuristic(r)
    if r.random() < 0.6:
        c['rule_induction'] = rule_induction(r, beam)
    if r.random() < binning:
        c['feature_binning'] = feature_binning(r)
    for name in ('parallel_rule_refinement', 'parallel_statistic_update', 'parallel_prediction'):
        t = threads(r)
        if t is not None:
            c[name] = t
    if r.random() < sampling:
        c['instance_sampling'] = instance_sampling(r, 'sc')
    else:
        c['instance_sampling'] = 'none'
    if r.random() < 0.5:
        c['rule_pruning'] = r.choice(['irep', 'none'])
    if r.random() < sampling:
        c['feature_sampling'] = feature_sampling(r)
    if r.random() < sampling * 0.7:
        c['output_sampling'] = output_sampling(r)
    if wild:
        if r.random() < 0.2:
            c['holdout'] = holdout(r, 'sc')
        if r.random() < 0.15:
            c['sequential_post_optimization'] = value('true', num_iterations=r.choice([None, 1, 2]),
                                                      refine_heads=r.choice([None, True, False]),
                                                      resample_features=r.choice([None, True, False]))
    return c


def config(r, kind, **kwargs):
    return seco_config(r, **kwargs) if kind == 'sc' else boosting_config(r, kind, **kwargs)


def require_valid(case):
    """Keeps shrinking inside of the domain of valid configurations."""
    if case.get('known'):
        return  # demonstrates a known finding
    from core import Skip, parse_value
    c = case['config']
    loss = c.get('loss')
    if c.get('loss') is None and case['kind'] != 'sc':
        raise Skip('no loss')
    if loss and loss.endswith('non-decomposable') and c.get('l2_regularization_weight', 1.0) == 0.0:
        raise Skip('singular Hessians')
    if loss and loss.startswith('squared-') and loss.endswith('non-decomposable') and c.get('sequential_post_optimization'):
        raise Skip('singular Hessians')
    name, opts = parse_value(c.get('rule_induction'))
    if name == 'top-down-beam-search' or c.get('feature_binning') not in (None, 'none'):
        raise Skip('known finding')


def require_reliable_conditions(case):
    """Leaves out data affected by the known finding F01."""
    if case.get('known'):
        return  # demonstrates a known finding
    from core import Skip
    x = case['x']
    cat = set(case['nominal']) | set(case['ordinal'])
    num = [j for j in range(len(x[0])) if j not in cat]
    if any(row[j] is not None and row[j] > 0 for row in x for j in num):
        n = len(x)
        # each example is contained in the data twice, the matrix is dense and all examples have the same weight
        if n % 2 or x[:n // 2] != x[n // 2:] or case.get('fmt') not in (None, 'C', 'F', 'list') \
                or case['config'].get('instance_sampling') not in (None, 'none') or 'holdout' in case['config']:
            raise Skip('known finding')


def zero_weights(config):
    """Whether some of the training examples may be ignored when learning a rule."""
    return config.get('instance_sampling') not in (None, 'none')


def require_reliable_training(case):
    """Leaves out the remaining situations in which the recorded behaviour of the learners is defective (see DESIGN.md):
    F08 (statistics of regression problems with a dense matrix of targets and heads that are not complete), F09 (ordinal
    features and examples with zero weight) and F10 (rules from which IREP does not remove exactly one condition)."""
    from core import Skip, parse_value
    if case.get('known'):
        return
    require_reliable_conditions(case)
    c = case['config']
    if case['kind'] == 'br' and not case.get('sparse_y') and len(case['y'][0]) > 1:
        head, _ = parse_value(c.get('head_type'))
        if head not in (None, 'complete') or c.get('output_sampling') not in (None, 'none'):
            raise Skip('known finding')
    if zero_weights(c) or c.get('holdout') not in (None, 'none'):
        if case['ordinal']:
            raise Skip('known finding')
    if uses_irep(case):
        _, opts = parse_value(c.get('rule_induction'))
        if int(opts.get('max_conditions', 0)) not in (1, 2):
            raise Skip('known finding')


def uses_irep(case):
    if case.get('known'):
        return False
    c = case['config']
    default = 'irep' if case['kind'] == 'sc' else 'none'
    return zero_weights(c) and c.get('rule_pruning', default) == 'irep'


def make_reliable(r, case):
    """Modifies a generated case such that `require_reliable_training` is mostly fulfilled."""
    from core import parse_value
    c = case['config']
    if case['kind'] == 'br':
        case['sparse_y'] = True
    if uses_irep(case):
        _, opts = parse_value(c.get('rule_induction'))
        opts['max_conditions'] = r.choice([1, 2, 2])
        c['rule_induction'] = value('top-down-greedy', **opts)
    if zero_weights(c) or c.get('holdout') not in (None, 'none'):
        case['nominal'] = sorted(case['nominal'] + case['ordinal'])
        case['ordinal'] = []
    return case
