"""Isotonic calibration models fit the observed frequencies by an increasing function."""
from core import *
from props.p10 import _Vectors, bins_of_model, calibrate, sigmoid
import gen


def generate(r):
    config = gen.boosting_config(r, 'bc', max_rules=r.choice([2, 4, 10, 20]), sampling=0.3)
    config['loss'] = r.choice(['logistic-decomposable', 'logistic-non-decomposable'])
    if config['loss'] == 'logistic-non-decomposable' and config.get('l2_regularization_weight') == 0.0:
        config['l2_regularization_weight'] = 1.0
    config.pop('global_pruning', None)
    config.pop('sequential_post_optimization', None)  # known finding F14
    config['holdout'] = 'none'
    which = r.choice([(1, 0), (0, 1), (1, 1), (1, 1)])
    if which[0]:
        config['marginal_probability_calibration'] = value('isotonic', use_holdout_set=r.choice([None, True, False]))
    if which[1]:
        config['joint_probability_calibration'] = value('isotonic', use_holdout_set=r.choice([None, True, False]))
    ds = gen.dataset(r, 'bc', max_n=40, max_d=4, max_l=4, p_nan=0.2, p_cat=0.3, kinds=gen.NEG_KINDS)
    if which[1]:
        ds['y'] = [row + [1] for row in ds['y']]  # known finding F04: no label vector must be a prefix of another one
    if r.random() < 0.4:
        ds['y'] = [[v if r.random() < 0.7 else 1 - v for v in row[:-1]] + row[-1:] for row in ds['y']]
    return gen.make_reliable(r, dict(kind='bc', config=config, fmt=r.choice(['C', 'csr']), sparse_y=r.random() < 0.4, **ds))


def judge(what, bins, points):
    """points: list of (probability, how it came about, 0/1); returns (number of groups, number of bins)"""
    for (t0, p0), (t1, p1) in zip(bins[:-1], bins[1:]):
        if not t0 < t1:
            fail('%s: thresholds %r, %r are not increasing: %s', what, t0, t1, bins)
        if not p0 < p1:
            fail('%s: calibrated probabilities %r, %r are not increasing: %s', what, p0, p1, bins)
    for t, p in bins:
        if not (0 <= t <= 1 and -1e-12 <= p <= 1 + 1e-12):
            fail('%s: bin (%r, %r) is invalid: %s', what, t, p, bins)
    if points is None:
        return 0, len(bins)
    groups = []  # [smallest, largest, number, number of positives, origins]
    for p, key, y in sorted(points):
        if groups and p - groups[-1][1] < 1e-8:
            g = groups[-1]
            groups[-1] = [g[0], p, g[2] + 1, g[3] + y, g[4] | {key}]
        else:
            groups.append([p, p, 1, y, {key}])
    if any(len(g[4]) > 1 for g in groups):
        return 0, len(bins)  # whether these probabilities are equal depends on rounding errors
    if not groups:
        if bins:
            fail('%s: bins exist, although there are no examples: %s', what, bins)
        return 0, 0
    mean = [g[3] / g[2] for g in groups]
    start = []
    for t, _ in bins:
        i = [k for k, g in enumerate(groups) if g[0] - 1e-9 <= t <= g[1] + 1e-9]
        if not i:
            fail('%s: threshold %r does not correspond to any example, probabilities of examples are %s', what, t, [g[0] for g in groups])
        start.append(i[0])
    if not bins or start[0] != 0 or len(set(start)) != len(start):
        fail('%s: the smallest probability %r should be the first threshold: %s', what, groups[0][0], bins)
    for k, (t, p) in enumerate(bins):
        end = start[k + 1] if k + 1 < len(bins) else len(groups)
        pool = mean[start[k]:end]
        if not min(pool) - 1e-9 <= p <= max(pool) + 1e-9:
            fail('%s: probability %r at threshold %r is not between the frequencies %s of the pooled examples', what, p, t, pool)
        if len(pool) > 1 and all(a < b - 1e-12 for a, b in zip(pool[:-1], pool[1:])):
            fail('%s: the increasing frequencies %s are pooled: %s', what, pool, bins)
    return len(groups), len(bins)


def check(case):
    check_domain(case)
    gen.require_valid(case)
    gen.require_reliable_training(case)
    config = case['config']
    if 'sequential_post_optimization' in config and not case.get('known'):
        raise Skip('known finding')
    if config.get('holdout') != 'none' or 'global_pruning' in config or not config['loss'].startswith('logistic'):
        raise Skip('not modelled')
    x, y = x_of(case), y_of(case).astype(int)
    n, num = y.shape
    learner = fit(case, x=as_format(x, case['fmt']))
    rules = rules_of(learner.model_, used=False)
    scores = ref_scores(rules, x, num)
    if not np.isfinite(scores).all() or gen.uses_irep(case):
        raise Skip('not modelled')
    p = sigmoid(scores)
    groups = bins = 0
    pattern = [(rule.outputs(num).tolist(), covers(rule, x)) for rule in rules]

    def origin(e, j):
        return tuple(k for k, (idx, c) in enumerate(pattern) if c[e] and j in idx)

    marginal = bins_of_model(learner.marginal_probability_calibration_model_)
    joint = bins_of_model(learner.joint_probability_calibration_model_)
    if (marginal is not None) != ('marginal_probability_calibration' in config) or (joint is not None) != ('joint_probability_calibration' in config):
        fail('calibration models do not correspond to the configuration')
    if marginal is not None:
        for j in range(num):
            g, b = judge('label %d' % j, marginal.get(j, []), [(float(p[e, j]), origin(e, j), int(y[e, j])) for e in range(n)])
            groups, bins = max(groups, g), max(bins, b)
    if joint is not None:
        visitor = _Vectors()
        learner.output_space_info_.visit(visitor)
        vectors = [v for v, _ in visitor.vectors]
        if any(a != b and a == b[:len(a)] for a in vectors for b in vectors):
            raise Skip('known finding')
        q = np.array([[calibrate(marginal, j, v) for j, v in enumerate(row)] for row in p])
        for i, v in enumerate(vectors):
            member = np.isin(np.arange(num), v)
            prob = np.where(member, q, 1 - q).prod(axis=1)
            true = (y == member).all(axis=1).astype(int)
            points = None if np.isnan(prob).any() else [(float(prob[e]), tuple(origin(e, j) for j in range(num)), int(true[e])) for e in range(n)]
            g, b = judge('label vector %s' % (v,), joint.get(i, []), points)
            groups, bins = max(groups, g), max(bins, b)
    return dict(nontrivial=bins > 1, tags=dict(loss=config['loss'], marginal=marginal is not None, joint=joint is not None,
                                               pooled=groups > bins, bins=min(bins, 6)))
