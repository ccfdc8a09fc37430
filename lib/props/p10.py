"""Binary predictions and probabilities are derived from the predicted scores as documented for each predictor."""
from itertools import product

from core import *
import boostref as B
import gen

from mlrl.common.cython.output_space_info import LabelVectorSetVisitor
from mlrl.common.cython.probability_calibration import IsotonicProbabilityCalibrationModelVisitor


class _Bins(IsotonicProbabilityCalibrationModelVisitor):

    def __init__(self):
        self.bins = {}

    def visit_bin(self, list_index, threshold, probability):
        self.bins.setdefault(int(list_index), []).append((threshold, probability))


class _Vectors(LabelVectorSetVisitor):

    def __init__(self):
        self.vectors = []

    def visit_label_vector(self, label_vector, frequency):
        self.vectors.append((tuple(int(i) for i in label_vector), int(frequency)))


def bins_of_model(model):
    """{index: [(threshold, probability)]} or None if the model does not calibrate probabilities"""
    if not hasattr(model, 'visit'):
        return None
    visitor = _Bins()
    model.visit(visitor)
    return visitor.bins


def calibrate(bins, index, p):
    """Linear interpolation between (0, 0), the bins and (1, 1)."""
    if bins is None:
        return p
    points = bins.get(index, [])
    lo, hi = (0.0, 0.0), (1.0, 1.0)
    for t, q in points:
        if t < p:
            lo = (t, q)
        else:
            hi = (t, q)
            break
    ends = [0.0] + [t for t, _ in points] + [1.0]
    if any(b - a < 1e-9 and a - 1e-9 <= p <= b + 1e-9 for a, b in zip(ends[:-1], ends[1:])):
        return math.nan  # known finding F12, or the result hinges on rounding errors
    return lo[1] + (p - lo[0]) / (hi[0] - lo[0]) * (hi[1] - lo[1])


def sigmoid(v):
    with np.errstate(over='ignore'):
        return np.where(v < 0, np.exp(np.minimum(v, 0)) / (1 + np.exp(np.minimum(v, 0))), 1 / (1 + np.exp(-np.maximum(v, 0))))


def predictor_config(r, config):
    cal = r.choice([None, None, True, False])
    name = r.choice(['output-wise', 'output-wise', 'example-wise', 'example-wise', 'gfm', 'gfm', 'auto', None])
    if name in ('output-wise', 'example-wise'):
        config['binary_predictor'] = value(name, based_on_probabilities=r.choice([None, True, True]), use_probability_calibration=cal)
    elif name == 'gfm':
        config['binary_predictor'] = value(name, use_probability_calibration=cal)
    elif name:
        config['binary_predictor'] = name
    name = r.choice(['output-wise', 'marginalized', 'marginalized', 'auto', None])
    cal = r.choice([None, None, True, False])
    if name in ('output-wise', 'marginalized'):
        config['probability_predictor'] = value(name, use_probability_calibration=cal)
    elif name:
        config['probability_predictor'] = name
    for k in ('marginal', 'joint'):
        if r.random() < 0.4:
            config[k + '_probability_calibration'] = value('isotonic', use_holdout_set=r.choice([None, True, False]))


def generate(r):
    config = gen.boosting_config(r, 'bc', max_rules=8)
    if r.random() < 0.7:
        config['loss'] = r.choice(['logistic-decomposable', 'logistic-non-decomposable'])
        if config['loss'] == 'logistic-non-decomposable' and config.get('l2_regularization_weight') == 0.0:
            config['l2_regularization_weight'] = 1.0
    predictor_config(r, config)
    ds = gen.dataset(r, 'bc', max_n=25, max_d=4, max_l=5)
    q = gen.queries(r, ds['x'], len(ds['x'][0]), max_q=15, cat=ds['nominal'] + ds['ordinal'])
    return dict(kind='bc', config=config, q=q, fmt=r.choice(['C', 'csr']), sparse_y=r.random() < 0.3,
                prediction_format=r.choice(['dense', 'sparse']), max_rules=r.choice([0, 0, 0, 1, 3]), **ds)


def expected_f(h, vectors, probs):
    """Expected F1 score of the label vector h"""
    total = 0.0
    nh = len(h)
    for v, p in zip(vectors, probs):
        total += p * (1.0 if not v and not h else 2.0 * len(v & h) / (len(v) + nh) if v or h else 0.0)
    return total


def check(case):
    check_domain(case)
    gen.require_valid(case)
    config = dict(case['config'])
    if case.get('prediction_format'):
        config['prediction_format'] = case['prediction_format']
    learner = fit(case, config)
    q = as_format(x_of(case, 'q'), case['fmt'])
    y = y_of(case)
    num = y.shape[1]
    loss = config['loss']
    logistic = loss.startswith('logistic')
    k = dict(max_rules=case['max_rules'])
    scores = dense(learner.predict(q, predict_scores=True, **k))
    if not np.all(np.isfinite(scores)):
        raise Skip('scores are not finite')
    bin_name, bin_opts = parse_value(config.get('binary_predictor', 'auto'))
    prob_name, prob_opts = parse_value(config.get('probability_predictor', 'auto'))
    if bin_name == 'auto':
        bin_name, bin_opts = ('output-wise' if B.is_decomposable(loss) else 'example-wise'), {}
    if prob_name == 'auto':
        prob_name, prob_opts = ('output-wise' if B.is_decomposable(loss) else 'marginalized'), {}
    rows = {}
    for row in y:
        v = tuple(np.flatnonzero(row).tolist())
        rows[v] = rows.get(v, 0) + 1
    needs_vectors = bin_name in ('example-wise', 'gfm') or prob_name == 'marginalized' or \
        config.get('joint_probability_calibration', 'none') != 'none'
    info = learner.output_space_info_
    vectors = sorted(rows)
    if needs_vectors:
        visitor = _Vectors()
        info.visit(visitor)
        if sorted(visitor.vectors) != sorted(rows.items()):
            fail('label vectors that are known to the model: %s, label vectors in the training data: %s', sorted(visitor.vectors), sorted(rows.items()))
        vectors = [v for v, _ in visitor.vectors]
    sets = [frozenset(v) for v in vectors]
    vec = np.array([[int(j in v) for j in range(num)] for v in sets])
    marginal, joint = (bins_of_model(m) for m in (learner.marginal_probability_calibration_model_,
                                                  learner.joint_probability_calibration_model_))

    def marginals(row, use):
        return np.array([calibrate(marginal if use else None, j, float(p)) for j, p in enumerate(sigmoid(row))])

    def joints(p, use):
        return np.array([calibrate(joint if use else None, i, float(np.prod(np.where(vec[i] > 0, p, 1 - p)))) for i in range(len(vec))])

    use = bin_opts.get('use_probability_calibration') != 'false'
    by_prob = bin_opts.get('based_on_probabilities') == 'true'
    state, pred = attempt(lambda: learner.predict(q, **k))
    possible = logistic or (bin_name != 'gfm' and not by_prob)
    if (state == 'ok') != possible:
        fail('binary predictions: %s', pred if state != 'ok' else 'no error, although the loss does not support probabilities')
    judged = fuzzy = 0
    if state == 'ok':
        if not np.all((pred == 0) | (pred == 1)) or pred.shape != scores.shape:
            fail('binary predictions are not binary or have shape %s instead of %s', pred.shape, scores.shape)
        for i, row in enumerate(scores):
            actual = frozenset(np.flatnonzero(pred[i]).tolist())
            if bin_name == 'output-wise':
                if by_prob:
                    p = marginals(row, use)
                    if np.isnan(p).any() and not case.get('known'):
                        fuzzy += 1
                        continue
                    wrong = [j for j in range(num) if abs(p[j] - 0.5) > 1e-9 and (p[j] > 0.5) != (j in actual)]
                    ref = p
                else:
                    t = 0.5 if 'hinge' in loss else 0.0
                    wrong = [j for j in range(num) if (row[j] > t) != (j in actual)]
                    ref = row
                if wrong:
                    fail('labels %s are predicted for an example, although the %s are %s', sorted(actual),
                         'probabilities' if by_prob else 'scores', ref.tolist())
            elif bin_name == 'example-wise':
                if actual not in sets:
                    fail('label vector %s does not occur in the training data', sorted(actual))
                if by_prob:
                    d = 1 - joints(marginals(row, use), use)
                else:
                    d = B.evaluate(loss, np.tile(row, (len(vec), 1)), vec, 'bc')
                if np.isnan(d).any():
                    fuzzy += 1
                    continue
                a = d[sets.index(actual)]
                if a > d.min() + 1e-9 * (1 + abs(d.min())):
                    fail('label vector %s with distance %s is predicted, but %s has distance %s (scores %s)', sorted(actual), a,
                         vectors[int(np.argmin(d))], d.min(), row.tolist())
            else:
                jp = joints(marginals(row, use), use)
                total = jp.sum()
                if np.isnan(total) or (0 < total < 1e-9):
                    fuzzy += 1
                    continue
                jp = jp / total if total > 0 else jp * 0
                best = max(expected_f(frozenset(j for j in range(num) if m[j]), sets, jp) for m in product((0, 1), repeat=num))
                got = expected_f(actual, sets, jp)
                if got < best - 1e-9:
                    fail('label vector %s with expected F-measure %s is predicted, but %s is optimal (joint probabilities %s)',
                         sorted(actual), got, best, dict(zip(vectors, jp.tolist())))
            judged += 1
    state, prob = attempt(lambda: learner.predict_proba(q, **k))
    if (state == 'ok') != logistic:
        fail('probabilities: %s', prob if state != 'ok' else 'no error, although the loss does not support probabilities')
    if state == 'ok':
        if num == 1:
            # for a single label, the probabilities of both classes are provided
            if prob.shape != (len(scores), 2) or not close(prob.sum(axis=1)[~np.isnan(prob).any(axis=1)], 1.0 + 0 * prob.sum(axis=1)[~np.isnan(prob).any(axis=1)]):
                fail('probabilities for a single label: %s', prob.tolist())
            prob = prob[:, 1:]
        use = prob_opts.get('use_probability_calibration') != 'false'
        for i, row in enumerate(scores):
            p = marginals(row, use)
            if prob_name == 'marginalized':
                jp = joints(p, use)
                total = jp.sum()
                if 0 < total < 1e-9:
                    fuzzy += 1
                    continue
                jp = jp / total if total > 0 else jp * 0
                p = jp @ vec
            if np.isnan(p).any():
                if case.get('known') and np.sum(prob[i]) < 0.5 and all(vectors):
                    fail('probabilities %s are predicted, although all label vectors %s contain a label (scores %s)', prob[i].tolist(), vectors, row.tolist())
                fuzzy += 1
                continue
            if not close(prob[i], p, 1e-7, 1e-9):
                fail('probabilities %s are predicted, expected %s (scores %s, label vectors %s)', prob[i].tolist(), p.tolist(), row.tolist(), vectors)
            if np.any(prob[i] < -1e-9) or np.any(prob[i] > 1 + 1e-9) or np.isnan(prob[i]).any():
                fail('%s are not probabilities', prob[i].tolist())
            judged += 1
    varied = len(np.unique(scores, axis=0)) > 1
    return dict(nontrivial=judged > 0 and varied,
                tags=dict(loss=loss, binary=bin_name + ('-prob' if by_prob else ''), probability=prob_name, logistic=logistic,
                          calibrated=(marginal is not None) + 2 * (joint is not None), vectors=len(vectors), skipped=fuzzy > 0))
