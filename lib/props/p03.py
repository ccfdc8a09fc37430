"""The representation of ground truth, statistics and predictions does not affect models and predictions."""
from core import *
from props.p05 import predictors
import gen


def generate(r):
    kind = r.choice(['bc', 'bc', 'br', 'sc'])
    ds = gen.dataset(r, kind, max_n=20, max_d=4, max_l=5, p_nan=0.2, p_cat=0.3)
    config = gen.config(r, kind, max_rules=6)
    config.pop('statistic_format', None)
    if kind == 'bc' and r.random() < 0.5:
        if r.random() < 0.7:
            config['loss'] = r.choice(['logistic-decomposable', 'logistic-non-decomposable'])
            if config.get('l2_regularization_weight') == 0.0:
                config['l2_regularization_weight'] = 1.0
        predictors(r, config)
    q = gen.queries(r, ds['x'], len(ds['x'][0]), max_q=10, cat=ds['nominal'] + ds['ordinal'])
    return dict(kind=kind, config=config, q=q, fmt=r.choice(FORMATS_SPARSE), explicit=r.random() < 0.4,
                order=r.random() < 0.5, dense=r.choice(['C', 'F', 'list']), seed=r.randrange(1000),
                dtype=r.choice(['float64', 'int64', 'bool', 'int8']), **ds)


def check(case):
    check_domain(case)
    gen.require_valid(case)
    kind, config = case['kind'], case['config']
    x, q = x_of(case), x_of(case, 'q')
    y = y_of(case)
    mask = np.random.RandomState(case['seed']).rand(*y.shape) < 0.4 if case['explicit'] else None

    def train(yy, **extra):
        learner = make(kind, config, case['nominal'], case['ordinal'], **extra)
        learner.fit(x, yy)
        return learner

    def sparse_y(explicit=None):
        m = as_sparse(y, case['fmt'], 0, explicit)
        if case['order'] and m.format in ('csr', 'csc'):
            m = shuffle_indices(m, case['seed'])
        return m

    base = train(y)
    rules = rules_of(base.model_, used=False)
    expected = observe(base, q, kind)
    dt = 'float64' if kind == 'br' else case['dtype']
    variants = {'a %s array (%s)' % (case['dense'], dt): train(as_format(y.astype(dt), case['dense'])),
                'a %s matrix converted to dense' % case['fmt']: train(sparse_y(mask), output_format='dense')}
    for name, other in variants.items():
        diff = same_rules(rules, rules_of(other.model_, used=False)) or same_observations(expected, observe(other, q, kind))
        if diff:
            fail('ground truth given as a C-contiguous array and as %s results in different models: %s', name, diff)
    # sparse representation of the ground truth
    # (which of the examples with equal label vectors are sampled together is an arbitrary choice)
    if not (kind == 'br' and affected_by_f08(case) and not case.get('known')) and 'stratified-example-wise' not in repr(config):
        other = train(sparse_y(mask), output_format='sparse')
        diff = same_rules(rules, rules_of(other.model_, used=False)) or same_observations(expected, observe(other, q, kind))
        if diff:
            fail('ground truth given as a C-contiguous array and as a sparse %s matrix results in different models: %s',
                 case['fmt'], diff)
    # format of predictions
    if kind != 'br':
        forced = {}
        for policy in ('sparse', 'dense'):
            learner = train(y, prediction_format=policy)
            pred = attempt_raw(lambda: learner.predict(q))
            if pred[0] == 'ok':
                if sp.issparse(pred[1]) != (policy == 'sparse'):
                    fail('predictions are of type %s, although prediction_format=%s', type(pred[1]).__name__, policy)
                if sp.issparse(pred[1]):
                    m = pred[1].tocsr()
                    if not np.all(np.asarray(m.data) == 1):
                        fail('sparse predictions store values other than one')
                    for i in range(m.shape[0]):
                        row = m.indices[m.indptr[i]:m.indptr[i + 1]]
                        if len(row) and (np.any(np.diff(row.astype(int)) <= 0) or row[-1] >= y.shape[1]):
                            fail('row %d of sparse predictions stores the columns %s', i, row)
                forced[policy] = dense(pred[1])
            else:
                forced[policy] = pred[1]
            diff = same_rules(rules, rules_of(learner.model_, used=False))
            if diff:
                fail('the format of predictions affects the model: %s', diff)
        a, b = forced['sparse'], forced['dense']
        if kind == 'sc' and not case.get('known') and not isinstance(a, str) and not isinstance(b, str) and a.shape == b.shape:
            # Known finding F11: sparse predictions also include labels that are predicted as relevant by a rule that
            # follows a rule, which predicts the label as irrelevant
            conflicts = contradicted(rules_of(base.model_), q, *a.shape)
            a, b = np.where(conflicts, 0, a), np.where(conflicts, 0, b)
        if isinstance(a, str) != isinstance(b, str) or (not isinstance(a, str) and not np.array_equal(a, b)):
            fail('predictions differ, depending on their format: %s vs. %s', a, b)
    return dict(nontrivial=any(r.conds for r in rules),
                tags=dict(kind=kind, fmt=case['fmt'], explicit=case['explicit'], labels=len(case['y'][0])))


def contradicted(rules, q, n, l):
    """Whether the first rule in a decision list predicts a label as irrelevant, but a later one as relevant."""
    first, any_positive = np.full((n, l), -1), np.zeros((n, l), dtype=bool)
    for rule in rules:
        covered = covers(rule, q)
        for j, v in zip(rule.outputs(l), rule.scores):
            first[covered & (first[:, j] < 0), j] = int(v > 0)
            any_positive[covered, j] |= v > 0
    return (first == 0) & any_positive


def attempt_raw(f):
    try:
        return 'ok', f()
    except Exception as e:
        return 'error', type(e).__name__


def affected_by_f08(case):
    """Known finding F08: with a dense matrix of regression scores, partial heads update the wrong statistics."""
    c = case['config']
    head, _ = parse_value(c.get('head_type'))
    return len(case['y'][0]) > 1 and (head not in (None, 'complete') or c.get('output_sampling') not in (None, 'none'))
