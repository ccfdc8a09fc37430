"""The representation of feature matrices does neither affect training nor prediction."""
from core import *
import gen


def generate(r):
    kind = r.choice(['bc', 'br', 'sc'])
    ds = gen.dataset(r, kind, max_n=20, max_d=5, max_l=3, p_nan=0.3, p_cat=0.4)
    config = gen.config(r, kind, max_rules=6)
    q = gen.queries(r, ds['x'], len(ds['x'][0]), max_q=10, cat=ds['nominal'] + ds['ordinal'])
    return dict(kind=kind, config=config, q=q, sparse_train=r.random() < 0.5,
                sv=r.choice([0.0, 0.0, 0.0, 1.0, -1.0, 2.0]), explicit=r.random() < 0.3, order=r.random() < 0.5,
                a=r.choice(FORMATS_SPARSE), b=r.choice(FORMATS_SPARSE), dense_a=r.choice(FORMATS_DENSE),
                dense_b=r.choice(FORMATS_DENSE), seed=r.randrange(1000), **ds)


def variant(case, a, fmt, sv, explicit=False):
    mask = None
    if explicit and sv == 0.0:
        mask = np.random.RandomState(case['seed']).rand(*a.shape) < 0.4
    m = as_format(a, fmt, sv, mask)
    if case['order'] and sp.issparse(m) and m.format in ('csr', 'csc'):
        m = shuffle_indices(m, case['seed'])
    return m


def check(case):
    check_domain(case)
    gen.require_valid(case)
    x, q, kind = x_of(case), x_of(case, 'q'), case['kind']
    sv = case['sv']
    kw = {} if sv == 0.0 else {'sparse_feature_value': sv}
    y = y_of(case)

    def train(m, **extra):
        learner = make(kind, case['config'], case['nominal'], case['ordinal'], **extra)
        learner.fit(m, y, **({} if not sp.issparse(m) else kw))
        return learner

    if case['sparse_train']:
        names = [case['a'], case['b']]
        # the order of the elements of a sparse matrix may decide between equally good rules
        tc = dict(case, order=False)
        learners = [train(variant(tc, x, case['a'], sv), feature_format='sparse'),
                    train(variant(tc, x, case['b'], sv), feature_format='sparse')]
    else:
        names = [case['dense_a'], case['dense_b'], case['a']]
        learners = [train(variant(case, x, case['dense_a'], sv)), train(variant(case, x, case['dense_b'], sv)),
                    train(variant(case, x, case['a'], sv, case['explicit']), feature_format='dense')]
    rules = rules_of(learners[0].model_, used=False)
    for name, other in zip(names[1:], learners[1:]):
        diff = same_rules(rules, rules_of(other.model_, used=False))
        if diff:
            fail('models learned from the same feature values given as %s and %s differ: %s', names[0], name, diff)
    # predictions
    learner = learners[0]
    learner.feature_format = 'auto'
    expected = observe(learner, np.ascontiguousarray(q), kind)
    for fmt in {case['dense_a'], case['dense_b'], case['a'], case['b']}:
        for policy in ('sparse', 'dense', 'auto') if fmt not in FORMATS_DENSE else ('auto',):
            learner.feature_format = policy
            m = variant(case, q, fmt, sv, case['explicit'])
            actual = observe(learner, m, kind, **(kw if sp.issparse(m) else {}))
            diff = same_observations(expected, actual)
            if diff:
                fail('predictions for the same feature values given as a C-contiguous array and as %s (%s) differ: %s',
                     fmt, policy, diff)
    return dict(nontrivial=any(r.conds for r in rules),
                tags=dict(kind=kind, train='sparse' if case['sparse_train'] else 'dense', sv=sv,
                          errors=','.join(k for k, v in expected.items() if v[0] == 'error')))
