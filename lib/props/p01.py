"""Predicted scores are the sum of the heads of the rules in use that cover the example."""
from core import *
import gen


def generate(r):
    kind = r.choice(['bc', 'bc', 'br'])
    ds = gen.dataset(r, kind, max_n=24, max_d=5, max_l=4, p_nan=0.4, p_cat=0.4)
    config = gen.boosting_config(r, kind, max_rules=9)
    if r.random() < 0.5:
        config.setdefault('rule_induction', 'top-down-greedy')
    q = gen.queries(r, ds['x'], len(ds['x'][0]), cat=ds['nominal'] + ds['ordinal'])
    sparse_value = r.choice([0.0, 0.0, 0.0, 1.0, -1.0, 2.0])
    return dict(kind=kind, config=config, q=q, fmt=r.choice(FORMATS_DENSE + FORMATS_SPARSE), sparse_value=sparse_value,
                explicit=r.random() < 0.3, enforce=r.choice([None, None, 'sparse', 'dense']), max_rules=r.choice([0, 0, 1, 2, 3, 5, 50]), used=r.choice([None, None, 1, 2, 4]), **ds)


def check(case):
    check_domain(case)
    gen.require_valid(case)
    config = dict(case['config'])
    if case['enforce']:
        config['prediction_format'] = 'auto'
        config['feature_format'] = case['enforce'] if case['enforce'] == 'dense' or case['fmt'] not in ('C', 'F', 'list') else 'auto'
    learner = fit(case, config)
    model = learner.model_
    q = x_of(case, 'q')
    num_outputs = len(case['y'][0])
    all_rules = rules_of(model, used=False)
    if len(all_rules) != model.get_num_rules():
        fail('the model reports %d rules, but consists of %d', model.get_num_rules(), len(all_rules))
    if case['used'] is not None:
        model.set_num_used_rules(min(case['used'], len(all_rules)))
    used = model.get_num_used_rules()
    n = used if case['max_rules'] == 0 else min(used, case['max_rules'])
    rules = all_rules[:n]
    expected = ref_scores(rules, q, num_outputs)
    sparse = case['fmt'] not in FORMATS_DENSE
    sv = case['sparse_value'] if sparse else 0.0
    explicit = None
    if case['explicit'] and sv == 0.0:
        explicit = np.indices(q.shape).sum(axis=0) % 3 == 0
    kwargs = {'sparse_feature_value': sv} if sv != 0.0 else {}
    xq = as_format(q, case['fmt'], sv, explicit)
    actual = dense(learner.predict(xq, predict_scores=True, max_rules=case['max_rules'], **kwargs))
    tol = 1e-10 * (1 + flat_abs(rules))
    if actual.shape != expected.shape:
        fail('predicted scores have shape %s instead of %s', actual.shape, expected.shape)
    if not close(actual, expected, 1e-10, tol):
        fail('scores differ from the sum of the covering rules (%s predicted vs. expected): rules %s', first_diff(actual, expected, 1e-10, tol), rules)
    cov = np.array([covers(rule, q) for rule in rules if rule.conds])
    return dict(nontrivial=bool(cov.size and cov.any() and not cov.all()),
                tags=dict(fmt=case['fmt'], loss=case['config']['loss'], rules=len(rules), nan=bool(np.isnan(q).any()),
                          cat=bool(case['nominal'] or case['ordinal']), sv=sv))
