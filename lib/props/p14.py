"""Binary predictions of SeCo models are those of a decision list."""
from core import *
import gen


def generate(r):
    config = gen.seco_config(r, max_rules=9)
    ds = gen.dataset(r, 'sc', max_n=24, max_d=5, max_l=5, p_nan=0.4, p_cat=0.4)
    if r.random() < 0.4:
        ds['y'] = [[1 - v for v in row] for row in ds['y']]
    if r.random() < 0.5:
        config['head_type'] = 'partial'
        if r.random() < 0.5:
            config['lift_function'] = 'kln{k=%s}' % r.choice([0.5, 1.0])
    q = gen.queries(r, ds['x'], len(ds['x'][0]), cat=ds['nominal'] + ds['ordinal'])
    return dict(kind='sc', config=config, q=q, fmt=r.choice(FORMATS_DENSE + FORMATS_SPARSE), sparse_value=r.choice([0.0, 0.0, 0.0, 1.0, -1.0]),
                explicit=r.random() < 0.3, prediction_format=r.choice(['dense', 'dense', 'sparse']), sparse_y=r.random() < 0.3,
                max_rules=r.choice([0, 0, 0, 1, 2, 3, 5, 50]), used=r.choice([None, None, None, 1, 2, 4]), **ds)


def check(case):
    check_domain(case)
    gen.require_valid(case)
    config = dict(case['config'], prediction_format=case['prediction_format'])
    learner = fit(case, config, y=None)
    model = learner.model_
    q = x_of(case, 'q')
    y = y_of(case)
    num = y.shape[1]
    all_rules = rules_of(model, used=False)
    if len(all_rules) != model.get_num_rules():
        fail('the model reports %d rules, but consists of %d', model.get_num_rules(), len(all_rules))
    if not all_rules or all_rules[-1].conds:
        fail('the last rule is not a default rule: %s', all_rules[-1:])
    if any(not rule.conds for rule in all_rules[:-1]):
        fail('a rule without conditions precedes other rules: %s', all_rules)
    for rule in all_rules:
        if not np.isin(rule.scores, (0.0, 1.0)).all():
            fail('a rule predicts neither 0 nor 1: %s', rule)
    if case['used'] is not None:
        model.set_num_used_rules(min(case['used'], len(all_rules)))
    used = model.get_num_used_rules()
    n = used if case['max_rules'] == 0 else min(used, case['max_rules'])
    rules = all_rules[:n - 1] + all_rules[-1:]  # the default rule is always among the rules in use
    expected = ref_decision_list(rules, q, num)
    sparse = case['fmt'] not in FORMATS_DENSE
    sv = case['sparse_value'] if sparse else 0.0
    explicit = np.indices(q.shape).sum(axis=0) % 3 == 0 if case['explicit'] and sv == 0.0 else None
    kwargs = {'sparse_feature_value': sv} if sv != 0.0 else {}
    xq = as_format(q, case['fmt'], sv, explicit)
    p = learner.predict(xq, max_rules=case['max_rules'], **kwargs)
    if (case['prediction_format'] == 'sparse') != (not isinstance(p, np.ndarray)):
        fail('%s predictions have been requested, but the result is %s', case['prediction_format'], type(p))
    actual = dense(p)
    if actual.shape != expected.shape:
        fail('predictions have shape %s instead of %s', actual.shape, expected.shape)
    union = np.zeros_like(expected)
    for rule in rules:
        c = covers(rule, q)
        for j, s in zip(rule.outputs(num), rule.scores):
            if s > 0:
                union[c, j] = 1
    judged = np.ones(expected.shape, dtype=bool)
    if case['prediction_format'] == 'sparse':
        judged = union == expected  # known finding F11
        if np.any(actual > np.maximum(union, expected)):
            fail('a label is predicted, although no rule predicts it positively')
    bad = judged & (actual != expected)
    if bad.any():
        i, j = np.argwhere(bad)[0]
        fail('label %d of example %d is predicted as %s, according to the decision list it should be %s: %s', j, i, actual[i, j], expected[i, j], rules)
    cov = np.array([covers(rule, q) for rule in rules if rule.conds])
    conflict = bool((union != expected).any())
    return dict(nontrivial=bool(cov.size and cov.any() and not cov.all()),
                tags=dict(fmt=case['fmt'], predictions=case['prediction_format'], rules=len(rules), conflict=conflict, sv=sv,
                          head=config.get('head_type', 'default'), nan=bool(np.isnan(q).any()), truncated=n < len(all_rules)))
