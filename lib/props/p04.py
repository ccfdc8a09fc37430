"""Models and predictions depend neither on the number of threads nor on earlier use of a learner."""
from core import *
import gen


def generate(r):
    kind = r.choice(['bc', 'br', 'sc'])
    ds = gen.dataset(r, kind, max_n=40, max_d=10, max_l=6, p_nan=0.3, p_cat=0.3)
    config = gen.config(r, kind, max_rules=8, sampling=0.5)
    for name in ('parallel_rule_refinement', 'parallel_statistic_update', 'parallel_prediction'):
        config.pop(name, None)
    q = gen.queries(r, ds['x'], len(ds['x'][0]), max_q=40, cat=ds['nominal'] + ds['ordinal'])
    threads = [r.choice([1, 2, 3, 4, 8, 16, 0]) for _ in range(3)]
    return dict(kind=kind, config=config, q=q, threads=threads, fmt=r.choice(['C', 'F', 'csr', 'csc']), **ds)


def check(case):
    check_domain(case)
    gen.require_valid(case)
    kind, config = case['kind'], case['config']
    x, q, y = x_of(case), x_of(case, 'q'), y_of(case)
    m = as_format(x, case['fmt'])
    qm = as_format(q, case['fmt'])
    names = ('parallel_rule_refinement', 'parallel_statistic_update', 'parallel_prediction')

    def train(options):
        learner = make(kind, config, case['nominal'], case['ordinal'], **options)
        learner.fit(m, y)
        return learner

    single = train({n: 'false' for n in names})
    rules = rules_of(single.model_, used=False)
    used = single.model_.get_num_used_rules()
    expected = observe(single, qm, kind)
    settings = {n: value('true', num_preferred_threads=t) for n, t in zip(names, case['threads'])}
    multi = train(settings)
    for what, learner in (('number of threads %s' % case['threads'], multi), ('second run', train(settings))):
        diff = same_rules(rules, rules_of(learner.model_, used=False))
        if not diff and used != learner.model_.get_num_used_rules():
            diff = f'number of used rules: {used} vs. {learner.model_.get_num_used_rules()}'
        diff = diff or same_observations(expected, observe(learner, qm, kind))
        if diff:
            fail('%s results in a different model: %s', what, diff)
    # predicting is free of side effects, and refitting the same object starts from scratch
    if same_observations(expected, observe(multi, qm, kind)):
        fail('predicting twice results in different predictions: %s', same_observations(expected, observe(multi, qm, kind)))
    if x.shape[0] > 3:
        multi.fit(as_format(x[:-1][::-1], case['fmt']), y[:-1][::-1])
    multi.fit(m, y)
    diff = same_rules(rules, rules_of(multi.model_, used=False)) or same_observations(expected, observe(multi, qm, kind))
    if diff:
        fail('fitting the same learner again results in a different model: %s', diff)
    # the predictions for an example do not depend on the other examples
    order = np.random.RandomState(len(case['q'])).permutation(q.shape[0])[:max(1, q.shape[0] // 2)]
    part = observe(single, as_format(q[order], case['fmt']), kind)
    for k, (s, v) in expected.items():
        if s == 'ok' and not np.array_equal(v[order], part[k][1], equal_nan=True):
            fail('%s for an example depend on the other examples: %s', k, first_diff(v[order], part[k][1], 0, 0))
    return dict(nontrivial=any(r.conds for r in rules) and max(case['threads']) != 1,
                tags=dict(kind=kind, threads=max(case['threads']), rules=len(rules)))
