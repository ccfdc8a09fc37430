"""Incremental predictions agree with the predictions of the corresponding prefixes of a model."""
from core import *
import gen
from props.p05 import predictors


def generate(r):
    kind = r.choice(['bc', 'bc', 'br', 'sc'])
    ds = gen.dataset(r, kind, max_n=25, max_d=4, max_l=4, p_nan=0.3, p_cat=0.3)
    config = gen.config(r, kind, max_rules=10)
    if kind == 'bc':
        predictors(r, config)
    q = gen.queries(r, ds['x'], len(ds['x'][0]), max_q=15, cat=ds['nominal'] + ds['ordinal'])
    return dict(kind=kind, config=config, q=q, fmt=r.choice(['C', 'csr']), max_rules=r.choice([0, 0, 0, 1, 2, 4, 7, 100]),
                used=r.choice([None, None, None, 1, 2, 4]), steps=[r.choice([1, 1, 1, 2, 3, 5]) for _ in range(20)],
                prediction_format=r.choice(['auto', 'dense', 'sparse']), **ds)


def check(case):
    check_domain(case)
    gen.require_valid(case)
    kind = case['kind']
    config = dict(case['config'])
    if kind != 'br':
        config['prediction_format'] = case['prediction_format']
    learner = fit(case, config)
    model = learner.model_
    q = as_format(x_of(case, 'q'), case['fmt'])
    if case['used'] is not None and model.get_num_rules() > 0:
        model.set_num_used_rules(min(case['used'], model.get_num_rules()))
    total = model.get_num_used_rules()
    if case['max_rules'] > 0:
        total = min(total, case['max_rules'])
    kinds = {'scores': (lambda **k: learner.predict(q, predict_scores=True, **k),
                        lambda **k: learner.predict_incrementally(q, predict_scores=True, **k)),
             'predictions': (lambda **k: learner.predict(q, **k), lambda **k: learner.predict_incrementally(q, **k))}
    if kind != 'br':
        kinds['probabilities'] = (lambda **k: learner.predict_proba(q, **k), lambda **k: learner.predict_proba_incrementally(q, **k))
    done = 0
    seen = {}
    for name, (batch, incremental) in kinds.items():
        reference = attempt(lambda: batch(max_rules=case['max_rules']))
        try:
            predictor = incremental(max_rules=case['max_rules'])
        except Exception as e:
            if reference[0] == 'ok':
                fail('%s cannot be obtained incrementally (%s), although they can be predicted', name, type(e).__name__)
            seen[name] = 'error'
            continue
        if reference[0] != 'ok':
            fail('%s can be obtained incrementally, although they cannot be predicted (%s)', name, reference[1])
        k = 0
        last = None
        results = []
        for step in case['steps']:
            rest = predictor.get_num_next()
            if rest != total - k:
                fail('%s: %d rules are left after using %d of %d', name, rest, k, total)
            if predictor.has_next() != (rest > 0):
                fail('%s: has_next() returns %s, although %d rules are left', name, predictor.has_next(), rest)
            if rest == 0:
                break
            result = predictor.apply_next(step)
            last = dense(result).copy()
            results.append((result, last))
            k = min(k + step, total)
            expected = dense(batch(max_rules=k))
            tol = 0.0 if name == 'predictions' else 1e-10 * (1 + flat_abs(rules_of(model)))
            if last.shape != expected.shape or not close(last, expected, 1e-9 if tol else 0.0, tol):
                fail('%s obtained incrementally after %d rules differ from the predictions of these rules: %s', name, k,
                     first_diff(last, expected, 1e-9, tol))
            done += 1
        if k == total and last is not None and not close(last, reference[1], 1e-9, 1e-9):
            fail('%s obtained incrementally by all rules differ from regular predictions: %s', name, first_diff(last, reference[1]))
        del predictor
        for result, copy in results:
            if not np.array_equal(dense(result), copy, equal_nan=True):
                fail('%s obtained incrementally change later on: %s', name, first_diff(dense(result), copy))
        seen[name] = k
    return dict(nontrivial=done > 1, tags=dict(kind=kind, steps=done, **seen))
