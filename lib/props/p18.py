"""Training and predicting never access invalid memory (the code is built with AddressSanitizer and UndefinedBehaviorSanitizer)."""
import pickle

from core import *
from props.p10 import predictor_config
import gen


def generate(r):
    kind = r.choice(['bc', 'bc', 'br', 'sc'])
    shape = r.choice(['small', 'small', 'wide', 'tall', 'labels', 'tiny'])
    size = dict(small=dict(max_n=20, max_d=4, max_l=4), wide=dict(max_n=6, max_d=14, max_l=3), tall=dict(max_n=70, max_d=3, max_l=2),
                labels=dict(max_n=8, max_d=3, max_l=16), tiny=dict(max_n=3, max_d=2, max_l=2))[shape]
    ds = gen.dataset(r, kind, p_nan=0.4, p_cat=0.5, **size)
    config = gen.config(r, kind, max_rules=7, sampling=0.5)
    if kind == 'bc' and r.random() < 0.5:
        config['loss'] = r.choice(['logistic-decomposable', 'logistic-non-decomposable'])
        if config.get('l2_regularization_weight') == 0.0:
            config['l2_regularization_weight'] = 1.0
    if kind == 'bc' and r.random() < 0.6:
        predictor_config(r, config)
    if r.random() < 0.3:
        config['feature_sampling'] = value('without-replacement', sample_size=r.choice([None, 0, 0.3, 0.9]), min_samples=r.choice([None, 1, 3]),
                                           num_retained=r.choice([None, 1, 2, 5]))
    q = gen.queries(r, ds['x'], len(ds['x'][0]), max_q=8, cat=ds['nominal'] + ds['ordinal'])
    return dict(kind=kind, config=config, q=q, fmt=r.choice(['C', 'F', 'csr', 'csc']), qfmt=r.choice(['C', 'csr']), sparse_y=r.random() < 0.4,
                prediction_format=r.choice(['auto', 'sparse', 'dense']), max_rules=r.choice([0, 1, 3]),
                steps=r.choice([0, 1, 2, 5]), pickle=r.random() < 0.3, **ds)


def check(case):
    check_domain(case)
    gen.require_valid(case)
    config = dict(case['config'], prediction_format=case['prediction_format'])
    kind = case['kind']
    try:
        learner = fit(case, config, x=as_format(x_of(case), case['fmt']))
    except (ValueError, RuntimeError, ArithmeticError):
        return dict(nontrivial=False, tags=dict(outcome='rejected'))
    q = as_format(x_of(case, 'q'), case['qfmt'])
    if case['pickle']:
        learner = pickle.loads(pickle.dumps(learner))
    rules = rules_of(learner.model_)
    k = dict(max_rules=case['max_rules'])
    observe(learner, q, kind, **k)
    if case['steps']:
        calls = [lambda: learner.predict_incrementally(q, **k), lambda: learner.predict_incrementally(q, predict_scores=True, **k)]
        if kind != 'br':
            calls.append(lambda: learner.predict_proba_incrementally(q, **k))
        for call in calls:
            try:
                predictor = call()
                while predictor.has_next():
                    predictor.apply_next(case['steps'])
            except (ValueError, RuntimeError):
                pass
    return dict(nontrivial=any(rule.conds for rule in rules),
                tags=dict(outcome='trained', kind=kind, fmt=case['fmt'], qfmt=case['qfmt'], loss=config.get('loss', 'seco'), labels=min(len(case['y'][0]), 8)))
