"""Saving and loading a learner does not change its model and predictions."""
import copy
import pickle

from core import *
import gen


def generate(r):
    kind = r.choice(['bc', 'bc', 'br', 'sc'])
    ds = gen.dataset(r, kind, max_n=25, max_d=5, max_l=4, p_nan=0.3, p_cat=0.5)
    config = gen.config(r, kind, max_rules=8)
    if kind == 'bc':
        predictors(r, config)
    q = gen.queries(r, ds['x'], len(ds['x'][0]), cat=ds['nominal'] + ds['ordinal'])
    return dict(kind=kind, config=config, q=q, used=r.choice([None, None, 1, 2, 3]), how=r.choice(['pickle', 'pickle', 'deepcopy', 'file']),
                protocol=r.choice([2, 3, 4, 5]), rounds=r.choice([1, 1, 2, 3]), **ds)


def predictors(r, config):
    """Options that require additional information to be stored together with a model."""
    if r.random() < 0.6:
        config['binary_predictor'] = r.choice(
            ['output-wise', 'example-wise', 'gfm', value('output-wise', based_on_probabilities=True),
             value('example-wise', based_on_probabilities=True)])
    if r.random() < 0.6:
        config['probability_predictor'] = r.choice(['output-wise', 'marginalized'])
    if r.random() < 0.4:
        config['marginal_probability_calibration'] = 'isotonic'
    if r.random() < 0.4:
        config['joint_probability_calibration'] = 'isotonic'


def check(case):
    check_domain(case)
    gen.require_valid(case)
    kind = case['kind']
    learner = fit(case)
    q = x_of(case, 'q')
    model = learner.model_
    if case['used'] is not None and model.get_num_rules() > 0:
        model.set_num_used_rules(min(case['used'], model.get_num_rules()))
    rules, used = rules_of(model, used=False), model.get_num_used_rules()
    expected = observe(learner, q, kind)
    prefixes = [observe(learner, q, kind, max_rules=k) for k in (1, 2)]
    params = {k: str(v) for k, v in learner.get_params().items()}
    clone = learner
    for _ in range(case['rounds']):
        clone = copy.deepcopy(clone) if case['how'] == 'deepcopy' else pickle.loads(pickle.dumps(clone, protocol=case['protocol']))
    if type(clone) is not type(learner) or {k: str(v) for k, v in clone.get_params().items()} != params:
        fail('the parameters of the loaded learner differ')
    if clone.model_.get_num_used_rules() != used or clone.model_.get_num_rules() != len(rules):
        fail('the loaded model consists of %d rules (%d used) instead of %d (%d used)', clone.model_.get_num_rules(),
             clone.model_.get_num_used_rules(), len(rules), used)
    diff = same_rules(rules, rules_of(clone.model_, used=False)) or same_rules(rules_of(model), rules_of(clone.model_))
    diff = diff or same_observations(expected, observe(clone, q, kind))
    for k, p in zip((1, 2), prefixes):
        diff = diff or same_observations(p, observe(clone, q, kind, max_rules=k))
    if diff:
        fail('the learner differs after it has been saved and loaded (%s): %s', case['how'], diff)
    # the original is left untouched
    diff = same_rules(rules, rules_of(learner.model_, used=False)) or same_observations(expected, observe(learner, q, kind))
    if diff:
        fail('saving a learner affects the original: %s', diff)
    # the loaded learner can still be trained
    learner.fit(x_of(case), y_of(case))
    clone.fit(x_of(case), y_of(case))
    diff = same_rules(rules_of(learner.model_, used=False), rules_of(clone.model_, used=False))
    if diff:
        fail('fitting the loaded learner results in a different model: %s', diff)
    return dict(nontrivial=any(r.conds for r in rules),
                tags=dict(kind=kind, how=case['how'], cat=bool(case['nominal'] or case['ordinal']),
                          errors=','.join(k for k, v in expected.items() if v[0] == 'error'),
                          calibration=str('marginal_probability_calibration' in case['config']) + str('joint_probability_calibration' in case['config'])))
