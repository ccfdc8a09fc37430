"""Limiting the number of rules results in a prefix of the model that is learned without the limit."""
import gen
from core import *


def generate(r):
    kind = r.choice(['bc', 'bc', 'br', 'sc'])
    ds = gen.dataset(r, kind, max_n=25, max_d=5, max_l=4, p_nan=0.3, p_cat=0.4)
    config = gen.config(r, kind, max_rules=12)
    config.pop('sequential_post_optimization', None)
    config['max_rules'] = r.choice([3, 5, 8, 12, 16])
    limit = r.choice(['rules'] * 60 + ['time'])
    if limit == 'time' and kind == 'sc':
        limit = 'rules'
    return dict(kind=kind, config=config, fmt=r.choice(['C', 'F', 'csr', 'csc']), k=r.choice([1, 1, 2, 3, 4, 6, 9, config['max_rules'] - 1]),
                limit=limit, **ds)


def split(model):
    """The rules in the order they have been learned and the default rule"""
    rules = rules_of(model, used=False)
    default = [rule for rule in rules if not rule.conds]
    return [rule for rule in rules if rule.conds], default


def check(case):
    check_domain(case)
    gen.require_valid(case)
    config, kind = case['config'], case['kind']
    x = as_format(x_of(case), case['fmt'])
    limit = config['max_rules']
    if case['k'] < 1 or limit < 1:
        raise Skip('invalid')
    if case['limit'] == 'time':
        config = {k: v for k, v in config.items() if k != 'global_pruning'}
        full = fit(case, dict(config, max_rules=0, time_limit=1), x=x)
        num = full.model_.get_num_rules()
        if num < 1:
            raise Skip('no rules')
        short = fit(case, dict(config, max_rules=num), x=x)
        diff = same_rules(rules_of(full.model_, used=False), rules_of(short.model_, used=False))
        if diff:
            fail('limiting the time or the number of rules to the %d that have been learned in this time results in different models: %s', num, diff)
        return dict(nontrivial=num > 2, tags=dict(limit='time', kind=kind))
    full = fit(case, config, x=x).model_
    short = fit(case, dict(config, max_rules=case['k']), x=x).model_
    for model, k in ((full, limit), (short, case['k'])):
        if model.get_num_rules() > max(k, 1):
            fail('%d rules have been learned, although the maximum is %d', model.get_num_rules(), k)
    a, default_a = split(full)
    b, default_b = split(short)
    if len(default_a) > 1:
        fail('the model contains %d rules without conditions', len(default_a))
    if len(default_a) != len(default_b):
        fail('the model contains %d default rules, if limited to %d rules, and %d, if limited to %d', len(default_b), case['k'], len(default_a), limit)
    if default_a and default_b:
        diff = same_rules(default_a, default_b)
        if diff:
            fail('the default rule depends on the maximum number of rules: %s', diff)
    small, large = (b, a) if case['k'] <= limit else (a, b)
    pruned = 'global_pruning' in config  # unused rules may be removed
    if pruned:
        small = small[:len(large)]
    diff = same_rules(small, large[:len(small)])
    if diff:
        fail('limiting the number of rules to %d instead of %d affects rules that are learned in either case: %s', case['k'], limit, diff)
    expected = min(len(large), max(min(case['k'], limit) - len(default_a), 0))
    if len(small) != expected and not pruned:
        fail('%d rules with conditions are learned, although %d could be learned and the limit is %d (including %d default rules)', len(small),
             len(large), min(case['k'], limit), len(default_a))
    return dict(nontrivial=len(large) > len(small) > 0, tags=dict(limit='rules', kind=kind, pruning=str(config.get('global_pruning', 'none'))[:12]))
