"""Global pruning uses the number of rules that is best according to the loss, as documented."""
from itertools import combinations

from core import *
import boostref as B
import gen


def generate(r):
    kind = r.choice(['bc', 'bc', 'br'])
    holdout = r.random() < 0.55
    config = gen.boosting_config(r, kind, max_rules=14, sampling=0.2, wild=False)
    config['max_rules'] = r.randint(4, 16)
    config.pop('instance_sampling', None)
    config.pop('rule_pruning', None)
    if kind == 'br':
        config['loss'] = 'squared-error-decomposable'
    config['head_type'] = r.choice(['single', 'complete'])
    if kind == 'bc':
        config['label_binning'] = 'none'
    config['shrinkage'] = r.choice([0.1, 0.3, 1.0, 1.0])
    if r.random() < 0.5:
        config['l2_regularization_weight'] = r.choice([0.01, 0.1])
    # rules whose scores are too large make the loss go up and down
    for name in ('feature_sampling', 'rule_induction'):
        if r.random() < 0.7:
            config.pop(name, None)
    name, opts = parse_value(gen.global_pruning(r))
    if name == 'pre-pruning':
        opts.setdefault('aggregation', r.choice(['min', 'max', 'avg']))
    config['global_pruning'] = value(name, **opts)
    if not holdout and r.random() < 0.6:
        config.update(loss='squared-error-decomposable' if kind == 'br' else
                      r.choice(['squared-error-non-decomposable', 'logistic-non-decomposable', 'squared-hinge-non-decomposable']),
                      shrinkage=1.0, l2_regularization_weight=r.choice([0.01, 0.1, 0.5]), head_type='complete' if kind == 'br' else 'single')
    config['holdout'] = gen.holdout(r, kind) if holdout else 'none'
    ds = gen.dataset(r, kind, max_n=9 if holdout else 16, max_d=4, max_l=3, p_nan=0.2, p_cat=0.3, kinds=gen.NEG_KINDS)
    return gen.make_reliable(r, dict(kind=kind, config=config, fmt=r.choice(['C', 'csr']), sparse_y=r.random() < 0.3, **ds))


def holdout_size(config, n):
    name, opts = parse_value(config.get('holdout'))
    if name in (None, 'none'):
        return None
    return float(opts.get('holdout_set_size', 0.33)) * n


def near(a, b):
    return abs(a - b) < 1e-9 * (1 + abs(a) + abs(b))


class Unclear(Exception):
    pass


def less(a, b):
    if b != math.inf and near(a, b):
        raise Unclear()
    return a < b


def simulate(name, opts, qualities, first, total, limit):
    """-> (number of used rules or 0, number of rules after which training is stopped or None), given the quality of each model"""
    min_rules, used = int(opts.get('min_rules', 100)), 0
    if name == 'post-pruning':
        best, interval = math.inf, int(opts.get('interval', 1))
        for k in range(first, total + 1):
            if k >= min_rules and k % interval == 0 and less(qualities[k], best):
                best, used = qualities[k], k
        return used, None
    update, stop = int(opts.get('update_interval', 1)), int(opts.get('stop_interval', 1))
    past, recent = [], []
    num_past, num_recent = int(opts.get('num_past', 50)), int(opts.get('num_recent', 50))
    offset = max(0, min_rules - (num_past + num_recent) * update)
    agg = {'min': min, 'max': max, 'avg': lambda v: sum(v) / len(v)}[opts.get('aggregation', 'min')]
    best, best_k = math.inf, 0
    for k in range(first, total + 1):
        if not (k > offset and k % update == 0):
            continue
        current = qualities[k]
        if len(past) == num_past:
            if less(current, best):
                best, best_k = current, k
            if k % stop == 0:
                a, b = agg(past), agg(recent)
                if abs(b) < 1e-9:
                    raise Unclear()
                improvement, minimum = (a - b) / b, float(opts.get('min_improvement', 0.005))
                if abs(improvement - minimum) < 1e-7:
                    raise Unclear()
                if improvement < minimum:
                    return best_k, (k if opts.get('remove_unused_rules', 'true').lower() == 'true' else None)
        recent.append(current)
        if len(recent) > num_recent:
            past.append(recent.pop(0))
            if len(past) > num_past:
                past.pop(0)
    return 0, None


def consistent(rules, x, y, sets, obj):
    """The sets of training examples the rules may result from."""
    p = np.zeros(y.shape)
    for rule in rules:
        c = covers(rule, x)
        idx = rule.outputs(y.shape[1])
        if obj.unstable(p, y):
            raise Unclear()
        if rule.conds:
            g, h = obj.derivatives(p, y)
            tol = 1e-9 * (1 + np.abs(g).sum())
            remaining, cache = [], {}
            for train in sets:
                m = c & train
                key = m.tobytes()
                if key not in cache:
                    s = obj.prediction(g[m].sum(axis=0), h[m].sum(axis=0), idx, False)
                    if s is None:
                        raise Unclear()
                    cache[key] = close(rule.scores, s, 1e-6, tol)
                if cache[key]:
                    remaining.append(train)
            sets = remaining
        p[np.ix_(c, idx)] += rule.scores
    return sets


def check(case):
    check_domain(case)
    gen.require_valid(case)
    gen.require_reliable_training(case)
    config, kind = case['config'], case['kind']
    if 'max_rules' not in config or 'holdout' not in config or config.get('instance_sampling') not in (None, 'none'):
        raise Skip('not modelled')
    obj = B.Objective(config, kind)
    name, opts = parse_value(config.get('global_pruning'))
    if name not in ('post-pruning', 'pre-pruning') or not obj.modelled or (kind == 'br' and not obj.dec):
        raise Skip('not modelled')
    if name == 'pre-pruning' and 'aggregation' not in opts:
        raise Skip('the documented default value differs')
    x, y = x_of(case), y_of(case)
    n = len(x)
    learner = fit(case, x=as_format(x, case['fmt']), y=y)
    rules = rules_of(learner.model_, used=False)
    used = learner.model_.get_num_used_rules()
    if used > len(rules) or len(rules) > config['max_rules']:
        fail('%d of %d rules are used, at most %d may be learned', used, len(rules), config['max_rules'])
    remove = opts.get('remove_unused_rules', 'true').lower() == 'true'
    # the model without pruning tells about the rules that have been removed
    plain = fit(case, dict(config, global_pruning='none'), x=as_format(x, case['fmt']), y=y)
    everything = rules_of(plain.model_)
    if len(rules) > len(everything) or same_rules(rules, everything[:len(rules)]):
        fail('the %d rules of a pruned model are no prefix of the %d rules learned without pruning', len(rules), len(everything))
    first = 1 if everything and not everything[0].conds else 0
    total = len(everything)
    p, scores = np.zeros(y.shape), []
    for rule in [None] + everything:
        if rule is not None:
            c = covers(rule, x)
            p = p.copy()
            p[np.ix_(c, rule.outputs(y.shape[1]))] += rule.scores
        if obj.unstable(p, y):
            raise Skip('unstable')
        scores.append(obj.loss_of(p, y))
    size = holdout_size(config, n)
    sets = [None]
    if size is not None:
        sets = []
        for k in sorted({int(math.floor(size)), int(math.ceil(size))}):
            for hold in combinations(range(n), k):
                m = np.ones(n, dtype=bool)
                m[list(hold)] = False
                if m.any():
                    sets.append(m)
        try:
            sets = consistent(everything, x, y, sets, obj)
        except Unclear:
            raise Skip('unclear')
        if not sets:
            fail('the %d rules cannot have been learned without using a holdout set of about %s examples', total, size)
        if len(sets) > 200:
            raise Skip('the holdout set cannot be identified')
    use = opts.get('use_holdout_set', 'true').lower() == 'true'
    possible = set()
    try:
        for m in sets:
            sel = slice(None) if m is None else (~m if use else m)
            if m is not None and not np.any(sel):
                raise Skip('no holdout set')
            q = [float(np.mean(s[sel])) for s in scores]
            k, stopped = simulate(name, opts, q, first, total, config['max_rules'])
            learned = total if stopped is None else stopped
            if k == 0:
                k = learned
            possible.add((k, k if remove else learned))
    except Unclear:
        raise Skip('unclear')
    if (used, len(rules)) not in possible:
        fail('%d of %d rules are used, expected %s (mean losses for 0 to %d rules: %s)', used, len(rules),
             ' or '.join('%d of %d' % e for e in sorted(possible)), total, [round(float(np.mean(s)), 5) for s in scores])
    return dict(nontrivial=len(possible) <= 2 and total > 2 and any(k < total for k, _ in possible),
                tags=dict(name=name, loss=obj.loss, used=min(used, 3), pruned=used < total, remove=remove, holdout=size is not None, sets=min(len(sets), 5),
                          aggregation=opts.get('aggregation', '-')))
