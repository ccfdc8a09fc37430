"""SeCo models result from separate-and-conquer: rules are optimal for what previous rules have left uncovered."""
from core import *
from props.p08 import candidates
import boostref as B
import secoref as S
import gen


def generate(r):
    config = gen.seco_config(r, max_rules=8, sampling=0.0, wild=False)
    config.update(feature_sampling='none', instance_sampling='none', output_sampling='none', rule_pruning='none')
    config.setdefault('head_type', r.choice(['single', 'partial']))
    if r.random() < 0.5:
        config['rule_induction'] = value('top-down-greedy', max_conditions=r.choice([1, 1, 2, 3]), min_coverage=r.choice([None, 1, 2, 4]),
                                         max_head_refinements=r.choice([None, 0, 1]))
    dup = r.random() < 0.4
    ds = gen.dataset(r, 'sc', max_n=16, max_d=4, max_l=5, p_nan=0.4, p_cat=0.5, kinds=None if dup else gen.NEG_KINDS)
    if dup:
        ds['x'] = ds['x'] + ds['x']
        ds['y'] = ds['y'] + gen.labels(r, ds['x'][:len(ds['y'])], len(ds['y']), len(ds['x'][0]), len(ds['y'][0]))
    if r.random() < 0.3:
        ds['y'] = [[1 - v for v in row] for row in ds['y']]
    return dict(kind='sc', config=config, fmt='C' if dup else r.choice(['C', 'F', 'csr', 'csc']), sparse_y=r.random() < 0.3, **ds)


def check(case):
    check_domain(case)
    gen.require_valid(case)
    gen.require_reliable_training(case)
    config = case['config']
    if any(config.get(name) != 'none' for name in ('feature_sampling', 'instance_sampling', 'output_sampling', 'rule_pruning')) \
            or 'max_rules' not in config or 'head_type' not in config:
        raise Skip('not modelled')
    x, y = x_of(case), y_of(case).astype(int)
    n, num = y.shape
    heuristic = S.Heuristic(config.get('heuristic'))
    single = config['head_type'] == 'single'
    lift = S.Lift(config.get('lift_function'), num)
    if not single and not lift.modelled:
        raise Skip('not modelled')
    learner = fit(case, x=as_format(x, case['fmt']), y=y_of(case))
    rules = rules_of(learner.model_)
    _, opts = parse_value(config.get('rule_induction'))
    max_conditions, refinements = int(opts.get('max_conditions', 0)), int(opts.get('max_head_refinements', 1))
    min_cov, support = int(opts.get('min_coverage', 1)), float(opts.get('min_support', 0.0))
    min_cov = B.bounded_fraction(n, support, min_cov, n) if support > 0 else min(n, min_cov)
    nominal, ordinal = set(case['nominal']), set(case['ordinal'])
    maj = S.majority(y)
    if not rules or rules[-1].conds or rules[-1].indices is not None or not np.array_equal(rules[-1].scores, maj):
        fail('the last rule should predict %s by default: %s', maj.tolist(), rules[-1:])
    if len(rules) > config['max_rules']:
        fail('%d rules have been learned, at most %d are allowed', len(rules), config['max_rules'])
    right = y != maj  # rules predict the opposite of the majority
    left = np.ones((n, num), dtype=bool)
    everything = np.ones(n, dtype=bool)

    def qualities(m):
        result = []
        for j in range(num):
            e, i = left[:, j] & right[:, j], left[:, j] & ~right[:, j]
            result.append(heuristic(int((e & m).sum()), int((i & m).sum()), int((e & ~m).sum()), int((i & ~m).sum())))
        return np.array(result)

    def best(m):
        q = qualities(m)
        if single:
            return q.max()
        q = np.sort(q)[::-1]
        return max(q[:k].mean() * lift(k) for k in range(1, num + 1))

    def quality(m, idx):
        q = qualities(m)[idx]
        return q[0] if single else q.mean() * lift(len(idx))

    judged = deeper = 0
    for k, rule in enumerate(rules[:-1]):
        c = covers(rule, x)
        idx = rule.outputs(num)
        if not rule.conds:
            fail('rule %d has no conditions, but is not the default rule: %s', k, rule)
        if (single and len(idx) != 1) or len(idx) == 0 or len(set(idx.tolist())) != len(idx):
            fail('rule %d has an invalid head: %s', k, rule)
        if not np.array_equal(rule.scores, 1 - maj[idx]):
            fail('rule %d should predict the opposite of the majority %s: %s', k, maj.tolist(), rule)
        if int(c.sum()) < min_cov:
            fail('rule %d covers %d examples, but at least %d are required: %s', k, int(c.sum()), min_cov, rule)
        if max_conditions and len(rule.conds) > max_conditions:
            fail('rule %d has %d conditions, at most %d are allowed', k, len(rule.conds), max_conditions)
        if not (left & right).any():
            fail('rule %d has been learned, although all labels are covered: %s', k, rule)
        own = quality(c, idx)
        if len(rule.conds) == 1 or refinements == 0:
            top = best(c)
            if own < top - 1e-9:
                fail('rule %d has a quality of %s, but another head results in %s: %s', k, own, top, rule)
        count = 0
        for cond, m in candidates(x, everything, nominal, ordinal):
            if m.sum() >= min_cov:
                count += 1
                q = best(m)
                if q > own + 1e-9:
                    fail('rule %d has a quality of %s, but the single condition %s results in %s: %s', k, own, cond, q, rule)
        judged += count > 1
        if not (max_conditions and len(rule.conds) >= max_conditions) and int(c.sum()) > min_cov \
                and (refinements == 0 or len(rule.conds) >= refinements):
            used = {f for _, f, _ in rule.conds}
            for cond, m in candidates(x, c, nominal, ordinal):
                if cond[0] not in used and m.sum() >= min_cov:
                    deeper += 1
                    q = best(m) if refinements == 0 else quality(m, idx)
                    if q > own + 1e-9:
                        fail('rule %d has a quality of %s, but adding the condition %s results in %s: %s', k, own, cond, q, rule)
        left[np.ix_(c, idx)] = False
    # known finding F13: labels that are covered although they equal the majority are counted, too
    covered = int((~left & right).sum() if case.get('known') else (~left).sum())
    if len(rules) < config['max_rules'] and covered < int(right.sum()):
        for cond, m in candidates(x, everything, nominal, ordinal):
            if m.sum() >= min_cov and best(m) > 1e-9:
                fail('only %d of %d rules have been learned, although %s results in a quality of %s', len(rules), config['max_rules'], cond, best(m))
    return dict(nontrivial=judged > 0, tags=dict(heuristic=heuristic.name, head=config['head_type'], lift='-' if single else lift.name,
                                                 fmt=case['fmt'], judged=judged, deeper=deeper > 0, negative=bool(maj.any()), min_cov=min_cov))
