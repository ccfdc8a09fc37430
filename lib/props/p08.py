"""Rules result from a greedy search: no candidate condition would have resulted in a better rule."""
import math

from core import *
import boostref as B
import gen

EPS = float(np.finfo(np.float32).eps)


def generate(r):
    kind = r.choice(['bc', 'bc', 'br'])
    config = gen.boosting_config(r, kind, max_rules=6, sampling=0.0, wild=False)
    if kind == 'br':
        config['loss'] = 'squared-error-decomposable'
    if not B.is_decomposable(config['loss']):
        config['head_type'] = r.choice(['single', 'complete'])
        if kind == 'bc':
            config['label_binning'] = gen.pick(r, [(3, 'none'), (1, gen.label_binning(r))])
    elif kind == 'bc' and config.get('head_type', '').startswith('partial'):
        config['label_binning'] = 'none'
    config.setdefault('head_type', r.choice(['single', 'complete']))
    if r.random() < 0.5:
        config['rule_induction'] = value('top-down-greedy', max_conditions=r.choice([1, 1, 2, 3]), min_coverage=r.choice([None, 1, 2, 4]),
                                         max_head_refinements=r.choice([None, 0, 1]))
    config.update(feature_sampling='none', instance_sampling='none', output_sampling='none')
    dup = r.random() < 0.4
    ds = gen.dataset(r, kind, max_n=16, max_d=4, max_l=4, p_nan=0.4, p_cat=0.5, kinds=None if dup else gen.NEG_KINDS)
    if dup:
        ds['x'] = ds['x'] + ds['x']
        ds['y'] = ds['y'] + (gen.targets if kind == 'br' else gen.labels)(r, ds['x'][:len(ds['y'])], len(ds['y']), len(ds['x'][0]), len(ds['y'][0]))
    return gen.make_reliable(r, dict(kind=kind, config=config, fmt='C' if dup else r.choice(['C', 'F', 'csr', 'csc']),
                                     sparse_y=r.random() < 0.3, **ds))


def candidates(x, c, nominal, ordinal):
    """-> [(description, mask of the covered examples)] of all conditions that separate the examples in c"""
    result = []
    for j in range(x.shape[1]):
        col = x[:, j]
        known = c & ~np.isnan(col)
        vals = np.unique(col[known])
        if len(vals) < 2:
            continue
        if j in nominal:
            for v in vals:
                result.append(((j, '==', float(v)), known & (col == v)))
                result.append(((j, '!=', float(v)), known & (col != v)))
            continue
        for a, b in zip(vals[:-1], vals[1:]):
            a64, b64 = float(a), float(b)
            if j not in ordinal and b64 - a64 <= 1.01 * EPS * max(1.0, abs(a64), abs(b64)):
                continue
            result.append(((j, '<=', a64), known & (col <= a)))
            result.append(((j, '>', a64), known & (col > a)))
    return result


class Search:

    def __init__(self, case, y):
        c = case['config']
        self.loss, self.kind, self.y = c['loss'], case['kind'], y
        self.l1, self.l2 = c.get('l1_regularization_weight', 0.0), c.get('l2_regularization_weight', 1.0)
        self.dec = B.is_decomposable(self.loss)
        self.head, self.opts = parse_value(c.get('head_type'))
        self.binning = B.label_binning_options(c) if self.kind == 'bc' else None

    def heads(self, g, h):
        """-> qualities of the possible heads for the given sums of statistics (several in case of ties), None: unclear"""
        n = len(g)
        if self.head == 'complete':
            res = B.complete_head(self.loss, g, h, self.l1, self.l2, None if self.dec else self.binning)
            return None if res is None else [res[1]]
        d = h if self.dec else np.diag(h)
        s = B.scores_decomposable(g, d, self.l1, self.l2)
        q = B.quality_decomposable(s, g, d, self.l1, self.l2)
        a = np.abs(s)
        tol = 1e-9 * (1 + a.max())
        if self.head == 'single':
            return q[a >= a.max() - tol].tolist()
        if self.head == 'partial-fixed':
            k = B.bounded_fraction(n, float(self.opts.get('output_ratio', 0.0)), int(self.opts.get('min_outputs', 2)),
                                   int(self.opts.get('max_outputs', 0)))
            return None  # not modelled
        return None

    def quality(self, g, h, idx):
        """The quality of a rule that predicts for the given outputs."""
        if self.dec or self.head == 'single':
            d = (h if self.dec else np.diag(h))[idx]
            s = B.scores_decomposable(g[idx], d, self.l1, self.l2)
            return float(B.quality_decomposable(s, g[idx], d, self.l1, self.l2).sum())
        res = B.complete_head(self.loss, g[idx], h[np.ix_(idx, idx)], self.l1, self.l2, self.binning)
        return None if res is None else res[1]


def check(case):
    check_domain(case)
    gen.require_valid(case)
    gen.require_reliable_training(case)
    config, kind = case['config'], case['kind']
    if 'max_rules' not in config:
        raise Skip('no limit')
    for name in ('instance_sampling', 'feature_sampling', 'output_sampling', 'holdout', 'global_pruning', 'sequential_post_optimization'):
        if config.get(name) not in (('none',) if name.endswith('sampling') else (None, 'none', 'false')):
            raise Skip('not modelled')
    if kind == 'br' and config['loss'] != 'squared-error-decomposable':
        raise Skip('known finding')
    x, y = x_of(case), y_of(case)
    s = Search(case, y)
    if s.head is None or (s.head.startswith('partial') and (not s.dec or s.binning is not None)):
        raise Skip('not modelled')
    learner = fit(case, x=as_format(x, case['fmt']), y=y)
    rules = rules_of(learner.model_)
    n, num = y.shape
    _, opts = parse_value(config.get('rule_induction'))
    max_conditions = int(opts.get('max_conditions', 0))
    refinements = int(opts.get('max_head_refinements', 1))
    min_cov = int(opts.get('min_coverage', 1))
    support = float(opts.get('min_support', 0.0))
    min_cov = B.bounded_fraction(n, support, min_cov, n) if support > 0 else min(n, min_cov)
    nominal, ordinal = set(case['nominal']), set(case['ordinal'])
    p = np.zeros((n, num))
    judged = deeper = 0
    everything = np.ones(n, dtype=bool)
    for k, rule in enumerate(rules):
        c = covers(rule, x)
        idx = rule.outputs(num)
        if rule.conds:
            if B.ill_conditioned(s.loss, p, y, kind) or np.abs(p).max() > 1e6:
                break
            g, h = B.derivatives(s.loss, p, y, kind)
            if int(c.sum()) < min_cov:
                fail('rule %d covers %d examples, but at least %d are required: %s', k, int(c.sum()), min_cov, rule)
            if max_conditions and len(rule.conds) > max_conditions:
                fail('rule %d has %d conditions, at most %d are allowed', k, len(rule.conds), max_conditions)
            own = s.quality(g[c].sum(axis=0), h[c].sum(axis=0), idx)
            if own is None:
                break
            scale = 1e-7 * (1 + np.abs(g).sum())

            def compare(cands, what, fixed=None):
                count = 0
                for cond, m in cands:
                    if int(m.sum()) < min_cov:
                        continue
                    gs, hs = g[m].sum(axis=0), h[m].sum(axis=0)
                    qs = s.heads(gs, hs) if fixed is None else [s.quality(gs, hs, fixed)]
                    if qs is None or qs[0] is None:
                        continue
                    count += 1
                    if max(qs) < own - scale:
                        fail('rule %d has quality %s, but %s %s results in a quality of %s: %s', k, own, what, cond, max(qs), rule)
                return count

            used = {f for _, f, _ in rule.conds}
            judged += compare(candidates(x, everything, nominal, ordinal), 'a single condition') > 1
            if not (max_conditions and len(rule.conds) >= max_conditions) and int(c.sum()) > min_cov \
                    and (refinements == 0 or len(rule.conds) >= refinements):
                deeper += compare([e for e in candidates(x, c, nominal, ordinal) if e[0][0] not in used], 'adding the condition', None if refinements == 0 else idx) > 0
        p[np.ix_(c, idx)] += rule.scores
    else:
        if len(rules) < config['max_rules'] and not B.ill_conditioned(s.loss, p, y, kind) and np.abs(p).max() < 1e6:
            g, h = B.derivatives(s.loss, p, y, kind)
            scale = 1e-7 * (1 + np.abs(g).sum())
            for cond, m in candidates(x, everything, nominal, ordinal):
                qs = s.heads(g[m].sum(axis=0), h[m].sum(axis=0)) if m.sum() >= min_cov else None
                if qs is not None and max(qs) < -scale:
                    fail('only %d instead of %d rules have been learned, although a condition like %s results in a quality of %s',
                         len(rules), config['max_rules'], cond, max(qs))
    return dict(nontrivial=judged > 0,
                tags=dict(loss=s.loss, head=s.head, fmt=case['fmt'], judged=judged, deeper=deeper > 0, refinements=refinements,
                          min_cov=min_cov, max_conditions=max_conditions, cat=bool(nominal or ordinal)))
