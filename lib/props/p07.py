"""The head of a rule minimises the regularised objective over the examples the rule covers."""
from core import *
import boostref as B
import gen


def generate(r):
    kind = r.choice(['bc', 'bc', 'br'])
    config = gen.boosting_config(r, kind, max_rules=8, sampling=0.3, wild=False)
    if kind == 'br':
        config['loss'] = 'squared-error-decomposable'
    if not B.is_decomposable(config['loss']):
        config['head_type'] = r.choice(['single', 'complete'])
        if kind == 'bc':
            config['label_binning'] = gen.pick(r, [(2, 'none'), (2, gen.label_binning(r)), (1, 'auto')])
    elif kind == 'bc' and config.get('head_type', '').startswith('partial'):
        config['label_binning'] = 'none'
    dup = r.random() < 0.4 and 'instance_sampling' not in config
    ds = gen.dataset(r, kind, max_n=20, max_d=4, max_l=4, p_nan=0.4, p_cat=0.4, kinds=None if dup else gen.NEG_KINDS)
    if dup:
        ds['x'] = ds['x'] + ds['x']
        ds['y'] = ds['y'] + (gen.targets if kind == 'br' else gen.labels)(r, ds['x'][:len(ds['y'])], len(ds['y']), len(ds['x'][0]), len(ds['y'][0]))
    return gen.make_reliable(r, dict(kind=kind, config=config, fmt='C' if dup else r.choice(['C', 'F', 'csr', 'csc']),
                                     sparse_y=r.random() < 0.3, **ds))


def check(case):
    check_domain(case)
    gen.require_valid(case)
    gen.require_reliable_training(case)
    config, kind = case['config'], case['kind']
    loss = config['loss']
    if kind == 'br' and loss != 'squared-error-decomposable' and not case.get('known'):
        raise Skip('known finding')
    x, y = x_of(case), y_of(case)
    learner = fit(case, x=as_format(x, case['fmt']), y=y)
    rules = rules_of(learner.model_)
    n, num = y.shape
    l1, l2 = config.get('l1_regularization_weight', 0.0), config.get('l2_regularization_weight', 1.0)
    shrinkage = config.get('shrinkage', 0.3)
    dec = B.is_decomposable(loss)
    head, _ = parse_value(config.get('head_type'))
    single = head == 'single'
    partial = bool(head) and head.startswith('partial')
    binning = B.label_binning_options(config) if kind == 'bc' else None
    if partial and (not dec or binning is not None):
        raise Skip('not modelled')
    p = np.zeros((n, num))
    checked = 0
    mag = 1.0
    for k, rule in enumerate(rules):
        c = covers(rule, x)
        idx = rule.outputs(num)
        if len(set(idx.tolist())) != len(idx) or len(idx) == 0 or min(idx) < 0 or max(idx) >= num:
            fail('rule %d predicts for outputs %s', k, idx)
        if not c.any():
            fail('rule %d does not cover any of the examples it has been learned from: %s', k, rule)
        if B.ill_conditioned(loss, p, y, kind):
            break
        g, h = B.derivatives(loss, p, y, kind)
        default = not rule.conds
        if dec:
            gs, hs = g[c][:, idx].sum(axis=0), h[c][:, idx].sum(axis=0)
            if default and binning is not None:
                res = B.complete_head(loss, gs, hs, l1, l2, binning)
            else:
                res = B.complete_head(loss, gs, hs, l1, l2, None)
        else:
            hh = h[c].sum(axis=0)
            gs = g[c].sum(axis=0)
            if single and not default:
                res = (B.scores_decomposable(gs[idx], np.diag(hh)[idx], l1, l2), 0)
            else:
                if l2 < 1e-6:
                    raise Skip('ill-conditioned')
                res = B.complete_head(loss, gs[idx], hh[np.ix_(idx, idx)], l1, l2, binning)
        if res is None:
            break  # the assignment to bins is determined by rounding errors
        s = res[0]
        expected = s if default else s * shrinkage
        scale = 1 + np.abs(gs).max()
        if not close(rule.scores, expected, 1e-6, 1e-9 * scale):
            fail('rule %d predicts %s, but %s is optimal for the %d examples it covers: %s', k, rule.scores.tolist(),
                 expected.tolist(), int(c.sum()), rule)
        if gen.uses_irep(case) and len(rule.conds) > 1:
            break  # known finding F10
        p[np.ix_(c, idx)] += rule.scores
        mag = max(mag, float(np.abs(p).max()))
        if mag > 1e6:
            break
        checked += not default
    return dict(nontrivial=checked > 0,
                tags=dict(loss=loss, head=config.get('head_type', 'auto').split('{')[0], fmt=case['fmt'], rules=checked,
                          sampling=config.get('instance_sampling', 'none').split('{')[0],
                          binning=binning is not None, l1=l1 > 0, statistics=config.get('statistic_format', 'auto')))
