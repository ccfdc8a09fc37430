"""Reference implementation of the boosting objective: losses, optimal scores and qualities (plain numpy)."""
import math

import numpy as np

from core import parse_value


def expected_scores(y, kind):
    y = np.asarray(y, dtype=np.float64)
    return y if kind == 'br' else np.where(y > 0, 1.0, -1.0)


def is_decomposable(loss):
    return not loss.endswith('non-decomposable')


def derivatives(loss, p, y, kind):
    """-> gradients (n, L) and Hessians: (n, L) if the loss is decomposable, (n, L, L) otherwise"""
    n, num = p.shape
    e = expected_scores(y, kind)
    if loss == 'logistic-decomposable':
        s = 1 / (1 + np.exp(-p))
        return s - (e > 0), s * (1 - s)
    if loss == 'squared-error-decomposable':
        return p - e, np.ones_like(p)
    if loss == 'squared-hinge-decomposable':
        g = np.where(e > 0, np.where(p < 1, p - 1, 0.0), np.where(p > 0, p, 0.0))
        return g, np.ones_like(p)
    if loss == 'logistic-non-decomposable':
        x = -e * p
        m = np.maximum(x.max(axis=1, keepdims=True), 0)
        z = np.exp(-m) + np.exp(x - m).sum(axis=1, keepdims=True)
        t = np.exp(x - m) / z
        g = -e * t
        h = -np.einsum('ni,nj->nij', e * t, e * t)
        idx = np.arange(num)
        h[:, idx, idx] = t * (1 - t)
        return g, h
    if loss == 'squared-error-non-decomposable':
        d = p - e
    else:  # squared-hinge-non-decomposable
        d = np.where(e > 0, np.where(p < 1, p - 1, 0.0), np.where(p > 0, p, 0.0))
    dd = (d * d).sum(axis=1, keepdims=True)
    with np.errstate(divide='ignore', invalid='ignore'):
        g = np.where(dd > 0, d / np.sqrt(dd), 0.0)
        h = -np.einsum('ni,nj->nij', d, d) / np.power(dd, 1.5)[:, :, None]
        idx = np.arange(num)
        h[:, idx, idx] = (dd - d * d) / np.power(dd, 1.5)
    h[~(dd[:, 0] > 0)] = 0
    if loss == 'squared-hinge-non-decomposable':
        # the second derivative of labels that do not contribute to the loss is substituted by one
        satisfied = np.where(e > 0, p >= 1, p <= 0)
        diag = h[:, idx, idx]
        diag[satisfied] = 1.0
        h[:, idx, idx] = diag
    return g, h


def evaluate(loss, p, y, kind):
    """The value of the loss for each example."""
    e = expected_scores(y, kind)
    if loss == 'logistic-decomposable':
        return np.logaddexp(0, -e * p).mean(axis=1)
    if loss == 'squared-error-decomposable':
        return ((p - e) ** 2).mean(axis=1)
    if loss == 'squared-hinge-decomposable':
        d = np.where(e > 0, np.where(p < 1, p - 1, 0.0), np.where(p > 0, p, 0.0))
        return (d * d).mean(axis=1)
    if loss == 'logistic-non-decomposable':
        x = np.concatenate([np.zeros((p.shape[0], 1)), -e * p], axis=1)
        m = x.max(axis=1, keepdims=True)
        return (m + np.log(np.exp(x - m).sum(axis=1, keepdims=True)))[:, 0]
    if loss == 'squared-error-non-decomposable':
        d = p - e
    else:
        d = np.where(e > 0, np.where(p < 1, p - 1, 0.0), np.where(p > 0, p, 0.0))
    return np.sqrt((d * d).sum(axis=1))


def soft(v, l1):
    return np.sign(v) * np.maximum(np.abs(v) - l1, 0.0)


def scores_decomposable(g, h, l1, l2):
    num = soft(-g, l1)
    den = h + l2
    with np.errstate(divide='ignore', invalid='ignore'):
        return np.where(den != 0, num / den, 0.0)


def quality_decomposable(s, g, h, l1, l2):
    return g * s + 0.5 * h * s * s + l1 * np.abs(s) + 0.5 * l2 * s * s


def solve(g, h, l1, l2):
    """Minimiser of g's + 1/2 s'Hs + l2/2 |s|^2, the gradients being shrunk by the L1 weight."""
    a = h + l2 * np.eye(len(g))
    return np.linalg.solve(a, soft(-g, l1))


def quality_full(s, g, h, l1, l2):
    return float(g @ s + 0.5 * s @ h @ s + l1 * np.abs(s).sum() + 0.5 * l2 * (s * s).sum())


def bounded_fraction(n, fraction, lo, hi):
    k = int(math.ceil(np.float32(fraction) * n))
    lowest = min(lo, n)
    if k < lowest:
        return lowest
    return hi if hi >= lo and k > hi else k


def label_binning_options(config):
    """None if no label binning is used, otherwise (bin_ratio, min_bins, max_bins)"""
    name, opts = parse_value(config.get('label_binning'))
    if name == 'none':
        return None
    if name in (None, 'auto'):
        if is_decomposable(config['loss']):
            return None
        return 0.04, 1, 0
    return float(opts.get('bin_ratio', 0.04)), int(opts.get('min_bins', 1)), int(opts.get('max_bins', 0))


def bins_of(criteria, opts):
    """Equal-width bins, individually for negative and positive criteria; -1: no bin. Bins without labels are left out."""
    ratio, lo, hi = opts
    criteria = np.asarray(criteria, dtype=np.float64)
    result = np.full(len(criteria), -1)
    offset = 0
    scale = np.abs(criteria).max() if len(criteria) else 0.0
    ambiguous = bool(np.any((criteria != 0) & (np.abs(criteria) < 1e-8 * (1 + scale))))
    for mask in (criteria < 0, criteria > 0):
        k = int(mask.sum())
        if k == 0:
            continue
        num = bounded_fraction(k, ratio, lo, hi)
        v = criteria[mask]
        span = (v.max() - v.min()) / num
        if span > 0:
            pos = (v - v.min()) / span
            b = np.minimum(np.floor(pos).astype(int), num - 1)
            near = np.abs(pos - np.round(pos)) < 1e-6
            ambiguous = ambiguous or bool(np.any(near & (np.round(pos) > 0) & (np.round(pos) < num)))
            if span < 1e-9 * np.abs(v).max() and num > 1:
                ambiguous = True
        else:
            b = np.zeros(k, dtype=int)
            ambiguous = ambiguous or (k > 1 and num > 1)
        result[mask] = b + offset
        offset += num
    used = sorted(set(result[result >= 0].tolist()))
    remap = {b: i for i, b in enumerate(used)}
    return np.array([remap.get(int(b), -1) for b in result]), len(used), ambiguous


def complete_head(loss, g, h, l1, l2, binning):
    """Scores and quality of a head that predicts for all outputs the given statistics correspond to, or None if the
    assignment to bins hinges on rounding errors."""
    if is_decomposable(loss):
        if binning is None:
            s = scores_decomposable(g, h, l1, l2)
            return s, float(quality_decomposable(s, g, h, l1, l2).sum())
        if np.any(np.abs(np.abs(g) - l1) < 1e-8 * (1 + np.abs(g).max())):
            return None
        crit = scores_decomposable(g, h, l1, l2)
        b, num, ambiguous = bins_of(crit, binning)
        if ambiguous:
            return None
        s = np.zeros(len(g))
        q = 0.0
        for k in range(num):
            m = b == k
            w = int(m.sum())
            sk = scores_decomposable(g[m].sum(), h[m].sum(), w * l1, w * l2)
            s[m] = sk
            q += float(quality_decomposable(sk, g[m].sum(), h[m].sum(), w * l1, w * l2))
        return s, q
    if binning is not None and np.any(np.abs(np.abs(g) - l1) < 1e-8 * (1 + np.abs(g).max())):
        return None
    if binning is None:
        s = solve(g, h, l1, l2)
        return s, quality_full(s, g, h, l1, l2)
    crit = scores_decomposable(g, np.diag(h), l1, l2)
    b, num, ambiguous = bins_of(crit, binning)
    if ambiguous:
        return None
    if num == 0:
        return np.zeros(len(g)), 0.0
    gb = np.zeros(num)
    hb = np.zeros((num, num))
    w = np.zeros(num)
    for i in range(len(g)):
        if b[i] < 0:
            continue
        gb[b[i]] += g[i]
        w[b[i]] += 1
        hb[b[i], b[i]] += h[i, i]
        for j in range(len(g)):
            if b[j] >= 0 and b[j] != b[i]:
                hb[b[i], b[j]] += h[i, j]
    sb = np.linalg.solve(hb + np.diag(w * l2), soft(-gb, w * l1))
    q = float(gb @ sb + 0.5 * sb @ hb @ sb + l1 * (w * np.abs(sb)).sum() + 0.5 * l2 * (w * sb * sb).sum())
    return np.array([sb[k] if k >= 0 else 0.0 for k in b]), q


def ill_conditioned(loss, p, y, kind):
    """Whether the derivatives hinge on rounding errors, because the residuals of an example almost vanish."""
    if not loss.startswith('squared') or is_decomposable(loss):
        return False
    d = evaluate(loss, p, y, kind)
    return bool(np.any((d > 0) & (d < 1e-3)))


class Objective:
    """The objective that is optimised by a boosting learner with a certain configuration."""

    def __init__(self, config, kind):
        self.loss, self.kind = config['loss'], kind
        self.l1, self.l2 = config.get('l1_regularization_weight', 0.0), config.get('l2_regularization_weight', 1.0)
        self.shrinkage = config.get('shrinkage', 0.3)
        self.dec = is_decomposable(self.loss)
        self.head, self.opts = parse_value(config.get('head_type'))
        self.partial = bool(self.head) and self.head.startswith('partial')
        self.binning = label_binning_options(config) if kind == 'bc' else None
        self.modelled = not (self.partial and (not self.dec or self.binning is not None))

    def derivatives(self, p, y):
        return derivatives(self.loss, p, y, self.kind)

    def loss_of(self, p, y):
        return evaluate(self.loss, p, y, self.kind)

    def unstable(self, p, y):
        return ill_conditioned(self.loss, p, y, self.kind) or np.abs(p).max(initial=0.0) > 1e6

    def prediction(self, g, h, idx, default):
        """The scores that should be predicted for the outputs idx, given sums of gradients and Hessians, None: unclear"""
        if self.dec:
            res = complete_head(self.loss, g[idx], h[idx], self.l1, self.l2, self.binning if default else None)
        elif self.head == 'single' and not default:
            res = (scores_decomposable(g[idx], np.diag(h)[idx], self.l1, self.l2), 0)
        elif self.l2 < 1e-6:
            return None
        else:
            res = complete_head(self.loss, g[idx], h[np.ix_(idx, idx)], self.l1, self.l2, self.binning)
        if res is None:
            return None
        return res[0] if default else res[0] * self.shrinkage
