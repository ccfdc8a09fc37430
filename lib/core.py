"""Access to the code under test through its public Python API, and the reference semantics of rules."""
import json
import logging
import math
import os

import numpy as np
import scipy.sparse as sp

logging.disable(logging.CRITICAL)

from mlrl.boosting.boosting_learners import BoomerClassifier, BoomerRegressor  # noqa: E402
from mlrl.seco.seco_learners import SeCoClassifier  # noqa: E402
from mlrl.common.cython.rule_model import RuleModelVisitor  # noqa: E402

LEARNERS = {'bc': BoomerClassifier, 'br': BoomerRegressor, 'sc': SeCoClassifier}


class Violation(Exception):
    """The property does not hold for the given case."""


class Skip(Exception):
    """The case does not exercise the property (counted as trivial)."""


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


# ---------------------------------------------------------------------------------------------------------------- data


def arr(x, dtype=np.float64):
    """JSON list (null = NaN) -> array"""
    return np.array([[math.nan if v is None else v for v in row] for row in x], dtype=dtype)


def to_list(a):
    return [[None if (isinstance(v, float) and math.isnan(v)) else v for v in row] for row in np.asarray(a).tolist()]


FORMATS_DENSE = ['C', 'F', 'list']
FORMATS_SPARSE = ['csr', 'csc', 'lil', 'coo', 'dok', 'csr_matrix', 'csc_matrix']


def as_sparse(a, fmt, sparse_value=0.0, explicit=None):
    """Builds a scipy sparse matrix that leaves out the elements equal to `sparse_value`, except for those marked in the
    boolean array `explicit`, which are stored explicitly."""
    a = np.asarray(a)
    mask = ~(a == sparse_value)
    if explicit is not None:
        mask |= explicit
    r, c = np.nonzero(mask)
    data = a[r, c]
    if fmt == 'coo':
        return sp.coo_array((data, (r, c)), shape=a.shape)
    if fmt in ('csr', 'csr_matrix'):
        indptr = np.concatenate(([0], np.cumsum(mask.sum(axis=1))))
        return (sp.csr_matrix if fmt == 'csr_matrix' else sp.csr_array)((data, c, indptr), shape=a.shape)
    if fmt in ('csc', 'csc_matrix'):
        c2, r2 = np.nonzero(mask.T)
        indptr = np.concatenate(([0], np.cumsum(mask.sum(axis=0))))
        return (sp.csc_matrix if fmt == 'csc_matrix' else sp.csc_array)((a[r2, c2], r2, indptr), shape=a.shape)
    if fmt == 'lil':
        m = sp.lil_array(a.shape, dtype=a.dtype)
        m.rows = np.array([None] * a.shape[0], dtype=object)
        m.data = np.array([None] * a.shape[0], dtype=object)
        for i in range(a.shape[0]):
            cols = np.nonzero(mask[i])[0]
            m.rows[i] = [int(j) for j in cols]
            m.data[i] = [a[i, j].item() for j in cols]
        return m
    if fmt == 'dok':
        if bool((mask & (a == 0)).any()):
            # scipy drops explicit zeros when items are set
            return as_sparse(a, 'coo', sparse_value, explicit)
        m = sp.dok_array(a.shape, dtype=a.dtype)
        for i, j, v in zip(r, c, data):
            m[int(i), int(j)] = v
        return m
    raise ValueError(fmt)


def as_format(a, fmt, sparse_value=0.0, explicit=None):
    if fmt == 'C':
        return np.ascontiguousarray(a)
    if fmt == 'F':
        return np.asfortranarray(a)
    if fmt == 'list':
        return np.asarray(a).tolist()
    return as_sparse(a, fmt, sparse_value, explicit)


def make(kind, config=None, nominal=None, ordinal=None, **extra):
    kwargs = dict(config or {})
    kwargs.update(extra)
    learner = LEARNERS[kind](**kwargs)
    if nominal:
        learner.set_nominal_feature_indices(sorted(nominal))
    if ordinal:
        learner.set_ordinal_feature_indices(sorted(ordinal))
    return learner


def dense(p):
    return p.toarray() if sp.issparse(p) else np.asarray(p)


# ---------------------------------------------------------------------------------------------------------------- rules


class Rule:
    __slots__ = ('conds', 'indices', 'scores')

    def __init__(self):
        self.conds = []  # [(op, feature, threshold)]; op in <=, >, o<=, o>, ==, !=
        self.indices = None  # None: complete head
        self.scores = None

    def outputs(self, num_outputs):
        return np.arange(num_outputs) if self.indices is None else self.indices

    def __repr__(self):
        body = ' & '.join(f'f{f} {op} {t!r}' for op, f, t in self.conds)
        head = 'complete' if self.indices is None else self.indices.tolist()
        return f'{{{body}}} => {head} {self.scores.tolist()}'

    def key(self):
        return (tuple(self.conds), None if self.indices is None else tuple(self.indices.tolist()),
                tuple(self.scores.tolist()))


class _Visitor(RuleModelVisitor):

    def __init__(self):
        self.rules = []
        self.rule = None

    def visit_empty_body(self, _):
        self.rule = Rule()

    def visit_conjunctive_body(self, body):
        rule = Rule()
        for op, prefix in (('<=', 'numerical_leq'), ('>', 'numerical_gr'), ('o<=', 'ordinal_leq'), ('o>', 'ordinal_gr'),
                           ('==', 'nominal_eq'), ('!=', 'nominal_neq')):
            idx = getattr(body, prefix + '_indices')
            if idx is not None:
                thr = getattr(body, prefix + '_thresholds')
                if len(idx) != len(thr):
                    fail('number of feature indices and thresholds of a body differ')
                rule.conds.extend((op, int(f), float(t) if op in ('<=', '>') else int(t)) for f, t in zip(idx, thr))
        self.rule = rule

    def visit_complete_head(self, head):
        self.rule.scores = np.array(head.scores, dtype=np.float64)
        self.rules.append(self.rule)

    def visit_partial_head(self, head):
        self.rule.scores = np.array(head.scores, dtype=np.float64)
        self.rule.indices = np.array(head.indices, dtype=np.int64)
        self.rules.append(self.rule)


def rules_of(model, used=True):
    visitor = _Visitor()
    if used:
        model.visit_used(visitor)
    else:
        model.visit(visitor)
    return visitor.rules


def cond_covers(cond, x):
    """Reference semantics of a condition for a column of float32 feature values: a missing value satisfies nothing."""
    op, _, t = cond
    ok = ~np.isnan(x)
    with np.errstate(invalid='ignore'):
        if op in ('<=', 'o<='):
            return ok & (x <= t)
        if op in ('>', 'o>'):
            return ok & (x > t)
        if op == '==':
            return ok & (x == t)
        return ok & (x != t)


def covers(rule, x32):
    result = np.ones(x32.shape[0], dtype=bool)
    for cond in rule.conds:
        result &= cond_covers(cond, x32[:, cond[1]])
    return result


def ref_scores(rules, x32, num_outputs):
    f = np.zeros((x32.shape[0], num_outputs))
    for rule in rules:
        c = covers(rule, x32)
        f[np.ix_(c, rule.outputs(num_outputs))] += rule.scores
    return f


def ref_decision_list(rules, x32, num_outputs):
    y = np.zeros((x32.shape[0], num_outputs), dtype=np.uint8)
    done = np.zeros((x32.shape[0], num_outputs), dtype=bool)
    for rule in rules:
        c = covers(rule, x32)
        for j, s in zip(rule.outputs(num_outputs), rule.scores):
            m = c & ~done[:, j]
            y[m, j] = s > 0
            done[m, j] = True
    return y


def same_rules(a, b):
    """None if the two lists of rules are identical, otherwise a description of the first difference."""
    if len(a) != len(b):
        return f'number of rules differs: {len(a)} vs. {len(b)}'
    for i, (r, s) in enumerate(zip(a, b)):
        if not same_rule(r, s):
            return f'rule {i} differs: {r} vs. {s}'
    return None


def same_rule(r, s):
    return (r.conds == s.conds and (r.indices is None) == (s.indices is None)
            and (r.indices is None or np.array_equal(r.indices, s.indices))
            and np.array_equal(r.scores, s.scores, equal_nan=True))


def parse_value(text):
    """'name{a=b,c=d}' -> (name, {a: b, c: d})"""
    if text is None:
        return None, {}
    name, _, rest = text.partition('{')
    opts = {}
    if rest:
        for item in rest.rstrip('}').split(','):
            if item:
                k, _, v = item.partition('=')
                opts[k] = v
    return name, opts


def value(name, **opts):
    opts = {k: v for k, v in opts.items() if v is not None}
    if not opts:
        return name
    return name + '{' + ','.join(f'{k}={str(v).lower() if isinstance(v, bool) else v}' for k, v in opts.items()) + '}'


# ----------------------------------------------------------------------------------------------------------- utilities


def x_of(case, key='x'):
    return arr(case[key], np.float32)


def y_of(case, kind=None):
    return arr(case['y'], np.float32 if (kind or case.get('kind')) == 'br' else np.uint8)


def fit(case, config=None, x=None, y=None, **extra):
    kind = case['kind']
    if case.get('sparse_y'):
        extra.setdefault('output_format', 'sparse')
    learner = make(kind, case['config'] if config is None else config, case.get('nominal'), case.get('ordinal'), **extra)
    x = x_of(case) if x is None else x
    y = y_of(case) if y is None else y
    if x.shape[0] < 1 or x.shape[1] < 1 or y.shape[1] < 1:
        raise Skip('empty')
    if case.get('sparse_y') and not sp.issparse(y):
        y = as_sparse(y, 'csr')
    learner.fit(x, y)
    return learner


def check_domain(case):
    """Shrinking may leave the domain of the generators."""
    for k in ('x', 'y', 'q'):
        m = case.get(k)
        if m is not None and (not m or not m[0] or any(len(r) != len(m[0]) for r in m)):
            raise Skip('empty matrix')


def close(a, b, rtol=1e-9, atol=1e-9):
    a, b = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
    if a.shape != b.shape:
        return False
    with np.errstate(invalid='ignore', over='ignore'):
        same = (a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b)))
    return bool(np.all(same))


def first_diff(a, b, rtol=1e-9, atol=1e-9):
    a, b = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
    if a.shape != b.shape:
        return f'shapes {a.shape} and {b.shape}'
    for idx in np.ndindex(a.shape):
        if not close(a[idx], b[idx], rtol, atol):
            return f'at {tuple(int(i) for i in idx)}: {a[idx]!r} vs. {b[idx]!r}'
    return 'equal'


def flat_abs(rules):
    return sum(float(np.abs(r.scores).sum()) for r in rules)


def attempt(f):
    """-> ('ok', value) or ('error', type name): predictions that are not supported by a configuration raise an error"""
    try:
        return 'ok', dense(f())
    except Exception as e:
        return 'error', type(e).__name__


def observe(learner, q, kind, **kwargs):
    """Everything that can be predicted for the given examples."""
    result = {'scores': attempt(lambda: learner.predict(q, predict_scores=True, **kwargs)),
              'predictions': attempt(lambda: learner.predict(q, **kwargs))}
    if kind != 'br':
        result['probabilities'] = attempt(lambda: learner.predict_proba(q, **kwargs))
    return result


def same_observations(a, b):
    for k in a:
        (sa, va), (sb, vb) = a[k], b[k]
        if sa != sb:
            return f'{k}: {sa} {va} vs. {sb} {vb}'
        if sa == 'ok':
            if va.shape != vb.shape or not np.array_equal(va, vb, equal_nan=True):
                return f'{k} differ {first_diff(va, vb, 0, 0)}'
        elif va != vb:
            return f'{k}: {va} vs. {vb}'
    return None


def shuffle_indices(m, seed):
    """The same CSR or CSC matrix, but with its elements stored in a different order."""
    rng = np.random.RandomState(seed)
    m = m.copy()
    for i in range(len(m.indptr) - 1):
        a, b = m.indptr[i], m.indptr[i + 1]
        p = rng.permutation(b - a)
        m.indices[a:b] = m.indices[a:b][p]
        m.data[a:b] = m.data[a:b][p]
    m.has_sorted_indices = False
    return m
