"""Generic delta debugging of cases (plain JSON values).

A case has a 'config' (dict of learner options), matrices given as lists of rows and scalar values.  A property module may
define ROWS (groups of keys whose rows belong together), COLS (groups of keys whose columns belong together) and KEEP
(keys that are not touched).
"""
import copy
import json


def size(case):
    return len(json.dumps(case))


def _drop_rows(case, keys, idx):
    c = copy.deepcopy(case)
    for k in keys:
        if isinstance(c.get(k), list):
            c[k] = [v for i, v in enumerate(c[k]) if i not in idx]
    return c


def _drop_col(case, keys, j, index_keys):
    c = copy.deepcopy(case)
    for k in keys:
        if isinstance(c.get(k), list):
            c[k] = [row[:j] + row[j + 1:] for row in c[k]]
    for k in index_keys:
        if isinstance(c.get(k), list):
            if all(isinstance(v, int) for v in c[k]):
                c[k] = [v - 1 if v > j else v for v in c[k] if v != j]
    return c


def candidates(case, mod):
    rows = getattr(mod, 'ROWS', [('x', 'y'), ('q',)])
    cols = getattr(mod, 'COLS', [('x', 'q'), ('y',)])
    keep = set(getattr(mod, 'KEEP', ()))
    for keys in rows:
        if not isinstance(case.get(keys[0]), list):
            continue
        n = len(case[keys[0]])
        chunk = n // 2
        while chunk >= 1:
            for s in range(0, n, chunk):
                if chunk < n or n > 1:
                    yield _drop_rows(case, keys, set(range(s, min(n, s + chunk))))
            chunk //= 2
    for keys in cols:
        if not (isinstance(case.get(keys[0]), list) and case[keys[0]] and isinstance(case[keys[0]][0], list)):
            continue
        d = len(case[keys[0]][0])
        if d > 1:
            for j in range(d):
                yield _drop_col(case, keys, j, ('nominal', 'ordinal') if 'x' in keys else ())
    for name in ('config', 'config2', 'options'):
        if isinstance(case.get(name), dict):
            for k in list(case[name]):
                if k in keep:
                    continue
                c = copy.deepcopy(case)
                del c[name][k]
                yield c
                v = case[name][k]
                if k == 'max_rules' and isinstance(v, int) and v > 1:
                    for nv in (1, v // 2, v - 1):
                        if nv >= 1 and nv != v:
                            c = copy.deepcopy(case)
                            c[name][k] = nv
                            yield c
                if isinstance(v, str) and '{' in v:
                    base, _, rest = v.partition('{')
                    items = rest.rstrip('}').split(',')
                    for i in range(len(items)):
                        left = items[:i] + items[i + 1:]
                        c = copy.deepcopy(case)
                        c[name][k] = base + ('{' + ','.join(left) + '}' if left else '')
                        yield c
    for k, v in case.items():
        if k in keep or k in ('config', 'x', 'y', 'q'):
            continue
        if isinstance(v, bool):
            if v:
                yield dict(copy.deepcopy(case), **{k: False})
        elif isinstance(v, int) and v > 1 and k not in ('seed',):
            for nv in (0, 1, v // 2, v - 1):
                if nv != v:
                    yield dict(copy.deepcopy(case), **{k: nv})
        elif isinstance(v, list) and len(v) > 1 and not any(k in g for g in rows) and not any(k in g for g in cols) \
                and k not in ('nominal', 'ordinal'):
            for i in range(len(v)):
                yield dict(copy.deepcopy(case), **{k: v[:i] + v[i + 1:]})
    for k in ('x', 'y', 'q'):
        m = case.get(k)
        if k in keep or not (isinstance(m, list) and m and isinstance(m[0], list)):
            continue
        if len(m) * len(m[0]) <= 60:
            for i, row in enumerate(m):
                for j, v in enumerate(row):
                    nvs = []
                    if v is None:
                        nvs = [0.0]
                    elif isinstance(v, float) and v != int(v) if abs(v or 0) < 1e9 else False:
                        nvs = [float(round(v)), round(v, 1)]
                    elif isinstance(v, (int, float)) and v not in (0, 1, -1, 0.0):
                        nvs = [type(v)(1), type(v)(0)]
                    for nv in nvs:
                        if nv != v:
                            c = copy.deepcopy(case)
                            c[k][i][j] = nv
                            yield c


def shrink(case, mod, fails, stop):
    """fails(case) -> bool; stop() -> True if out of time"""
    custom = getattr(mod, 'shrink_candidates', None)
    improved = True
    while improved and not stop():
        improved = False
        for c in (custom(case) if custom else candidates(case, mod)):
            if stop():
                break
            if size(c) >= size(case) and not _simpler(c, case):
                continue
            try:
                ok = fails(c)
            except Exception:
                ok = False
            if ok:
                case = c
                improved = True
                break
    return case


def _weight(v):
    if isinstance(v, dict):
        return sum(_weight(x) for x in v.values())
    if isinstance(v, list):
        return sum(_weight(x) for x in v)
    if isinstance(v, float):
        return len(repr(v)) + (v != 0)
    if v is None:
        return 6
    return len(str(v)) + (v not in (0, False))


def _simpler(a, b):
    return _weight(a) < _weight(b)
