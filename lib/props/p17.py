"""Data sets are loaded, saved, encoded and split without altering them."""
import os
import shutil
import tempfile

from core import *
import random
import tbed as T


def generate(r):
    n, d, m = r.randint(1, 9), r.randint(1, 4), r.randint(1, 4)
    mode = r.choice(['load', 'load', 'save', 'split', 'split', 'split'])
    regression = mode != 'save' and r.random() < 0.2
    if mode == 'split':
        n = r.randint(4, 14)
    names = r.sample(T.NAMES, d + m)
    types = [r.choice(['numeric', 'real', 'integer', 'nominal']) for _ in range(d)]
    if mode == 'save':
        types = ['nominal' if t == 'nominal' else 'numeric' for t in types]
    values = [v for v in T.VALUES if mode != 'save' or '{' not in v]  # liac-arff does not quote braces
    nominal = [r.sample(values, r.randint(1, 4)) if t == 'nominal' else None for t in types]
    sparse = r.random() < 0.5
    x = [[T.cell(r, types[j], nominal[j], 0.6 if sparse else 0.2) for j in range(d)] for _ in range(n)]
    if regression:
        y = [[T.number(r) if mode == 'load' else r.randint(0, 255) for _ in range(m)] for _ in range(n)]
    else:
        y = [[int(r.random() < 0.4) for _ in range(m)] for _ in range(n)]
    if not sparse:  # F16
        x = [[0 if v is None else v for v in row] for row in x]
    for _ in range(r.choice([0, 0, 1])):  # a column without values
        j = r.randrange(d + m)
        for row in range(n):
            if j < d:
                x[row][j] = 0
            elif not regression:
                y[row][j - d] = 0
    for _ in range(r.choice([0, 0, 1, 2])):  # trailing rows without values
        i = n - 1
        while i > 0 and not any(x[i]) and not any(y[i]):
            i -= 1
        x[i], y[i] = [0] * d, [0] * m
    case = dict(mode=mode, names=names, types=types, nominal=nominal, x=x, y=y, regression=regression, sparse=sparse,
                start=r.random() < 0.4, xml=r.random() < 0.6, xml_order=r.randrange(1000) if r.random() < 0.3 else 0,
                style=r.randrange(1 << 30), zeros=r.choice([0, 0, 0.5]))
    if mode == 'split':
        case.update(split=r.choice(['none', 'train-test', 'train-test', 'cv', 'cv', 'cv', 'given-train-test', 'given-cv']),
                    test_size=r.choice([0.1, 0.25, 0.33, 0.5, 0.66, 0.9]), folds=r.randint(2, 4), seed=r.randint(1, 5),
                    one_hot=r.random() < 0.4, parts=[r.randint(1, 4) for _ in range(4)], missing=r.random() < 0.1)
    return case


def table(case):
    x = np.array([[math.nan if v is None else v for v in row] for row in case['x']], dtype=np.float64).astype(np.float32)
    y = np.array(case['y'], dtype=np.float32)
    return x.astype(np.float64), y.astype(np.float64)


def same(what, actual, expected):
    a = dense(actual).astype(np.float64)
    if a.shape != expected.shape:
        fail('%s: shape %s, but %s in the file', what, a.shape, expected.shape)
    if not np.array_equal(a, expected, equal_nan=True):
        fail('%s differ from the file: %s, expected %s', what, a.tolist(), expected.tolist())


def check_meta(meta, case):
    d, m = len(case['types']), len(case['y'][0])
    names = case['names']
    kinds = {'numeric': 'NUMERICAL', 'real': 'NUMERICAL', 'integer': 'ORDINAL', 'nominal': 'NOMINAL'}
    actual = [(f.name, f.feature_type.name, f.nominal_values) for f in meta.features]
    expected = [(names[j], kinds[t], case['nominal'][j]) for j, t in enumerate(case['types'])]
    if actual != expected:
        fail('features %s, expected %s', actual, expected)
    actual = [o.name for o in meta.outputs]
    if actual != names[d:d + m]:
        fail('outputs %s, expected %s', actual, names[d:d + m])
    if meta.outputs_at_start != case['start']:
        fail('outputs are located at the start: %s, expected %s', meta.outputs_at_start, case['start'])
    for t in set(kinds.values()):
        idx = [j for j, k in enumerate(case['types']) if kinds[k] == t]
        k = T.D.FeatureType[t]
        if meta.get_feature_indices({k}) != idx or meta.get_num_features({k}) != len(idx):
            fail('features of type %s: %s (%s), expected %s', t, meta.get_feature_indices({k}), meta.get_num_features({k}), idx)


def check_load(case, path):
    x, y = table(case)
    T.write(case, path, 'data')
    kwargs = dict(output_dtype=np.float32) if case['regression'] else {}
    lx, ly, meta = T.D.load_data_set_and_meta_data(path, 'data.arff', 'data.xml', **kwargs)
    same('features', lx, x)
    same('outputs', ly, y)
    check_meta(meta, case)
    lx, ly = T.D.load_data_set(path, 'data.arff', meta, **kwargs)
    same('features that are loaded given the meta-data', lx, x)
    same('outputs that are loaded given the meta-data', ly, y)


def check_save(case, path):
    x, y = table(case)
    m = y.shape[1]
    style = random.Random(case['style'])
    simple = style.random() < 0.4 and not any(case['nominal'])
    sx = as_sparse(x, style.choice(['csr', 'csc', 'lil', 'coo'])) if case['sparse'] else x
    sy = y if style.random() < 0.5 else y.astype(np.uint8)
    sy = as_sparse(sy, style.choice(['csr', 'csc', 'lil'])) if case['sparse'] else sy
    if simple:
        meta = T.D.save_data_set_and_meta_data(path, 's.arff', 's.xml', sx, sy)
        if len(meta.features) != x.shape[1] or len(meta.outputs) != m:
            fail('%d features and %d outputs have been saved instead of %s', len(meta.features), len(meta.outputs), (x.shape, m))
    else:
        d = x.shape[1]
        kinds = T.D.FeatureType
        meta = T.D.MetaData([T.D.Feature(case['names'][j], kinds.NOMINAL if v else kinds.NUMERICAL, v)
                             for j, v in enumerate(case['nominal'])],
                            [T.D.Output(name) for name in case['names'][d:d + m]], case['start'])
        T.D.save_arff_file(path, 's.arff', sx, sy, meta)
        if case['xml']:
            T.D.save_meta_data(path, 's.xml', meta)
    lx, ly, loaded = T.D.load_data_set_and_meta_data(path, 's.arff', 's.xml')
    same('features that have been saved', lx, x)
    same('outputs that have been saved', ly, y)
    for what in ('features', 'outputs'):
        a, b = ([(f.name, f.feature_type, f.nominal_values) for f in getattr(v, what)] for v in (loaded, meta))
        if a != b:
            fail('%s %s have been loaded, but %s saved', what, a, b)
    if loaded.outputs_at_start != meta.outputs_at_start:
        fail('the location of the outputs changes when saving and loading')


def encode(case, x, fitted):
    """One-hot encoding: a column per nominal value that is present in `fitted`, followed by the remaining columns."""
    cols = []
    for j, v in enumerate(case['nominal']):
        if v is not None:
            for c in sorted(set(fitted[:, j])):
                cols.append((x[:, j] == c).astype(np.float64))
    cols += [x[:, j] for j, v in enumerate(case['nominal']) if v is None]
    return np.array(cols).T.reshape(len(x), len(cols))


def check_split(case, path):
    x, y = table(case)
    if case['one_hot'] and any(np.isnan(x[:, j]).any() for j, v in enumerate(case['nominal']) if v is not None):
        raise Skip('missing nominal values')
    split, n, folds = case['split'], len(x), case['folds']
    parts = None
    if split.startswith('given'):
        k = 2 if split == 'given-train-test' else folds
        bounds = np.cumsum([0] + case['parts'][:k - 1])
        bounds = [min(int(b), n - k + i) for i, b in enumerate(bounds)] + [n]
        if any(b <= a for a, b in zip(bounds, bounds[1:])):
            raise Skip('too few examples')
        parts = [list(range(a, b)) for a, b in zip(bounds, bounds[1:])]
        for i, part in enumerate(parts):
            name = ('data_training', 'data_test')[i] if split == 'given-train-test' else 'data_fold-%d' % (i + 1)
            T.write(dict(case, x=[case['x'][i] for i in part], y=[case['y'][i] for i in part]), path, name, xml='data')
    else:
        if folds > n and split == 'cv':
            raise Skip('too few examples')
        if split == 'train-test' and math.ceil(n * case['test_size']) >= n:
            raise Skip('no training examples')
        T.write(case, path, 'data')
    fitted = x if parts is None else x[parts[0]]
    full = encode(case, x, fitted) if case['one_hot'] and any(case['nominal']) else x
    rows = np.hstack([full, y])

    def find(fx, fy, what):
        """-> a list of the rows"""
        a = np.hstack([dense(fx).astype(np.float64), dense(fy).astype(np.float64)]) if fx.shape[0] == fy.shape[0] else None
        if a is None or a.shape[1] != rows.shape[1]:
            fail('%s: matrices of shape %s and %s, given %d examples with %d columns', what, fx.shape, fy.shape, n, rows.shape[1])
        return [repr(v) for v in a.tolist()]

    everything = [repr(v) for v in rows.tolist()]
    cls = 'cv' if split in ('cv', 'given-cv') else split
    runs = T.split(cls, path, case)
    if case['missing'] and split.startswith('given') and parts and len(parts) > 1:
        os.unlink(os.path.join(path, 'data_test.arff' if split == 'given-train-test' else 'data_fold-%d.arff' % folds))
        try:
            T.split(cls, path, case)
        except IOError:
            pass
        else:
            fail('incomplete files are used without an error')
        return
    seen = [(i, find(r['train_x'], r['train_y'], 'training data'), find(r['test_x'], r['test_y'], 'test data'))
            for i, r in enumerate(runs)]
    expected_runs = folds if cls == 'cv' else 1
    if len(runs) != expected_runs:
        fail('%d models are trained instead of %d', len(runs), expected_runs)
    for i, train, test in seen:
        s = runs[i]['split']
        last = i == len(runs) - 1
        info = (s.get_num_folds(), s.get_fold(), s.is_last_fold(), s.is_train_test_separated(), s.is_cross_validation_used())
        expected = (expected_runs, i if cls == 'cv' else None, last, split != 'none', cls == 'cv')
        if info != expected:
            fail('split %d of %s is described as %s, expected %s', i, split, info, expected)
        if split == 'none':
            if train != everything or test != everything:
                fail('training and test data differ from the data set without a split')
            continue
        if sorted(train + test) != sorted(everything):
            fail('training (%d) and test data (%d) are no partition of the %d examples in split %d', len(train), len(test), n, i)
        if parts is not None:
            t = parts[1] if cls != 'cv' else parts[i]
            o = parts[0] if cls != 'cv' else [v for k, p in enumerate(parts) if k != i for v in p]
            if test != [everything[v] for v in t] or train != [everything[v] for v in o]:
                fail('split %d does not correspond to the given files', i)
        elif cls == 'cv' and not n // folds <= len(test) <= -(-n // folds):
            fail('fold %d consists of %d out of %d examples', i, len(test), n)
        elif cls == 'train-test' and abs(len(test) - n * case['test_size']) >= 1:
            fail('%d of %d examples are used for testing, given a fraction of %s', len(test), n, case['test_size'])
    if cls == 'cv' and sorted(v for _, _, test in seen for v in test) != sorted(everything):
        fail('the test sets of all folds are no partition of the examples')
    if cls == 'cv':
        fold = case['style'] % folds
        single = T.split(cls, path, case, fold)
        if len(single) != 1 or single[0]['split'].get_fold() != fold or find(single[0]['train_x'], single[0]['train_y'], '') != \
                seen[fold][1] or find(single[0]['test_x'], single[0]['test_y'], '') != seen[fold][2]:
            fail('running fold %d on its own differs from running all folds', fold)
        if single[0]['split'].is_last_fold():
            fail('a single fold is treated as the last one of all folds')
    again = T.split(cls, path, case)
    if [find(r['train_x'], r['train_y'], '') for r in again] != [t for _, t, _ in seen]:
        fail('the split is not reproducible')
    for r in runs:
        meta = r['meta']
        if case['one_hot'] and any(case['nominal']):
            if meta.features:
                fail('features are described that have been removed by one-hot encoding')
        else:
            check_meta(meta, case)


def check(case):
    d = len(case['types'])
    if not case['x'] or not case['y'] or any(len(r) != d for r in case['x']) or len({len(r) for r in case['y']}) != 1 or not case['y'][0] \
            or len(case['x']) != len(case['y']) or not case['regression'] and any(v not in (0, 1) for r in case['y'] for v in r):
        raise Skip('invalid')
    if not case['sparse'] and not case.get('known') and any(v is None for row in case['x'] for v in row):
        raise Skip('F16')
    if case['mode'] == 'split' and case['regression'] and not case.get('known') and any(v not in range(256) for row in case['y'] for v in row):
        raise Skip('F15')
    for j, v in enumerate(case['nominal']):
        for row in case['x']:
            if v is not None and row[j] is not None and (row[j] not in range(len(v))):
                raise Skip('invalid')
    path = tempfile.mkdtemp(prefix='p17-')
    try:
        dict(load=check_load, save=check_save, split=check_split)[case['mode']](case, path)
    finally:
        shutil.rmtree(path, ignore_errors=True)
    return dict(nontrivial=len(case['x']) > 1 and any(any(r) for r in case['x']),
                tags=dict(mode=case['mode'], split=case.get('split', '-'), sparse=case['sparse'], start=case['start'], xml=case['xml'],
                          regression=case['regression'], one_hot=case.get('one_hot', False)))


def shrink_candidates(case):
    n, d, m = len(case['x']), len(case['types']), len(case['y'][0])
    for i in range(n):
        yield dict(case, x=case['x'][:i] + case['x'][i + 1:], y=case['y'][:i] + case['y'][i + 1:])
    for j in range(d):
        if d > 1:
            cut = lambda v: v[:j] + v[j + 1:]
            yield dict(case, x=[cut(r) for r in case['x']], types=cut(case['types']), nominal=cut(case['nominal']), names=cut(case['names']))
    for j in range(m):
        if m > 1:
            cut = lambda v: v[:j] + v[j + 1:]
            yield dict(case, y=[cut(r) for r in case['y']], names=case['names'][:d + j] + case['names'][d + j + 1:])
    for i in range(n):
        for j in range(d):
            if case['x'][i][j]:
                yield dict(case, x=[[0 if (a, b) == (i, j) else v for b, v in enumerate(r)] for a, r in enumerate(case['x'])])
        for j in range(m):
            if case['y'][i][j]:
                yield dict(case, y=[[0 if (a, b) == (i, j) else v for b, v in enumerate(r)] for a, r in enumerate(case['y'])])
    for k in ('sparse', 'start', 'one_hot', 'missing', 'xml_order', 'style'):
        if case.get(k):
            yield dict(case, **{k: type(case[k])(0)})
