"""Samples of examples, features and outputs, as well as holdout sets, have the configured sizes and do not favour any elements."""
import math
import subprocess

from core import *

KINDS = ['inst-with-replacement', 'inst-without-replacement', 'inst-output-wise', 'inst-example-wise', 'inst-no', 'part-random',
         'part-output-wise', 'part-example-wise', 'part-no', 'feat-without-replacement', 'feat-no', 'out-without-replacement',
         'out-round-robin', 'out-no', 'rng']
WEIGHTS = [4, 4, 5, 5, 1, 3, 4, 4, 1, 5, 1, 4, 1, 1, 1]
SIGMA = 7.0
SLACK = 1.0  # the maximum deviation of the size of a stratified sample, relative to the number of strata


def driver():
    import mlrl.common.cython.learner
    site = os.path.dirname(os.path.dirname(os.path.dirname(os.path.dirname(mlrl.common.cython.learner.__file__))))
    return os.path.join(os.path.dirname(site), 'bin', 'sampling')


def generate(r):
    kind = r.choices(KINDS, WEIGHTS)[0]
    if kind == 'rng':
        low = r.choice([0, 0, 3, 17])
        return dict(kind=kind, seed=r.randint(1, 2 ** 31), draws=r.choice([600, 3000]), n=low, m=r.choice([0, low + 1, low + 2, low + 3, low + 7, low + 16]))
    big = r.random() < 0.2
    n = r.randint(30, 400) if big else r.choice([1, 2, 2, 3, 4, 5, 6, 7, 8, 10, 13, 20])
    size = r.choice([0.01, 0.04, 0.05, 0.1, 0.2, 0.25, 0.33, 0.5, 0.5, 0.66, 0.66, 0.75, 0.9, 0.99, round(r.uniform(0.02, 0.98), 3)])
    low = r.choice([1, 1, 1, 2, 3, 5, 12])
    high = r.choice([0, 0, 0, low, low + 1, low + 4])
    case = dict(kind=kind, seed=r.randint(1, 2 ** 31), draws=r.choice([3, 3, 40, 600]), n=n, size=size, min=low, max=high)
    if kind.startswith('feat'):
        case['again'] = r.choice([0, 0, 1, 2])
        case['retained'] = r.choice([0, 0, 0, 1, 2, 3, n, n + 1])
        if r.random() < 0.3:
            case['size'] = 0
    if kind.startswith(('inst', 'part')):
        m = r.choice([1, 1, 2, 3, 5])
        p = [r.choice([0.05, 0.3, 0.5, 0.9]) for _ in range(m)]
        if r.random() < 0.5:
            vectors = [[int(r.random() < q) for q in p] for _ in range(r.randint(1, 4))]
            case['y'] = [list(r.choice(vectors)) for _ in range(n)]
        else:
            case['y'] = [[int(r.random() < q) for q in p] for _ in range(n)]
    if kind.startswith('part'):
        case['again'] = r.choice([0, 0, 1])
    if kind.startswith('inst') and n > 1 and r.random() < 0.4:
        case['first'] = r.sample(range(n), r.randint(1, n - 1))
    return case


def draw(case, sparse=0):
    first = case.get('first', [])
    m = case['m'] if case['kind'] == 'rng' else len(case['y'][0]) if case.get('y') else 0
    values = [case['kind'], case['seed'], case['draws'], case['n'], m, case.get('size', 0), case.get('min', 1), case.get('max', 0),
              case.get('retained', 0), sparse, case.get('again', 0), len(first)] + first + [v for row in case.get('y', []) for v in row]
    p = subprocess.run([driver()], input=' '.join(map(str, values)), capture_output=True, text=True, timeout=60)
    if p.returncode != 0:
        fail('drawing samples failed with exit status %d: %s', p.returncode, p.stderr[-200:])
    return [[int(v) for v in line.split()] for line in p.stdout.splitlines()]


def bounded(n, size, low, high):
    """The smallest and the largest number of elements a sample may contain"""
    def clamp(k):
        k = max(k, min(low, n))
        return min(k, high) if high > 0 else k
    exact = n * float(np.float32(size))
    return clamp(math.floor(exact + 1e-4)), clamp(math.ceil(exact))


def check_size(k, bounds, what, *args):
    if not bounds[0] <= k <= bounds[1]:
        fail(what + ' contains %d elements instead of %s', *args, k, ' to '.join(str(b) for b in dict.fromkeys(bounds)))


def check_frequencies(samples, elements, what, pairs=True):
    """All elements (and pairs of elements) must be drawn about as often, samples is a list of sets or counters"""
    d = len(samples)
    elements = list(elements)
    if d < 500 or len(elements) < 2 or len(elements) > 60:
        return False
    m = np.array([[s.get(e, 0) for e in elements] for s in samples], dtype=float)

    def compare(a, what):
        total = a.mean()
        sd = np.sqrt(max(((a - total) ** 2).mean(), 1.0 / d) / d)
        dev = np.abs(a.mean(axis=0) - total)
        if dev.max() > SIGMA * sd:
            j = int(dev.argmax())
            fail('%s: %d of %d draws contain the one at position %d, but %.1f are expected', what, int(a[:, j].sum()), d, j, total * d)

    compare(m, what)
    if pairs and 3 <= len(elements) <= 8:
        i, j = np.triu_indices(len(elements), 1)
        compare(m[:, i] * m[:, j], 'pairs of ' + what)
    return True


def strata_of(y, rows):
    """The strata that result from iterative stratification or None, if they depend on how ties are resolved"""
    rest = set(rows)
    strata = []
    m = len(y[0])
    done = set()
    while True:
        counts = {j: sum(y[i][j] for i in rest) for j in range(m) if j not in done}
        counts = {j: c for j, c in counts.items() if c > 0}
        if not counts:
            break
        low = min(counts.values())
        best = [j for j, c in counts.items() if c == low]
        sets = [frozenset(i for i in rest if y[i][j]) for j in best]
        if len(set(sets)) > 1:
            return None
        done.add(best[0])
        strata.append(sets[0])
        rest -= sets[0]
    if rest:
        strata.append(frozenset(rest))
    return strata


def check_strata(chosen, rows, y, kind, fraction, total, exact=False):
    """Each stratum must be sampled proportionally"""
    if kind == 'example-wise':
        groups = {}
        for i in rows:
            groups.setdefault(tuple(y[i]), set()).add(i)
        strata = list(groups.values())
    else:
        strata = strata_of(y, rows)
        if strata is None:
            return False
    chosen = set(chosen)
    slack = 1 if exact else 1 + SLACK * len(strata)  # whether the sizes of strata are rounded up or down depends on the remaining number of examples
    for s in strata:
        k = len(chosen & set(s))
        if abs(k - fraction * len(s)) > slack + 1e-3:
            fail('%d of the %d examples %s belong to a sample, although it consists of %d of the %d examples', k, len(s), sorted(s)[:8], total,
                 len(rows))
    return True


def check(case):
    kind, n = case['kind'], case['n']
    valid = case['seed'] >= 1 and case['draws'] >= 1
    if kind == 'rng':
        valid &= n >= 0 and (case['m'] > n or case['m'] == 0)
    else:
        valid &= n >= 1 and case['min'] >= 1 and (case['max'] == 0 or case['max'] >= case['min']) and case['size'] < 1
        valid &= (case['size'] > 0 or kind.startswith('feat')) and case.get('retained', 0) >= 0
        valid &= all(0 <= i < n for i in case.get('first', [])) and len(set(case.get('first', []))) == len(case.get('first', []))
        if 'y' in case:
            valid &= len(case['y']) == n and len(case['y'][0]) > 0 and all(v in (0, 1) for row in case['y'] for v in row)
    if not valid:
        raise Skip('invalid')
    if kind == 'rng':
        values = [v[0] for v in draw(case)]
        low, high = (case['n'], case['m']) if case['m'] else (0, 2)
        if min(values) < low or max(values) >= high:
            fail('random numbers from [%d, %d) include %s', low, high, [v for v in values if not low <= v < high][:3])
        check_frequencies([{v: 1} for v in values], range(low, high), 'random numbers', pairs=False)
        # successive numbers
        check_frequencies([{(a, b): 1} for a, b in zip(values[::2], values[1::2])], [(a, b) for a in range(low, high) for b in range(low, high)],
                          'successive random numbers', pairs=False)
        return dict(nontrivial=high - low > 1, tags=dict(kind=kind))
    lines = draw(case)
    group, name = kind.split('-', 1)
    statistics = False
    if group in ('inst', 'part'):
        y = case['y']
        if name != 'example-wise' and draw(case, sparse=1) != lines:
            fail('the samples depend on whether the label matrix is sparse or dense')
    if group == 'inst':
        rows = sorted(case.get('first') or range(n))
        exact_bounds = bounded(len(rows), case['size'], case['min'], case['max'])
        samples = []
        for line in lines:
            num, zeros, weights = line[0], line[1], line[2:]
            if len(weights) != n:
                fail('%d weights instead of %d', len(weights), n)
            outside = [i for i in range(n) if weights[i] and i not in set(rows)]
            if outside:
                fail('examples %s of the holdout set have a weight', outside)
            nonzero = sum(w > 0 for w in weights)
            if num != nonzero:
                fail('the number of examples with a weight is said to be %d, but is %d', num, nonzero)
            if bool(zeros) != (nonzero < n):
                fail('a weight vector claims that it %s zero weights: %s', 'has' if zeros else 'does not have', weights)
            if name == 'no':
                if nonzero != len(rows) or max(weights) > 1:
                    fail('without sampling, %d of %d examples are used', nonzero, len(rows))
            else:
                bounds = exact_bounds
                if name.endswith('-wise'):
                    # numbers of examples drawn from individual strata are rounded
                    num = len({tuple(y[i]) for i in rows}) if name == 'example-wise' else len(y[0]) + 1
                    low, high = bounded(len(rows), 0, case['min'], case['max'])[0], bounded(len(rows), 1, case['min'], case['max'])[1]
                    bounds = max(low, bounds[0] - math.ceil(num * SLACK)), min(high, bounds[1] + math.ceil(num * SLACK))
                check_size(sum(weights), bounds, 'a sample of the %d examples', len(rows))
                if name != 'with-replacement' and max(weights) > 1:
                    fail('an example is drawn multiple times, although drawing without replacement')
            samples.append({i: w for i, w in enumerate(weights) if w})
        if name in ('with-replacement', 'without-replacement'):
            statistics = check_frequencies(samples, rows, 'examples')
        elif name in ('example-wise', 'output-wise') and len(rows) > 0:
            for s in samples:
                f = float(np.float32(case['size']))
                if exact_bounds == bounded(len(rows), case['size'], 0, 0) and min(case['min'], len(rows)) < len(s) < (case['max'] or n + 1):
                    check_strata(s, rows, y, name, f, len(s), exact=True)
                else:
                    check_strata(s, rows, y, name, len(s) / len(rows), len(s))
            vectors = {}
            for i in rows:
                vectors.setdefault(tuple(y[i]), []).append(i)
            for v in vectors.values():
                statistics |= check_frequencies(samples, v, 'examples with the same labels')
    elif group == 'part':
        firsts = []
        for line in lines:
            a, b, values = line[0], line[1], line[2:]
            if sorted(values) != list(range(n)) or a + b != n:
                fail('the training and holdout set %s | %s do not contain each of the %d examples once', values[:a], values[a:], n)
            if name == 'no':
                if b:
                    fail('there are %d examples in a holdout set, although none should be used', b)
                continue
            h = n * float(np.float32(case['size']))
            if abs(b - h) >= 1 + 1e-4:
                fail('the holdout set contains %d of %d examples, but it should contain %s%%', b, n, 100 * case['size'])
            firsts.append({i: 1 for i in values[:a]})
            if name != 'random':
                check_strata(values[:a], range(n), y, name, a / n, a)
        if case['again'] and any(v != lines[0] for v in lines):
            fail('splitting the same data with the same seed again results in different sets')
        if firsts and not case['again']:
            if name == 'random':
                statistics = check_frequencies(firsts, range(n), 'examples')
            else:
                vectors = {}
                for i in range(n):
                    vectors.setdefault(tuple(y[i]), []).append(i)
                for v in vectors.values():
                    statistics |= check_frequencies(firsts, v, 'examples with the same labels')
    else:
        what = 'features' if group == 'feat' else 'outputs'
        retained = min(case.get('retained', 0), n) if name != 'no' else 0
        rest = n - retained
        samples = []
        for i, line in enumerate(lines):
            k, values = line[0], line[1:]
            if len(values) != k or len(set(values)) != k or min(values, default=0) < 0 or max(values, default=0) >= n:
                fail('invalid sample of %d %s: %s', n, what, values)
            if name == 'no':
                if k != n:
                    fail('without sampling, %d of %d %s are used', k, n, what)
            elif name == 'round-robin':
                if values != [i % n]:
                    fail('sample %d contains the outputs %s instead of %d', i, values, i % n)
            else:
                if not set(range(rest, n)) <= set(values):
                    fail('the sample %s does not include the last %d of %d features', values, retained, n)
                if case['size'] == 0:
                    exact = math.log2(rest - 1) + 1 if rest > 1 else rest
                    bounds = bounded(rest, min(1, exact / max(rest, 1)), case['min'], case['max'])
                else:
                    bounds = bounded(rest, case['size'], case['min'], case['max'])
                check_size(k - retained, bounds, 'a sample of the %d %s that are not always included', rest, what)
            samples.append({v: 1 for v in values})
        if name == 'without-replacement':
            if case.get('again') == 1:
                for a, b in zip(samples[::2], samples[1::2]):
                    if a != b:
                        fail('the features are sampled again within a beam search, although they should not')
                samples = samples[::2]
            statistics = check_frequencies(samples, range(rest), what)
    return dict(nontrivial=name not in ('no',) and n > 1, tags=dict(kind=kind, frequencies=bool(statistics)))
