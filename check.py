#!/opt/vp/venv/bin/python
"""check.py PID quick|thorough      explores a property; exit 0: held on everything explored, exit 1: VIOLATION
   check.py PID --replay FILE       runs a single case"""
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
LIB = os.path.join(HERE, 'lib')
sys.path.insert(0, LIB)
PY = '/opt/vp/venv/bin/python'
HANG = 150
import build  # noqa: E402
import crash  # noqa: E402
import shrink as shrinker  # noqa: E402


class Meta:
    """Static facts about a property (importable without the code under test)."""

    def __init__(self, pid):
        with open(os.path.join(HERE, 'checks.json')) as f:
            self.d = json.load(f)[pid]

    def get(self, k, default=None):
        return self.d.get(k, default)


def environment(variant, site):
    env = dict(os.environ)
    env['PYTHONPATH'] = site + os.pathsep + LIB
    env['OPENBLAS_NUM_THREADS'] = '1'
    env['PYTHONWARNINGS'] = 'ignore'
    env['PYTHONHASHSEED'] = '0'
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['OMP_WAIT_POLICY'] = 'passive'
    if variant == 'asan':
        libs = [subprocess.run(['gcc', '-print-file-name=' + n], capture_output=True, text=True).stdout.strip()
                for n in ('libasan.so', 'libubsan.so')]
        env['LD_PRELOAD'] = ' '.join(libs)
        env['ASAN_OPTIONS'] = 'detect_leaks=0:allocator_may_return_null=1'
        env['UBSAN_OPTIONS'] = 'print_stacktrace=1'
    return env


class Server:
    """Runs single cases in forked children of a process in which the code under test is loaded."""

    def __init__(self, pid, env):
        self.pid, self.env, self.p = pid, env, None

    def run(self, case, timeout=100, stderr=None):
        if self.p is None:
            self.p = subprocess.Popen([PY, '-W', 'ignore', os.path.join(LIB, 'runner.py'), 'serve', self.pid], env=self.env,
                                      stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        self.p.stdin.write(json.dumps({'case': case, 'timeout': timeout, 'stderr': stderr}) + '\n')
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            self.p = None
            raise RuntimeError('the process that runs single cases ended unexpectedly')
        return json.loads(line)

    def close(self):
        if self.p is not None:
            self.p.stdin.close()
            self.p.wait()


def case_of(pid, seed, index, env):
    code = ('import sys,json; sys.path.insert(0,%r); import runner; m=runner.load(%r); '
            'print("CASE"+json.dumps(m.generate(runner.rng_for(%r,%d,%d))))' % (LIB, pid, pid, seed, index))
    out = subprocess.run([PY, '-W', 'ignore', '-c', code], env=env, capture_output=True, text=True, check=True).stdout
    return json.loads(out.split('CASE', 1)[1])


def explore(pid, seed, tier, meta, env, tmp):
    """-> (records, crashes)"""
    workers = meta.get('workers', 8)
    budget = meta.get(tier + '_s')
    limit = meta.get(tier + '_cases')
    stop_at = time.time() + budget
    procs, records, crashes, known = {}, [], [], []

    def spawn(w, first):
        out = os.path.join(tmp, f'w{w}.jsonl')
        err = open(os.path.join(tmp, f'w{w}.err'), 'w')
        p = subprocess.Popen([PY, '-W', 'ignore', os.path.join(LIB, 'runner.py'), 'loop', pid, str(seed), str(first),
                              str(workers), str(limit), str(stop_at), out], env=env, stdout=subprocess.DEVNULL, stderr=err)
        procs[w] = p

    def last_start(w):
        last, done = None, None
        path = os.path.join(tmp, f'w{w}.jsonl')
        if os.path.exists(path):
            with open(path) as f:
                for line in f:
                    try:
                        d = json.loads(line)
                    except ValueError:
                        continue
                    if 'start' in d:
                        last = d['start']
                    elif 'i' in d:
                        done = d['i']
        return last, done

    for w in range(workers):
        spawn(w, w)
    started = time.time()
    while procs:
        time.sleep(0.2)
        for w, p in list(procs.items()):
            rc = p.poll()
            if rc is None:
                path = os.path.join(tmp, f'w{w}.jsonl')
                mtime = os.path.getmtime(path) if os.path.exists(path) else started
                if time.time() - mtime > HANG:
                    p.kill()
                    p.wait()
                    last, _ = last_start(w)
                    crashes.append((last, 'does not terminate'))
                    del procs[w]
                continue
            del procs[w]
            if rc != 0:
                last, done = last_start(w)
                with open(os.path.join(tmp, f'w{w}.err'), errors='replace') as f:
                    err = f.read()[-3000:]
                if last is None or last == done:
                    raise RuntimeError(f'worker failed outside of a case (exit status {rc}): {err}')
                if crash.known_crash(case_of(pid, seed, last, env), err):
                    known.append(last)
                else:
                    crashes.append((last, f'crash (exit status {rc}): {err[-600:]}'))
                if len(known) < 200 and len(crashes) < 6 and time.time() < stop_at:
                    spawn(w, last + workers)
    for w in range(workers):
        path = os.path.join(tmp, f'w{w}.jsonl')
        if os.path.exists(path):
            with open(path) as f:
                for line in f:
                    try:
                        d = json.loads(line)
                    except ValueError:
                        continue
                    if 'i' in d:
                        records.append(d)
    records += [{'i': i, 's': 'skip', 'h': str(i), 't': 0, 'info': {'why': 'F07'}} for i in known]
    return records, crashes


def main():
    pid = sys.argv[1]
    replay = None
    if sys.argv[2] == '--replay':
        replay, tier = sys.argv[3], 'quick'
    else:
        tier = sys.argv[2]
    assert tier in ('quick', 'thorough')
    try:
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    except ValueError:
        seed = int(hashlib.sha256(os.environ['VERIF_SEED'].encode()).hexdigest()[:8], 16)
    meta = Meta(pid)
    t0 = time.time()
    variant = meta.get('variant', 'opt')
    site = build.build(variant)
    t_build = time.time() - t0
    env = environment(variant, site)
    server = Server(pid, env)
    if replay:
        with open(replay) as f:
            case = json.load(f)['case']
        res = server.run(case, stderr='/dev/stderr')
        server.close()
        print(json.dumps(res, indent=1))
        if res['status'] == 'violation':
            print(f'VIOLATION property={pid} replay={replay}')
            return 1
        return 0
    tmp = tempfile.mkdtemp(prefix=f'verif_{pid}_')
    try:
        return run(pid, tier, seed, meta, env, server, tmp, t0, t_build, variant)
    finally:
        server.close()
        shutil.rmtree(tmp, ignore_errors=True)


def run(pid, tier, seed, meta, env, server, tmp, t0, t_build, variant):
    failures = []  # (case, message)
    # 1. regression corpus: minimised cases of earlier failures
    corpus_dir = os.path.join(HERE, 'corpus', pid)
    num_corpus = 0
    for name in sorted(os.listdir(corpus_dir)) if os.path.isdir(corpus_dir) else []:
        with open(os.path.join(corpus_dir, name)) as f:
            case = json.load(f)['case']
        num_corpus += 1
        res = server.run(case)
        if res['status'] == 'violation':
            failures.append((case, res['info']['message']))
    # 2. known findings: replayed to report whether they still exist
    known = []
    with open(os.path.join(HERE, 'known_findings.json')) as f:
        for entry in json.load(f)['findings']:
            if entry['property'] == pid and entry['status'] == 'known':
                with open(os.path.join(HERE, entry['replay'])) as g:
                    case = json.load(g)['case']
                res = server.run(case)
                if res['status'] == 'violation':
                    known.append(entry['what'])
                    print(f"KNOWN-FINDING: property={pid} {entry['what']}")
    # 3. exploration
    records, crashes = [], []
    if not failures:
        records, crashes = explore(pid, seed, tier, meta, env, tmp)
    bad = sorted([(r['i'], r['info']['message']) for r in records if r['s'] == 'violation'] + crashes)
    flaky = []
    for index, message in bad[:8]:
        case = case_of(pid, seed, index, env)
        failures.append((case, message))
    confirmed = None
    for case, message in failures:
        if meta.get('nondeterministic'):
            # schedules are not reproducible on demand: a single recurrence out of many runs is enough
            results = [server.run(case) for _ in range(25)]
            again = [r for r in results if r['status'] == 'violation']
            ok = bool(again)
        else:
            results = [server.run(case) for _ in range(3)]
            again = [r for r in results if r['status'] == 'violation']
            ok = len(again) >= 2  # undefined behaviour may not show up every single time
        if ok:
            confirmed = (case, again[0]['info'].get('message', message))
            break
        flaky.append(message)
    ok_records = [r for r in records if r['s'] == 'ok']
    distinct = {r['h'] for r in ok_records}
    skipped = sum(r['s'] == 'skip' for r in records)
    samples = []
    hist = {}
    for r in records:
        for k, v in (r['info'].get('tags') or {}).items():
            hist.setdefault(k, {})
            hist[k][str(v)] = hist[k].get(str(v), 0) + 1
    for r in ok_records[:: max(1, len(ok_records) // 5)][:5]:
        case = case_of(pid, seed, r['i'], env)
        text = json.dumps(case)
        samples.append({'index': r['i'], 'info': r['info'], 'case': text if len(text) < 1200 else text[:1200] + '...'})
    replay_path = None
    if confirmed:
        case, message = confirmed
        stop_at = time.time() + meta.get('shrink_s', 60)
        import types
        mod = types.SimpleNamespace(**meta.get('shrink', {}))
        if not meta.get('nondeterministic'):
            try:
                smaller = shrinker.shrink(case, mod, lambda c: server.run(c, timeout=60)['status'] == 'violation',
                                          lambda: time.time() > stop_at)
                res = server.run(smaller)
                if res['status'] == 'violation':
                    case = smaller
                    message = res['info']['message']
            except Exception as e:  # a violation must be reported even if it cannot be shrunk
                print(f'shrinking failed: {e!r}', flush=True)
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        replay_path = os.path.join(HERE, 'replays', f'{pid}-{hashlib.sha1(json.dumps(case).encode()).hexdigest()[:10]}.json')
        with open(replay_path, 'w') as f:
            json.dump({'property': pid, 'message': message, 'seed': seed, 'case': case}, f, indent=1)
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': len(records) + num_corpus,
            'distinct_nontrivial': len(distinct),
            'rule': meta.get('rule'),
            'samples': samples,
            'skipped_out_of_domain': skipped,
            'trivial': sum(r['s'] == 'trivial' for r in records),
            'corpus_cases': num_corpus,
            'distribution': {k: dict(sorted(v.items(), key=lambda kv: -kv[1])[:12]) for k, v in hist.items()},
        },
        'violations': [] if not confirmed else [{'message': confirmed[1], 'replay': replay_path}],
        'known_findings': known,
        'unconfirmed': flaky,
        'assumptions': meta.get('assumptions', []),
        'build': variant, 'build_s': round(t_build, 1), 'wall_s': round(time.time() - t0, 1),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    print(f"{pid} {tier}: {len(records)} cases, {len(distinct)} distinct non-trivial, {skipped} skipped, "
          f"{len(bad)} failing, {num_corpus} corpus, build {t_build:.0f} s, total {time.time() - t0:.0f} s")
    for m in flaky:
        print('not reproducible: ' + m[:300])
    if confirmed:
        print(message[:1500])
        print(f'VIOLATION property={pid} replay={replay_path}')
        return 1
    floor = meta.get(tier + '_floor', 50)
    if len(distinct) < floor:
        raise RuntimeError(f'only {len(distinct)} non-trivial cases were explored (at least {floor} are required)')
    return 0


if __name__ == '__main__':
    sys.exit(main())
