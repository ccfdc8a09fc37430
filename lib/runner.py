"""Executes cases of a property.  Runs inside the process that loads the code under test.

    runner.py loop  PID SEED FIRST STEP LIMIT STOP_AT OUT   explores cases FIRST, FIRST+STEP, ... (JSON lines to OUT)
    runner.py serve PID                                     one case (JSON) per stdin line, each run in a forked child
"""
import hashlib
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def load(pid):
    return importlib.import_module('props.' + pid.lower())


def rng_for(pid, seed, index):
    return random.Random(hashlib.sha256(f'{pid}|{seed}|{index}'.encode()).digest())


def jsonable(v):
    """The case exactly as a replay file would contain it."""
    return json.loads(json.dumps(v))


def execute(mod, case):
    """-> (status, info); status in ok, trivial, skip, violation, error"""
    from core import Skip, Violation
    try:
        info = mod.check(case) or {}
        return ('ok' if info.get('nontrivial', True) else 'trivial'), info
    except Skip as e:
        return 'skip', {'why': str(e)}
    except Violation as e:
        return 'violation', {'message': str(e)[:2000]}
    except MemoryError:
        return 'skip', {'why': 'out of memory'}
    except Exception as e:  # an exception the property did not expect
        tb = traceback.format_exc(limit=-4)
        return 'violation', {'message': f'unexpected {type(e).__name__}: {str(e)[:500]}', 'traceback': tb[-1500:]}


def loop(pid, seed, first, step, limit, stop_at, out):
    mod = load(pid)
    with open(out, 'a', buffering=1) as f:
        i = first
        while i < limit and time.time() < stop_at:
            case = jsonable(mod.generate(rng_for(pid, seed, i)))
            f.write(json.dumps({'start': i}) + '\n')
            t = time.time()
            status, info = execute(mod, case)
            digest = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]
            f.write(json.dumps({'i': i, 's': status, 'h': digest, 't': round(time.time() - t, 4), 'info': info}) + '\n')
            i += step
        f.write(json.dumps({'done': i}) + '\n')


def serve(pid):
    mod = load(pid)
    import tempfile

    import crash
    errors = tempfile.TemporaryFile('w+', errors='replace')
    for line in sys.stdin:
        req = json.loads(line)
        errors.seek(0)
        errors.truncate()
        r, w = os.pipe()
        child = os.fork()
        if child == 0:
            os.close(r)
            signal.alarm(int(req.get('timeout', 120)))
            os.dup2(errors.fileno(), 2)
            status, info = execute(mod, req['case'])
            with os.fdopen(w, 'w') as f:
                f.write(json.dumps({'status': status, 'info': info}))
            os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            text = f.read()
        _, st = os.waitpid(child, 0)
        errors.seek(0)
        written = errors.read()
        if req.get('stderr'):
            with open(req['stderr'], 'w') as f:
                f.write(written)
        if st != 0 or not text:
            if os.WIFSIGNALED(st):
                sig = os.WTERMSIG(st)
                what = 'does not terminate' if sig == signal.SIGALRM else f'crash: signal {sig}'
            else:
                what = f'crash: exit status {os.WEXITSTATUS(st)}'
            if crash.known_crash(req['case'], written):
                text = json.dumps({'status': 'skip', 'info': {'why': 'F07'}})
            else:
                text = json.dumps({'status': 'violation', 'info': {'message': what}})
        sys.stdout.write(text + '\n')
        sys.stdout.flush()


if __name__ == '__main__':
    if sys.argv[1] == 'loop':
        loop(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5]), int(sys.argv[6]), float(sys.argv[7]),
             sys.argv[8])
    else:
        serve(sys.argv[2])
