"""run.py PROP --seed S --time T [--hints FILE] [--max N]  |  run.py --replay FILE
Runtime contract check of the real package on generated inputs; prints one JSON line."""
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('REPO', '/repo')
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True


class CaseTimeout(Exception):
    pass


def alarm(*a):
    raise CaseTimeout()


def one(mod, case, limit=60):
    """None, or a description of the failure; Skip is reported as 'skip'"""
    from common import Fail, Skip
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(limit)
    out = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    try:
        mod.run(case)
        return None
    except Skip:
        return 'skip'
    except CaseTimeout:
        return 'timeout'
    except Fail as e:
        return 'FAIL ' + str(e)[:1500]
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        last = [f for f in tb if REPO in f.filename] or tb
        return 'FAIL unexpected %s: %s (at %s:%s)' % (type(e).__name__, str(e)[:300], os.path.relpath(last[-1].filename, REPO), last[-1].lineno)
    finally:
        signal.alarm(0)
        sys.stdout.close()
        sys.stdout = out


def cases(mod, seed, hints):
    from common import Pool
    pool, rng = Pool(hints), random.Random(seed)
    for c in list(getattr(mod, 'FIXED', [])):
        yield c
    while True:
        yield mod.gen(rng, pool)


def history(path):
    """the case did not fail in a fresh process: find how many of the cases run before it are needed, and add them to the file"""
    d = json.load(open(path))
    w = d['origin']
    mod = importlib.import_module('h_' + d['property'])
    import composipy  # noqa
    before = [c for c, _ in zip(cases(mod, w['seed'], w['hints']), range(w['index']))]
    k, t0 = 1, time.time()
    while before and time.time() - t0 < 150:
        pre = before[-k:]
        pid = os.fork()
        if pid == 0:
            signal.alarm(0)
            for c in pre:
                one(mod, c)
            r = one(mod, d['case'], 100)
            os._exit(1 if r and r.startswith('FAIL') else 0)
        _, st = os.waitpid(pid, 0)
        if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 1:
            d['history'] = pre
            with open(path, 'w') as f:
                json.dump(d, f, indent=1, default=str)
            sys.exit(1)
        if k >= len(before):
            break
        k *= 2
    sys.exit(0)


def main():
    a = sys.argv[1:]
    if a[0] == '--replay':
        d = json.load(open(a[1]))
        mod = importlib.import_module('h_' + d['property'])
        for c in d.get('history') or ():
            one(mod, c)
        r = one(mod, d['case'], 300)
        print(json.dumps({'property': d['property'], 'result': r}))
        sys.exit(1 if r and r.startswith('FAIL') else 0)
    if a[0] == '--history':
        history(a[1])
        return
    pid = a[0]
    opt = dict(zip(a[1::2], a[2::2]))
    seed, tlim = int(opt.get('--seed', 1)), float(opt.get('--time', 10))
    mx = int(opt.get('--max', 10**9))
    hints = []
    if opt.get('--hints'):
        hints = json.load(open(opt['--hints']))
    t0 = time.time()
    res = {'property': pid, 'cases': 0, 'skipped': 0, 'timeouts': 0, 'fail': None, 'samples': []}
    try:
        import composipy  # noqa
        if not os.path.realpath(composipy.__file__).startswith(os.path.realpath(REPO)):
            raise ImportError('composipy is not imported from ' + REPO)
        mod = importlib.import_module('h_' + pid)
    except Exception as e:
        res['fail'] = {'case': None, 'message': 'package cannot be imported: %r' % e}
        print(json.dumps(res))
        return
    fixed = list(getattr(mod, 'FIXED', []))
    i = 0
    for case in cases(mod, seed, hints):
        if not (i < mx and (time.time() - t0 < tlim or i < len(fixed))):
            break
        i += 1
        r = one(mod, case)
        if r == 'skip':
            res['skipped'] += 1
            continue
        res['cases'] += 1
        if r == 'timeout':
            res['timeouts'] += 1
            continue
        if len(res['samples']) < 3:
            res['samples'].append(json.loads(json.dumps(case, default=str)))
        if r:
            res['fail'] = {'case': case, 'message': r, 'seed': seed, 'index': i - 1, 'hints': hints}
            break
    res['wall'] = round(time.time() - t0, 2)
    print(json.dumps(res, default=str))


main()
