"""check.py PROP [--tier quick|thorough]: decide one property for /repo's current tree.

1. the verifier discharges the obligations of the property's units (contracts/PROP.py), generated from the current source;
2. the same contract is checked at run time on the real package (harness/h_PROP.py) on generated inputs: it replays the
   verifier's counterexamples, and stands in, bounded, for what the verifier left undecided.
exit 0: held on everything explored; exit 1 + VIOLATION line otherwise."""
import importlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get('REPO', '/repo')
REALPY = '/opt/venv/bin/python'
EVID = os.path.join(HERE, 'evidence')
TRUSTED = [
    'pyvc, the verification-condition generator in /verif/pyvc (own code: Python semantics of the subset used, loop summaries, polynomial normal form)',
    'z3 (feasibility of paths, order and case reasoning) for the queries the normal form does not settle',
    'assumed contracts on numpy, scipy, pandas, matplotlib, itertools, copy (pyvc/arrays.py, ext.py, ext2.py)',
    'floating point treated as real arithmetic; cos, sin, sqrt by their algebraic laws',
]


def envreal():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', REPO=REPO,
             PYTHONHASHSEED='0')
    e.pop('PYTHONPATH', None)
    return e


def start_harness(pid, seed, secs, hints=None, tag=''):
    cmd = [REALPY, os.path.join(HERE, 'harness', 'run.py'), pid, '--seed', str(seed), '--time', str(secs)]
    if hints:
        hf = os.path.join(EVID, 'hints-%s.json' % pid)
        with open(hf, 'w') as f:
            json.dump(hints, f)
        cmd += ['--hints', hf]
    return subprocess.Popen(cmd, env=envreal(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd='/tmp'), secs


def finish_harness(h):
    p, secs = h
    try:
        out, err = p.communicate(timeout=secs + 200)
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
    for line in reversed(out.strip().splitlines()):
        try:
            return json.loads(line)
        except ValueError:
            continue
    return {'cases': 0, 'skipped': 0, 'timeouts': 0, 'fail': None, 'samples': [], 'error': (err or out)[-800:], 'wall': 0}


def confirm(path):
    """the failing input, replayed in fresh processes"""
    for _ in range(2):
        p = subprocess.run([REALPY, os.path.join(HERE, 'harness', 'run.py'), '--replay', path], env=envreal(), cwd='/tmp',
                           capture_output=True, text=True, timeout=400)
        if p.returncode != 1 or '"FAIL' not in p.stdout:
            return False
    return True


def with_history(path):
    """is the failure one of a history of calls: the cases run before it in the same process are replayed with it"""
    try:
        p = subprocess.run([REALPY, os.path.join(HERE, 'harness', 'run.py'), '--history', path], env=envreal(), cwd='/tmp',
                           capture_output=True, text=True, timeout=300)
    except subprocess.TimeoutExpired:
        return False
    return p.returncode == 1 and 'Traceback' not in p.stderr and confirm(path)


def numbers(x, out):
    if isinstance(x, dict):
        for v in x.values():
            numbers(v, out)
    elif isinstance(x, (list, tuple)):
        for v in x:
            numbers(v, out)
    elif isinstance(x, bool):
        pass
    elif isinstance(x, (int, float)):
        out.append(float(x))
    elif isinstance(x, str):
        try:
            from fractions import Fraction
            out.append(float(Fraction(x)))
        except (ValueError, ZeroDivisionError, OverflowError):
            pass


def hint_values(units):
    out = []
    for r in units:
        for b in r['bad']:
            for x in b['refuted']:
                numbers(x.get('counterexample', {}), out)
    seen = []
    for v in out:
        if v not in seen and abs(v) < 1e9:
            seen.append(v)
    return seen[:60]


def known(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('KNOWN-FINDING: property=%s ' % pid):
                out.append(line)
    return out


def load_units(mod):
    us = mod.UNITS() if callable(mod.UNITS) else mod.UNITS
    return list(us)


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    thorough = tier == 'thorough'
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    from pyvc import unit as UN
    mod = importlib.import_module('contracts.' + pid)
    bg = []
    if not thorough:
        bg.append(start_harness(pid, seed, getattr(mod, 'HTIME', 14)))
    UN.THOROUGH = thorough
    own = load_units(mod)
    deps = []
    for dm in getattr(mod, 'DEPS', ()):
        m2 = importlib.import_module('contracts.' + dm.split('/')[0])
        for s in load_units(m2):
            if dm == s.name.split('/')[0] or s.name == dm or s.name.startswith(dm):
                if s.name not in [d.name for d in deps] and s.name not in [o.name for o in own]:
                    deps.append(s)
    budget = 1500 if thorough else 330
    early = []

    def hurry():
        """a failing input is at hand already: the verdict is settled, and the proof obligations are only sought to be named"""
        if bg and not early and bg[0][0].poll() is not None:
            early.append(finish_harness(bg[0]))
        return bool(early and early[0]['fail'])
    res = UN.run_units(own + deps, REPO, budget, jobs=7 if not thorough else 8, hurry=hurry)
    ro, rd = res[:len(own)], res[len(own):]
    depbad = [r for r in rd if r['status'] != 'proved']
    if depbad and any(r['contracts'] for r in ro) and not hurry():
        redo = []
        for s, r in zip(own, ro):
            if r['contracts'] and r['status'] == 'proved':
                base = {} if any(not b['unit'].startswith('C17') for b in depbad) else s.base
                s2 = UN.UnitSpec(s.name, s.scenario, {}, s.dom, (), s.budget, s.limit, s.paths, s.nonempty, s.funcs, base)
                redo.append(s2)
        new = UN.run_units(redo, REPO, 200, jobs=7) if redo else []
        byname = {r['unit']: r for r in new}
        ro = [byname.get(r['unit'], r) for r in ro]
    refuted = [r for r in ro if r['status'] == 'refuted']
    undecided = [r for r in ro if r['status'] == 'undecided']
    hs = early or [finish_harness(h) for h in bg]
    fail = next((h for h in hs if h['fail']), None)
    deepened = False
    if not fail and (refuted or undecided or thorough):
        deepened = True
        secs = 90 if not thorough else 420
        if undecided and not refuted and not thorough and not any(r.get('suspect') for r in undecided):
            secs = 60
        hints = hint_values(refuted + [r for r in undecided if r.get('suspect')])
        new = [start_harness(pid, seed + 101 * (k + 1), secs, hints) for k in range(8)]
        hs += [finish_harness(h) for h in new]
        fail = next((h for h in hs if h['fail']), None)
    # ---------------------------------------------------------------- verdict
    rc, lines = 0, []
    rp = os.path.join(EVID, 'replay-%s.json' % pid)
    if fail:
        with open(rp, 'w') as f:
            json.dump({'property': pid, 'case': fail['fail']['case'], 'message': fail['fail']['message'],
                       'origin': {k: fail['fail'].get(k) for k in ('seed', 'index', 'hints')},
                       'obligations': [{'unit': r['unit'], 'bad': r['bad'][:4]} for r in refuted + undecided],
                       'how': '%s harness/run.py --replay %s' % (REALPY, rp)}, f, indent=1, default=str)
        if fail['fail']['case'] is None or confirm(rp) or with_history(rp):
            rc = 1
            print('failed contract: %s' % fail['fail']['message'][:600])
            for r in refuted:
                for b in r['bad'][:3]:
                    print('failed obligation: %s / %s' % (r['unit'], b['name']))
            print('VIOLATION property=%s replay=%s' % (pid, rp))
        else:
            print('note: a failing input did not fail again when replayed; ignored: %s' % fail['fail']['message'][:300])
    if rc == 0 and refuted:
        with open(rp, 'w') as f:
            json.dump({'property': pid, 'case': None, 'no_failing_input': True,
                       'obligations': [{'unit': r['unit'], 'bad': r['bad'][:6], 'errors': r['errors']} for r in refuted]},
                      f, indent=1, default=str)
        rc = 1
        for r in refuted:
            for b in r['bad'][:3]:
                print('failed obligation: %s / %s' % (r['unit'], b['name']))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
    for line in known(pid):
        print(line)
    for r in undecided:
        print('undecided (bounded run-time check stands in): %s: %s' % (r['unit'], (r['errors'] or [b['name'] for b in r['bad']])[:2]))
    # ---------------------------------------------------------------- evidence
    allr = ro + rd
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof', 'wall_s': round(time.time() - t0, 2),
        'violations': 1 if rc else 0,
        'assumptions': list(getattr(mod, 'ASSUME', [])) + sorted({a for r in allr for a in r['assumed']})[:60],
        'coverage': {
            'obligations': sum(r['obligations'] for r in allr), 'discharged': sum(r['discharged'] for r in allr),
            'checker_cmd': 'python3-vt /verif/check.py %s' % pid, 'trusted_base': TRUSTED,
            'units': [{'unit': r['unit'], 'role': 'contract of a callee' if r in rd else 'property', 'status': r['status'], 'mode': r['mode'],
                       'obligations': r['obligations'], 'discharged': r['discharged'], 'paths': r['paths'], 'wall_s': r['wall'],
                       'callee_contracts_used': r['contracts'][:12], 'errors': [str(e)[:200] for e in r['errors'][:2]]} for r in allr],
            'functions_under_contract': sorted({f for r in allr for f in r['functions']})[:150],
            'solver': {k: round(sum(r['stats'].get(k, 0) for r in allr), 3) for k in sorted({k for r in allr for k in r['stats']})},
            'bounded_runtime_check': {
                'label': 'bounded: run-time check of the same contract on the real package; not counted as proved',
                'stands_in_for': [r['unit'] for r in undecided],
                'evaluations': sum(h['cases'] for h in hs), 'skipped': sum(h['skipped'] for h in hs),
                'timeouts': sum(h['timeouts'] for h in hs), 'deepened': deepened,
                'errors': [h['error'][:200] for h in hs if h.get('error')],
                'samples': [json.dumps(x, default=str)[:400] for h in hs[:1] for x in h['samples'][:2]]},
        }}
    names = [r['unit'] + ': ' + n for r in ro for n in r['names']]
    ev['coverage']['obligation_names'] = names[:120]
    txt = json.dumps(ev, indent=1, default=str)
    if len(txt) > 55000:
        ev['coverage']['obligation_names'] = names[:30]
        ev['coverage']['functions_under_contract'] = ev['coverage']['functions_under_contract'][:60]
        txt = json.dumps(ev, default=str)
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        f.write(txt)
    err = [h['error'] for h in hs if h.get('error')]
    if err and rc == 0 and not sum(h['cases'] for h in hs):
        print('run-time check did not run: %s' % err[0])
        sys.exit(2 if undecided else 0)
    if rc == 0:
        print('OK property=%s obligations=%d discharged=%d bounded-cases=%d %.1fs' % (
            pid, ev['coverage']['obligations'], ev['coverage']['discharged'], sum(h['cases'] for h in hs), time.time() - t0))
    sys.exit(rc)


if __name__ == '__main__':
    main()
