"""Differential test of the engine: the programs of selftest/composipy/cases.py are executed symbolically, and every path's result,
evaluated under random assignments that satisfy the path condition, is compared with what CPython computes. Every assignment must
satisfy the condition of exactly one path (no path is lost, none overlaps)."""
import math
import os
import signal
import sys
import time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.path.insert(0, os.path.join(HERE, 'selftest'))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import numpy as np
import multiprocessing as mp
from composipy import cases as CS
from pyvc.unit import *
from pyvc.unit import preload
from pyvc import arrays, ops, prove, seqs
from pyvc import terms as T
from pyvc.prove import Ev, NoVal
from contracts.common import V, VI, el


def ground(ip, v, ev):
    v = ip.thaw(v) if isinstance(v, Frozen) else v
    g = lambda x: ground(ip, x, ev)
    if isinstance(v, (bool, str, type(None))):
        return v
    if isinstance(v, Cond):
        return ev.cond(v)
    if isinstance(v, Special):
        return {'nan': math.nan, 'inf': math.inf, '-inf': -math.inf}[str(v).lower()]
    if isinstance(v, CaseV):
        for c, x in v.cases:
            if c is True or ev.cond(c):
                return g(x)
        raise NoVal()
    if isinstance(v, ArrV):
        def rec(shape, flat):
            if len(shape) == 1:
                return list(flat)
            n = len(flat) // shape[0] if shape[0] else 0
            return [rec(shape[1:], flat[i * n:(i + 1) * n]) for i in range(shape[0])]
        return rec(v.shape, [g(x) for x in v.flat]) if v.shape else g(v.flat[0])
    if isinstance(v, SymArr):
        dims = [int(round(ev.poly(P(d)))) for d in v.shape]

        def rec2(i, idx):
            if i == len(dims):
                return g(v.at(*[P(k) for k in idx]))
            return [rec2(i + 1, idx + [k]) for k in range(dims[i])]
        return rec2(0, [])
    if isinstance(v, (ListV, ops.SeqTuple)) or isinstance(v, tuple):
        if type(v) is tuple:
            return tuple(g(x) for x in v)
        out = []

        def ex(seq):
            for p in seq:
                if p[0] == 'I':
                    out.extend(g(x) for x in p[1])
                elif p[0] == 'C':
                    ex(p[2] if ev.cond(p[1]) else p[3])
                elif p[0] == 'G':
                    for i in range(max(0, int(round(ev.poly(P(p[1])))))):
                        ex(subst_seq(p[3], {p[2]: P(i)}))
                else:
                    raise NoVal(p[0])
        ex(ops.as_seq(ip, v))
        return out
    if isinstance(v, DictV):
        return {(k if isinstance(k, (str, tuple)) else g(k)): g(x) for k, x in v.d.items()}
    if ops.is_num(v):
        return ev.poly(P(v))
    if isinstance(v, SStr):
        return sstr(ip, v, ev)
        return ''.join(p if isinstance(p, str) else p.text(ev) if hasattr(p, 'text') else '?' for p in v.p)
    raise NoVal(type(v).__name__)


def sstr(ip, v, ev):
    out = ''
    for p in ([v] if isinstance(v, str) else v.p):
        if isinstance(p, str):
            out += p
        elif isinstance(p, Tok) and p.kind == 'fmt':
            x = ground(ip, p.data, ev)
            out += str(int(x) if isinstance(x, float) and x == int(x) else x)
        elif isinstance(p, tuple) and p[0] == 'C':
            out += sstr(ip, p[2] if ev.cond(p[1]) else p[3], ev)
        elif isinstance(p, tuple) and p[0] == 'G':
            for i in range(max(0, int(round(ev.poly(P(p[1])))))):
                out += sstr(ip, subst_value(p[3], {p[2]: P(i)}), ev)
        else:
            raise NoVal('string piece')
    return out


def norm(x):
    if isinstance(x, (np.ndarray,)):
        return x.tolist()
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (list, tuple)):
        return [norm(y) for y in x]
    if isinstance(x, dict):
        return {k if isinstance(k, str) else str(k): norm(v) for k, v in x.items()}
    return x


def same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (bool, int, float)) and isinstance(b, (bool, int, float)):
        if isinstance(a, bool) != isinstance(b, bool):
            return False
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        return a == b or abs(a - b) <= 1e-9 * (1 + abs(b))
    return type(a) is type(b) and a == b


def make(kind, evs):
    """symbolic arguments and, per assignment, the concrete ones"""
    args, conc, pre, n = [], [[] for _ in evs], [], None
    for j, k in enumerate(kind):
        nm = 'a%d' % j
        if k in 'rq':
            args.append(V(nm))
            if k == 'q':
                pre.append(c_lt(0, V(nm)))
            for c, ev in zip(conc, evs):
                c.append(float(ev.get((nm, ()), 'real')))
        elif k in 'inp':
            args.append(VI(nm))
            if k in 'np':
                n = VI(nm)
                pre.append(c_le(0 if k == 'n' else 1, n))
            for c, ev in zip(conc, evs):
                c.append(int(ev.get((nm, ()), 'int')))
        elif k == 'L':
            m = n
            if m is None:
                m = VI('len' + nm)
                pre.append(c_le(0, m))
            i = VI('k')
            args.append(('L', m, nm))
            for c, ev in zip(conc, evs):
                c.append([float(ev.get((nm, (i,)), 'real')) for i in range(int(ev.poly(m)))])
    return args, conc, pre


def run(name, N=24):
    t0 = time.time()
    kind = CS.KIND[name]
    f = getattr(CS, name)
    vals = [0.0, 1.0, 2.0, -1.0, 0.5, -0.5, 1.5]
    dom = {}
    for j, k in enumerate(kind):
        nm = 'a%d' % j
        if k == 'r' or k == 'L':
            dom[nm] = lambda r, *i: r.choice(vals) if r.random() < .4 else round(r.uniform(-2, 2), 3)
        if k == 'q':
            dom[nm] = lambda r: round(r.uniform(.1, 3), 3)
        if k == 'i':
            dom[nm] = lambda r: r.randint(-4, 7)
        if k == 'n':
            dom[nm] = lambda r: r.randint(0, 5)
        if k == 'p':
            dom[nm] = lambda r: r.randint(1, 5)
        dom['len' + nm] = lambda r: r.randint(0, 4)
    evs = [Ev(s, dom) for s in range(N)]
    hits = [0] * N
    bad, notes = [], []
    u = U('self', os.path.join(HERE, 'selftest'), dom, 20, time.time() + 60)
    u.ip.contracts = {}
    g = u.get('composipy.cases', name)
    nomerge = set()
    args, conc, pre = make(kind, evs)
    want = []
    for c in conc:
        import copy
        try:
            want.append(('ok', norm(f(*copy.deepcopy(c)))))
        except Exception as e:
            want.append(('raise', type(e).__name__))

    def go():
        u.pre(*pre)
        a = []
        for x in args:
            if isinstance(x, tuple):
                i = VI('k')
                a.append(ListV(mkseq([('G', P(x[1]), 'k', (('I', (el(x[2], i),)),))])))
            else:
                a.append(x)
        return u.call(g, *a)

    def coll(out):
        for k, ev in enumerate(evs):
            try:
                if not all(ev.cond(c) for c in u.ip.pc if c is not True):
                    continue
            except NoVal as e:
                notes.append('condition not evaluated: %s' % e)
                continue
            hits[k] += 1
            try:
                got = ('ok', norm(ground(u.ip, out[1], ev))) if out[0] == 'ok' else ('raise', getattr(out[1].cls, '__name__', str(out[1].cls)))
            except NoVal as e:
                notes.append('value not evaluated: %s' % e)
                continue
            if got[0] != want[k][0] or not same(got[1], want[k][1]):
                bad.append('args %r: engine %r, CPython %r' % (conc[k], got, want[k]))
    for attempt in range(10):
        try:
            u.ip.nomerge = set(nomerge)
            u.ip.explore(go, limit=300, collect=coll)
        except PoisonRead as e:
            loc = e.loc
            if isinstance(loc, tuple) and loc and loc[0] == 'merge' and loc[1] not in nomerge:
                nomerge.add(loc[1])
                hits[:] = [0] * N
                continue
            return name, 'unsupported', ['value undefined on some path %s' % (loc,)], time.time() - t0
        except (Unsupported, execx.NoMerge) as e:
            return name, 'unsupported', [str(e)[:150]] + bad[:1], time.time() - t0
        except Exception as e:
            return name, 'unsupported', ['engine: %r' % e, traceback.format_exc().splitlines()[-3]] + bad[:1], time.time() - t0
        break
    if not notes:
        for k, h in enumerate(hits):
            if h != 1:
                bad.append('assignment %r is on %d paths' % (conc[k], h))
    return name, 'WRONG' if bad else 'agrees', (bad or notes)[:3], time.time() - t0


def safe(name):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    sys.setrecursionlimit(20000)

    def late(*_):
        raise TimeoutError('time limit')
    signal.signal(signal.SIGALRM, late)
    signal.alarm(90)
    try:
        return run(name)
    except TimeoutError:
        return name, 'unsupported', ['time limit'], 90
    finally:
        signal.alarm(0)


if __name__ == '__main__':
    names = sys.argv[1:] or sorted(CS.KIND)
    if len(names) == 1:
        print(run(names[0]))
        sys.exit()
    with mp.get_context('fork').Pool(7) as p:
        res = p.map(safe, names, chunksize=1)
    cnt = {}
    for n, st, msg, t in res:
        cnt[st] = cnt.get(st, 0) + 1
        if st != 'agrees' or msg:
            print('%-22s %-12s %5.1fs %s' % (n, st, t, msg))
    print(cnt)
    sys.exit(1 if cnt.get('WRONG') else 0)
