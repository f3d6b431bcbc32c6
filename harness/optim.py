"""what the optimisers hand to scipy.optimize.minimize, and an independent critical load"""
from common import *
from plates import *
import h_C06
import h_C18
import sys
import warnings


class Captured(Exception):
    pass


def capture(fn):
    """run fn with scipy's minimize replaced; returns (fun, x0, method, bounds, constraints)"""
    import scipy.optimize as so
    orig = so.minimize
    got = []

    class Res(dict):
        __getattr__ = dict.get

    def fake(fun, x0, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None, constraints=(), tol=None, callback=None, options=None):
        got.append(dict(fun=(lambda y: fun(y, *args)) if args else fun, x0=np.array(x0, dtype=float), method=method, bounds=bounds, constraints=constraints, tol=tol, options=options))
        r = Res(x=np.array(x0, dtype=float), fun=0.0, success=True)
        return r
    touched = []
    so.minimize = fake
    for m in list(sys.modules.values()):
        if getattr(m, '__name__', '').startswith('composipy'):
            for k, v in list(vars(m).items()):
                if v is orig:
                    setattr(m, k, fake)
                    touched.append((m, k))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            res = fn()
    finally:
        so.minimize = orig
        for m, k in touched:
            setattr(m, k, orig)
    need(len(got) == 1, 'number of optimiser calls', len(got))
    return got[0], res


def feasible(g, y):
    """y within the bounds and constraints handed to the optimiser"""
    b = g['bounds']
    if b is not None:
        if hasattr(b, 'lb'):
            lb, ub = np.broadcast_to(b.lb, len(y)), np.broadcast_to(b.ub, len(y))
        else:
            lb, ub = [x[0] for x in b], [x[1] for x in b]
        for v, l, u in zip(y, lb, ub):
            if (l is not None and v < l) or (u is not None and v > u):
                return False
    cs = g['constraints']
    if not isinstance(cs, (list, tuple)):
        cs = [cs]
    for c in cs:
        if isinstance(c, dict):
            v = np.atleast_1d(np.asarray(c['fun'](y, *c.get('args', ())), dtype=float))
            if c['type'] == 'ineq' and np.any(v < 0) or c['type'] == 'eq' and np.any(v != 0):
                return False
        else:
            v = np.atleast_1d(np.asarray(c.A, dtype=float) @ y if hasattr(c, 'A') else np.asarray(c.fun(y), dtype=float))
            if np.any(v < c.lb) or np.any(v > c.ub):
                return False
    return True


def split(g, y):
    """the constraint handed over for the load: feasible with the load constraint ignored is not expressible, so probe by thickness"""
    return feasible(g, y)


def lp_crit(c, T, x1, x3, loads):
    """(critical factor or None when the loads cannot buckle the panel)"""
    d = dict(prop=dict(kind='lp', m=c['m'], xiD=[x1, 0., x3, 0.], T=T), a=c['a'], b=c['b'], cons=c['cons'], m=c['mm'], n=c['nn'], Nxx=loads[0], Nyy=loads[1], Nxy=loads[2])
    K, G, P = oracle_bend(d)
    w = np.linalg.eigvalsh(K)
    if w[0] <= 1e-8 * w[-1]:
        raise Skip()
    return h_C18.crit(K, G)


def g_opt(rng, pool):
    N = [0 if rng.random() < .35 else rng.uniform(-3, 3) for _ in range(3)]
    if rng.random() < .5:
        N[0] = -rng.uniform(0.1, 500)
    if N == [0, 0, 0]:
        N = [-1., 0, 0]
    m = g_mat(rng, pool, False)
    m.pop('name', None)
    a = rng.uniform(50, 600)
    return dict(m=m, a=a, b=a * rng.uniform(.4, 2.5), cons=g_cons(rng, pool, True), mm=rng.randint(2, 4), nn=rng.randint(2, 4), N=N, T=rng.uniform(.5, 5),
                penalty=rng.random() < .5, pts=[[rng.uniform(-1, 1), rng.uniform(-1, 1), rng.uniform(.3, 6)] for _ in range(4)])


def norm(N):
    mx = max(abs(x) for x in N)
    return [x / mx for x in N], mx


FX = dict(m=dict(e1=60800., e2=58250., v12=.07, g12=4550., thickness=.1), a=360., b=360., cons='PINNED', mm=3, nn=4, N=[-3., .5, 1.5], T=2.5, penalty=True,
          pts=[[.2, .4, 1.], [-.5, .3, 2.], [.9, .9, .5], [0., -.9, 3.]])
