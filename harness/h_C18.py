from common import *
from plates import *
import scipy.linalg as sl


def gen(rng, pool):
    c = g_plate(rng, pool, 5, 5, True, 2)
    if c['m'] * c['n'] < 4:
        c['m'] = 3
    c['scale'] = rng.choice([1, 1, 1e-6, 1e6, 1e3, 1e-3, 10., 1e8, 1e-8])
    c['s'] = rng.choice([2., 10., 1e4, 1e-4])
    c['num'] = rng.choice([None, None, 1, 2, 3, 7])
    return c


def crit(K, G):
    """smallest positive load factor of the pencil, by a dense solver; None when there is none"""
    try:
        mu = sl.eigh(G, K, eigvals_only=True)
    except np.linalg.LinAlgError:
        raise Skip()
    mx = np.max(np.abs(mu)) if len(mu) else 0
    if mx == 0 or mu[0] >= -1e-6 * mx:
        return None
    return -1 / mu[0]


def run(c):
    c = dict(c)
    for k in ('Nxx', 'Nyy', 'Nxy'):
        c[k] = c[k] * c['scale']
    if max(abs(c[k]) for k in ('Nxx', 'Nyy', 'Nxy')) == 0:
        raise Skip()
    K0, G0, P = oracle_bend(c)
    w = np.linalg.eigvalsh(K0)
    if w[0] <= 1e-9 * w[-1]:
        raise Skip()
    lam0 = crit(K0, G0)
    if lam0 is None:
        raise Skip()
    p = mk_plate(c)
    kw = {} if c['num'] is None else dict(num_eigvalues=c['num'])
    lam, vec = p.buckling_analysis(**kw)
    lam, vec = np.asarray(lam, dtype=float), np.asarray(vec, dtype=float)
    need(abs(lam[0] - lam0) <= 1e-5 * lam0, 'first eigenvalue is not the smallest positive load factor', float(lam[0]), float(lam0))
    need(vec.shape == (len(P), len(lam)), 'eigenvector shape', vec.shape)
    for q in range(len(lam)):
        if not np.isfinite(lam[q]) or abs(lam[q]) > 1e6 * lam0:
            continue
        v = vec[:, q]
        need(np.any(v != 0), 'zero eigenvector')
        r = K0 @ v + lam[q] * (G0 @ v)
        sc = np.abs(K0) @ np.abs(v) + abs(lam[q]) * (np.abs(G0) @ np.abs(v))
        need(np.max(np.abs(r)) <= 1e-4 * np.max(sc), 'pair %d does not satisfy (K + lambda KG) c = 0' % q, float(np.max(np.abs(r)) / np.max(sc)), float(lam[q]))
    c2 = dict(c)
    for k in ('Nxx', 'Nyy', 'Nxy'):
        c2[k] = c[k] * c['s']
    l2 = mk_plate(c2).buckling_analysis(**kw)[0]
    need(abs(l2[0] * c['s'] - lam[0]) <= 1e-5 * lam0, 'scaling the loads', float(l2[0] * c['s']), float(lam[0]))


FIXED = [dict(prop=LAM, a=300., b=200., cons='PINNED', m=4, n=4, Nxx=-1., Nyy=0, Nxy=0, scale=s, s=100., num=None) for s in (1, 1e-7, 1e7)]
FIXED += [dict(prop=LPP, a=300., b=700., cons='CLAMPED', m=5, n=4, Nxx=1., Nyy=-.3, Nxy=.4, scale=1, s=100., num=3)]
