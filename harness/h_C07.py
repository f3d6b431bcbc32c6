from common import *


def gen(rng, pool):
    return dict(lam=g_lam(rng, pool))


def run(case):
    d = case['lam']
    lam = mk_lam(d)
    ms, t, Q, z = lam_data(d)
    h = sum(t)
    tr = np.array([[f(k * math.radians(th)) for f, k in ((math.cos, 2), (math.sin, 2), (math.cos, 4), (math.sin, 4))] for th in d['stacking']])
    wa = np.array([z[k + 1] - z[k] for k in range(len(t))]) / h
    wd = np.array([z[k + 1]**3 - z[k]**3 for k in range(len(t))]) * 4 / h**3
    for nm, w in (('xiA', wa), ('xiD', wd)):
        x = np.asarray(getattr(lam, nm), dtype=float)
        same(nm, x, w @ tr, 1e-8, 1.0)
        need(np.all(np.abs(x) <= 1 + 1e-9), nm + ' within [-1, 1]', list(x))
        need(x[2] >= 2 * x[0]**2 - 1 - 1e-9, nm + ' third >= 2 first^2 - 1', list(x))


M = dict(e1=129500., e2=9370., v12=.38, g12=5240., thickness=.2)
FIXED = [dict(lam=dict(stacking=[30, -45, 90, 10], mats=[M, dict(M, thickness=.5)], plies=[0, 1, 1, 0]))]
