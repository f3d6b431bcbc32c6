from common import *


def gen(rng, pool):
    return dict(lam=g_lam(rng, pool, 12))


def run(case):
    d = case['lam']
    lam = mk_lam(d)
    ms, t, Q, z = lam_data(d)
    p = lam.z_position
    need(len(p) == len(z), 'number of interfaces', len(p))
    h = sum(t)
    same('z_position', list(p), z, 1e-9, h)
    for k in range(len(t)):
        same('thickness of ply %d' % k, p[k + 1] - p[k], t[k], 1e-8, h)


M = dict(e1=129500., e2=9370., v12=.38, g12=5240., thickness=.2)
FIXED = [dict(lam=dict(stacking=[30, -45, 90], mats=[M, dict(M, thickness=.5)], plies=[0, 1, 1]))]
