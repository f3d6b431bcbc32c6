from common import *


def gen(rng, pool):
    return dict(lam=g_lam(rng, pool), order=rng.random() < .5)


def run(case):
    d = case['lam']
    lam = mk_lam(d)
    if case['order']:
        Tl, Ql = lam.T_layup, lam.Q_layup
    else:
        Ql, Tl = lam.Q_layup, lam.T_layup
    ms, t, Q, z = lam_data(d)
    need(len(Ql) == len(Q) and len(Tl) == len(Q), 'number of entries', len(Ql), len(Tl))
    for k, th in enumerate(d['stacking']):
        same('Q_layup[%d]' % k, Ql[k], Q[k], 1e-8)
        need(len(Tl[k]) == 2, 'T_layup entry', Tl[k])
        same('T_layup[%d] stress' % k, Tl[k][0], T_stress(th), 1e-9)
        same('T_layup[%d] strain' % k, Tl[k][1], T_strain(th), 1e-9)


M = dict(e1=129500., e2=9370., v12=.38, g12=5240., thickness=.2)
FIXED = [dict(lam=dict(stacking=[30, -45, 90, 0, 17.5], mats=[M], plies=None), order=False)]
