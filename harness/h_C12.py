from common import *
import h_C10
from h_C10 import layout, setup

KEYS = ['margin_t1', 'margin_c1', 'margin_t2', 'margin_c2', 'margin_s']


def gen(rng, pool):
    c = h_C10.gen(rng, pool)
    if rng.random() < .3:       # exact zeros of the stress
        for k in list(c['loads']):
            if rng.random() < .6:
                c['loads'][k] = 0
        c['lam']['stacking'] = [rng.choice([0, 90]) for _ in c['lam']['stacking']]
    return c


def run(case):
    d, st, e = setup(case)
    ms, t, Q, z = lam_data(d)
    df = st.calculate_maxstressmargin()
    ss = st.calculate_stress()
    n = len(t)
    need(len(ss) == 2 * n, 'stress rows', len(ss))
    layout(df, d, z, True)
    for q in ('ply', 'position', 'angle'):
        need(list(df[q]) == list(ss[q]), 'column %s differs from the stress table' % q, list(df[q]), list(ss[q]))
    for i in range(2 * n):
        m = ms[i // 2]
        s1, s2, s12 = (float(ss[q].iloc[i]) for q in ('sigma1', 'sigma2', 'tau12'))
        inf = float('inf')
        want = [m['t1'] / s1 - 1 if s1 > 0 else inf, m['c1'] / -s1 - 1 if s1 < 0 else inf, m['t2'] / s2 - 1 if s2 > 0 else inf,
                m['c2'] / -s2 - 1 if s2 < 0 else inf, m['s'] / abs(s12) - 1 if s12 != 0 else inf]
        got = [float(df[k].iloc[i]) for k in KEYS]
        for k, g, w in zip(KEYS, got, want):
            need(g == w or abs(g - w) <= 1e-9 * (1 + abs(w)), 'row %d %s' % (i, k), g, w, (s1, s2, s12))
        mn = min(want)
        cr = df['critical'].iloc[i]
        if mn < inf:
            need(cr in KEYS and want[KEYS.index(cr)] <= mn + 1e-9 * (1 + abs(mn)), 'row %d critical' % i, cr, want)
        else:
            need(cr in KEYS, 'row %d critical' % i, cr)


MA = dict(h_C10.M, t1=1500., c1=1200., t2=40., c2=200., s=70.)
LA = dict(stacking=[30, -45, 90, 10], mats=[MA, dict(MA, thickness=.5, t1=900., s=55.)], plies=[0, 1, 1, 0])
Z = dict(Nxx=0, Nyy=0, Nxy=0, Mxx=0, Myy=0, Mxy=0)
FIXED = [dict(lam=LA, loads=h_C10.L1, pre=[]), dict(lam=LA, loads=Z, pre=[]), dict(lam=LA, loads=dict(Z, Nxy=-0.0), pre=[]), dict(lam=LA, loads=dict(Z, Nxx=1), pre=[]),
         dict(lam=dict(LA, stacking=[0, 90, 90, 0]), loads=dict(Z, Nxx=-1), pre=[]), dict(lam=dict(LA, stacking=[0, 90, 90, 0]), loads=dict(Z, Mxx=-1), pre=['stress']),
         dict(lam=dict(LA, stacking=[0, 0, 90, 90]), loads=dict(Z, Nyy=-1, Mxy=2), pre=['stress'])]
