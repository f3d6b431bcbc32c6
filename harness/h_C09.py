from common import *

LN = ('Nxx', 'Nyy', 'Nxy', 'Mxx', 'Myy', 'Mxy')


def g_loads(rng, pool):
    d = {}
    for k in LN:
        r = rng.random()
        d[k] = 0 if r < .25 else pool.real(rng, -1e3, 1e3) if r < .8 else rng.choice([1, -1, 100, 0.5])
    return d


def gen(rng, pool):
    return dict(lam=g_lam(rng, pool), loads=g_loads(rng, pool), loads2=g_loads(rng, pool), lam2=g_lam(rng, pool), change=rng.choice(['none', 'loads', 'lam', 'one']),
                between=rng.choice(['', 'strain', 'stress']))


def okABD(d):
    A, B, D = oracle_ABD(d)
    M = np.block([[A, B], [B, D]])
    h = sum(lam_data(d)[1])
    s = np.array([1, 1, 1, h, h, h])
    Mn = M / np.outer(s, s)
    if np.linalg.cond(Mn) > 1e7:
        raise Skip()
    return M


def law(msg, st, d, L):
    M = okABD(d)
    e = np.asarray(st.epsilon0(), dtype=float)
    need(e.shape == (6,), msg + ' shape', e.shape)
    N = np.array([float(L[k]) for k in LN])
    sc = np.abs(M) @ np.abs(e) + np.max(np.abs(N))
    r = M @ e - N
    need(np.all(np.abs(r) <= 1e-6 * sc + 1e-300), msg + ': ABD.eps0 differs from the loads', list(M @ e), list(N))


def run(case):
    from composipy.core.strength import LaminateStrength
    lam = mk_lam(case['lam'])
    L = dict(case['loads'])
    okABD(case['lam'])
    st = LaminateStrength(lam, **L)
    law('first', st, case['lam'], L)
    if case['between'] == 'strain':
        st.calculate_strain()
    elif case['between'] == 'stress':
        st.calculate_stress()
    ch = case['change']
    d = case['lam']
    if ch == 'loads':
        L = dict(case['loads2'])
        for k in LN:
            setattr(st, k, L[k])
    elif ch == 'one':
        k = LN[len(d['stacking']) % 6]
        L[k] = case['loads2'][k] + 1.25
        setattr(st, k, L[k])
    elif ch == 'lam':
        d = case['lam2']
        okABD(d)
        st.dproperty = mk_lam(d)
    law('after ' + ch, st, d, L)
    law('again after ' + ch, st, d, L)


M = dict(e1=129500., e2=9370., v12=.38, g12=5240., thickness=.2)
L1 = dict(Nxx=1., Nyy=2., Nxy=-3., Mxx=.5, Myy=.25, Mxy=-.125)
L2 = dict(Nxx=4., Nyy=-2., Nxy=1., Mxx=-.5, Myy=.75, Mxy=.3)
LA = dict(stacking=[30, -45, 90, 10], mats=[M, dict(M, thickness=.5)], plies=[0, 1, 1, 0])
LB = dict(stacking=[0, 25], mats=[M], plies=None)
FIXED = [dict(lam=LA, loads=L1, loads2=L2, lam2=LB, change=c, between=b) for c in ('none', 'loads', 'lam', 'one') for b in ('', 'strain')]
