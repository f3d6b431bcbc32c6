from common import *
from plates import *


def gen(rng, pool):
    return g_plate(rng, pool)


def run(c):
    K0, G0, P = oracle_bend(c)
    p = mk_plate(c)
    K, G = p.calc_K_KG_D()
    n = c['m'] * c['n']
    K, G = np.asarray(K, dtype=float), np.asarray(G, dtype=float)
    need(K.shape == (n, n) and G.shape == (n, n), 'shape', K.shape, G.shape)
    A, B, D = abd(c['prop'])
    a, b = c['a'], c['b']
    sK = np.max(np.abs(D)) * (4 * b / a**3 + 8 / (a * b) + 4 * a / b**3 + 8 / a**2 + 8 / b**2)
    sK = np.maximum(np.abs(K0), 1e-3 * sK) + 1e-2 * sK
    need(np.all(np.abs(K - K0) <= 2e-6 * sK), 'K is not the bending energy form', float(np.max(np.abs(K - K0) / sK)), np.unravel_index(np.argmax(np.abs(K - K0) / sK), K.shape))
    sG = abs(c['Nxx']) * b / a + abs(c['Nyy']) * a / b + abs(c['Nxy'])
    need(np.all(np.abs(G - G0) <= 1e-6 * (np.abs(G0) + sG) + 1e-300), 'KG is not the load potential', float(np.max(np.abs(G - G0))))
    need([tuple(x) for x in p.sw_idx] == P, 'retained deflection functions', p.sw_idx[:6], P[:6])


FIXED = [dict(prop=LAM, a=3., b=2., cons=FREE, m=4, n=3, Nxx=1., Nyy=-2., Nxy=.5), dict(prop=LPP, a=300., b=500., cons='PINNED', m=3, n=5, Nxx=-1., Nyy=0, Nxy=.25),
         dict(prop=LAM, a=3., b=2., cons='CLAMPED', m=1, n=2, Nxx=1., Nyy=-2., Nxy=.5),
         dict(prop=LAM, a=3., b=2., cons={e: [] for e in EDGES}, m=7, n=6, Nxx=1., Nyy=-2., Nxy=.5)]
