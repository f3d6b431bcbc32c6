from common import *
from plates import *


def gen(rng, pool):
    return g_plate(rng, pool, 4, 4)


def run(c):
    Kb, G0, S = oracle_full(c)
    p = mk_plate(c)
    K, G = p.calc_K_KG_ABD()
    n = c['m'] * c['n']
    K, G = np.asarray(K, dtype=float), np.asarray(G, dtype=float)
    need(K.shape == (3 * n, 3 * n) and G.shape == (3 * n, 3 * n), 'shape', K.shape, G.shape)
    A, B, D = abd(c['prop'])
    a, b = c['a'], c['b']
    sA = np.max(np.abs(A)) * (a / b + b / a + 1)
    h = np.sqrt(np.max(np.abs(D)) / max(np.max(np.abs(A)), 1e-300))
    sD = np.max(np.abs(D)) * (4 * b / a**3 + 8 / (a * b) + 4 * a / b**3)
    sB = max(np.max(np.abs(B)), np.max(np.abs(A)) * h * 1e-6) * (b / a**2 + a / b**2 + 1 / a + 1 / b) if np.max(np.abs(A)) > 0 else 1e-300
    for r, f in enumerate('uvw'):
        for q, g in enumerate('uvw'):
            got = K[r * n:(r + 1) * n, q * n:(q + 1) * n]
            s = sD if f == g == 'w' else sB if 'w' in (f, g) else sA
            d = np.abs(got - Kb[r][q])
            need(np.all(d <= 2e-6 * (np.abs(Kb[r][q]) + s) + 1e-300), 'block %s%s of K is not the energy form' % (f, g), float(np.max(d)), [int(x) for x in np.unravel_index(np.argmax(d), d.shape)])
            gg = G[r * n:(r + 1) * n, q * n:(q + 1) * n]
            if f == g == 'w':
                sG = abs(c['Nxx']) * b / a + abs(c['Nyy']) * a / b + abs(c['Nxy'])
                need(np.all(np.abs(gg - G0) <= 1e-6 * (np.abs(G0) + sG) + 1e-300), 'KG block ww')
            else:
                need(not np.any(gg), 'KG block %s%s is not zero' % (f, g))
    for nm, f in (('su_idx', 'u'), ('sv_idx', 'v'), ('sw_idx', 'w')):
        need([tuple(x) for x in getattr(p, nm)] == S[f], nm)


FIXED = [dict(prop=LAM, a=3., b=2., cons=FREE, m=3, n=2, Nxx=1., Nyy=-2., Nxy=.5), dict(prop=LPP, a=300., b=500., cons='PINNED', m=2, n=3, Nxx=-1., Nyy=0, Nxy=.25),
         dict(prop=LAM, a=2., b=5., cons='CLAMPED', m=3, n=3, Nxx=1., Nyy=-2., Nxy=.5),
         dict(prop=LAM, a=3., b=2., cons={e: [] for e in EDGES}, m=4, n=5, Nxx=1., Nyy=-2., Nxy=.5)]
