from common import *


def gen(rng, pool):
    d = g_lam(rng, pool)
    if rng.random() < .35:      # symmetric about the mid-plane, possibly with a middle ply
        n = rng.randint(1, 5)
        k = len(d['mats'])
        th = [pool.angle(rng) for _ in range(n)]
        pl = [rng.randrange(k) for _ in range(n)]
        odd = rng.random() < .5
        d['stacking'] = th + th[::-1][(1 if odd else 0):]
        d['plies'] = pl + pl[::-1][(1 if odd else 0):]
        d['sym'] = True
    return dict(lam=d, names=rng.sample(['A', 'B', 'D', 'ABD'], 4))


def run(case):
    d = case['lam']
    lam = mk_lam(d)
    A, B, D = oracle_ABD(d)
    h = sum(lam_data(d)[1])
    s = np.max(np.abs(A))
    want = dict(A=A, B=B, D=D, ABD=np.block([[A, B], [B, D]]))
    sc = dict(A=s, B=s * h, D=s * h * h)
    for nm in case['names']:
        g = np.asarray(getattr(lam, nm), dtype=float)
        if nm == 'ABD':
            need(g.shape == (6, 6), 'ABD shape', g.shape)
            for (r, c), q in {(0, 0): 'A', (0, 3): 'B', (3, 0): 'B', (3, 3): 'D'}.items():
                same('ABD block ' + q, g[r:r + 3, c:c + 3], want[q], 1e-8, sc[q])
        else:
            same(nm, g, want[nm], 1e-8, sc[nm])
            same(nm + ' symmetric', g, g.T, 1e-9, sc[nm])
            if nm == 'B' and d.get('sym'):
                same('B of a symmetric stacking', g, np.zeros((3, 3)), 1e-9, sc['B'])


M = dict(e1=129500., e2=9370., v12=.38, g12=5240., thickness=.2)
FIXED = [dict(lam=dict(stacking=[30, -45, 90, 10], mats=[M, dict(M, thickness=.5)], plies=[0, 1, 1, 0]), names=['ABD', 'B', 'A', 'D'])]
