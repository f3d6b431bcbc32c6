from common import *
from plates import *
import matplotlib
matplotlib.use('Agg')


def gen(rng, pool):
    c = g_plate(rng, pool, 4, 4, True, 2)
    c['m'] = max(c['m'], 3)
    c['Nxx'] = -1. if rng.random() < .7 else 1.
    c['nx'], c['ny'] = rng.choice([(5, 5), (4, 7), (7, 4), (2, 3), (3, 2), (6, 6), (2, 9), (20, 3)])
    c['nth'] = rng.choice([0, 0, 1, 2])
    c['pre'] = rng.choice(['none', 'buckling', 'plot'])
    return c


def plot(p, nth, nx, ny):
    import matplotlib.pyplot as plt
    from mpl_toolkits.mplot3d import Axes3D
    got = []
    orig = Axes3D.plot_surface
    show = plt.show

    def cap(self, X, Y, Z, *a, **k):
        got.append((np.array(X, dtype=float), np.array(Y, dtype=float), np.array(Z, dtype=float)))
        return orig(self, X, Y, Z, *a, **k)
    Axes3D.plot_surface = cap
    plt.show = lambda *a, **k: None
    try:
        p.plot_eigenvalue(nth=nth, ngridx=nx, ngridy=ny)
    finally:
        Axes3D.plot_surface = orig
        plt.show = show
        plt.close('all')
    need(len(got) == 1, 'number of surfaces', len(got))
    return got[0]


def run(c):
    K0, G0, P = oracle_bend(c)
    w = np.linalg.eigvalsh(K0)
    if w[0] <= 1e-9 * w[-1]:
        raise Skip()
    if min(5, len(P) - 2) <= c['nth']:
        raise Skip()
    p = mk_plate(c)
    if c['pre'] == 'buckling':
        p.buckling_analysis()
    elif c['pre'] == 'plot':
        plot(p, 0, 3, 3)
    nx, ny = c['nx'], c['ny']
    X, Y, Z = plot(p, c['nth'], nx, ny)
    need(p.eigenvector is not None, 'no eigenvector')
    v = np.asarray(p.eigenvector)[:, c['nth']]
    need(X.shape == Y.shape == Z.shape and X.size == nx * ny, 'grid', X.shape, Y.shape, Z.shape)
    xs, ys = np.linspace(0, c['a'], nx), np.linspace(0, c['b'], ny)
    same('x coordinates', np.sort(np.unique(np.round(X / c['a'], 9))), xs / c['a'], 1e-7)
    same('y coordinates', np.sort(np.unique(np.round(Y / c['b'], 9))), ys / c['b'], 1e-7)
    pts = {(round(x / c['a'], 7), round(y / c['b'], 7)) for x, y in zip(X.ravel(), Y.ravel())}
    need(len(pts) == nx * ny, 'grid points', len(pts))
    sc = np.max(np.abs(v))
    for x, y, z in zip(X.ravel(), Y.ravel(), Z.ravel()):
        xi, eta = 2 * x / c['a'] - 1, 2 * y / c['b'] - 1
        w = sum(q * fval(i, xi) * fval(j, eta) for q, (i, j) in zip(v, P))
        need(abs(w - z) <= 1e-6 * sc, 'height at (%g, %g)' % (x, y), float(z), float(w))


FIXED = [dict(prop=LAM, a=300., b=200., cons='PINNED', m=4, n=3, Nxx=-1., Nyy=0, Nxy=0, nx=nx, ny=ny, nth=t, pre=q)
         for nx, ny, t, q in ((5, 5, 0, 'none'), (4, 7, 1, 'buckling'), (7, 4, 2, 'none'))]
FIXED += [dict(prop=LAM, a=300., b=200., cons=FREE | {'xa': ['TZ']}, m=4, n=3, Nxx=-1., Nyy=.3, Nxy=.2, nx=5, ny=3, nth=1, pre='none')]
