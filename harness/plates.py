"""plates: cases, bases, energy forms and eigenvalues, independently of the package"""
from common import *
from bardell import If, fval

EDGES = ('x0', 'xa', 'y0', 'yb')
DOF = ('TX', 'TY', 'TZ', 'RX', 'RY', 'RZ')
NAMED = {'free': [], 'pinned': ['TX', 'TY', 'TZ'], 'simply_supported': ['TX', 'TY', 'TZ'], 'clamped': list(DOF), 'fixed': list(DOF)}


def g_cons(rng, pool, supported=False):
    r = rng.random()
    if r < .15:
        return rng.choice(['PINNED', 'CLAMPED'])
    if r < .45:
        names = [n for n in NAMED if not supported or n != 'free' or rng.random() < .3]
        c = {}
        for e in EDGES:
            n = rng.choice(names)
            c[e] = rng.choice([n, n, n.upper(), n.capitalize(), n.title()])
        if supported:
            c['x0'] = rng.choice(['clamped', 'pinned'])
            c['yb'] = rng.choice(['clamped', 'PINNED'])
        return c
    c = {e: [d for d in rng.sample(DOF, 6) if rng.random() < .5] for e in EDGES}
    if supported:
        for e in ('x0', 'xa', 'y0') if rng.random() < .6 else EDGES:
            if 'TZ' not in c[e]:
                c[e].append('TZ')
    if rng.random() < .15:
        c = {e: tuple(v) for e, v in c.items()}
    return c


def lists(c):
    if c == 'PINNED':
        return {e: NAMED['pinned'] for e in EDGES}
    if c == 'CLAMPED':
        return {e: NAMED['clamped'] for e in EDGES}
    return {e: (NAMED[v.lower()] if isinstance(v, str) else list(v)) for e, v in ((e, c[e]) for e in EDGES)}


def bases(c, m, n):
    """{'u': [(i, j)...], ...}"""
    L = lists(c)
    out = {}
    for f, t, r in (('u', 'TX', 'RX'), ('v', 'TY', 'RY'), ('w', 'TZ', 'RZ')):
        def ax(lo, hi, size):
            drop = set()
            for e, val, sl in ((lo, 0, 1), (hi, 2, 3)):
                if t in L[e]:
                    drop.add(val)
                if r in L[e]:
                    drop.add(sl)
            return [i for i in range(size + 4) if i not in drop][:size]
        X, Y = ax('x0', 'xa', m), ax('y0', 'yb', n)
        out[f] = [(i, j) for i in X for j in Y]
    return out


def g_plate(rng, pool, mmax=5, nmax=5, supported=False, lo=1):
    big = rng.random() < .5
    if rng.random() < .35:
        prop = dict(kind='lp', m=g_mat(rng, pool), xiD=None, T=pool.real(rng, 0.1, 5))
        x1 = rng.uniform(-.9, .9)
        prop['xiD'] = [x1, rng.uniform(-.2, .2), rng.uniform(2 * x1 * x1 - 1, 1), rng.uniform(-.2, .2)]
        prop['xiA'] = [0.1, 0.2, 0.3, -0.1]
    else:
        prop = dict(kind='lam', lam=g_lam(rng, pool, 6))
    a = pool.real(rng, 10, 1000) if big else pool.real(rng, 0.5, 4)
    b = a * pool.real(rng, 0.3, 3) if rng.random() < .85 else a
    N = {k: (0 if rng.random() < .3 else pool.real(rng, -3, 3)) for k in ('Nxx', 'Nyy', 'Nxy')}
    return dict(prop=prop, a=a, b=b, cons=g_cons(rng, pool, supported), m=rng.randint(lo, mmax), n=rng.randint(lo, nmax), **N)


def mk_prop(p):
    import composipy
    if p['kind'] == 'lam':
        return mk_lam(p['lam'])
    st = {'xiD': list(p['xiD']), 'T': p['T']}
    if p.get('xiA'):
        st['xiA'] = list(p['xiA'])
    return composipy.LaminateProperty(st, mk_mat(p['m']))


def abd(p):
    if p['kind'] == 'lam':
        return oracle_ABD(p['lam'])
    import h_C06
    U = oracle_inv(mat_Q(p['m']))
    D = p['T']**3 / 12 * h_C06.um(U, p['xiD'])
    A = p['T'] * h_C06.um(U, p['xiA']) if p.get('xiA') else np.zeros((3, 3))
    return A, np.zeros((3, 3)), D


def mk_plate(c):
    import composipy
    return composipy.PlateStructure(mk_prop(c['prop']), c['a'], c['b'], c['cons'], Nxx=c['Nxx'], Nyy=c['Nyy'], Nxy=c['Nxy'], m=c['m'], n=c['n'])


def strains(a, b, f):
    """field -> list of (component, factor, d_xi, d_eta); components: ex, ey, gxy, kx, ky, kxy"""
    return {'u': [(0, 2 / a, 1, 0), (2, 2 / b, 0, 1)],
            'v': [(1, 2 / b, 0, 1), (2, 2 / a, 1, 0)],
            'w': [(3, -4 / a**2, 2, 0), (4, -4 / b**2, 0, 2), (5, -8 / (a * b), 1, 1)]}[f]


def block(M6, a, b, f, g, P, Q):
    K = np.zeros((len(P), len(Q)))
    for c1, k1, dx1, dy1 in strains(a, b, f):
        for c2, k2, dx2, dy2 in strains(a, b, g):
            w = M6[c1, c2] * k1 * k2 * a * b / 4
            if w:
                K += w * np.array([[If(dx1, dx2, i, k) * If(dy1, dy2, j, l) for k, l in Q] for i, j in P])
    return K


def KG_w(c, P):
    a, b = c['a'], c['b']
    G = np.zeros((len(P), len(P)))
    for w, t in ((c['Nxx'] * b / a, [(1, 1, 0, 0)]), (c['Nyy'] * a / b, [(0, 0, 1, 1)]), (c['Nxy'], [(1, 0, 0, 1), (0, 1, 1, 0)])):
        for dx1, dx2, dy1, dy2 in t:
            G += w * np.array([[If(dx1, dx2, i, k) * If(dy1, dy2, j, l) for k, l in P] for i, j in P])
    return G


def oracle_bend(c):
    A, B, D = abd(c['prop'])
    M6 = np.block([[A, B], [B, D]])
    P = bases(c['cons'], c['m'], c['n'])['w']
    return block(M6, c['a'], c['b'], 'w', 'w', P, P), KG_w(c, P), P


def oracle_full(c):
    A, B, D = abd(c['prop'])
    M6 = np.block([[A, B], [B, D]])
    S = bases(c['cons'], c['m'], c['n'])
    K = [[block(M6, c['a'], c['b'], f, g, S[f], S[g]) for g in 'uvw'] for f in 'uvw']
    return K, KG_w(c, S['w']), S


M = dict(e1=129500., e2=9370., v12=.38, g12=5240., thickness=.2)
LAM = dict(kind='lam', lam=dict(stacking=[30, -45, 90, 10], mats=[M, dict(M, thickness=.5)], plies=[0, 1, 1, 0]))
LPP = dict(kind='lp', m=M, xiD=[.3, .1, -.4, .05], xiA=[.1, .2, .3, -.1], T=1.5)
FREE = {'x0': ['TZ', 'RX'], 'xa': ['TX', 'RZ'], 'y0': ['TY', 'TZ'], 'yb': ['RY', 'RZ', 'TX']}
