from common import *
from h_C09 import g_loads, LN, okABD, L1, LA, M

COLS = ['ply', 'z', 'position', 'angle']


def gen(rng, pool):
    return dict(lam=g_lam(rng, pool, 8, allow=True), loads=g_loads(rng, pool), pre=[rng.choice(['strain', 'stress', 'margin', 'eps']) for _ in range(rng.choice([0, 0, 1, 2]))])


def setup(case):
    from composipy.core.strength import LaminateStrength
    d = case['lam']
    Mx = okABD(d)
    st = LaminateStrength(mk_lam(d), **case['loads'])
    N = np.array([float(case['loads'][k]) for k in LN])
    e = np.linalg.solve(Mx, N)
    for p in case['pre']:
        {'strain': st.calculate_strain, 'stress': st.calculate_stress, 'margin': st.calculate_maxstressmargin, 'eps': st.epsilon0}[p]()
    return d, st, e


def layout(df, d, z, margin=False):
    n = len(d['stacking'])
    need(len(df) == 2 * n, 'number of rows', len(df))
    need(list(df.index) == list(range(2 * n)), 'row order', list(df.index))
    need([int(x) for x in df['ply']] == [k + 1 for k in range(n) for _ in 'bt'], 'ply column', list(df['ply']))
    need(list(df['position']) == ['bot', 'top'] * n, 'position column', list(df['position']))
    need([float(x) for x in df['angle']] == [float(a) for a in d['stacking'] for _ in 'bt'], 'angle column', list(df['angle']))
    if not margin:
        same('z column', list(df['z']), [z[k + f] for k in range(n) for f in (0, 1)], 1e-9, z[-1])


def exact(case):
    """rows of (strain xy, strain 12, stress xy, stress 12)"""
    d, st, e = setup(case)
    ms, t, Q, z = lam_data(d)
    rows = []
    for k, th in enumerate(d['stacking']):
        for f in (0, 1):
            g = e[:3] + z[k + f] * e[3:]
            s = Q[k] @ g
            rows.append((g, T_strain(th) @ g, s, T_stress(th) @ s))
    return d, st, e, z, rows


def run(case):
    d, st, e, z, rows = exact(case)
    df = st.calculate_strain()
    layout(df, d, z)
    sc = max(max(np.max(np.abs(r[0])) for r in rows), np.max(np.abs(e[:3])), np.max(np.abs(e[3:])) * z[-1], 1e-300)
    for j, nm in enumerate(('epsilonx', 'epsilony', 'gammaxy')):
        same(nm, list(df[nm]), [r[0][j] for r in rows], 1e-6, sc)
    for j, nm in enumerate(('epsilon1', 'epsilon2', 'gamma12')):
        same(nm, list(df[nm]), [r[1][j] for r in rows], 1e-6, sc)


FIXED = [dict(lam=LA, loads=L1, pre=p) for p in ([], ['strain'], ['stress', 'margin'])]
