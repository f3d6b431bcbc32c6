from common import *


def um(U, xi):
    U1, U2, U3, U4, U5 = U
    x1, x2, x3, x4 = xi
    return np.array([[U1 + U2 * x1 + U3 * x3, U4 - U3 * x3, U2 * x2 / 2 + U3 * x4],
                     [U4 - U3 * x3, U1 - U2 * x1 + U3 * x3, U2 * x2 / 2 - U3 * x4],
                     [U2 * x2 / 2 + U3 * x4, U2 * x2 / 2 - U3 * x4, U5 - U3 * x3]])


def gx(rng, pool):
    return [pool.real(rng, -1, 1) if rng.random() < .8 else rng.choice([0, 1, -1]) for _ in range(4)]


def gen(rng, pool):
    if rng.random() < .4:
        return dict(kind='trip', lam=g_lam(rng, pool, single=True))
    return dict(kind='lp', m=g_mat(rng, pool), xiA=gx(rng, pool) if rng.random() < .7 else None, xiD=gx(rng, pool), T=pool.real(rng, 0.01, 20),
                seq=[rng.choice(['A', 'B', 'D', 'xiA', 'xiD']) for _ in range(7)], arr=rng.random() < .3)


def run(case):
    import composipy
    if case['kind'] == 'trip':
        d = case['lam']
        lam = mk_lam(d)
        h = sum(lam_data(d)[1])
        lp = composipy.LaminateProperty({'xiA': lam.xiA, 'xiD': lam.xiD, 'T': h}, mk_mat(d['mats'][0]))
        A, B, D = oracle_ABD(d)
        same('A of the parameters', lp.A, A, 1e-7)
        same('D of the parameters', lp.D, D, 1e-7)
        return
    m = case['m']
    U = oracle_inv(mat_Q(m))
    T = case['T']
    mk = (lambda x: np.array(x, dtype=float)) if case['arr'] else list
    st = {'xiD': mk(case['xiD']), 'T': T}
    if case['xiA'] is not None:
        st['xiA'] = mk(case['xiA'])
    lp = composipy.LaminateProperty(st, mk_mat(m))
    D = T**3 / 12 * um(U, case['xiD'])
    for q in case['seq']:
        if q == 'D':
            same('D', lp.D, D, 1e-8)
        elif q == 'xiD':
            same('xiD', lp.xiD, case['xiD'], 1e-12)
        elif case['xiA'] is not None and q == 'A':
            same('A', lp.A, T * um(U, case['xiA']), 1e-8)
        elif case['xiA'] is not None and q == 'xiA':
            same('xiA', lp.xiA, case['xiA'], 1e-12)
        elif case['xiA'] is not None and q == 'B':
            need(np.array_equal(np.asarray(lp.B, dtype=float), np.zeros((3, 3))), 'B', lp.B)


M = dict(e1=129500., e2=9370., v12=.38, g12=5240., thickness=.2)
FIXED = [dict(kind='lp', m=M, xiA=[.1, .2, -.3, .4], xiD=[-.5, .3, .2, .1], T=2.5, seq=['A', 'D', 'xiA', 'xiD', 'B', 'A', 'B', 'D'], arr=False),
         dict(kind='trip', lam=dict(stacking=[30, -45, 90, 10], mats=[M], plies=None))]
