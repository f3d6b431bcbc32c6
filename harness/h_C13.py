from common import *
from h_C09 import g_loads, LN, okABD, L1, L2, LA, M
from h_C08 import eqv, copyv

QS = ['eps', 'strain', 'stress', 'margin']


def gen(rng, pool):
    seq = []
    for _ in range(rng.randint(2, 10)):
        if rng.random() < .25:
            seq.append(['set', rng.choice(LN), pool.real(rng, -100, 100)])
        else:
            seq.append([rng.choice(QS)])
    return dict(lam=g_lam(rng, pool, 5, allow=True), loads=g_loads(rng, pool), seq=seq)


def q(st, k):
    return {'eps': st.epsilon0, 'strain': st.calculate_strain, 'stress': st.calculate_stress, 'margin': st.calculate_maxstressmargin}[k]()


def tab(v):
    if isinstance(v, np.ndarray):
        return v.copy()
    return {c: list(v[c]) for c in v.columns}


def eqt(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(eqc(a[c], b[c]) for c in a)
    return eqv(a, b)


def eqc(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x == y or (isinstance(x, float) and isinstance(y, float) and (abs(x - y) <= 1e-11 * max(abs(x), abs(y)) or (x != x and y != y))):
            continue
        return False
    return True


def lamstate(lam):
    return dict(stacking=list(lam.stacking), A=lam.A.copy(), B=lam.B.copy(), D=lam.D.copy(), ABD=lam.ABD.copy(), Q=copyv(lam.Q_layup), T=copyv(lam.T_layup), z=list(lam.z_position))


def run(case):
    from composipy.core.strength import LaminateStrength
    okABD(case['lam'])
    lam = mk_lam(case['lam'])
    L = dict(case['loads'])
    st = LaminateStrength(lam, **L)
    s0 = lamstate(mk_lam(case['lam']))
    hist, kept = [], []
    for op in case['seq']:
        if op[0] == 'set':
            setattr(st, op[1], op[2])
            L[op[1]] = op[2]
        else:
            f = tab(q(LaminateStrength(mk_lam(case['lam']), **L), op[0]))
            v = q(st, op[0])
            g = tab(v)
            need(eqt(g, f), '%s after %s differs from a fresh object' % (op[0], hist), str(g)[:300], str(f)[:300])
            kept.append((op[0], v, g))
        hist.append(op[0])
        for nm, v, g in kept:
            need(eqt(tab(v), g), 'the %s table read earlier changed after %s' % (nm, hist))
        need({k: getattr(st, k) for k in LN} == L, 'loads changed after %s' % hist)
        need(st.dproperty is lam, 'laminate replaced')
    s1 = lamstate(lam)
    for k in s0:
        need(eqv(s0[k], s1[k]), 'laminate %s changed by %s' % (k, hist), s1[k])


MA = dict(M, t1=1500., c1=1200., t2=40., c2=200., s=70.)
LA2 = dict(stacking=[30, -45, 90], mats=[MA, dict(MA, thickness=.5)], plies=[0, 1, 1])
FIXED = [dict(lam=LA2, loads=L1, seq=[[a], [b], [a], [b]]) for a in QS for b in QS]
FIXED += [dict(lam=LA2, loads=L1, seq=[[a], ['set', l, 7.5], [a]]) for a in QS for l in LN]
