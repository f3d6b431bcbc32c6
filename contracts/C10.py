"""ply strain table"""
from .lam import *
from .C09 import strength, LOADS

COLS = ('ply', 'z', 'position', 'angle')


def eps0_contract(names=('e1_', 'e2_', 'e3_', 'k1_', 'k2_', 'k3_')):
    """epsilon0 returns the six mid-plane strains and curvatures, a function of the laminate and the loads held (C09)"""
    def h(ip, d):
        o = d['self']
        args = tuple(P(ops.topoly(ip.getattr(o, x))) for x in LOADS)
        return ArrV((6,), tuple(T.app(x, *args) for x in names))
    return {'composipy.core.strength:LaminateStrength.epsilon0': h}


def fields(loads=None):
    args = tuple(P(x) for x in (loads or [V(x) for x in LOADS]))
    f = [T.app(x, *args) for x in ('e1_', 'e2_', 'e3_', 'k1_', 'k2_', 'k3_')]
    return f[:3], f[3:]


def column(u, df, c):
    if not u.fact('table has column %s' % c, isinstance(df, FrameDF) and c in df.d, 'no column %s' % c):
        raise Stop('no column %s' % c)
    s = df.d[c]
    return s if isinstance(s, ListV) else ListV(s.seq if isinstance(s, SeriesV) else s)


def layout(u, df, n, k, sp, with_z=True):
    """2n rows; rows 2k and 2k+1 are the bottom and top face of ply k; returns cell(column, face)"""
    ip = u.ip

    def cell(c, face):
        return ops.getitem(ip, column(u, df, c), P(k) * 2 + face)
    for c in COLS if with_z else ('ply', 'position', 'angle'):
        u.eq('column %s has two rows per ply' % c, seq_len(ops.as_seq(ip, column(u, df, c))), P(n) * 2)
    for f in (0, 1):
        u.eq('ply number, face %d' % f, cell('ply', f), k + 1)
        u.eq('position label, face %d' % f, cell('position', f), ('bot', 'top')[f])
        u.eq('angle, face %d' % f, cell('angle', f), sp.th(k))
        if with_z:
            u.eq('z, face %d' % f, cell('z', f), sp.z(k + f))
    return cell


def generic_ply(u, n):
    k = VI('i')
    u.pre(c_le(0, k), c_lt(k, n))
    return k


def mv(M, x):
    return [sum((P(M[i][j]) * x[j] for j in range(3)), ZERO) for i in range(3)]


def face_strain(sp, k, f, loads=None):
    e, kap = fields(loads)
    return [e[i] + sp.z(k + f) * kap[i] for i in range(3)]


def s_strain(single):
    def s(u):
        lam, n = laminate(u, single=single)
        sp = Spec(n, single=single)
        st = strength(u, lam)
        df = u.meth(st, 'calculate_strain')
        k = generic_ply(u, n)
        cell = layout(u, df, n, k, sp)
        for f in (0, 1):
            x = face_strain(sp, k, f)
            c, s_ = sp.cs(k)
            m = mv(strain_matrix(c, s_), x)
            for q, w in zip(('epsilonx', 'epsilony', 'gammaxy', 'epsilon1', 'epsilon2', 'gamma12'), x + m):
                u.eq('%s, face %d' % (q, f), cell(q, f), w)
    return s


C = dict(q0_contract(), **eps0_contract())
UNITS = [UnitSpec('C10/strain table, list of plies', s_strain(False), C, dom=LAMDOM, nonempty=20, limit=200),
         UnitSpec('C10/strain table, one ply material', s_strain(True), C, dom=LAMDOM, nonempty=20, limit=200)]
DEPS = ('C09', 'C04')
ASSUME = ['laminate defined by a stacking of at least one ply, ABD non-singular']
