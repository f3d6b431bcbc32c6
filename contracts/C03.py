"""Q_layup, T_layup"""
from .lam import *


def s_q(u, single=False):
    lam, n = laminate(u, single=single)
    sp = Spec(n, single=single)
    Q = u.attr(lam, 'Q_layup')
    u.eq('one matrix per ply', ops.seq_len(ops.as_seq(u.ip, Q)), n)
    k = VI('i')
    u.pre(c_le(0, k), c_lt(k, n))
    u.arr('Q_layup[k]', at(u, Q, k), sp.Qb(k))


def s_t(u, single=False):
    lam, n = laminate(u, single=single)
    sp = Spec(n, single=single)
    Ts = u.attr(lam, 'T_layup')
    u.eq('one pair per ply', ops.seq_len(ops.as_seq(u.ip, Ts)), n)
    k = VI('i')
    u.pre(c_le(0, k), c_lt(k, n))
    pair = at(u, Ts, k)
    c, s = sp.cs(k)
    u.eq('a pair', ops.seq_len(ops.as_seq(u.ip, pair)), 2)
    u.arr('T_layup[k][0] (stress)', at(u, pair, 0), stress_matrix(c, s))
    u.arr('T_layup[k][1] (engineering strain)', at(u, pair, 1), strain_matrix(c, s))


def s_law(u):
    """T^-1 Q R T R^-1 with R = diag(1,1,2) is the closed form (identity of the specification)"""
    c, s = T.cos(rad(V('th'))), T.sin(rad(V('th')))
    Ts, Te = stress_matrix(c, s), strain_matrix(c, s)
    Q = [[V('q11'), V('q12'), ZERO], [V('q12'), V('q22'), ZERO], [ZERO, ZERO, V('q66')]]
    Qb = Qbar(Q, c, s)
    mul = lambda A, B: [[sum((P(A[i][k]) * B[k][j] for k in range(3)), ZERO) for j in range(3)] for i in range(3)]
    L, R = mul(Ts, Qb), mul(Q, Te)
    for i in range(3):
        for j in range(3):
            u.zero('T Qbar = Q (R T R^-1) [%d,%d]' % (i, j), L[i][j] - R[i][j])
            u.zero('R T R^-1 [%d,%d]' % (i, j), P(Te[i][j]) * (F(2) if j == 2 else 1) - P(Ts[i][j]) * (F(2) if i == 2 else 1))


C = q0_contract()
UNITS = [UnitSpec('C03/Q_layup, list of plies', s_q, C, dom=LAMDOM, nonempty=10, limit=120),
         UnitSpec('C03/Q_layup, one ply material', lambda u: s_q(u, True), C, dom=LAMDOM, nonempty=10, limit=120),
         UnitSpec('C03/T_layup, list of plies', s_t, dom=LAMDOM, nonempty=20),
         UnitSpec('C03/T_layup, one ply material', lambda u: s_t(u, True), dom=LAMDOM, nonempty=20),
         UnitSpec('C03/closed form is the transformation law', s_law, dom=MATDOM, nonempty=18)]
DEPS = ('C01',)
ASSUME = ['plies of positive moduli with e1 != e2*v12^2; at least one ply']
