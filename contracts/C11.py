"""ply stress table"""
from .C10 import *


def s_stress(single):
    def s(u):
        lam, n = laminate(u, single=single)
        sp = Spec(n, single=single)
        st = strength(u, lam)
        df = u.meth(st, 'calculate_stress')
        k = generic_ply(u, n)
        cell = layout(u, df, n, k, sp)
        for f in (0, 1):
            c, s_ = sp.cs(k)
            x = mv(sp.Qb(k), face_strain(sp, k, f))
            m = mv(stress_matrix(c, s_), x)
            for q, w in zip(('sigmax', 'sigmay', 'tauxy', 'sigma1', 'sigma2', 'tau12'), x + m):
                u.eq('%s, face %d' % (q, f), cell(q, f), w)
    return s


def s_q0(u):
    """lemma: rotated stress = Q_0 . rotated strain"""
    c, s = T.cos(rad(V('th'))), T.sin(rad(V('th')))
    Q = [[V('q11'), V('q12'), ZERO], [V('q12'), V('q22'), ZERO], [ZERO, ZERO, V('q66')]]
    x = [V('ex'), V('ey'), V('gxy')]
    a = mv(stress_matrix(c, s), mv(Qbar(Q, c, s), x))
    b = mv(Q, mv(strain_matrix(c, s), x))
    for i in range(3):
        u.zero('T Qbar eps = Q_0 eps12 [%d]' % i, a[i] - b[i])


UNITS = [UnitSpec('C11/stress table, list of plies', s_stress(False), C, dom=LAMDOM, nonempty=20, limit=250),
         UnitSpec('C11/stress table, one ply material', s_stress(True), C, dom=LAMDOM, nonempty=20, limit=250),
         UnitSpec('C11/material-axis stress is Q_0 times material-axis strain (lemma)', s_q0, dom=LAMDOM, nonempty=3)]
DEPS = ('C09', 'C04', 'C03')
