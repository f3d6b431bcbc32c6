"""full ABD plate matrices are the coupled Ritz energy forms"""
from .C15 import *


def any_laminate(u):
    lam, n = laminate(u, VI('np'))
    return lam


def s_full(u):
    lam = any_laminate(u)
    p = plate(u, lam)
    K, KG = u.meth(p, 'calc_K_KG_ABD')
    A = u.attr(lam, 'ABD')
    M = [[P(A.flat[6 * i + j]) for j in range(6)] for i in range(6)]
    a, b, mn = V('a'), V('b'), VI('m') * VI('n')
    if not (shape_ok(u, 'K', K, mn * 3) and shape_ok(u, 'KG', KG, mn * 3)):
        return
    (i, j, pq), (k, l, rs) = digits(u, (('i', 'j'), ('k', 'l')))
    for r, f in enumerate('uvw'):
        lf = u.attr(p, 's%s_idx' % f)
        u.eq('as many retained functions of %s as rows' % f, seq_len(ops.as_seq(u.ip, lf)), mn)
        P1 = pair(u, lf, pq)
        for c, g in enumerate('uvw'):
            lg = u.attr(p, 's%s_idx' % g)
            P2 = pair(u, lg, rs)
            row, col = mn * r + pq, mn * c + rs
            v, w = entry(u, K, row, col), entry(u, KG, row, col)
            u.eq('K[%s,%s] is the energy form' % (f, g), v, energy(f, g, M, a, b, P1, P2))
            want = load_form(a, b, P1, P2, V('Nxx'), V('Nyy'), V('Nxy')) if f == g == 'w' else ZERO
            u.eq('KG[%s,%s] is the load potential' % (f, g), w, want)
            u.eq('K[%s,%s] symmetric' % (f, g), v, entry(u, K, col, row))
            u.eq('KG[%s,%s] symmetric' % (f, g), w, entry(u, KG, col, row))


UNITS = [UnitSpec('C16/coupled stiffness and geometric matrices', s_full, CALL, dom=DOM, nonempty=40, limit=90, base=II)]
DEPS = ('C05', 'C14', 'C17q')
ASSUME = ['the tabulated integrals are taken exact (C14: within 1e-8)', 'a, b > 0']
