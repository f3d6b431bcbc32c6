"""A, B, D, ABD of a stacking"""
from .lam import *


def s_mat(w, single=False):
    def s(u):
        lam, n = laminate(u, single=single)
        sp = Spec(n, single=single)
        name = 'ABD'[w - 1]
        M = u.attr(lam, name)
        want = sp.mat(w)
        u.arr(name, M, want)
        if isinstance(M, ArrV) and M.shape == (3, 3):
            for i in range(3):
                for j in range(i):
                    u.zero('%s symmetric [%d,%d]' % (name, i, j), P(M.flat[3 * i + j]) - P(M.flat[3 * j + i]))
    return s


def mat_contract(sfx='', names='ABD'):
    """A, B, D getters return the matrices of the laminate (established by C05/A, C05/B, C05/D)"""
    def mk(nm):
        def h(ip, d):
            return ArrV((3, 3), tuple(V('%s%s%d%d' % (nm, sfx, min(i, j) + 1, max(i, j) + 1)) for i in range(3) for j in range(3)))
        return h
    return {'composipy.core.property:LaminateProperty.' + nm: mk(nm) for nm in names}


def s_abd(u):
    lam, n = laminate(u)
    M = u.attr(lam, 'ABD')
    if u.inline:
        sp = Spec(n)
        A, B, D = sp.mat(1), sp.mat(2), sp.mat(3)
    else:
        A, B, D = [[[V('%s%d%d' % (nm, min(i, j) + 1, max(i, j) + 1)) for j in range(3)] for i in range(3)] for nm in 'ABD']
    u.arr('ABD', M, [A[i] + B[i] for i in range(3)] + [B[i] + D[i] for i in range(3)])


def s_sym(u):
    """lemma over the proved form of B: t(n-1-k) = t(k) and Qbar(n-1-k) = Qbar(k) for all k give B = 0.
    Induction on k gives z(n-k) = -z(k); then the terms of plies k and n-1-k cancel (the middle one with itself)."""
    n, k = VI('n'), VI('k')
    sp = Spec(n)
    u.pre(c_le(1, n))
    u.zero('base: z(n) = -z(0)', sp.z(n) + sp.z(ZERO))
    u.pre(c_le(0, k), c_lt(k, n))
    u.zero('recurrence: z(k+1) = z(k) + t(k)', sp.z(k + 1) - sp.z(k) - sp.t(k))
    zk, t, q = V('z_k'), V('t_k'), V('Qbar_k')
    zk1 = zk + t                # recurrence at k
    znk = -zk                   # induction hypothesis
    znk1 = znk - t              # recurrence at n-1-k, with t(n-1-k) = t(k)
    u.zero('step: z(n-k-1) = -z(k+1)', znk1 + zk1)
    u.zero('plies k and n-1-k cancel', q * (zk1 ** 2 - zk ** 2) + q * (znk ** 2 - znk1 ** 2))
    mid = {'z_k': V('t_k') * F(-1, 2)}      # k = n-1-k: z(k+1) = -z(k)
    u.zero('the middle ply contributes zero', subst(q * (zk1 ** 2 - zk ** 2), mid))


C = q0_contract()
UNITS = [UnitSpec('C05/%s%s' % ('ABD'[w - 1], ', one ply material' if s else ''), s_mat(w, s), C, dom=LAMDOM, nonempty=13, limit=150)
         for w in (1, 2, 3) for s in (False, True)]
UNITS += [UnitSpec('C05/ABD block', s_abd, mat_contract(), dom=LAMDOM, nonempty=37, limit=150),
          UnitSpec('C05/B vanishes for symmetric stackings (lemma)', s_sym, dom=LAMDOM, nonempty=5)]
DEPS = ('C01', 'C03', 'C04')
ASSUME = ['plies of positive moduli with e1 != e2*v12^2; at least one ply']
