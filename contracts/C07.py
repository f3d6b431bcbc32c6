"""xiA, xiD of a stacking and the region they lie in"""
from .lam import *


def s_xi(w, single=False):
    def s(u):
        lam, n = laminate(u, single=single)
        sp = Spec(n, single=single)
        name = 'xiA' if w == 1 else 'xiD'
        u.arr(name, u.attr(lam, name), sp.xi(w))
    return s


UNITS = [UnitSpec('C07/%s%s' % ('xiA' if w == 1 else 'xiD', ', one ply material' if s else ''), s_xi(w, s), dom=LAMDOM, nonempty=5, limit=150)
         for w in (1, 3) for s in (False, True)]


def s_weights(u):
    """the weights of both means are non-negative and sum to one"""
    n, k = VI('n'), VI('k')
    sp = Spec(n)
    u.pre(c_le(1, n), c_le(0, k), c_lt(k, n))
    u.zero('sum of t_k / T = 1', mk_sum(n, 'k', sp.t(k)) * inverse(sp.T()) - 1)
    u.zero('sum of 4 (z_{k+1}^3 - z_k^3) / T^3 = 1 (telescoping)', (sp.z(n) ** 3 - sp.z(ZERO) ** 3) * 4 * inverse(sp.T()) ** 3 - 1)
    z, t, TT = V('z'), V('t'), V('T')
    u.pre(c_lt(0, t), c_lt(0, TT))
    u.cond('4 ((z+t)^3 - z^3) is non-negative', c_le(0, ((z + t) ** 3 - z ** 3) * 4))


def s_bound(u):
    """invariant over the plies: |sum_{k<j} w_k x_k| <= sum_{k<j} w_k"""
    Pj, W, w, x = V('P'), V('W'), V('w'), V('x')
    u.cond('base', c_and(c_le(0, ZERO), c_le(-ZERO, ZERO)))
    u.pre(c_le(Pj, W), c_le(-W, Pj), c_le(0, w), c_le(x, 1), c_le(-1, x))
    u.cond('step, upper', c_le(Pj + w * x, W + w))
    u.cond('step, lower', c_le(-(W + w), Pj + w * x))


def s_parabola(u):
    """invariant over the plies: (sum w)(sum w c^2) >= (sum w c)^2; with sum w = 1 and cos 4t = 2 cos^2 2t - 1 it is xi3 >= 2 xi1^2 - 1"""
    a = V('t')
    c2 = T.cos(rad(a) * 2)
    u.zero('cos 4t = 2 cos^2 2t - 1', T.cos(rad(a) * 4) - c2 * c2 * 2 + 1)
    W, S, Pj, w, c = V('W'), V('S'), V('P'), V('w'), V('c')
    u.pre(c_le(0, W), c_le(0, S), c_le(Pj * Pj, W * S), c_le(0, w))
    d = S - Pj * c * 2 + W * c * c
    u.zero('growth of the invariant', (W + w) * (S + w * c * c) - (Pj + w * c) ** 2 - (W * S - Pj * Pj) - w * d)
    u.cond('W d >= (P - W c)^2', c_le((Pj - W * c) ** 2, W * d))
    u.cond('d >= 0 when W = 0', c_or(c_lt(0, W), c_le(0, d)))
    u.cond('d >= 0', c_le(0, d))
    u.pre(c_eq(W, 1))
    u.cond('xi3 >= 2 xi1^2 - 1', c_le(Pj * Pj * 2 - 1, S * 2 - 1))


UNITS += [UnitSpec('C07/weights (lemma)', s_weights, dom=LAMDOM, nonempty=3),
          UnitSpec('C07/components in [-1, 1] (lemma)', s_bound, nonempty=3),
          UnitSpec('C07/third >= 2 first^2 - 1 (lemma)', s_parabola, nonempty=6)]
DEPS = ('C04',)
ASSUME = ['plies of positive thickness; |cos|, |sin| <= 1']
