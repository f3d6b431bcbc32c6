"""laminates defined by lamination parameters"""
from .lam import *


def lp_stack(xa=True, sfx=''):
    xd = [V('d%d%s' % (i, sfx)) for i in (1, 2, 3, 4)]
    xiA = [V('a%d%s' % (i, sfx)) for i in (1, 2, 3, 4)]
    d = {'xiD': ListV((I_(*xd),)), 'T': V('Tt' + sfx)}
    if xa:
        d['xiA'] = ListV((I_(*xiA),))
    return DictV(d), xiA, xd, V('Tt' + sfx)


def UM(Us, xi):
    U1, U2, U3, U4, U5 = Us
    x1, x2, x3, x4 = xi
    a12, a16, a26 = U4 - U3 * x3, U2 * x2 * F(1, 2) + U3 * x4, U2 * x2 * F(1, 2) - U3 * x4
    return [[U1 + U2 * x1 + U3 * x3, a12, a16], [a12, U1 - U2 * x1 + U3 * x3, a26], [a16, a26, U5 - U3 * x3]]


def Us(u, sfx=''):
    return invariants(Q_ortho(*[V(q + sfx) for q in ('e1', 'e2', 'v12', 'g12')]))


def s_lp(u, xa=True):
    ply = single_ply(u)
    d, xiA, xiD, Tt = lp_stack(xa)
    lam = u.call(u.cls('LaminateProperty'), d, ply)
    Uv = Us(u)
    sc = lambda M, f: [[P(x) * f for x in r] for r in M]
    if xa:
        u.arr('A = T U(xiA)', u.attr(lam, 'A'), sc(UM(Uv, xiA), Tt))
        u.arr('xiA as given', u.attr(lam, 'xiA'), xiA)
    u.arr('D = T^3/12 U(xiD)', u.attr(lam, 'D'), sc(UM(Uv, xiD), Tt ** 3 * F(1, 12)))
    u.arr('B = 0', u.attr(lam, 'B'), [[0] * 3] * 3)
    u.arr('xiD as given', u.attr(lam, 'xiD'), xiD)
    if xa:
        u.arr('A again, after B', u.attr(lam, 'A'), sc(UM(Uv, xiA), Tt))


def s_round(w):
    def s(u):
        lam, n = laminate(u, single=True)
        ply = u.attr(lam, 'plies')
        sp = Spec(n, single=True)
        xa, xd = u.attr(lam, 'xiA'), u.attr(lam, 'xiD')
        lam2 = u.call(u.cls('LaminateProperty'), DictV({'xiA': xa, 'xiD': xd, 'T': sp.T()}), single_ply(u))
        nm = 'A' if w == 1 else 'D'
        M, N = u.attr(lam, nm), u.attr(lam2, nm)
        u.arr('%s of the parameters = %s of the stacking' % (nm, nm), N, M)
    return s


DOM = dict(LAMDOM, Tt=dom_pos)
UNITS = [UnitSpec('C06/xiA, xiD and T', s_lp, dom=DOM, nonempty=40),
         UnitSpec('C06/xiD and T', lambda u: s_lp(u, False), dom=DOM, nonempty=20),
         UnitSpec('C06/round trip A', s_round(1), q0_contract(), dom=DOM, nonempty=10, limit=150),
         UnitSpec('C06/round trip D', s_round(3), q0_contract(), dom=DOM, nonempty=10, limit=150)]
DEPS = ('C01',)
ASSUME = ['ply moduli positive with e1 != e2*v12^2']
