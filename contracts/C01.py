"""Ply stiffness Q_0 and Invariants()."""
from .common import *

ALLOW = ('t1', 'c1', 't2', 'c2', 's')


def ortho(u, allow=True, name=None):
    e1, e2, v12, g12, t = V('e1'), V('e2'), V('v12'), V('g12'), V('t')
    u.pre(c_lt(0, e1), c_lt(0, e2), c_lt(0, g12), c_lt(0, t), c_le(F(-1, 2), v12), c_le(v12, F(1, 2)))
    # the compliance is invertible exactly when e1 != e2*v12^2 (definedness of the specification)
    u.pre(c_not(c_eq(e1 - e2 * v12 * v12, 0)))
    kw = {}
    if allow:
        for n in ALLOW:
            kw[n] = V(n)
            u.pre(c_le(0, kw[n]))
    if name:
        kw['name'] = name
    return u.call(u.cls('OrthotropicMaterial'), e1, e2, v12, g12, t, **kw)


def iso(u, allow=True):
    e, v, g, t = V('e'), V('v'), V('g'), V('t')
    u.pre(c_lt(0, e), c_lt(0, g), c_lt(0, t), c_le(F(-1, 2), v), c_le(v, F(1, 2)))
    kw = {}
    if allow:
        for n, q in (('t', 'ta'), ('c', 'ca'), ('s', 'sa')):
            kw[n] = V(q)
            u.pre(c_le(0, kw[n]))
    return u.call(u.cls('IsotropicMaterial'), e, v, g, t, **kw)


def s_ortho(u):
    o = ortho(u)
    for n in ('e1', 'e2', 'v12', 'g12') + ALLOW:
        u.eq('reads back ' + n, u.attr(o, n), V(n))
    u.eq('reads back thickness', u.attr(o, 'thickness'), V('t'))
    u.zero('v21/e2 = v12/e1', P(u.attr(o, 'v21')) * V('e1') - V('v12') * V('e2'))
    Q = Q_ortho(V('e1'), V('e2'), V('v12'), V('g12'))
    u.arr('Q_0', u.attr(o, 'Q_0'), Q)
    q = u.attr(o, 'Q_0')
    S = [[inverse(V('e1')), -V('v12') * inverse(V('e1')), ZERO], [-V('v12') * inverse(V('e1')), inverse(V('e2')), ZERO],
         [ZERO, ZERO, inverse(V('g12'))]]
    if isinstance(q, ArrV) and q.shape == (3, 3):
        for i in range(3):
            for j in range(3):
                r = ZERO
                for k in range(3):
                    r = r + P(q.flat[3 * i + k]) * S[k][j]
                u.zero('Q_0 . compliance = I [%d,%d]' % (i, j), r - (1 if i == j else 0))
    u.arr('Invariants', u.meth(o, 'Invariants'), invariants(Q))


def s_ortho_min(u):
    o = ortho(u, allow=False, name='x')
    for n in ALLOW:
        u.eq('default allowable ' + n, u.attr(o, n), 0)
    u.eq('name as given', u.attr(o, 'name'), 'x')


def s_iso(u):
    o = iso(u)
    for n, q in (('e', 'e'), ('v', 'v'), ('g', 'g'), ('thickness', 't'), ('t', 'ta'), ('c', 'ca'), ('s', 'sa')):
        u.eq('reads back ' + n, u.attr(o, n), V(q))
    u.arr('Q_0', u.attr(o, 'Q_0'), Q_ortho(V('e'), V('e'), V('v'), V('g')))


def s_iso_min(u):
    o = iso(u, allow=False)
    u.eq('thickness', u.attr(o, 'thickness'), V('t'))
    u.arr('Q_0', u.attr(o, 'Q_0'), Q_ortho(V('e'), V('e'), V('v'), V('g')))


def s_names(u):
    o = ortho(u, allow=False)
    n1 = u.attr(o, 'name')
    n2 = u.attr(o, 'name')
    u.eq('generated name is stable', n1, n2)


UNITS = [
    UnitSpec('C01/orthotropic', s_ortho, dom=MATDOM, nonempty=20),
    UnitSpec('C01/orthotropic without allowables', s_ortho_min, dom=MATDOM, nonempty=5),
    UnitSpec('C01/isotropic', s_iso, dom=MATDOM, nonempty=12),
    UnitSpec('C01/isotropic from e, v, g, thickness', s_iso_min, dom=MATDOM, nonempty=9),
    UnitSpec('C01/generated name', s_names, dom=MATDOM),
]
ASSUME = ['moduli strictly positive and e1 != e2*v12^2 (the compliance of the statement is otherwise undefined)']
