"""mid-plane strains satisfy the laminate constitutive law"""
from .lam import *

LOADS = ('Nxx', 'Nyy', 'Nxy', 'Mxx', 'Myy', 'Mxy')


def abd_of(ip, o):
    """the laminate's ABD: symmetric 6x6 (C05), a function of the laminate"""
    it = ip.ntag.get(id(o)) if hasattr(ip, 'ntag') else None
    if it is None:
        return NotImplemented
    return ArrV((6, 6), tuple(V('M%s%d%d' % (it, min(i, j) + 1, max(i, j) + 1)) for i in range(6) for j in range(6)))


def abd_contract():
    return {'composipy.core.property:LaminateProperty.ABD': lambda ip, d: abd_of(ip, d['self'])}


def tag(u, o, name):
    if not hasattr(u.ip, 'ntag'):
        u.ip.ntag = {}
    u.ip.ntag[id(o)] = name
    u.ip.keepalive = getattr(u.ip, 'keepalive', []) + [o]


def strength(u, lam, sfx='', loads=None, positional=False):
    vals = [V(x + sfx) for x in LOADS] if loads is None else loads
    if positional:
        return u.call(u.cls('LaminateStrength'), lam, *vals)
    return u.call(u.cls('LaminateStrength'), dproperty=lam, **dict(zip(LOADS, vals)))


def law(u, msg, st, lam, N):
    """ABD . e = N, by e = X N with X the inverse of ABD: Sum_j M_ij e_j - N_i = Sum_k (Sum_j M_ij X_jk - [i=k]) N_k, and M X = I
    is the defining property of the inverse (the certificate below subtracts exactly these zero terms)"""
    e = u.meth(st, 'epsilon0')
    M = u.attr(lam, 'ABD')
    if not u.fact(msg + ': six components', isinstance(e, ArrV) and e.shape == (6,), 'not an array of 6: %s' % type(e).__name__):
        return
    rows = [[P(M.flat[6 * i + j]) for j in range(6)] for i in range(6)]
    X = arrays.inv_entries(rows, 6)
    for i in range(6):
        lhs = sum((rows[i][j] * P(e.flat[j]) for j in range(6)), ZERO) - P(N[i])
        cert = ZERO
        for k in range(6):
            r = sum((rows[i][j] * X[6 * j + k] for j in range(6)), ZERO) - (1 if i == k else 0)
            cert = cert + r * P(N[k])
        u.zero('%s: ABD row %d . eps0 = %s' % (msg, i + 1, LOADS[i]), lhs - cert)


def s_law(u):
    lam, n = laminate(u)
    tag(u, lam, '')
    for pos in (False, True):
        st = strength(u, lam, positional=pos)
        law(u, 'fresh' + (' (positional)' if pos else ''), st, lam, [V(x) for x in LOADS])
        law(u, 'asked again', st, lam, [V(x) for x in LOADS])


def s_default(u):
    lam, n = laminate(u)
    tag(u, lam, '')
    for i, x in enumerate(LOADS):
        st = u.call(u.cls('LaminateStrength'), lam, **{x: V(x)})
        law(u, 'only %s' % x, st, lam, [V(x) if j == i else 0 for j in range(6)])
    st = u.call(u.cls('LaminateStrength'), lam)
    law(u, 'no load', st, lam, [0] * 6)


def s_reassign(u):
    lam, n = laminate(u)
    tag(u, lam, '')
    st = strength(u, lam)
    u.meth(st, 'epsilon0')
    now = [V(x) for x in LOADS]
    for i, x in enumerate(LOADS):
        now[i] = V(x + "_new")
        u.ip.setattr(st, x, now[i])
        law(u, 'after %s is reassigned' % x, st, lam, now)
    lam2, _ = laminate(u, n, sfx="'")
    tag(u, lam2, "'")
    u.ip.setattr(st, 'dproperty', lam2)
    law(u, 'after the laminate is replaced', st, lam2, now)


C = abd_contract()
UNITS = [UnitSpec('C09/constitutive law', s_law, C, dom=LAMDOM, nonempty=21),
         UnitSpec('C09/loads left out are zero', s_default, C, dom=LAMDOM, nonempty=49),
         UnitSpec('C09/current loads and laminate', s_reassign, C, dom=LAMDOM, nonempty=49)]
DEPS = ('C05',)
ASSUME = ['ABD is non-singular', 'numpy.linalg.inv returns the exact inverse (real arithmetic)']
