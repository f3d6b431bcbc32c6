"""equality of materials and of laminates"""
from .C06 import *

CMP = {'==': 'Eq', '!=': 'NotEq'}
OQ = ('e1', 'e2', 'v12', 'g12', 't', 't1', 'c1', 't2', 'c2', 's')
IQ = ('e', 'v', 'g', 't', 'tt', 'cc', 's')


def material(u, kind, sfx, name=None):
    Q = OQ if kind == 'OrthotropicMaterial' else IQ
    v = [V(q + sfx) for q in Q]
    u.pre(*[c_le(0, x) for q, x in zip(Q, v) if q not in ('v12', 'v')])
    u.pre(*[c_and(c_le(F(-1, 2), x), c_le(x, F(1, 2))) for q, x in zip(Q, v) if q in ('v12', 'v')])
    kw = {'name': name} if name else {}
    return u.call(u.cls(kind), *v, **kw), v


def compare(u, what, x, y, want):
    for nm, a, b in (('', x, y), (', other way round', y, x)):
        u.iff('%s: == holds exactly for equal data%s' % (what, nm), truth(u, '==', a, b), want)
        u.iff('%s: != is the opposite%s' % (what, nm), truth(u, '!=', a, b), c_not(want))


def truth(u, op, a, b):
    return ops.truth(u.ip, ops.compare(u.ip, CMP[op], a, b))


def s_mat(kind, lazy):
    def s(u):
        x, v = material(u, kind, '', 'first')
        y, w = material(u, kind, '_2', 'second')
        if lazy:        # reading the stiffness caches it; equality must not look at it
            u.pre(*[c_lt(0, q) for q in v[:2]])
            if kind == 'OrthotropicMaterial':
                u.pre(c_not(c_eq(v[0] - v[1] * v[2] * v[2], 0)), c_lt(0, v[3]))
            else:
                u.pre(c_lt(0, v[2]))
            u.attr(x, 'Q_0')
        compare(u, 'materials', x, y, c_and(*[c_eq(a, b) for a, b in zip(v, w)]))
        u.cond('reflexive', truth(u, '==', x, x))
    return s


def others(u, kind):
    ip = u.ip
    other = 'IsotropicMaterial' if kind == 'OrthotropicMaterial' else 'OrthotropicMaterial'
    lam = u.call(u.cls('LaminateProperty'), ListV((I_(V('th')),)), material(u, 'OrthotropicMaterial', '_3')[0])
    return [('the other material', material(u, other, '_2')[0]), ('None', None), ('a number', V('x')), ('a string', 'ply'), ('a list', ListV((I_(V('x')),))),
            ('a tuple', (V('x'),)), ('a dictionary', DictV({'e1': V('x')})), ('a laminate', lam), ('the class', u.cls(kind))]


def s_other(kind):
    def s(u):
        x, _ = material(u, kind, '')
        k = u.ip.choose(9)
        nm, y = others(u, kind)[k]
        for op in ('==', '!='):
            r = u.attempt(lambda: ops.compare(u.ip, CMP[op], x, y))
            u.fact('%s %s raises ValueError' % (op, nm), r[0] == 'raise' and r[1].cls is ValueError, str(r)[:100])
    return s


def s_lam(u):
    u.pre(c_le(1, VI('n')))
    x, n = laminate(u, VI('n'), '', allow=True)
    u.pre(c_le(1, VI('n2')))
    y, n2 = laminate(u, VI('n2'), '_2', allow=True)
    k = VI('k')
    same = c_and(c_eq(n, n2), c_forall(n, 'k', c_and(c_eq(el('th', k), el('th_2', k)), *[c_eq(el(q, k), el(q + '_2', k)) for q in OQ])))
    compare(u, 'laminates', x, y, same)


def s_lam1(u):
    u.pre(c_le(1, VI('n')))
    x, n = laminate(u, VI('n'), '', single=True, allow=True)
    u.pre(c_le(1, VI('n2')))
    y, n2 = laminate(u, VI('n2'), '_2', single=True, allow=True)
    k = VI('k')
    same = c_and(c_eq(n, n2), c_forall(n, 'k', c_eq(el('th', k), el('th_2', k))), *[c_eq(V(q), V(q + '_2')) for q in OQ])
    compare(u, 'laminates of one ply', x, y, same)


def s_lp_eq(xa, xb):
    def s(u):
        d, A, D, t = lp_stack(xa)
        d2, A2, D2, t2 = lp_stack(xb, '_2')
        x = u.call(u.cls('LaminateProperty'), d, single_ply(u, '', True))
        y = u.call(u.cls('LaminateProperty'), d2, single_ply(u, '_2', True))
        same = [c_eq(p, q) for p, q in zip(D + [t], D2 + [t2])] + [c_eq(V(q), V(q + '_2')) for q in OQ]
        if xa != xb:
            want = False
        else:
            if xa:
                same += [c_eq(p, q) for p, q in zip(A, A2)]
            want = c_and(*same)
        compare(u, 'lamination parameters', x, y, want)
    return s


def s_mixed(u):
    u.pre(c_le(1, VI('n')))
    x, n = laminate(u, VI('n'), '', single=True)
    d2, A2, D2, t2 = lp_stack(True, '_2')
    y = u.call(u.cls('LaminateProperty'), d2, single_ply(u, '_2'))
    compare(u, 'a stacking and lamination parameters', x, y, False)


KINDS = ('OrthotropicMaterial', 'IsotropicMaterial')
DOM24 = dict(DOM, **{q + s: dom_pos for s in ('', '_2', '_3') for q in OQ + IQ + ('Tt',)})
DOM24.update({q + s: dom_pois for s in ('', '_2', '_3') for q in ('v', 'v12')})
DOM24.update(n2=lam_dom)
UNITS = [UnitSpec('C24/two of %s%s' % (k, ', stiffness read' if l else ''), s_mat(k, l), dom=DOM24, nonempty=5, limit=120) for k in KINDS for l in (False, True)]
UNITS += [UnitSpec('C24/%s with something else' % k, s_other(k), dom=DOM24, nonempty=18, limit=120) for k in KINDS]
UNITS += [UnitSpec('C24/two laminates', s_lam, dom=DOM24, nonempty=4, limit=200), UnitSpec('C24/two laminates of one ply', s_lam1, dom=DOM24, nonempty=4, limit=200),
          UnitSpec('C24/a stacking and lamination parameters', s_mixed, dom=DOM24, nonempty=4, limit=120)]
UNITS += [UnitSpec('C24/lamination parameters %s/%s xiA' % tuple('with' if q else 'without' for q in (a, b)), s_lp_eq(a, b), dom=DOM24, nonempty=4, limit=120)
          for a, b in ((True, True), (False, False), (True, False))]
DEPS = ()
