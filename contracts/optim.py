"""scenarios over the two optimisation routines: what is handed to scipy's minimize, as functions of a generic design point"""
from .C06 import *
from pyvc import ext, ext2
from pyvc.prove import all_atoms

LOADS3 = ('Nxx', 'Nyy', 'Nxy')


class Crit:
    """contract of PlateStructure.buckling_analysis (C18): the first factor is the critical load factor of the plate it is called on;
    every call is recorded with the data of its plate"""

    def __init__(self):
        self.calls = []

    def contract(self):
        def h(ip, d):
            o = d['self']
            lam = ip.getattr(o, 'dproperty')
            k = len(self.calls)
            self.calls.append(dict(D=ip.getattr(lam, 'D'), cons=ip.getattr(o, 'constraints'), **{q: ip.getattr(o, q) for q in ('a', 'b', 'm', 'n') + LOADS3}))
            kk = VI('modes')
            return SymArr((kk,), ('j',), el('factor', P(k), VI('j'))), SymArr((P(o_len(ip, o)), kk), ('p', 'j'), el('X', P(k), VI('p'), VI('j')))
        return {'composipy.core.structure:PlateStructure.buckling_analysis': h}


def o_len(ip, o):
    return P(ip.getattr(o, 'm')) * P(ip.getattr(o, 'n'))


CRIT = Crit()


class Captured:
    def __init__(self):
        self.calls = []

    def handler(self, ip, a, kw):
        names = ('fun', 'x0', 'args', 'method', 'jac', 'hess', 'hessp', 'bounds', 'constraints', 'tol', 'callback', 'options')
        d = dict(zip(names, a))
        d.update(kw)
        if d.get('args') not in (None, ()):
            raise Unsupported('extra arguments of the objective')
        self.calls.append(d)
        return ext2.FxObj('result')


def problem(u):
    """generic panel and material"""
    v = {q: V(q) for q in ('a', 'b', 'E1', 'E2', 'v12', 'G12') + LOADS3}
    u.pre(*[c_lt(0, v[q]) for q in ('a', 'b', 'E1', 'E2', 'G12')])
    u.pre(c_le(F(-1, 2), v['v12']), c_le(v['v12'], F(1, 2)), c_le(1, VI('modes')))
    u.pre(c_not(c_eq(v['E1'] - v['E2'] * v['v12'] * v['v12'], 0)))
    u.pre(c_or(*[c_not(c_eq(v[q], 0)) for q in LOADS3]))
    m, n = VI('m'), VI('n')
    u.pre(c_le(1, m), c_le(1, n), c_le(3, m * n))
    return dict(v, m=m, n=n)


def absv(x):
    return T.ite(c_le(0, x), x, -x)


def maxload(v):
    r = absv(v['Nxx'])
    for q in ('Nyy', 'Nxy'):
        x = absv(v[q])
        r = T.ite(c_le(r, x), x, r)
    return r


def the_max(u, v):
    """the largest absolute load, as a plain term on this path"""
    ip = u.ip
    ab = []
    for q in LOADS3:
        ab.append(v[q] if ip.decide(c_le(0, v[q])) else -v[q])
    r = ab[0]
    for x in ab[1:]:
        if ip.decide(c_lt(r, x)):
            r = x
    return r


def D_spec(v, Tt, x1, x3):
    U = invariants(Q_ortho(v['E1'], v['E2'], v['v12'], v['G12']))
    return [[P(x) * Tt ** 3 * F(1, 12) for x in r] for r in UM(U, [x1, ZERO, x3, ZERO])]


def check_crit(u, c, v, cons, Tt, x1, x3, M):
    """call record c is the panel of the statement under the loads divided by the largest absolute load"""
    u.arr('bending stiffness of the panel', c['D'], D_spec(v, Tt, x1, x3))
    for q in ('a', 'b', 'm', 'n'):
        u.zero('panel ' + q, P(ops.topoly(c[q])) - v[q])
    for q in LOADS3:
        u.zero('%s is the given load over the largest' % q, P(ops.topoly(c[q])) * M - v[q])
    u.fact('boundary conditions as given', c['cons'] is cons or (isinstance(cons, str) and c['cons'] == cons), 'other constraints')


def factor_of(u, crit, val, sign):
    """index of the call whose critical factor times sign is val"""
    val = P(ops.topoly(val))
    fs = [a for a in all_atoms(val) if a.kind == 'el' and a.args[0] == 'factor']
    if len(fs) != 1:
        return None
    k, j = fs[0].args[1]
    k, j = P(k).const(), P(j)
    if k is None or not is_zero(j) or not is_zero(val - T.apoly(fs[0]) * sign):
        return None
    return int(k)


def conds_of(u, d, y):
    """condition: design point y satisfies the bounds and constraints handed over"""
    ip = u.ip
    cs = []

    def rng(x, lo, hi):
        for b, f in ((lo, lambda b: c_le(b, x)), (hi, lambda b: c_le(x, b))):
            if b is None or isinstance(b, Special):
                if b is NAN or (b is INF and b is lo) or (b is NINF and b is hi):
                    raise Unsupported('empty range')
                continue
            cs.append(f(P(ops.topoly(b))))
    ys = list(y.flat)
    b = d.get('bounds')
    if b is not None:
        if isinstance(b, ext2.RecV):
            lb, ub = [rec(b, i, nm) for i, nm in enumerate(('lb', 'ub'))]
            for i, x in enumerate(ys):
                g = lambda w: w if ops.is_num(w) else ops.getitem(ip, w, i)
                rng(x, g(lb), g(ub))
        else:
            bs = ops.unpack(ip, b, None, None)
            if not u.fact('one bound per variable', len(bs) == len(ys), '%d bounds' % len(bs)):
                return None
            for x, p in zip(ys, bs):
                lo, hi = [ops.getitem(ip, p, i) for i in (0, 1)]
                rng(x, lo, hi)
    con = d.get('constraints', ())
    con = [con] if isinstance(con, (ext2.RecV, DictV)) else ops.unpack(ip, con, None, None)
    for c in con:
        if isinstance(c, DictV):
            if c.d.get('args') not in (None, ()):
                raise Unsupported('extra arguments of a constraint')
            v = scalar(u.call(c.d['fun'], y))
            if c.d['type'] == 'ineq':
                cs.append(c_le(0, v))
            else:
                cs.append(c_eq(v, 0))
        elif c.name == 'NonlinearConstraint':
            v = scalar(u.call(rec(c, 0, 'fun'), y))
            rng(v, rec(c, 1, 'lb'), rec(c, 2, 'ub'))
        elif c.name == 'LinearConstraint':
            A = arrays.arrlike(ip, rec(c, 0, 'A'))
            lb, ub = rec(c, 1, 'lb', None), rec(c, 2, 'ub', None)
            if len(A.shape) == 1:
                A = ArrV((1,) + A.shape, A.flat)
            for i in range(A.shape[0]):
                v = ZERO
                for j, x in enumerate(ys):
                    v = v + P(A.flat[i * A.shape[1] + j]) * x
                g = lambda w: w if w is None or ops.is_num(w) or isinstance(w, Special) else ops.getitem(ip, w, i)
                rng(v, g(lb), g(ub))
        else:
            raise Unsupported('constraint ' + c.name)
    return c_and(*cs)


def scalar(v):
    if arrays.is_arr(v) and isinstance(v, ArrV) and len(v.flat) == 1:
        v = v.flat[0]
    return P(ops.topoly(v))


def rec(r, i, nm, *dflt):
    if nm in r.kw:
        return r.kw[nm]
    if i < len(r.args):
        return r.args[i]
    if dflt:
        return dflt[0]
    raise Unsupported('constraint without ' + nm)
