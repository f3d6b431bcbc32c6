"""constructors accept exactly the documented ranges"""
from .lam import *
from pyvc.ext import atom_floor


def adm(name, lo=None, hi=None):
    """name converts to a real number (possibly infinite) in [lo, hi]"""
    x = V(name)
    pinf, ninf = c_bool('pinf', name), c_bool('ninf', name)
    fin = c_and(c_not(pinf), c_not(ninf), *([c_le(lo, x)] if lo is not None else []), *([c_le(x, hi)] if hi is not None else []))
    cases = [fin]
    if hi is None:
        cases.append(pinf)
    if lo is None:
        cases.append(c_and(ninf, c_not(pinf)))
    return c_and(c_not(c_bool('bad', name)), c_not(c_bool('nan', name)), c_or(*cases))


def stored(u, what, got, name):
    """the stored value is the number the argument converts to"""
    if u.ip.decide(c_bool('pinf', name)):
        return u.fact(what, got is INF, 'stores %s instead of infinity' % (got,))
    if u.ip.decide(c_bool('ninf', name)):
        return u.fact(what, got is NINF, 'stores %s instead of minus infinity' % (got,))
    if isinstance(got, Special):
        return u.fact(what, False, 'stores %s' % got)
    return u.eq(what, got, V(name))


def outcome(u, fn, good, what, after, exc=ValueError):
    st, r = u.attempt(fn)
    if st == 'raise':
        ok = u.fact('%s: rejection is a %s' % (what, exc.__name__), isinstance(r.cls, type) and issubclass(r.cls, exc), 'raises %r' % (r,))
        if ok:
            u.cond('%s: rejects only inadmissible arguments' % what, c_not(good))
        return
    u.cond('%s: accepts only admissible arguments' % what, good)
    after(r)


O = [('e1', 0, None), ('e2', 0, None), ('v12', F(-1, 2), F(1, 2)), ('g12', 0, None), ('thickness', 0, None), ('t1', 0, None), ('c1', 0, None),
     ('t2', 0, None), ('c2', 0, None), ('s', 0, None)]
ISO = [('e', 0, None), ('v', F(-1, 2), F(1, 2)), ('g', 0, None), ('thickness', 0, None), ('t', 0, None), ('c', 0, None), ('s', 0, None)]


def s_mat(cls, ps, how):
    def s(u):
        args = {p: AnyV('x_' + p) for p, lo, hi in ps}
        if 'e1' in args:
            u.pre(c_or(c_bool('bad', 'x_e1'), c_bool('nan', 'x_e1'), c_bool('pinf', 'x_e1'), c_bool('ninf', 'x_e1'), c_not(c_eq(V('x_e1'), 0))))
        if how != 'required':
            u.pre(*[c_not(c_bool(q, 'x_' + p)) for p, lo, hi in ps for q in ('pinf', 'ninf')])
        req = 5 if 'e1' in args else 4
        if how == 'required':
            ps2 = ps[:req]
        else:
            ps2 = ps
        good = c_and(*[adm('x_' + p, lo, hi) for p, lo, hi in ps2])
        if how == 'positional':
            fn = lambda: u.call(u.cls(cls), *[args[p] for p, lo, hi in ps2])
        else:
            fn = lambda: u.call(u.cls(cls), **{p: args[p] for p, lo, hi in ps2})

        def after(o):
            for p, lo, hi in ps2:
                stored(u, '%s stored' % p, u.attr(o, p), 'x_' + p)
            for p, lo, hi in ps[len(ps2):]:
                u.eq('%s defaults to 0' % p, u.attr(o, p), 0)
        outcome(u, fn, good, cls, after)
    return s


def s_one(cls, ps):
    """one argument arbitrary (infinite ones included), the others admissible numbers"""
    def s(u):
        args = {}
        for p, lo, hi in ps:
            args[p] = V('x_' + p)
            u.pre(c_le(lo, args[p]), *([c_le(args[p], hi)] if hi is not None else []))
        u.pre(c_lt(0, V('x_' + ps[0][0])))
        p, lo, hi = ps[u.ip.choose(len(ps))]
        args[p] = AnyV('y')
        if p == 'e1':
            u.pre(c_not(c_eq(V('y'), 0)))

        def after(o):
            for q, _, _ in ps:
                stored(u, '%s stored' % q, u.attr(o, q), 'y') if q == p else u.eq('%s stored' % q, u.attr(o, q), args[q])
        outcome(u, lambda: u.call(u.cls(cls), **args), adm('y', lo, hi), '%s of %s' % (p, cls), after)
    return s


def dprop(u):
    """a laminate property object, built by the real constructor"""
    d = DictV({'xiD': ListV((I_(ZERO, ZERO, ZERO, ZERO),)), 'T': V('Tt')})
    return u.call(u.cls('LaminateProperty'), d, single_ply(u))


def s_plate(p):
    lo = {'a': 0, 'b': 0, 'm': 1, 'n': 1}.get(p)

    def s(u):
        args = {'a': V('a'), 'b': V('b'), 'Nxx': V('Nx'), 'Nyy': V('Ny'), 'Nxy': V('Nz'), 'm': VI('m'), 'n': VI('n')}
        u.pre(c_le(0, V('a')), c_le(0, V('b')), c_le(1, VI('m')), c_le(1, VI('n')))
        args[p] = AnyV('x')
        good = adm('x', lo, None)
        if p in 'mn':
            good = c_and(good, c_not(c_bool('pinf', 'x')), c_eq(V('x'), atom_floor(V('x'))))
        fn = lambda: u.call(u.cls('PlateStructure'), dprop(u), **args)

        def after(o):
            for q in args:
                if q != p:
                    u.eq('%s stored' % q, u.attr(o, q), args[q])
            stored(u, '%s stored' % p, u.attr(o, p), 'x')
            if p in 'mn':
                v = u.attr(o, p)
                u.fact('%s stored as an int' % p, isinstance(v, int) or P(v).is_int(), 'stored as %s' % (v,))
        outcome(u, fn, good, 'PlateStructure', after)
    return s


def s_prop(u):
    """dproperty: a composipy property or nothing"""
    kind = u.ip.choose(6)
    what = [dprop, lambda u: single_ply(u), lambda u: None, lambda u: 'x', lambda u: V('r'), lambda u: u.cls('LaminateProperty')][kind](u)
    good = True if kind == 0 else False
    fn = lambda: u.call(u.cls('PlateStructure'), what, V('a'), V('b'))
    u.pre(c_le(0, V('a')), c_le(0, V('b')))
    outcome(u, fn, good, 'dproperty', lambda o: u.fact('dproperty stored', u.attr(o, 'dproperty') is what))


def s_defaults(u):
    u.pre(c_le(0, V('a')), c_le(0, V('b')))
    o = u.call(u.cls('PlateStructure'), dprop(u), V('a'), V('b'))
    for q, w in (('Nxx', 0), ('Nyy', 0), ('Nxy', 0), ('m', 10), ('n', 10)):
        u.eq('%s default' % q, u.attr(o, q), w)


def s_plies(tup):
    def s(u):
        n, m = VI('n'), VI('m')
        u.pre(c_le(0, n), c_le(0, m))
        k = VI('k')
        seq = mkseq([G_(n, 'k', (I_(el('th', k)),))])
        facts(u, m)
        st = ops.SeqTuple(seq) if tup else ListV(seq)
        pl = ListV(mkseq([G_(m, 'k', (I_(ply_template(u, k)),))]))
        outcome(u, lambda: u.call(u.cls('LaminateProperty'), st, pl), c_eq(n, m), 'list of plies', lambda o: u.fact('stacking stored', u.attr(o, 'stacking') is st))
    return s


def s_dict(u):
    """any subset of the keys"""
    keys = ['xiA', 'xiB', 'xiD', 'T']
    d = {}
    for k in keys:
        if u.ip.choose(2):
            d[k] = V('Tt') if k == 'T' else ListV((I_(*[V('%s%d' % (k, i)) for i in (1, 2, 3, 4)]),))
    good = True if 'xiD' in d and 'T' in d else False
    outcome(u, lambda: u.call(u.cls('LaminateProperty'), DictV(d), single_ply(u)), good, 'lamination-parameter dict', lambda o: None, KeyError)


DOM = dict(LAMDOM, Tt=dom_pos)
UNITS = [UnitSpec('C02/%s %s' % (c, h), s_mat(c, ps, h), dom=DOM, nonempty=5)
         for c, ps in (('OrthotropicMaterial', O), ('IsotropicMaterial', ISO)) for h in ('positional', 'keywords', 'required')]
UNITS += [UnitSpec('C02/%s, one arbitrary argument' % c, s_one(c, ps), dom=DOM, nonempty=20) for c, ps in (('OrthotropicMaterial', O), ('IsotropicMaterial', ISO))]
UNITS += [UnitSpec('C02/plate ' + p, s_plate(p), dom=DOM, nonempty=5) for p in ('a', 'b', 'Nxx', 'Nyy', 'Nxy', 'm', 'n')]
UNITS += [UnitSpec('C02/plate dproperty', s_prop, dom=DOM, nonempty=2), UnitSpec('C02/plate defaults', s_defaults, dom=DOM, nonempty=5),
          UnitSpec('C02/list of plies', s_plies(False), dom=DOM, nonempty=2), UnitSpec('C02/list of plies, tuple stacking', s_plies(True), dom=DOM, nonempty=2),
          UnitSpec('C02/lamination-parameter keys', s_dict, dom=DOM, nonempty=2)]
ASSUME = ['e1 = 0 excluded (v21 = v12 e2/e1 is undefined there)',
          'an argument is modelled by the outcome of float(): an exception, nan, +inf, -inf, or a real number']
