"""strength queries do not interfere"""
from .lam import *
from .fix import *
from .C09 import strength, LOADS
from .C10 import eps0_contract

QS = ['calculate_strain', 'calculate_stress', 'calculate_maxstressmargin']


def queries(u, names):
    qs = []
    for n in names:
        qs.append(('%s()' % n, (lambda o, n=n: u.meth(o, n))))
    return qs


def getter_contract():
    """laminate getters: each returns the same value in any state (C08). The value is one persistent object, so that a query
    modifying what a getter returned is seen."""
    def mk(name, build):
        def h(ip, d):
            o = d['self']
            if id(o) != getattr(ip, 'the_lam', None):
                return NotImplemented
            if name not in ip.the_cells:
                return NotImplemented
            return ip.the_cells[name]
        return h
    return {'composipy.core.property:LaminateProperty.' + n: mk(n, None) for n in ('A', 'B', 'D', 'Q_layup', 'z_position')}


def mk_strength(u, single=False):
    def f():
        u.ip.np_zero_split = True
        lam, n = laminate(u, single=single, allow=True)
        sp = Spec(n, single=single)
        k = VI('k')
        u.ip.the_lam = id(lam)
        u.ip.keep = lam
        q = lambda s: el(s, k)
        Qk = ArrV((3, 3), (q('Q11'), q('Q12'), q('Q16'), q('Q12'), q('Q22'), q('Q26'), q('Q16'), q('Q26'), q('Q66')))
        z = mkseq([I_(-sp.T() * F(1, 2)), G_(n, 'k', (I_(sp.z(k + 1)),))])
        cells = {nm: ArrV((3, 3), tuple(V('%s%d%d' % (nm, min(i, j) + 1, max(i, j) + 1)) for i in range(3) for j in range(3))) for nm in 'ABD'}
        cells['Q_layup'] = ListV(mkseq([G_(n, 'k', (I_(u.ip.freeze(Qk, -1)),))]))
        cells['z_position'] = ListV(z)
        u.ip.the_cells = {} if u.inline else cells
        return strength(u, lam)
    return f


def s_fix(names, single=False):
    def s(u):
        fixpoint(u, mk_strength(u, single), queries(u, names))
    return s


def s_all(u):
    """ordered pairs of queries on one object, and the values returned earlier"""
    pairs(u, mk_strength(u), queries(u, QS + ['epsilon0']))


def s_loads(u):
    """after a load is reassigned every query is that of a fresh object with the new load"""
    ip = u.ip
    st = mk_strength(u)()
    lam = ip.getattr(st, 'dproperty')
    names = QS + ['epsilon0']
    new = [V(x + '_new') for x in LOADS]
    fresh = strength(u, lam, loads=new)
    want = {n: frozen(ip, u.meth(fresh, n), -1) for n in names}
    for n in names:
        u.meth(st, n)
    for x, v in zip(LOADS, new):
        ip.setattr(st, x, v)
    for n in names:
        same_value(u, '%s() after the loads are reassigned' % n, u.meth(st, n), want[n])
    for x, v in zip(LOADS, new):
        u.eq('%s unchanged' % x, ip.getattr(st, x), v)


CG = dict(getter_contract(), **q0_contract())
CE = dict(CG, **eps0_contract())
UNITS = [UnitSpec('C13/queries leave no trace: epsilon0', s_fix(['epsilon0']), CG, dom=LAMDOM, nonempty=5, limit=250),
          UnitSpec('C13/queries leave no trace: tables', s_fix(QS), CE, dom=LAMDOM, nonempty=8, limit=280),
          UnitSpec('C13/pairs of queries', s_all, CE, dom=LAMDOM, nonempty=8, limit=280),
          UnitSpec('C13/loads reassigned', s_loads, CE, dom=LAMDOM, nonempty=8, limit=280)]
DEPS = ('C08', 'C09')
ASSUME = ['positive allowables, ABD non-singular']
