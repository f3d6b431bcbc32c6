"""buckling maximisation hands the true load and the feasible region to the optimiser"""
from .optim import *


def s_max(penalty, cons_name):
    def s(u):
        ip = u.ip
        CRIT.calls = []
        cap = Captured()
        ip.hooks['minimize'] = cap.handler
        v = problem(u)
        Tt = V('Tt')
        u.pre(c_lt(0, Tt))
        cons = DictV({k: ListV((I_('TX', 'TZ'),)) for k in ('x0', 'xa', 'y0', 'yb')}) if cons_name == 'dict' else cons_name
        M = the_max(u, v)
        f = u.get('composipy.optimize._maximize_buckling', 'maximize_buckling_load')
        u.call(f, v['a'], v['b'], Tt, v['E1'], v['E2'], v['v12'], v['G12'], v['Nxx'], v['Nyy'], v['Nxy'], v['m'], v['n'], cons, penalty=penalty)
        if not u.fact('one optimiser call', len(cap.calls) == 1, '%d calls' % len(cap.calls)):
            return
        d = cap.calls[0]
        x1, x3 = V('x1'), V('x3')
        y = ArrV((2,), (x1, x3))
        # objective
        n0 = len(CRIT.calls)
        val = u.call(d['fun'], y)
        k = factor_of(u, CRIT, val, -1)
        if k is None:
            k = n0
            u.unknown('objective is minus a critical load factor', 'value %s' % str(val)[:150])
            u.zero('objective is minus the critical load factor', P(ops.topoly(val)) + el('factor', P(n0), ZERO))
        u.fact('objective evaluates a panel', k < len(CRIT.calls), 'no buckling analysis')
        if k < len(CRIT.calls):
            check_crit(u, CRIT.calls[k], v, cons, Tt, x1, x3, M)
        x0 = arrays.arrlike(ip, d['x0'])
        u.fact('two design variables', isinstance(x0, ArrV) and x0.shape == (2,), 'other start')
        # admissible set
        C = conds_of(u, d, y)
        if C is None:
            return
        box = [c_le(-1, x1), c_le(x1, 1), c_le(-1, x3), c_le(x3, 1)]
        g = region(penalty, x1, x3)
        e = F(1, 10000)
        npc = len(ip.pc)
        u.pre(*(box + [c_le(0, q) for q in g]))
        u.cond('the feasible region is admitted', C)
        del ip.pc[npc:]
        u.pre(C)
        for i, (nm, q) in enumerate(zip(('xi1 >= -1', 'xi1 <= 1', 'xi3 >= -1', 'xi3 <= 1'), box)):
            u.cond('admitted points have ' + nm, q)
        for i, q in enumerate(g):
            u.cond('admitted points satisfy limit %d up to 1e-4' % i, c_le(-e, q))
    return s


def region(penalty, x1, x3):
    return [x3 - x1 * 2 + 1, x3 + x1 * 2 + 1] if penalty else [x3 - x1 * x1 * 2 + 1]


def s_inner(u):
    """the penalised region lies inside the natural one"""
    x1, x3 = V('x1'), V('x3')
    u.pre(c_le(-1, x1), c_le(x1, 1))
    u.pre(*[c_le(0, q) for q in region(True, x1, x3)])
    u.cond('penalised region inside the natural one', c_le(0, region(False, x1, x3)[0]))


DOM20 = dict(DOM, a=dom_pos, b=dom_pos, E1=dom_pos, E2=dom_pos, v12=dom_pois, G12=dom_pos, m=lambda r: r.randint(2, 4), n=lambda r: r.randint(2, 4),
             modes=lambda r: 3, x1=lambda r: r.uniform(-1.1, 1.1), x3=lambda r: r.uniform(-1.1, 1.1), **{q: (lambda r: r.uniform(-3, 3)) for q in LOADS3})
UNITS = [UnitSpec('C20/penalty %s, constraints %s' % (p, c), s_max(p, c), dom=DOM20, nonempty=12, limit=200, base=CRIT.contract())
         for p, c in ((True, 'PINNED'), (False, 'CLAMPED'), (True, 'dict'), (False, 'dict'))] + \
        [UnitSpec('C20/regions nested', s_inner, nonempty=1)]
DEPS = ('C06', 'C18', 'C15', 'C17q', 'C14')
ASSUME = ['scipy.optimize.minimize minimises the function it is given over the bounds and constraints it is given']
