"""weight minimisation: T^3 over the panels that carry the applied load"""
from .C20 import *


def s_min(cons_name):
    def s(u):
        ip = u.ip
        CRIT.calls = []
        cap = Captured()
        ip.hooks['minimize'] = cap.handler
        v = problem(u)
        cons = DictV({k: ListV((I_('TX', 'TZ'),)) for k in ('x0', 'xa', 'y0', 'yb')}) if cons_name == 'dict' else cons_name
        M = the_max(u, v)
        f = u.get('composipy.optimize._minimize_panel_weight', 'minimize_panel_weight')
        u.call(f, v['a'], v['b'], v['E1'], v['E2'], v['v12'], v['G12'], v['Nxx'], v['Nyy'], v['Nxy'], v['m'], v['n'], panel_constraint=cons)
        if not u.fact('one optimiser call', len(cap.calls) == 1, '%d calls' % len(cap.calls)):
            return
        d = cap.calls[0]
        Tt, x1, x3 = V('Tt'), V('x1'), V('x3')
        u.pre(c_lt(0, Tt))
        y = ArrV((3,), (Tt, x1, x3))
        u.zero('objective is T^3', scalar(u.call(d['fun'], y)) - Tt ** 3)
        x0 = arrays.arrlike(ip, d['x0'])
        u.fact('three design variables', isinstance(x0, ArrV) and x0.shape == (3,), 'other start')
        CRIT.calls = []
        C = conds_of(u, d, y)
        if C is None:
            return
        fs = sorted({P(a.args[1][0]).const() for a in all_atoms((C,)) if a.kind == 'el' and a.args[0] == 'factor'}, key=str)
        if not u.fact('the load constraint evaluates one panel', len(fs) == 1 and len(CRIT.calls) == 1, 'critical load factors in the constraints: %d' % len(fs)):
            return
        check_crit(u, CRIT.calls[int(fs[0])], v, cons, Tt, x1, x3, M)
        load = c_le(M, el('factor', P(fs[0]), ZERO))
        box = [c_le(F(1, 1000), Tt), c_le(Tt, 1000000), c_le(-1, x1), c_le(x1, 1), c_le(-1, x3), c_le(x3, 1)]
        g = region(True, x1, x3)
        npc = len(ip.pc)
        u.pre(load, *(box + [c_le(0, q) for q in g]))
        u.cond('every panel of the region that carries the load is admitted', C)
        del ip.pc[npc:]
        u.pre(C)
        u.cond('admitted panels carry the applied load', load)
        for nm, q in zip(('T >= 0.001', 'T <= 1e6', 'xi1 >= -1', 'xi1 <= 1', 'xi3 >= -1', 'xi3 <= 1'), box):
            u.cond('admitted points have ' + nm, q)
        for i, q in enumerate(g):
            u.cond('admitted points satisfy limit %d up to 1e-4' % i, c_le(-F(1, 10000), q))
    return s


UNITS = [UnitSpec('C21/constraints %s' % c, s_min(c), dom=DOM20, nonempty=15, limit=200, base=CRIT.contract()) for c in ('PINNED', 'CLAMPED', 'dict')]
