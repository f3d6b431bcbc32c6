"""mode-shape plot shows the computed deflection on the plate"""
from .C15 import *
from .C18 import Pencil
from .C14 import sij_contract

FN = 'composipy.pre_integrated_component.functions'


def shape_fn(p, xi, eta):
    """value of the two-dimensional shape function of index pair p (C14)"""
    return T.app('s_', P(p[0]), P(p[1]), P(xi), P(eta))


def sx_contract():
    """sxieta(list, xi, eta) returns one shape function value per index pair (C14)"""
    def h(ip, d):
        lst = ops.as_seq(ip, d['s_idx'])
        k = fresh('sx', 'int')
        n = seq_len(lst)
        npc = len(ip.pc)
        ip.pc.extend([c_le(0, k), c_lt(k, n)])
        try:
            x = ip.seq_at(lst, k)
            b = shape_fn([simp_divs(P(ops.getitem(ip, x, i)), ip.pc) for i in (0, 1)], d['xi'], d['eta'])
        finally:
            del ip.pc[npc:]
        return SymArr((n,), [next(iter(k.vars()))], b)
    return {FN + ':sxieta': h}


def buckling_contract():
    """buckling_analysis stores and returns the factors and the modes over the retained deflection functions (C18),
    and stores the index pairs of the retained functions (C17)"""
    def h(ip, d):
        o = d['self']
        mn, k = P(ip.getattr(o, 'm')) * P(ip.getattr(o, 'n')), VI('modes')
        for f in 'uvw':
            ip.setattr(o, 's%s_idx' % f, ListV(mkseq([G_(mn, 'k', (I_((idx(f + 'i', VI('k')), idx(f + 'j', VI('k')))),))])))
        ip.setattr(o, 'eigenvalue', SymArr((k,), ('j',), el('lambda', VI('j'))))
        ip.setattr(o, 'eigenvector', SymArr((mn, k), ('p', 'j'), el('X', VI('p'), VI('j'))))
        return ip.getattr(o, 'eigenvalue'), ip.getattr(o, 'eigenvector')
    return {'composipy.core.structure:PlateStructure.buckling_analysis': h}


def s_plot(history):
    def s(u):
        ip = u.ip
        ip.hooks['eigsh'] = Pencil().handler
        pl = plate(u, lam_for(u))
        nx, ny, nth = VI('nx'), VI('ny'), P(0) if u.inline else VI('nth')
        u.pre(c_le(3, VI('m') * VI('n')), c_le(1, nx), c_le(1, ny), c_le(0, nth), c_lt(nth, VI('modes')), c_le(1, VI('modes')))
        if history == 'after a buckling analysis':
            u.meth(pl, 'buckling_analysis')
        elif history == 'after another plot':
            u.meth(pl, 'plot_eigenvalue', 0, 3, 2)
        n0 = len(calls(ip, 'plot_surface'))
        u.meth(pl, 'plot_eigenvalue', nth, nx, ny)
        got = calls(ip, 'plot_surface')[n0:]
        if not u.fact('one surface is drawn', len(got) == 1, '%d surfaces' % len(got)):
            return
        a, kw = got[0]
        names = ('X', 'Y', 'Z')
        d = dict(zip(names, a))
        d.update({k: v for k, v in kw if k in names})
        X, Y, Z = [arrays.arrlike(ip, d[k]) if k in d else None for k in names]
        if not u.fact('surface arguments', all(arrays.is_arr(v) and len(v.shape) == 2 for v in (X, Y, Z)), 'not matrices'):
            return
        r, c = VI('row'), VI('col')
        R, Q = P(X.shape[0]), P(X.shape[1])
        for nm, v in (('y', Y), ('z', Z)):
            u.zero(nm + ' rows', P(v.shape[0]) - R)
            u.zero(nm + ' columns', P(v.shape[1]) - Q)
        u.zero('number of grid points', R * Q - nx * ny)
        # rows follow y and columns x, or the other way round
        t = not is_zero(R - ny) and is_zero(R - nx)
        ix, iy = (r, c) if t else (c, r)
        u.pre(c_le(0, r), c_lt(r, R), c_le(0, c), c_lt(c, Q))
        x, y, z = [P(ops.topoly(ops.getitem(ip, v, (r, c)))) for v in (X, Y, Z)]
        fx = [one_point(ip, nx, ix), one_point(ip, ny, iy)]
        u.zero('x runs evenly over [0, a]', x - V('a') * fx[0])
        u.zero('y runs evenly over [0, b]', y - V('b') * fx[1])
        v = u.attr(pl, 'eigenvector')
        lst = ops.as_seq(ip, u.attr(pl, 'sw_idx'))
        q = VI('q')
        npc = len(ip.pc)
        u.pre(c_le(0, q), c_lt(q, VI('m') * VI('n')))
        pq = ip.seq_at(lst, q)
        f = shape_fn([ops.getitem(ip, pq, i) for i in (0, 1)], x * inverse(V('a')) * 2 - 1, y * inverse(V('b')) * 2 - 1)
        cq = P(ops.getitem(ip, v, (q, nth)))
        del ip.pc[npc:]
        u.zero('height is the deflection of the mode', z - T.mk_sum(VI('m') * VI('n'), 'q', cq * f))
    return s


def one_point(ip, n, i):
    """relative position of grid point i of n evenly spaced ones (a single point lies at the start)"""
    if ip.decide(c_lt(1, n)):
        return i * inverse(n - 1)
    return ZERO


def calls(ip, name):
    return [(x[2], x[3]) for x in seq_items(ip.fx.c) if x[0] == 'fx' and x[1].endswith('.' + name)]


DOM19 = dict(DOM, nx=dom_small, ny=dom_small, modes=lambda r: 3, nth=lambda r: r.randint(0, 2), m=lambda r: r.randint(2, 3), n=lambda r: r.randint(2, 3))
CALL = dict(buckling_contract(), **sx_contract())
UNITS = [UnitSpec('C19/surface of a plate ' + h, s_plot(h), CALL, dom=DOM19, nonempty=9, limit=120, base=dict(II, **sij_contract()))
         for h in ('not analysed yet', 'after a buckling analysis', 'after another plot')]
DEPS = ('C14/shape function values over an index list', 'C14/two-dimensional', 'C18', 'C15', 'C17q')
ASSUME = ['matplotlib plot_surface draws the surface it is given']
