"""pre-integrated terms and shape functions: every table entry is one obligation (the index sets are finite, so this is exhaustive)"""
import os
import sys
from .common import *
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness'))
from bardell import poly, I as exact_I

MOD = 'composipy.pre_integrated_component.functions'
TAB = {'ii_ff': (0, 0), 'ii_fxi_f': (1, 0), 'ii_f_fxi': (0, 1), 'ii_fxi_fxi': (1, 1), 'ii_fxixi_f': (2, 0), 'ii_f_fxixi': (0, 2),
       'ii_fxixi_fxi': (2, 1), 'ii_fxi_fxixi': (1, 2), 'ii_fxixi_fxixi': (2, 2)}
EPS = F(1, 10 ** 8)


def close(u, name, v, w):
    v = P(ops.topoly(v)).const() if ops.is_num(v) else None
    if v is None:
        return u.unknown(name, 'not a number')
    return u.fact(name, abs(v - w) <= EPS, '%s instead of %s' % (float(v), float(w)))


def s_table(fn, rows):
    def s(u):
        f = u.get(MOD, fn)
        d1, d2 = TAB[fn]
        for i in rows:
            for k in range(30):
                close(u, '%s(%d, %d) is the integral' % (fn, i, k), u.call(f, (i, k)), exact_I(d1, d2, i, k))
    return s


def spoly(i, x):
    r = ZERO
    for k, c in enumerate(poly(i)):
        if c:
            r = r + (x ** k) * c
    return r


def s_f(u):
    f = u.get(MOD, 'fxi')
    for i in range(50):
        u.zero('f_%d' % i, P(u.call(f, i, V('xi'))) - spoly(i, V('xi')))


def s_s(rows):
    def s(u):
        f = u.get(MOD, 'sxieta')
        x, y = V('xi'), V('eta')
        fy = [spoly(j, y) for j in range(50)]
        for i in rows:
            fi = spoly(i, x)
            r = u.call(f, ListV((I_(*[(i, j) for j in range(50)]),)), x, y)
            if not u.fact('s row %d: one value per index pair' % i, isinstance(r, ArrV) and r.shape == (50,), 'not an array of 50'):
                continue
            for j in range(50):
                u.zero('s_%d,%d' % (i, j), P(r.flat[j]) - fi * fy[j])
    return s


def s_list(u):
    """for an index list of any length, entry m is the shape function of pair m"""
    n, k = VI('n'), VI('k')
    u.pre(c_le(0, n))
    f = u.get(MOD, 'sxieta')
    lst = ListV(mkseq([G_(n, 'k', (I_((el('pi', k, sort='int'), el('pj', k, sort='int'))),))]))
    r = u.call(f, lst, V('xi'), V('eta'))
    seq = ops.as_seq(u.ip, r)
    u.zero('one value per index pair', P(seq_len(seq)) - n)
    m = VI('m')
    u.pre(c_le(0, m), c_lt(m, n))
    u.zero('entry m is s(pair m)', P(ops.getitem(u.ip, r, m)) - T.app('s_', el('pi', m, sort='int'), el('pj', m, sort='int'), V('xi'), V('eta')))


def sij_contract():
    def h(ip, d):
        ij = d['ij']
        return T.app('s_', P(ops.getitem(ip, ij, 0)), P(ops.getitem(ip, ij, 1)), P(d['xi']), P(d['eta']))
    return {MOD + ':sxieta_ij': h}


def s_spec(u):
    """facts of the statement about the defining polynomials: Hermite end conditions; interior functions vanish with slope at both ends"""
    def at(i, d, x):
        return sum((c * F(x) ** k for k, c in enumerate(poly(i, d))), F(0))
    ends = {0: (1, 0, 0, 0), 1: (0, F(1, 2), 0, 0), 2: (0, 0, 1, 0), 3: (0, 0, 0, F(1, 2))}
    for i in range(50):
        want = ends.get(i, (0, 0, 0, 0))
        got = (at(i, 0, -1), at(i, 1, -1), at(i, 0, 1), at(i, 1, 1))
        u.fact('end values and slopes of f_%d' % i, got == tuple(want), str(got))


UNITS = [UnitSpec('C14/%s' % fn, s_table(fn, range(30)), nonempty=900, limit=200) for fn in TAB]
UNITS += [UnitSpec('C14/shape functions', s_f, nonempty=50, limit=200),
          UnitSpec('C14/shape function values over an index list', s_list, sij_contract(), nonempty=2, limit=100, dom={'n': lambda r: r.randint(1, 4)}),
          UnitSpec('C14/end conditions (specification)', s_spec, nonempty=50)]
UNITS += [UnitSpec('C14/two-dimensional shape functions %d-%d' % (a, a + 4), s_s(range(a, a + 5)), nonempty=255, limit=250) for a in range(0, 50, 5)]
ASSUME = ['decimal literals of the tables are taken exactly (double rounding is below 1e-15 relative)']
