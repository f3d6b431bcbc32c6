"""maximum-stress margins"""
import math
from .C10 import *
from pyvc.prove import find_assignment, NoVal

KEYS = ('margin_t1', 'margin_c1', 'margin_t2', 'margin_c2', 'margin_s')
SN = ('sigma1', 'sigma2', 'tau12')


def stress_contract():
    """calculate_stress: the stress table (C11) of the laminate; material-axis stresses of ply k, face f named by (ply, face)"""
    def h(ip, d):
        o = d['self']
        lam = ip.getattr(o, 'dproperty')
        st = ops.as_seq(ip, ip.getattr(lam, 'stacking'))
        n = seq_len(st)
        z = ip.getattr(lam, 'z_position')
        k = T.fresh('sk', 'int')
        (kn,) = k.vars()
        npc = len(ip.pc)
        ip.pc += [c_le(0, k), c_lt(k, n)]
        th = ops.getitem(ip, ListV(st), k)
        del ip.pc[npc:]
        rows = {'ply': (k + 1, k + 1), 'z': (el('zb', k), el('zt', k)), 'position': ('bot', 'top'), 'angle': (th, th)}
        for c in ('sigmax', 'sigmay', 'tauxy') + SN:
            rows[c] = (el(c + '_b', k), el(c + '_t', k))
        return FrameDF({c: mkseq([G_(n, kn, (I_(*v),))]) for c, v in rows.items()})
    return {'composipy.core.strength:LaminateStrength.calculate_stress': h}


def value(ev, v):
    for c, x in arrays.xcases(v):
        if c is True or ev.cond(c):
            if isinstance(x, Special):
                return {'inf': math.inf, '-inf': -math.inf, 'nan': math.nan}[x.name]
            return ev.poly(P(x))
    raise NoVal()


def spec_margins(al, s):
    """allowable over stress minus one, infinite when the stress has the other sign or is zero"""
    s1, s2, s12 = s
    def one(a, x, cond):
        return arrays.CaseV([(cond, P(a) * inverse(x) - 1), (c_not(cond), INF)])
    t1, c1, t2, c2, ss = al
    return {'margin_t1': one(t1, s1, c_lt(0, s1)), 'margin_c1': one(c1, -s1, c_lt(s1, 0)),
            'margin_t2': one(t2, s2, c_lt(0, s2)), 'margin_c2': one(c2, -s2, c_lt(s2, 0)),
            'margin_s': arrays.CaseV([(c_lt(0, s12), P(ss) * inverse(s12) - 1), (c_lt(s12, 0), P(ss) * inverse(-s12) - 1), (c_eq(s12, 0), INF)])}


def le_x(a, b):
    """a <= b for case values, as a condition"""
    out = []
    for ca, va in arrays.xcases(a):
        for cb, vb in arrays.xcases(b):
            c = c_and(ca, cb)
            if vb is INF or va is NINF:
                r = True
            elif va is INF or vb is NINF:
                r = False
            else:
                r = c_le(P(va), P(vb))
            out.append(c_or(c_not(c), r))
    return c_and(*out)


def critical(u, name, v, m, row):
    """v names the smallest of the margins m"""
    if isinstance(v, str):
        if not u.fact(name + ' is a margin', v in m, 'critical is %r' % v):
            return
        for k in m:
            u.cond(name, le_x(m[v], m[k]))
        return
    ps = sstr_pieces(v) if isinstance(v, SStr) else None
    if ps and len(ps) == 1 and isinstance(ps[0], tuple) and ps[0][0] == 'C':
        npc = len(u.ip.pc)
        for c, x in ((ps[0][1], ps[0][2]), (c_not(ps[0][1]), ps[0][3])):
            u.ip.pc.append(c)
            if prove_feasible(u):
                x = x if isinstance(x, str) else (''.join(x.parts) if hasattr(x, 'parts') and all(isinstance(q, str) for q in x.parts) else x)
                critical(u, name, x, m, row)
            del u.ip.pc[npc:]
        return
    if ps and len(ps) == 1 and isinstance(ps[0], Tok) and ps[0].kind in ('idxmin', 'idxmax'):
        names, vals = ps[0].data
        vals = [arrays.CaseV(x[1:]) if isinstance(x, tuple) and x and x[0] == 'case' else x for x in vals]
        o = u.ob(name)
        if ps[0].kind == 'idxmin' and sorted(names) == sorted(m) and all(vkey(arrays.wrapv(x)) == vkey(arrays.wrapv(row[k])) for k, x in zip(names, vals)):
            o.proved += 1       # idxmin over exactly the five margins of the row
            return

        def wrong(ev):
            xs = [value(ev, x) for x in vals]
            b = xs.index((min if ps[0].kind == 'idxmin' else max)(xs))
            ms = {k: value(ev, x) for k, x in m.items()}
            lo = min(ms.values())
            return math.isfinite(lo) and (names[b] not in ms or ms[names[b]] > lo + 1e-6 * (1 + abs(lo)))
        ev = find_assignment(list(u.ip.pc), u.dom, 60, 0, wrong)
        if ev is not None:
            o.refuted.append({'reason': 'critical does not name the smallest margin', 'counterexample': u.describe(ev)})
        else:
            o.undecided.append('critical is %s' % (str(v)[:200],))
        return
    u.unknown(name, 'critical is %s' % (str(v)[:200],))


def prove_feasible(u):
    from pyvc.prove import feasible
    return feasible(u.ip.pc)


def s_margin(single):
    def s(u):
        u.ip.np_zero_split = True       # numpy: x / 0 is inf
        lam, n = laminate(u, single=single, allow=True)
        sp = Spec(n, single=single)
        if single:
            u.pre(*[c_lt(0, V(q)) for q in ('t1', 'c1', 't2', 'c2', 's')])
        st = strength(u, lam)
        ss = u.meth(st, 'calculate_stress')
        df = u.meth(st, 'calculate_maxstressmargin')
        k = generic_ply(u, n)
        cell = layout(u, df, n, k, sp, with_z=False)
        get = lambda d, c, f: ops.getitem(u.ip, column(u, d, c), P(k) * 2 + f)
        for c in ('ply', 'position', 'angle'):
            u.eq('%s has as many rows as the stress table' % c, seq_len(ops.as_seq(u.ip, column(u, df, c))), seq_len(ops.as_seq(u.ip, column(u, ss, c))))
            for f in (0, 1):
                u.eq('%s of the same row of the stress table, face %d' % (c, f), cell(c, f), get(ss, c, f))
        al = [sp.p(q, k) for q in ('t1', 'c1', 't2', 'c2', 's')]
        for f in (0, 1):
            m = spec_margins(al, [P(get(ss, c, f)) for c in SN])
            for q in KEYS:
                u.eq('%s, face %d' % (q, f), cell(q, f), m[q])
            critical(u, 'critical, face %d' % f, cell('critical', f), m, {q: cell(q, f) for q in KEYS})
    return s


def dom_s(rng, *i):
    return rng.choice([0, 0, 1, -1, 2.5, -2.5, round(rng.uniform(-3, 3), 2), round(rng.uniform(-3, 3), 2)])


DOM = dict(LAMDOM, **{c + f: dom_s for c in SN for f in ('_b', '_t')})
CS = dict(C, **stress_contract())
UNITS = [UnitSpec('C12/margin table, list of plies', s_margin(False), CS, dom=DOM, nonempty=25, limit=250),
         UnitSpec('C12/margin table, one ply material', s_margin(True), CS, dom=DOM, nonempty=25, limit=250)]
DEPS = ('C11',)
ASSUME = ['positive allowables', 'pandas arithmetic on columns is elementwise, division of a positive number by zero is inf, idxmin(axis=1) names the '
          'column of the smallest entry', 'signed zeros: a zero stress is taken as +0.0 (checked by brute force not to occur as -0.0 where it would matter)']
