"""boundary conditions select exactly the admissible shape functions"""
from .lam import *

EDGES = ('x0', 'xa', 'y0', 'yb')
DOFS = ('TX', 'TY', 'TZ', 'RX', 'RY', 'RZ')
NAMED = {'free': (), 'pinned': DOFS[:3], 'simply_supported': DOFS[:3], 'fixed': DOFS, 'clamped': DOFS}
FIELD = {'u': ('TX', 'RX'), 'v': ('TY', 'RY'), 'w': ('TZ', 'RZ')}


def bit(e, d):
    return c_eq(VI('held_%s_%s' % (e, d)), 1)


def edge_list(e):
    """explicit list holding an arbitrary set of degrees of freedom"""
    return ListV(tuple(C_(bit(e, d), (I_(d),), ()) for d in DOFS))


def edge_name(e):
    """one of the edge names in any letter case"""
    s = ops.StrChoice('edge ' + e)
    low = ops.StrChoice('edge ' + e + '.lower()')
    return s, [low.eq(k) for k in NAMED]


def size(u, nm, k):
    """m or n: 1, 2, 3, or any number from 4 on"""
    if k < 3:
        return k + 1
    u.pre(c_le(4, VI(nm)))
    return VI(nm)


def held(edges, e, d):
    """condition: degree of freedom d is held on edge e"""
    x = edges[e]
    if isinstance(x, str):
        return d in NAMED[x]
    if isinstance(x, ListV):
        return bit(e, d)
    low = ops.StrChoice('edge ' + e + '.lower()')
    return c_or(*[low.eq(k) for k, v in NAMED.items() if d in v])


# ------------------------------------------------------------------ assignments of the conditions one field depends on
def variables(edges, f):
    """[(edge, [(env, holds value, holds slope)])] for the edges that are not fixed"""
    t, r = FIELD[f]
    out = {}
    for e in EDGES:
        x = edges[e]
        if isinstance(x, str):
            out[e] = [({}, t in NAMED[x], r in NAMED[x])]
        elif isinstance(x, ListV):
            vt, vr = var_of(e, t), var_of(e, r)
            out[e] = [({vt: P(a), vr: P(b)}, bool(a), bool(b)) for a in (0, 1) for b in (0, 1)]
        else:
            nm = next(iter(VI('name of edge ' + e + '.lower()').vars()))
            out[e] = [({nm: P(ops.name_code(k))}, t in v, r in v) for k, v in NAMED.items()]
    return out


def var_of(e, d):
    return next(iter(VI('held_%s_%s' % (e, d)).vars()))


def axis(lo, hi, size):
    """retained indices along an axis: of 0, 1, 2, 3, ... without the value (0, 2) and slope (1, 3) functions of held ends"""
    gone = {i for i, g in ((0, lo[0]), (1, lo[1]), (2, hi[0]), (3, hi[1])) if g}
    kept = [i for i in range(4) if i not in gone]
    if isinstance(size, int):
        return (I_(*(kept + [4, 5, 6, 7])[:size]),)
    first = 4
    while kept and kept[-1] == first - 1:       # the run of consecutive indices that goes on without end
        first = kept.pop()
    v = fresh('ax', 'int')
    return mkseq(((I_(*kept),) if kept else ()) + (G_(size - len(kept), next(iter(v.vars())), (I_(v + first),)),))


def product_seq(ip, *axes):
    it = LazyIter('product', [ListV(a) for a in axes])
    return ops.as_seq(ip, it)


def settle(seq, env):
    seq = subst_seq(seq, env)

    def go(s):
        out = []
        for p in s:
            if p[0] == 'C':
                if isinstance(p[1], bool):
                    out.extend(go(p[2] if p[1] else p[3]))
                else:
                    out.append(C_(p[1], go(p[2]), go(p[3])))
            elif p[0] == 'G':
                out.append(G_(p[1], p[2], go(p[3])))
            else:
                out.append(p)
        return mkseq(out)
    return go(seq)


def same_seq(a, b):
    try:
        return vkey(a) == vkey(b)
    except Exception:
        return False


def leaves(opts, edges, seqs, env=None, vals=None):
    """every assignment of the conditions, with the sequences settled under it"""
    if not edges:
        yield env or {}, vals or {}, seqs
        return
    e = edges[0]
    for add, t, r in opts[e]:
        yield from leaves(opts, edges[1:], [settle(s, add) for s in seqs] if add else seqs, dict(env or {}, **add),
                          dict(vals or {}, **{e: (t, r)}))


def compare(u, name, got, want, mn, env):
    """index by index, when the sequences are not syntactically equal"""
    ip = u.ip
    npc = len(ip.pc)
    for k, v in env.items():
        ip.pc.append(c_eq(T.var(k, 'int') if isinstance(k, str) else P(k), v))
    try:
        u.zero(name + ': length', P(seq_len(got)) - mn)
        q = VI('position')
        u.pre(c_le(0, q), c_lt(q, mn))
        g, w = ip.seq_at(got, q), ip.seq_at(want, q)
        g, w = [[simp_divs(P(ops.topoly(ops.getitem(ip, x, k))), ip.pc) for k in range(len(w))] for x in (g, w)]
        for x, y in zip(g, w):
            u.zero(name, x - y)
    finally:
        del ip.pc[npc:]


def check_field(u, f, edges, seqs, m, n):
    """seqs: list of (name, sequence, number of repetitions of the pair of axes)"""
    opts = variables(edges, f)
    good = {nm: 0 for nm, _, _ in seqs}
    bad = None
    for env, vals, got in leaves(opts, list(EDGES), [s for _, s, _ in seqs]):
        um, un = axis(vals['x0'], vals['xa'], m), axis(vals['y0'], vals['yb'], n)
        for (nm, _, rep), g in zip(seqs, got):
            want = product_seq(u.ip, *([um, un] * rep))
            if same_seq(g, want):
                good[nm] += 1
            else:
                bad = bad or (nm, g, want, P(m) ** rep * P(n) ** rep, env)
    for nm, k in good.items():
        if k and not (bad and bad[0] == nm):
            u.fact(nm, True)
    if bad:
        compare(u, *bad)


def scenario(kinds, sizes, quads=False):
    """kinds: 'PINNED', 'CLAMPED' or one of 'list', 'name' per edge"""
    def s(u):
        lam, _ = laminate(u, P(2), single=True)
        m, n = size(u, 'm', sizes[0]), size(u, 'n', sizes[1])
        if isinstance(kinds, str):
            cons = kinds
            edges = {e: kinds.lower() for e in EDGES}
        else:
            edges, vals = {}, {}
            for e, k in zip(EDGES, kinds):
                if k == 'list':
                    edges[e] = vals[e] = edge_list(e)
                else:
                    edges[e], names = edge_name(e)
                    vals[e] = edges[e]
                    u.pre(c_or(*names))
            cons = DictV(vals)
        before = {k: (v, v.c if isinstance(v, ListV) else None) for k, v in cons.d.items()} if isinstance(cons, DictV) else None
        p = u.call(u.cls('PlateStructure'), lam, 3, 2, constraints=cons, m=m, n=n)
        r = u.meth(p, '_compute_constraints')
        seqs = {}
        for i, f in enumerate('uvw'):
            nm = 's%s_idx' % f
            L = u.attr(p, nm)
            if not u.fact(nm + ' is a list', isinstance(L, (ListV, tuple)), str(type(L))):
                return
            seqs[f] = [(nm, ops.as_seq(u.ip, L), 1)]
            if quads:
                seqs[f] = [('index quadruples of ' + f, ops.as_seq(u.ip, r[i]), 2)]
        if before is not None:
            now = {k: (v, v.c if isinstance(v, ListV) else None) for k, v in cons.d.items()}
            u.fact('constraints not modified', list(now) == list(before) and all(
                now[k][0] is before[k][0] and (now[k][1] is before[k][1] or vkey(now[k][1]) == vkey(before[k][1])) for k in now), 'modified')
            u.fact('constraints read back', u.attr(p, 'constraints') is cons)
        for f in 'uvw':
            check_field(u, f, edges, seqs[f], m, n)
    return s


DOM = dict(LAMDOM, m=lambda r: r.randint(4, 6), n=lambda r: r.randint(4, 6), np=lambda r: r.randint(1, 3))


def name_of(kinds, sizes):
    k = kinds if isinstance(kinds, str) else ' '.join('%s:%s' % x for x in zip(EDGES, kinds))
    return '%s; m %s n %s' % (k, *['%d' % (x + 1) if x < 3 else '>=4' for x in sizes])


def family():
    out = []
    for k in range(16):
        kinds = tuple('name' if k >> i & 1 else 'list' for i in range(4))
        out += [(kinds, (a, b)) for a in range(4) for b in range(4)]
    for w in ('PINNED', 'CLAMPED'):
        out += [(w, (a, b)) for a in range(4) for b in range(4)]
    return sorted(out, key=lambda x: -sum(x[1]))


UNITS = [UnitSpec('C17/retained functions: ' + name_of(k, s), scenario(k, s), dom=DOM, nonempty=6, limit=120) for k, s in family()]
ASSUME = ['constraint names outside the documented ones are not considered']
