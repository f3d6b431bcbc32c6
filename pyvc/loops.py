"""Iteration: concrete unrolling and loop summaries (recurrences solved in closed form, the closed form being the
loop invariant; it is checked by executing one arbitrary iteration)."""
from .terms import *
from . import terms as T
from .values import *
from .values import _serial
from .interp import Infeasible, Poison, PoisonRead, UnknownElem, MISSING, nonneg, _has_frozen, Frame, BreakSig, ReturnSig, twin_of
from .prove import entails, feasible, prove_zero, Budget
from . import merge as M
from .execx import NoMerge
from . import ops


class ExitInLoop(Unsupported):
    pass


# ------------------------------------------------------------------ segments
def tok_len(t):
    n = el('len:' + t.kind + ':' + t.name, *t.idx, sort='int')
    return n


def segments(ip, it):
    if isinstance(it, ListV):
        return piece_segs(ip, it, it.c, True)
    if isinstance(it, tuple):
        return [('I', [const(x) for x in it])] if it else []
    if isinstance(it, ops.SeqTuple):
        return piece_segs(ip, None, it.seq, True)
    if isinstance(it, SeriesV):
        return piece_segs(ip, None, it.seq, True)
    if isinstance(it, ops.VecN):
        return [('I', [const(x) for x in it.items])]
    if isinstance(it, DictV):
        return [('I', [const(x) for x in it.d])] if it.d else []
    if isinstance(it, SetV):
        return [('I', [const(x) for x in it.c])] if it.c else []
    if isinstance(it, FrameDF):
        return [('I', [const(x) for x in it.d])] if it.d else []
    if isinstance(it, RangeV):
        n = ops.range_len(ip, it)
        a, s = P(it.a), P(it.s)
        c = n.const()
        if c is not None and c <= 4000:
            return [('I', [const(ops.num(a + s * j)) for j in range(int(c))])] if c else []
        return [('G', n, lambda k: [('I', [const(ops.num(a + s * k))])])]
    if isinstance(it, (str, SStr)):
        return str_segs(ip, sstr_pieces(it))
    if isinstance(it, LazyIter):
        return lazy_segs(ip, it)
    if isinstance(it, ArrV):
        return [('I', [(lambda j=j: ops.getitem(ip, it, j)) for j in range(it.shape[0])])]
    if isinstance(it, SymArr):
        n = it.shape[0]
        return [('G', n, lambda k: [('I', [lambda: ops.getitem(ip, it, k)])])]
    if isinstance(it, OpqArr):
        n = P(it.shape[0])
        return [('G', n, lambda k: [('I', [lambda: ops.getitem(ip, it, k)])])]
    if isinstance(it, ObjV):
        m = it.cls.lookup('__iter__')
        if m is not None:
            return segments(ip, ip.call(m, [it], {}))
    if it is None or ops.is_num(it) or isinstance(it, (bool, FuncV)):
        ops.raise_(TypeError, 'not iterable')
    if isinstance(it, IterV):
        if it.kind == 'count':
            raise Unsupported('iteration over an infinite iterator')
        if it.kind == 'list':
            return segments(ip, it.data)
    raise Unsupported('iteration over %s' % type(it).__name__)


def const(x):
    return lambda: x


def piece_segs(ip, owner, seq, top):
    out = []
    for pn, p in enumerate(seq):
        k = p[0]
        if k == 'I':
            if owner is not None and top:
                out.append(('I', [(lambda p=p, j=j: ip.item_at(owner, p, j)) for j in range(len(p[1]))]))
            else:
                out.append(('I', [(lambda x=x: ip.thaw_twin(x)) for x in p[1]]))
        elif k == 'G':
            items = seq_items(p[3])
            if items is not None and owner is not None and top:
                out.append(('G', p[1], (lambda kk, pn=pn, p=p, n=len(items):
                                        [('I', [(lambda r=r: ip.gen_at(owner, pn, p, kk, r)) for r in range(n)])]), (owner, pn)))
            else:
                out.append(('G', p[1], (lambda kk, p=p: piece_segs(ip, None, subst_seq(p[3], {p[2]: P(kk)}), False))))
        elif k == 'C':
            out.append(('C', p[1], piece_segs(ip, None, p[2], False), piece_segs(ip, None, p[3], False)))
        else:
            raise Unsupported('iteration over an unknown sequence')
    return out


def str_segs(ip, pieces):
    out = []
    for p in pieces:
        if isinstance(p, str):
            out.append(('I', [const(ch) for ch in p]))
        elif isinstance(p, Tok):
            n = tok_len(p)
            if p.kind in ('angle', 'count'):
                out.append(('T', n, p, (lambda k, p=p: [('I', [const(SStr([('ch', p, P(k))]))])])))
            elif p.kind == 'ws':
                out.append(('T', n, p, (lambda k, p=p: [('I', [const(SStr([('ch', p, P(k))]))])])))
            else:
                raise Unsupported('characters of a formatted value')
        elif p[0] == 'G':
            out.append(('G', p[1], (lambda k, p=p: str_segs(ip, sstr_pieces(subst_value(p[3], {p[2]: P(k)}))))))
        elif p[0] == 'C':
            out.append(('C', p[1], str_segs(ip, sstr_pieces(p[2])), str_segs(ip, sstr_pieces(p[3]))))
        elif p[0] == 'ch':
            out.append(('I', [const(SStr([p]))]))
        else:
            raise Unsupported('characters of an unknown string')
    return out


def seglen(segs):
    n = ZERO
    for s in segs:
        if s[0] == 'I':
            n = n + len(s[1])
        elif s[0] == 'T':
            n = n + s[1]
        elif s[0] == 'G':
            v = fresh('sl', 'int')
            b = seglen(s[2](v))
            (vn,) = v.vars()
            n = n + (mk_sum(s[1], vn, b) if vn in all_vars(b) else P(s[1]) * b)
        else:
            n = n + ite(s[1], seglen(s[2]), seglen(s[3]))
    return n


def all_vars(p):
    return free_vars(P(p))


def map_segs(segs, f):
    """f(thunk) -> thunk"""
    out = []
    for s in segs:
        if s[0] == 'I':
            out.append(('I', [f(t) for t in s[1]]))
        elif s[0] == 'T':
            out.append(('T', s[1], s[2], (lambda k, s=s: map_segs(s[3](k), f)), 'mapped'))
        elif s[0] == 'G':
            out.append(('G', s[1], (lambda k, s=s: map_segs(s[2](k), f))) + tuple(s[3:]))
        else:
            out.append(('C', s[1], map_segs(s[2], f), map_segs(s[3], f)))
    return out


def enum_segs(ip, segs, off):
    out = []
    for s in segs:
        if s[0] == 'I':
            out.append(('I', [(lambda t=t, i=ops.num(off + j): (i, t())) for j, t in enumerate(s[1])]))
            off = off + len(s[1])
        elif s[0] == 'T':
            out.append(('T', s[1], s[2], (lambda k, s=s, off=off: enum_segs(ip, s[3](k), off + k)[0]), 'mapped'))
            off = off + s[1]
        elif s[0] == 'G':
            v = fresh('en', 'int')
            b = seglen(s[2](v))
            (vn,) = v.vars()
            if vn in all_vars(b):
                start = lambda k, vn=vn, b=b: mk_sum(k, vn, b)
                tot = mk_sum(s[1], vn, b)
            else:
                start = lambda k, b=b: P(k) * b
                tot = P(s[1]) * b
            out.append(('G', s[1], (lambda k, s=s, off=off, start=start: enum_segs(ip, s[2](k), off + start(k))[0])) + tuple(s[3:]))
            off = off + tot
        else:
            a, la = enum_segs(ip, s[2], off)
            b, lb = enum_segs(ip, s[3], off)
            out.append(('C', s[1], a, b))
            off = ite(s[1], la, lb)
    return out, off


def peel(s):
    """(first-iteration segments, rest segment)"""
    fn = s[2]
    return fn(ZERO), ('G', P(s[1]) - 1, (lambda k: fn(P(k) + 1)))


def zip_segs(ip, lists):
    """align several segment lists"""
    lists = [list(l) for l in lists]
    out = []
    while True:
        for l in lists:
            while l and ((l[0][0] == 'I' and not l[0][1]) or (l[0][0] == 'G' and P(l[0][1]).is_const() and not P(l[0][1]).t)):
                l.pop(0)
        if any(not l for l in lists):
            return out
        heads = [l[0] for l in lists]
        kinds = {h[0] for h in heads}
        if 'C' in kinds:
            i = [j for j, h in enumerate(heads) if h[0] == 'C'][0]
            c = heads[i][1]
            r = ip.decide(c)
            lists[i] = list(heads[i][2] if r else heads[i][3]) + lists[i][1:]
            continue
        if 'INF' in kinds:
            fin = [j for j, h in enumerate(heads) if h[0] != 'INF']
            if not fin:
                raise Unsupported('zip of infinite iterators')
            # give the infinite iterators the shape of a finite head
            h = heads[fin[0]]
            for j, g in enumerate(heads):
                if g[0] == 'INF':
                    a, st = g[1], g[2]
                    if h[0] == 'I':
                        n = P(len(h[1]))
                        lists[j] = [('I', [const(ops.num(a + st * q)) for q in range(len(h[1]))]), ('INF', a + st * n, st)]
                    else:
                        n = P(h[1])
                        lists[j] = [('G', n, (lambda k, a=a, st=st: [('I', [const(ops.num(a + st * k))])])), ('INF', a + st * n, st)]
            continue
        if kinds == {'I'}:
            n = min(len(h[1]) for h in heads)
            out.append(('I', [(lambda ts=ts: tuple(t() for t in ts)) for ts in zip(*[h[1][:n] for h in heads])]))
            for l, h in zip(lists, heads):
                if len(h[1]) == n:
                    l.pop(0)
                else:
                    l[0] = ('I', h[1][n:])
            continue
        if kinds == {'G'}:
            v = fresh('zz', 'int')
            if not all(single(h[2](v)) for h in heads):
                raise Unsupported('zip over nested sequences %s' % [str(h[2](v))[:400] for h in heads])
            n = heads[0][1]
            best = 0
            for j, h in enumerate(heads[1:], 1):
                if is_zero(P(h[1]) - P(n)) or entails(ip.pc, c_le(n, h[1])):
                    continue
                if entails(ip.pc, c_le(h[1], n)):
                    n, best = h[1], j
                else:
                    if ip.decide(c_le(n, h[1])):
                        continue
                    n, best = h[1], j
            def fn(k, heads=heads):
                ths = [h[2](k)[0][1][0] for h in heads]
                return [('I', [lambda: tuple(t() for t in ths)])]
            out.append(('G', n, fn))
            for l, h in zip(lists, heads):
                if is_zero(P(h[1]) - P(n)):
                    l.pop(0)
                else:
                    l[0] = ('G', P(h[1]) - P(n), (lambda k, h=h, n=n: h[2](P(k) + P(n))))
            continue
        # mixture of explicit items and generated pieces
        if kinds <= {'I', 'G'}:
            ki = min(len(h[1]) for h in heads if h[0] == 'I')
            for j, h in enumerate(heads):
                if h[0] == 'G':
                    if ip.decide(c_le(1, h[1])):
                        f, rest = peel(h)
                        lists[j] = list(f) + [rest] + lists[j][1:]
                    else:
                        lists[j] = lists[j][1:]
            continue
        raise Unsupported('zip over symbolic strings')


def single(segs):
    return len(segs) == 1 and segs[0][0] == 'I' and len(segs[0][1]) == 1


def lazy_segs(ip, it):
    if it.kind == 'enumerate':
        return enum_segs(ip, segments(ip, it.srcs[0]), P(it.extra or 0))[0]
    if it.kind == 'zip':
        ls = []
        for s in it.srcs:
            if isinstance(s, IterV) and s.kind == 'count':
                ls.append([('INF', P(s.data[0]), P(s.data[1]))])
            else:
                ls.append(segments(ip, s))
        return zip_segs(ip, ls)
    if it.kind == 'map':
        f = it.extra
        if len(it.srcs) == 1:
            return map_segs(segments(ip, it.srcs[0]), lambda t: (lambda: ip.call(f, [t()], {})))
        return map_segs(zip_segs(ip, [segments(ip, s) for s in it.srcs]), lambda t: (lambda: ip.call(f, list(t()), {})))
    if it.kind == 'reversed':
        return segments(ip, ListV(seq_rev(ops.as_seq(ip, it.srcs[0]))))
    if it.kind == 'chain':
        out = []
        for s in it.srcs:
            out.extend(segments(ip, s))
        return out
    if it.kind == 'repeat':
        n = P(it.extra)
        x = it.srcs[0]
        c = n.const()
        if c is not None:
            return [('I', [const(x)] * int(c))]
        return [('G', n, lambda k: [('I', [const(x)])])]
    if it.kind == 'product':
        srcs = [segments(ip, s) for s in it.srcs]

        def plain_product(fs):
            def prod(i, acc):
                if i == len(fs):
                    return [('I', [lambda: tuple(t() for t in acc)])]
                return cross(fs[i], i, acc)

            def cross(segs, i, acc):
                out = []
                for s in segs:
                    if s[0] == 'I':
                        for t in s[1]:
                            out.extend(prod(i + 1, acc + [t]))
                    elif s[0] == 'G':
                        out.append(('G', s[1], (lambda k, s=s: cross(s[2](k), i, acc))))
                    elif s[0] == 'C':
                        out.append(('C', s[1], cross(s[2], i, acc), cross(s[3], i, acc)))
                    else:
                        raise Unsupported('product over strings')
                return out
            return prod(0, [])

        def settle(segs, c, val):
            out = []
            for s in segs:
                if s[0] == 'C' and s[1] == c:
                    out.extend(settle(s[2] if val else s[3], c, val))
                elif s[0] == 'C':
                    out.append(('C', s[1], settle(s[2], c, val), settle(s[3], c, val)))
                else:
                    out.append(s)
            return out

        def split(fs):
            """one product per outcome of the conditions in the factors"""
            for f in fs:
                for s in f:
                    if s[0] == 'C':
                        memo = {}

                        def side(val):
                            r = []
                            for x in fs:
                                if id(x) not in memo or memo[id(x)][0] is not val:
                                    memo[id(x)] = (val, settle(x, s[1], val))
                                r.append(memo[id(x)][1])
                            return r
                        return [('C', s[1], split(side(True)), split(side(False)))]
            return plain_product(fs)
        return split(srcs)
    raise Unsupported('iterator ' + it.kind)


def segs_to_seq(ip, segs):
    """the sequence of the elements (only for pure thunks)"""
    out = []
    for s in segs:
        if s[0] == 'I':
            out.append(I_(*[t() for t in s[1]]))
        elif s[0] == 'G':
            v = fresh('sq', 'int')
            (vn,) = v.vars()
            out.append(G_(s[1], vn, segs_to_seq(ip, s[2](v))))
        elif s[0] == 'C':
            out.append(C_(s[1], segs_to_seq(ip, s[2]), segs_to_seq(ip, s[3])))
        else:
            raise Unsupported('sequence of string characters')
    return mkseq(out)


def peel_range(ip, r, segs, tests, most=8):
    """the first elements of a range of symbolic length one by one: a membership test of the loop variable in a short list then decides
    itself for the explicit elements, and uniformly for the rest"""
    if len(segs) != 1 or segs[0][0] != 'G' or not (P(r.s).const() == 1 and P(r.a).is_const()):
        return segs
    n, q = P(segs[0][1]), 0
    while q < most and entails(ip.pc, c_le(q + 1, n)):
        q += 1
    if not q:
        return segs
    fn = segs[0][2]
    out = []
    for j in range(q):
        out.extend(fn(P(j)))
    return out + [('G', n - q, lambda k: fn(P(k) + q))]


# ------------------------------------------------------------------ running
def run_segments(ip, segs, body):
    for s in segs:
        if s[0] == 'I':
            for t in s[1]:
                body(t())
        elif s[0] == 'C':
            ip.branch(s[1], lambda: run_segments(ip, s[2], body), lambda: run_segments(ip, s[3], body))
        elif s[0] == 'T':
            # a token is nonempty unless it is a blank run
            n = s[1]
            npc = len(ip.pc)
            low = c_le(1, n) if s[2].kind != 'ws' else c_le(0, n)
            if low not in ip.pc:
                ip.pc.append(low)
            summarise(ip, n, s[3], body, tok=s[2])
        else:
            n = P(s[1])
            c = n.const()
            if c is not None:
                for j in range(int(c)):
                    run_segments(ip, s[2](P(j)), body)
            else:
                summarise(ip, n, s[2], body, src=s[3] if len(s) > 3 else None)


def poly_names(v, acc=None):
    """names of variables, unknown sequences and element families occurring in a value"""
    acc = set(free_vars(v)) if acc is None else acc

    def walk(x):
        if isinstance(x, (Poly, Cond)):
            for a in all_atoms(x):
                if a.kind == 'el':
                    acc.add(a.args[0])
        elif isinstance(x, (tuple, list)):
            for y in x:
                walk(y)
        elif isinstance(x, Frozen):
            walk(x.data)
        elif isinstance(x, dict):
            for y in x.values():
                walk(y)
        elif isinstance(x, SStr):
            for y in x.p:
                if isinstance(y, Tok):
                    walk(y.idx)
                    walk(y.data)
                elif isinstance(y, tuple):
                    walk(y[1:])
    walk(v)
    return acc


NUM = (int, Fraction, Poly)


def isnum(v):
    return isinstance(v, NUM) and not isinstance(v, bool)


class Leaf:
    """one independently solved component of a location"""

    def __init__(self, kind, name, init, sort='real', vs=None, dims=None):
        self.kind, self.name, self.init, self.sort = kind, name, init, sort
        self.vs, self.dims = vs, dims
        self.mode = 'havoc'        # const | closed | havoc | solved | lag
        self.closed = None         # function k -> value at the start of iteration k
        self.post = None
        self.before = None         # value before the iteration that was executed on its own
        self.last = None           # for a list: (leaf of its last item, length at the start of iteration k)

    def sym(self):
        if self.kind == 'num':
            return T.var(self.name, self.sort)
        if self.kind == 'seq' and self.last is not None:
            return mkseq((Piece(('O', self.name, self.last[1] - 1)), I_(self.last[0].sym())))
        if self.kind == 'seq':
            return (Piece(('O', self.name, T.var(self.name + '#', 'int'))),)
        if self.kind == 'str':
            return SStr([('O', self.name)])
        if self.kind == 'pt':
            return el(self.name, *[T.var(v, 'int') for v in self.vs])
        raise ValueError(self.kind)


class Loc:
    def __init__(self, cell, key, init):
        self.cell, self.key, self.init = cell, key, init
        self.shape = None          # how leaves are assembled
        self.leaves = None
        self.mode = None           # 'leaves' | 'const' | 'poison'


class Summ:
    def __init__(self, ip, N, fn, body, tok=None, src=None):
        self.ip, self.N, self.fn, self.body, self.tok, self.src = ip, P(N), fn, body, tok, src
        self.k = fresh('k', 'int')
        (self.kn,) = self.k.vars()
        self.rng = [c for c in (c_le(0, self.k), c_lt(self.k, self.N)) if c is not True]
        self.locs = {}
        self.mutated = set()
        self.peels = 0
        self.given = ()            # (variable, value, step) of counters known beforehand
        self.before = {}           # values before an iteration that was executed on its own

    def preset(self, counters):
        """guesses like any other: the iteration has to confirm them"""
        self.given = counters
        for cell, name, init, step in counters:
            l = Loc(cell, name, init)
            l.finit, l.mode, l.shape = init, 'leaves', 'num'
            lf = Leaf('num', next(iter(fresh('h').vars())), init, 'int')
            lf.mode, lf.step, lf.closed = 'closed', step, (lambda k, i=init, d=step: i + d * P(k))
            l.leaves = [lf]
            self.locs[(id(cell), name)] = l

    # -------------------------------------------------------------- one arbitrary iteration
    def run(self, k=None):
        ip = self.ip
        k = self.k

        def go():
            for c in self.rng:
                if c not in ip.pc:
                    ip.pc.append(c)
            for l in self.locs.values():
                self.setup(l)
            run_segments(ip, self.fn(k), self.body)
        if not feasible(ip.pc + self.rng):
            return None, None
        states, exits = M.path_states(ip, go)
        for s in states:
            s.conds = [c for c in s.conds if c not in self.rng]
        return states, exits

    def setup(self, l):
        ip = self.ip
        v = self.start_value(l)
        if v is MISSING:
            return
        if l.key is None:
            ip.setc(l.cell, v)
        else:
            ip.setk(l.cell, l.key, v)

    def start_value(self, l):
        if l.mode == 'poison':
            return Poison(('loop', id(self), (id(l.cell), l.key)))
        if l.mode == 'const':
            return self.reify(l, l.init)
        vals = []
        for lf in l.leaves:
            if lf.mode == 'const':
                vals.append(lf.init)
            elif lf.mode == 'closed':
                vals.append(lf.closed(self.k))
            else:
                vals.append(lf.sym())
        return self.reify(l, self.assemble(l, vals))

    def reify(self, l, v):
        """turn a frozen value of the location back into what is stored there"""
        if l.key is None:
            return v
        if not isinstance(v, Frozen):
            return v
        r = self.ip.thaw(v)
        if isinstance(r, (ListV, ArrV, SymArr)):
            r.standin = (self, (id(l.cell), l.key))
        return r

    def initval(self, l):
        v = l.init
        if l.key is not None:
            if isinstance(v, ListV):
                self.ip.check_memo(v)
                return Frozen('L', v.c, None, twin_of(v))
            if isinstance(v, ArrV):
                return Frozen('A', (v.shape, v.flat), None, twin_of(v))
            if isinstance(v, SymArr):
                return Frozen('S', (v.shape, v.c), None, twin_of(v))
        return v

    def entangled(self, k, l):
        """the variable is rebound in the loop, and its first value is an object that the loop modifies and others refer to"""
        v = l.init
        if l.key is None or l.mode == 'poison' or not isinstance(v, (ListV, ArrV, SymArr)):
            return False
        root = v.root if isinstance(v, ArrV) else v
        if k not in self.mutated and (id(root), None) not in self.locs:
            return False
        return v is not root or self.ip.shared(v)

    # -------------------------------------------------------------- leaves
    def make_leaves(self, l, post):
        """decide how the location is represented; post is a sample value after one iteration"""
        init = self.initval(l)
        l.finit = init

        def num_leaf(i, p):
            srt = 'int' if P(i).is_int() and (p is None or (isnum(p) and P(p).is_int())) else 'real'
            if isinstance(i, Fraction) or isinstance(p, Fraction):
                srt = 'real'
            return Leaf('num', 'h%s' % next(iter(fresh('h').vars())), i, srt)
        nm = lambda: next(iter(fresh('h').vars()))
        if isnum(init) and isnum(post):
            l.mode, l.shape = 'leaves', 'num'
            l.leaves = [Leaf('num', nm(), init, 'int' if P(init).is_int() and P(post).is_int() and not isinstance(init, Fraction) and not isinstance(post, Fraction) else 'real')]
            return
        if l.key is None and isinstance(l.cell, ListV) or isinstance(init, Frozen) and init.kind == 'L' and isinstance(post, Frozen) and post.kind == 'L':
            i = init if l.key is None else init.data
            p = post if l.key is None else post.data
            l.mode, l.shape = 'leaves', 'seq' if l.key is None else 'fseq'
            pt = pointwise_seq(i)
            if pt is not None and p is not None and pointwise_seq(p) is not None and is_zero(seq_len(i) - seq_len(p)):
                v, body = pt
                l.shape = 'pseq' if l.key is None else 'fpseq'
                lf = Leaf('pt', nm(), body, 'real', [v], [seq_len(i)])
                l.leaves = [lf]
                return
            ii, pi = seq_items(i), seq_items(p) if p is not None else None
            if ii and pi and len(ii) == len(pi) <= 64 and all(isnum(x) for x in ii) and all(isnum(x) for x in pi):
                # a list with a fixed number of numeric items: one recurrence per item
                l.shape = 'litems' if l.key is None else 'flitems'
                l.leaves = [num_leaf(x, y) for x, y in zip(ii, pi)]
                return
            l.leaves = [Leaf('seq', nm(), i)]
            return
        if isinstance(init, (str, SStr)) and isinstance(post, (str, SStr)):
            l.mode, l.shape = 'leaves', 'str'
            l.leaves = [Leaf('str', nm(), init)]
            return
        if l.key is None and isinstance(l.cell, ArrV) or isinstance(init, Frozen) and init.kind == 'A' and isinstance(post, Frozen) and post.kind == 'A' and post.data[0] == init.data[0]:
            flat = init if l.key is None else init.data[1]
            pf = (post if l.key is None else post.data[1]) if post is not None else [None] * len(flat)
            if all(isnum(x) for x in flat) and all(isnum(x) for x in pf):
                l.mode, l.shape = 'leaves', 'arr' if l.key is None else ('farr', init.data[0])
                l.leaves = [Leaf('num', nm(), x, 'real') for x in flat]
                return
        if l.key is None and isinstance(l.cell, SymArr) or isinstance(init, Frozen) and init.kind == 'S' and isinstance(post, Frozen) and post.kind == 'S':
            vs, body = init if l.key is None else init.data[1]
            dims = l.cell.shape if l.key is None else init.data[0]
            if isnum(body):
                l.mode, l.shape = 'leaves', 'sarr' if l.key is None else ('fsarr', dims)
                l.leaves = [Leaf('pt', nm(), body, 'real', list(vs), dims)]
                return
        if isinstance(init, tuple) and isinstance(post, tuple) and not isinstance(init, Piece) and len(init) == len(post) \
                and l.key is not None and all(isnum(x) for x in init) and all(isnum(x) for x in post):
            l.mode, l.shape = 'leaves', 'tuple'
            l.leaves = [Leaf('num', nm(), x, 'real' if not (P(x).is_int() and P(y).is_int()) else 'int') for x, y in zip(init, post)]
            return
        l.mode = 'const' if post is not None and self.same(init, post) else 'poison'
        l.leaves = []

    def assemble(self, l, vals):
        s = l.shape
        if s == 'num' or s == 'str':
            return ops.num(vals[0]) if s == 'num' and l.leaves[0].mode == 'const' else vals[0]
        if s == 'seq':
            return vals[0]
        if s == 'fseq':
            return Frozen('L', vals[0], None, l.finit.twin)
        if s in ('pseq', 'fpseq'):
            lf = l.leaves[0]
            sq = (G_(lf.dims[0], lf.vs[0], (I_(vals[0]),)),)
            sq = mkseq(sq)
            return sq if s == 'pseq' else Frozen('L', sq, None, l.finit.twin)
        if s in ('litems', 'flitems'):
            sq = mkseq((I_(*[ops.num(v) if isinstance(v, Poly) and v.is_const() else v for v in vals]),))
            return sq if s == 'litems' else Frozen('L', sq, None, l.finit.twin)
        if s == 'arr':
            return tuple(vals)
        if s == 'sarr':
            return (tuple(l.leaves[0].vs), vals[0])
        if s == 'tuple':
            return tuple(vals)
        if s[0] == 'farr':
            return Frozen('A', (s[1], tuple(vals)), None, l.finit.twin)
        if s[0] == 'fsarr':
            return Frozen('S', (s[1], (tuple(l.leaves[0].vs), vals[0])), None, l.finit.twin)
        raise ValueError(s)

    def split(self, l, v):
        s = l.shape
        try:
            if s in ('num', 'str'):
                r = [v]
            elif s in ('seq', 'fseq'):
                r = [v if s == 'seq' else v.data]
                lf = l.leaves[0]
                if lf.last is not None:
                    r = self.split_last(lf, mkseq(r[0]))
                    if r is None:
                        return None
            elif s in ('pseq', 'fpseq'):
                sq = v if s == 'pseq' else v.data
                lf = l.leaves[0]
                pw = pointwise_seq(sq)
                if pw is None or not is_zero(seq_len(sq) - lf.dims[0]):
                    return None
                r = [T.subst(P(pw[1]), {pw[0]: T.var(lf.vs[0], 'int')})]
            elif s in ('litems', 'flitems'):
                r = seq_items(v if s == 'litems' else v.data)
                if r is None:
                    return None
                r = list(r)
            elif s == 'arr':
                r = list(v)
            elif s == 'sarr':
                lf = l.leaves[0]
                r = [subst_value(v[1], {a: T.var(b, 'int') for a, b in zip(v[0], lf.vs)})]
            elif s == 'tuple':
                r = list(v)
            elif s[0] == 'farr':
                if v.data[0] != s[1]:
                    return None
                r = list(v.data[1])
            else:
                lf = l.leaves[0]
                r = [subst_value(v.data[1][1], {a: T.var(b, 'int') for a, b in zip(v.data[1][0], lf.vs)})]
        except (AttributeError, TypeError):
            return None
        if len(r) != len(l.leaves):
            return None
        for x, lf in zip(r, l.leaves):
            if lf.kind in ('num', 'pt') and not isnum(x):
                return None
            if lf.kind == 'str' and not isinstance(x, (str, SStr)):
                return None
            if lf.kind == 'seq' and not isinstance(x, tuple):
                return None
        return r

    def split_last(self, lf, seq):
        x, n = lf.last
        at = [i for i, q in enumerate(seq) if q[0] == 'O' and q[1] == lf.name]
        if len(at) != 1 or not is_zero(seq_len(seq) - n - 1) or seq[-1][0] != 'I':
            return None
        i = at[0]
        nx = seq[i + 1] if i + 1 < len(seq) else None
        if nx is None or nx[0] != 'I' or not isnum(nx[1][0]) or not is_zero(P(nx[1][0]) - x.sym()) or not is_zero(seq[i][2] - n + 1):
            return None
        whole = seq[:i] + (Piece(('O', lf.name, n)),) + ((I_(*nx[1][1:]),) if len(nx[1]) > 1 else ()) + seq[i + 2:]
        return [whole, seq[-1][1][-1]]

    def same(self, a, b):
        if isnum(a) and isnum(b):
            return prove_zero(P(a) - P(b), self.ip.pc + self.rng, Budget(3)) if not is_zero(P(a) - P(b)) else True
        try:
            if vkey(a) == vkey(b):
                return True
        except Exception:
            return False
        if isinstance(a, Frozen) and isinstance(b, Frozen) and a.kind == b.kind:
            if a.kind == 'A' and a.data[0] == b.data[0]:
                return all(self.same(x, y) for x, y in zip(a.data[1], b.data[1]))
            if a.kind == 'L':
                return self.same_seq(a.data, b.data)
            if a.kind in 'DO' and list(a.data) == list(b.data) and a.extra is b.extra:
                return all(self.same(a.data[x], b.data[x]) for x in a.data)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            if isinstance(a, Piece) or isinstance(b, Piece):
                return False
            return all(self.same(x, y) for x, y in zip(a, b))
        return False

    def same_seq(self, a, b):
        a, b = mkseq(a), mkseq(b)
        if len(a) != len(b):
            return False
        for p, q in zip(a, b):
            if p[0] != q[0]:
                return False
            if p[0] == 'I':
                if len(p[1]) != len(q[1]) or not all(self.same(x, y) for x, y in zip(p[1], q[1])):
                    return False
            elif p[0] == 'G':
                if not is_zero(p[1] - q[1]) or not self.same_seq(p[3], subst_seq(q[3], {q[2]: T.var(p[2], 'int')})):
                    return False
            elif vkey(p) != vkey(q):
                return False
        return True

    # -------------------------------------------------------------- merging of the paths of the iteration
    def merged(self, states):
        """posts: loc key -> value after the iteration"""
        ip = self.ip
        keys = {}
        for s in states:
            for k, (cell, key, old, f) in s.writes.items():
                keys[k] = (cell, key, old)
        posts = {}
        for k, (cell, key, old) in keys.items():
            vals = M.branch_values(ip, states, k, old)
            l = self.locs.get(k)
            if any(isinstance(v, Poison) or v is MISSING for v in vals):
                posts[k] = (cell, key, old, MISSING)
                continue
            try:
                acc = M.merge_states(ip, [s.conds for s in states], vals, key is None and isinstance(cell, ListV))
            except NoMerge:
                acc = MISSING
            posts[k] = (cell, key, old, acc)
        return posts

    # -------------------------------------------------------------- driver
    def summarise(self):
        self.lenient = False
        try:
            self.attempt()
        except (Unsupported, NoMerge):
            if not self.lenient:
                raise
            self.peel_first()

    def attempt(self):
        ip = self.ip
        rounds = 0
        counters = {}
        while True:
            rounds += 1
            dropped = False
            if rounds > 9:
                raise Unsupported('loop not summarised')
            try:
                states, exits = self.run()
            except PoisonRead as e:
                if isinstance(e.loc, tuple) and e.loc[0] == 'loop' and e.loc[1] == id(self):
                    self.lenient = False
                    return self.peel_first()
                raise
            except (Unsupported, NoMerge) as e:
                if isinstance(e, UnknownElem) and self.keep_last(e.name):
                    continue
                if rounds == 1 and not self.peels and 'sequence element modified' in str(e):
                    # caches filled in the first iteration
                    self.lenient = False
                    return self.peel_first()
                if rounds > 1 and not counters.get('used'):
                    counters['used'] = True
                    if self.use_counters():
                        continue
                raise
            if states is None:
                return              # no iteration is possible
            if exits:
                if rounds > 1 and not counters.get('used'):
                    counters['used'] = True
                    if self.use_counters():
                        continue
                own = {self.kn} | {lf.name for l in self.locs.values() for lf in l.leaves}
                for conds, out in exits:
                    cs = [c for c in conds if c not in self.rng]
                    if cs and not (poly_names(tuple(cs)) & own) and not any('#' in n or n.startswith('k$') for n in ()):
                        self.lenient = False
                        ip.decide(c_and(*cs))
                        again = self.__class__(ip, self.N, self.fn, self.body, self.tok, self.src)
                        again.preset(self.given)
                        return again.summarise()
                if rounds == 1 and states and all(o[0] == 'raise' for _, o in exits):
                    # seen from the values before the loop only: look again from the values at an arbitrary iteration
                    self.lenient = dropped = True
                    exits = []
                elif rounds == 1 or counters.get('used'):
                    if exits[0][1][0] == 'raise' and len(exits) and not getattr(self, 'peeled', False):
                        self.lenient = False
                        return self.peel_first()
            if exits:
                raise ExitInLoop('a loop iteration leaves the loop: %s' % (exits[0][1],))
            for s in states:
                for cell, key in self.written_iter(s):
                    raise Unsupported('the iterated list is modified')
            if self.mutated and any(s.alias for s in states):
                raise Unsupported('an object modified in a loop is referenced from two places')
            posts = self.merged(states)
            entangled = [k for k, l in self.locs.items() if self.entangled(k, l)]
            for k in entangled:
                self.locs[k].mode, self.locs[k].leaves = 'poison', []
            if entangled:
                continue
            new = [k for k in posts if k not in self.locs]
            if new:
                first = rounds == 1
                for k in new:
                    cell, key, old, v = posts[k]
                    l = Loc(cell, key, old)
                    self.locs[k] = l
                    if old is MISSING or isinstance(old, Poison):
                        l.mode, l.leaves, l.finit = 'poison', [], MISSING
                    elif v is MISSING:
                        l.leaves, l.finit = [], self.initval(l)
                        l.mode = 'poison'
                    else:
                        self.make_leaves(l, v)
                        if l.mode == 'leaves':
                            r = self.split(l, v)
                            if r is None:
                                l.mode, l.leaves = 'poison', []
                            else:
                                for lf, p in zip(l.leaves, r):
                                    if self.leaf_same(lf, lf.init, p):
                                        lf.mode = 'const'
                                    elif lf.kind == 'num':
                                        d = P(p) - P(lf.init)
                                        if d.is_int() and self.kn not in d.vars() and not all_el(d):
                                            lf.step = d
                continue
            if dropped:
                raise Unsupported('an iteration may raise an error')
            ok = self.check(posts)
            if ok:
                break
        self.lenient = False
        self.elem_updates(states)
        self.finish(posts)

    def keep_last(self, name):
        """the list grows by one item per iteration and its last item is read: that item gets a recurrence of its own"""
        for l in self.locs.values():
            if l.mode == 'leaves' and l.shape in ('seq', 'fseq') and l.leaves[0].name == name and len(l.leaves) == 1 and not getattr(l, 'nolast', False):
                lf = l.leaves[0]
                if not lf.init or lf.init[-1][0] != 'I' or not isnum(lf.init[-1][1][-1]):
                    return False
                x = Leaf('num', next(iter(fresh('h').vars())), lf.init[-1][1][-1], 'real')
                lf.last = (x, seq_len(lf.init) + self.k)
                lf.mode = 'havoc'
                l.leaves = [lf, x]
                return True
        return False

    def written_iter(self, s):
        if self.src is None:
            return
        owner, pn = self.src
        for k, (cell, key, old, f) in s.writes.items():
            if cell is owner:
                yield cell, key

    def leaf_same(self, lf, a, b):
        if lf.kind in ('num', 'pt'):
            return is_zero(P(a) - P(b)) or self.same(a, b)
        if lf.kind == 'seq':
            return self.same_seq(a, b)
        return self.same(a, b)

    def use_counters(self):
        used = False
        for l in self.locs.values():
            for lf in l.leaves:
                if lf.mode == 'havoc' and getattr(lf, 'step', None) is not None:
                    lf.mode = 'closed'
                    lf.sort = 'int' if P(lf.init).is_int() else 'real'
                    lf.closed = lambda k, i=P(lf.init), d=lf.step: i + d * P(k)
                    used = True
        return used

    def check(self, posts):
        """verify the guesses on the iteration just executed and solve the remaining recurrences"""
        again = False
        for k, l in self.locs.items():
            if k in posts:
                v = posts[k][3]
            else:
                v = None
            if l.mode == 'poison':
                l.post = v
                continue
            if l.mode == 'const':
                if v is not None and (v is MISSING or not self.same(l.finit, v)):
                    l.mode = 'poison'
                    again = True
                l.post = v
                continue
            if v is None and any(lf.last is not None for lf in l.leaves):
                l.mode, l.leaves = 'poison', []
                again = True
                continue
            if v is None:
                for lf in l.leaves:
                    lf.post = lf.sym() if lf.mode not in ('const', 'closed') else (lf.init if lf.mode == 'const' else None)
                continue
            if v is MISSING:
                l.mode, l.leaves = 'poison', []
                again = True
                continue
            r = self.split(l, v)
            if r is None:
                l.mode, l.leaves = 'poison', []
                again = True
                continue
            for lf, p in zip(l.leaves, r):
                lf.post = p
                if lf.mode == 'const' and not self.leaf_same(lf, lf.init, p):
                    lf.mode = 'havoc'
                    again = True
                elif lf.mode == 'closed' and not self.leaf_same(lf, lf.closed(self.k + 1), p):
                    lf.mode = 'havoc'
                    lf.step = None
                    again = True
        if again:
            return False
        self.solve()
        return True

    def solve(self):
        ip = self.ip
        leaves = [lf for l in self.locs.values() if l.mode == 'leaves' for lf in l.leaves]
        for l in self.locs.values():
            old = self.before.get((id(l.cell), l.key), MISSING)
            if l.mode != 'leaves' or old is MISSING or isinstance(old, Poison) or l.key is not None and not isnum(old):
                continue
            r = self.split(l, old)
            for lf, b in zip(l.leaves, r or ()):
                lf.before = b
        todo = [lf for lf in leaves if lf.mode == 'havoc' or lf.mode in ('solved', 'lag')]
        for lf in todo:
            lf.mode = 'havoc'
            lf.closed = None
        env = {}
        prog = True
        names = {lf.name for lf in todo}
        deps = {lf.name: poly_names(lf.post) & names for lf in todo}
        used = set()
        for lf in leaves:
            if lf.post is not None:
                used |= (poly_names(lf.post) & names) - {lf.name}
        pending = list(todo)
        while pending and prog:
            prog = False
            for lf in list(pending):
                p = self.subst_solved(lf.post, env)
                others = (poly_names(p) & names) - {lf.name} - set(env)
                if others:
                    continue
                cl = self.solve_leaf(lf, p)
                if cl is None:
                    continue
                pending.remove(lf)
                prog = True
                lf.solvedpost = p
                env[lf.name] = (lf, cl)
                lf.closed = cl
        for lf in pending:
            # the value after the loop is unknown; fatal only when it is read
            if lf.name in used:
                raise Unsupported('loop recurrence not solved: %s' % ops.shorten(str(lf.post)))
            lf.mode = 'unsolved'
        self.env = env

    def subst_solved(self, v, env):
        names = poly_names(v)
        sub = {}
        for n, (lf, cl) in env.items():
            if n in names or n + '#' in names:
                if lf.kind == 'num':
                    sub[n] = P(cl(self.k))
                else:
                    return subst_struct(v, {n: (lf, cl(self.k))}, self.ip) if len([1 for x in env if x in names]) == 1 else \
                        subst_struct(v, {x: (env[x][0], env[x][1](self.k)) for x in env if x in names}, self.ip)
        return subst_value(v, sub) if sub else v

    def lag(self, lf, p):
        """value overwritten in every iteration"""
        kn, init = self.kn, lf.init
        prev = lambda k: subst_value(p, {kn: P(k) - 1})
        lf.lagpost = lambda n: subst_value(p, {kn: P(n) - 1})
        try:
            at0 = subst_value(p, {kn: P(-1)})
            if self.leaf_same(lf, at0, init):
                return prev
        except Exception:
            pass
        if lf.kind in ('num', 'pt'):
            return lambda k: ite(c_le(k, 0), P(init), P(prev(k)))
        if lf.kind == 'seq':
            return lambda k: M.merge_seq(self.ip, c_le(k, 0), init, prev(k))
        if lf.kind == 'str':
            return lambda k: M.merge_str(self.ip, c_le(k, 0), init, prev(k))
        return None

    def solve_leaf(self, lf, p):
        ip = self.ip
        kn = self.kn
        if lf.kind == 'num':
            p = P(p)
            if lf.name not in p.vars():
                return self.lag(lf, p)
            h = lf.sym()
            d = T.subst(p, {lf.name: ZERO})
            diff = p - h - d
            if lf.name not in d.vars() and (is_zero(diff) or prove_zero(diff, ip.pc + self.rng, Budget(3))):
                init = P(lf.init)
                lf.delta = d
                if lf.before is not None:
                    # the iteration executed on its own follows the same law: one sum over all
                    d1 = T.subst(d, {kn: T.var(kn, 'int') - 1})     # the step of iterations 1, 2, ... of the whole loop
                    gap = init - P(lf.before) - T.subst(d1, {kn: ZERO})
                    if is_zero(gap) or prove_zero(gap, ip.pc, Budget(2)):
                        b = P(lf.before)
                        return lambda k: b + mk_sum(P(k) + 1, kn, d1)
                return lambda k: init + mk_sum(P(k), kn, d)
            if is_zero(p + h):
                init = P(lf.init)
                return lambda k: init * parity(P(k))
            return None
        if lf.kind == 'seq':
            seq = p
            at = [i for i, q in enumerate(seq) if q[0] == 'O' and q[1] == lf.name]
            if lf.name not in poly_names(seq) and lf.name + '#' not in poly_names(seq):
                return self.lag(lf, seq)
            if len(at) != 1:
                return None
            pre, suf = seq[:at[0]], seq[at[0] + 1:]
            if lf.name in poly_names((pre, suf)) or lf.name + '#' in poly_names((pre, suf)):
                return None
            init = lf.init
            if not pre:
                def cl(k):
                    return mkseq(tuple(init) + rename_gen(k, kn, suf))
                return cl
            if not suf:
                def cl(k):
                    v = fresh('pp', 'int')
                    (vn,) = v.vars()
                    return mkseq((G_(k, vn, subst_seq(pre, {kn: P(k) - 1 - v})),) + tuple(init))
                return cl
            return None
        if lf.kind == 'str':
            ps = sstr_pieces(p)
            at = [i for i, q in enumerate(ps) if isinstance(q, tuple) and q[0] == 'O' and q[1] == lf.name]
            if lf.name not in poly_names(p):
                return self.lag(lf, p)
            if len(at) != 1:
                return None
            pre, suf = ps[:at[0]], ps[at[0] + 1:]
            if lf.name in poly_names(mkstr(pre)) or lf.name in poly_names(mkstr(suf)) or pre:
                return None
            init = lf.init
            tok = self.tok
            if tok is not None and len(suf) == 1 and isinstance(suf[0], tuple) and suf[0][0] == 'ch' and suf[0][1] == tok and is_zero(suf[0][2] - self.k):
                N = self.N

                def cl(k):
                    if is_zero(P(k) - N):
                        return mkstr([init, tok])
                    return mkstr([init, ('G', P(k), kn, SStr(suf))])
                return cl

            def cl(k):
                v = fresh('ps', 'int')
                (vn,) = v.vars()
                return mkstr([init, ('G', P(k), vn, subst_value(SStr(suf), {kn: v}))])
            return cl
        if lf.kind == 'pt':
            p = P(p)
            h = lf.sym()
            if lf.name not in poly_names(p):
                return self.lag(lf, p)
            cl = self.solve_stores(lf, p, h)
            if cl is not None:
                return cl
            z = subst_el(p, lf.name, lambda *a: ZERO)
            if is_zero(p - h - z) or prove_zero(p - h - z, ip.pc + self.rng, Budget(3)):
                if lf.name not in poly_names(z):
                    init = P(lf.init)
                    return lambda k: init + mk_sum(P(k), kn, z)
            return None
        return None

    def solve_stores(self, lf, p, h):
        """an iteration stores at single places: an element holds what the latest iteration that hits it has stored"""
        kn = self.kn
        sts = point_stores(p, h)
        if not sts or len(sts) > 4:
            return None
        bnds = []
        for v, n in zip(lf.vs, lf.dims):
            bnds += [c_le(0, T.var(v, 'int')), c_lt(T.var(v, 'int'), n)]
        pc = [c for c in self.ip.pc if kn not in c.vars()] + bnds
        out = []
        for c, val in sts:
            if not isinstance(c, Cond):
                return None
            sol = solve_index(c, kn, pc)
            if sol is None or lf.name in poly_names(val) or lf.name in poly_names(c):
                return None
            out.append((sol[0], sol[1], T.subst(P(val), {kn: sol[0]})))
        init = P(lf.init)

        def cl(K):
            K = P(K)
            fires = []
            for ks, rest, val in out:
                cs = [rest]
                for q in (c_le(0, ks), c_lt(ks, K)):
                    if q is not True and not entails(bnds, q):
                        cs.append(q)
                fires.append(c_and(*cs))
            r = init
            for i in range(len(out) - 1, -1, -1):
                # earlier in the list: the later store of one iteration; those behind have been dealt with
                later = []
                for j in range(i + 1, len(out)):
                    both = [c for c in (fires[i], fires[j]) if c is not True]
                    q = c_le(out[j][0], out[i][0])
                    if q is True or not feasible(pc + both) or entails(pc + both, q):
                        continue
                    later.append(c_not(c_and(fires[j], c_not(q))) if fires[j] is not True else q)
                r = ite(c_and(fires[i], *later), out[i][2], r)
            return r
        return cl

    # -------------------------------------------------------------- elements of the iterated lists updated in place
    def elem_updates(self, states):
        ip = self.ip
        mods = {}
        for s in states:
            for cell, key, val, mod, fz, new in s.elems:
                if mod:
                    if not new:
                        raise Unsupported('element of an outer sequence modified in a loop')
                    mods.setdefault(id(cell), (cell, set()))[1].add(key[0])
        self.elem_new = []
        for cid, (cell, pns) in mods.items():
            for pn in pns:
                if not isinstance(pn[0], int):
                    raise Unsupported('explicit element modified in a loop')
                acc = None
                for s in reversed(states):
                    fz = None
                    for c, key, val, mod, f, new in s.elems:
                        if c is cell and isinstance(key[0][0], int) and key[0][0] == pn[0]:
                            if not is_zero(key[1] - self.k):
                                raise Unsupported('another element of a sequence modified in a loop')
                            if key[0] == pn and mod:
                                fz = f
                    p = cell.c[pn[0]]
                    if fz is None:
                        fz = seq_items(subst_seq(p[3], {p[2]: self.k}))[pn[1]]
                    acc = fz if acc is None else M.merge_val(ip, c_and(*s.conds), fz, acc)
                if poly_names(acc) & {lf.name for l in self.locs.values() for lf in l.leaves if lf.mode == 'havoc'}:
                    acc = self.subst_solved(acc, self.env)
                p = cell.c[pn[0]]
                if not is_zero(p[1] - self.N):
                    raise Unsupported('part of a sequence modified in a loop')
                self.elem_new.append((cell, pn, acc))

    # -------------------------------------------------------------- state after the loop
    def finish(self, posts):
        ip = self.ip
        N = self.N
        nonempty = entails(ip.pc, c_le(1, N))
        out = []
        for k, l in self.locs.items():
            if l.mode == 'const':
                continue
            if l.mode == 'poison':
                v = l.post
                if nonempty and v is not None and v is not MISSING and (isnum(v) or isinstance(v, (str, SStr))):
                    try:
                        v = self.subst_solved(v, self.env)
                        if not poly_names(v) & self.havoc_names():
                            out.append((l, subst_value(v, {self.kn: N - 1})))
                            continue
                    except Unsupported:
                        pass
                out.append((l, Poison(('after loop', k))))
                continue
            vals = []
            for lf in l.leaves:
                if lf.mode == 'const':
                    vals.append(lf.init)
                elif lf.mode == 'closed' or lf.closed is not None:
                    if lf.closed is not None and nonempty and hasattr(lf, 'lagpost'):
                        vals.append(lf.lagpost(N))
                    else:
                        vals.append(lf.closed(N))
                else:
                    vals = None
                    break
            if vals is None:
                out.append((l, Poison(('after loop', k))))
            else:
                out.append((l, self.assemble(l, vals)))
        memo = {}
        for l, v in out:
            if l.key is None:
                if isinstance(v, Poison):
                    raise Unsupported('content of an object unknown after a loop')
                ip.mark_twins(v)
                ip.setc(l.cell, v)
            else:
                if not isinstance(v, Poison):
                    if isinstance(v, Poly):
                        v = ops.num(v) if v.is_const() else v
                    ip.mark_twins(v)
                    v = ip.thaw(v, memo) if isinstance(v, Frozen) else v
                ip.setk(l.cell, l.key, v)
        for cell, pn, acc in getattr(self, 'elem_new', []):
            p = cell.c[pn[0]]
            items = list(seq_items(p[3]))
            items[pn[1]] = subst_value(acc, {self.kn: T.var(p[2], 'int')})
            c = list(cell.c)
            c[pn[0]] = G_(p[1], p[2], (I_(*items),))
            ip.setmemo(cell, {})
            ip.setc(cell, tuple(c))

    def havoc_names(self):
        return {lf.name for l in self.locs.values() for lf in l.leaves} | {lf.name + '#' for l in self.locs.values() for lf in l.leaves}

    def peel_first(self):
        ip = self.ip
        d = self.peels
        if d >= 2:
            raise Unsupported('loop not summarised after peeling')
        if not ip.decide(c_le(1, self.N)):
            return
        mark = len(ip.journal)
        run_segments(ip, self.fn(ZERO), self.body)
        fn = self.fn
        s = Summ(ip, self.N - 1, lambda k: fn(P(k) + 1), self.body, None, None)
        s.peels = d + 1
        s.before = {}
        for cell, key, old in ip.journal[mark:]:
            s.before.setdefault((id(cell), key), old)
        s.preset([(cell, name, init + step, step) for cell, name, init, step in self.given])
        c = (self.N - 1).const()
        if c is not None:
            for j in range(int(c)):
                run_segments(ip, s.fn(P(j)), self.body)
            return
        s.summarise()


def summarise(ip, N, fn, body, tok=None, src=None, counters=()):
    N = P(N)
    if entails(ip.pc, c_le(N, 0)):
        return
    s = Summ(ip, N, fn, body, tok, src)
    s.preset(counters)
    s.summarise()


# ------------------------------------------------------------------ helpers
def rename_gen(k, kn, seq):
    v = fresh('gk', 'int')
    (vn,) = v.vars()
    if not seq:
        return ()
    return mkseq([G_(P(k), vn, subst_seq(seq, {kn: v}))])


def pointwise_seq(seq):
    """(var, numeric body) of a sequence [body(v) for v < n]"""
    if len(seq) == 1 and seq[0][0] == 'G':
        it = seq_items(seq[0][3])
        if it is not None and len(it) == 1 and isnum(it[0]):
            return seq[0][2], it[0]
    return None


def subst_el(p, name, f):
    def g(a):
        if a.kind == 'el' and a.args[0] == name:
            return f(*a.args[1])
        if a.kind in ('var', 'pi', 'opq'):
            return None
        return T.rebuild(a, anyv)

    def anyv(x):
        if isinstance(x, Poly):
            return map_poly(x, g)
        if isinstance(x, Cond):
            return map_cond(x, anyv)
        if isinstance(x, tuple) and not isinstance(x, Piece):
            return tuple(anyv(y) for y in x)
        return x
    return anyv(P(p))


def map_cond(c, f):
    if c.op in ('eq', 'lt', 'le'):
        return {'eq': c_eq, 'lt': c_lt, 'le': c_le}[c.op](f(c.args[0]))
    if c.op == 'not':
        return c_not(map_cond(c.args[0], f) if isinstance(c.args[0], Cond) else c.args[0])
    if c.op in ('and', 'or'):
        return (c_and if c.op == 'and' else c_or)(*[map_cond(x, f) if isinstance(x, Cond) else x for x in c.args])
    return c


def subst_struct(v, env, ip):
    """replace unknown leaves (numbers, sequences, strings, pointwise families) by their values"""
    if isinstance(v, (Poly, Cond)):
        sub = {n: P(val) for n, (lf, val) in env.items() if lf.kind == 'num'}
        for n, (lf, val) in env.items():
            if lf.kind == 'seq':
                sub[n + '#'] = seq_len(val)
        r = subst_value(v, sub)
        for n, (lf, val) in env.items():
            if lf.kind == 'pt' and n in poly_names(r):
                if isinstance(r, Cond):
                    raise Unsupported('array element in a condition')
                r = subst_el(r, n, lambda *a, lf=lf, val=val: T.subst(P(val), dict(zip(lf.vs, a))))
        return r
    if isinstance(v, Piece):
        if v[0] == 'O':
            raise Unsupported('piece')
        if v[0] == 'I':
            return I_(*[subst_struct(x, env, ip) for x in v[1]])
        if v[0] == 'G':
            return Piece(('G', subst_struct(v[1], env, ip), v[2], subst_sq(v[3], env, ip)))
        return Piece(('C', subst_struct(v[1], env, ip), subst_sq(v[2], env, ip), subst_sq(v[3], env, ip)))
    if isinstance(v, tuple):
        if v and isinstance(v[0], Piece):
            return subst_sq(v, env, ip)
        return tuple(subst_struct(x, env, ip) for x in v)
    if isinstance(v, SStr):
        out = []
        for x in v.p:
            if isinstance(x, tuple) and x[0] == 'O' and x[1] in env:
                out.append(env[x[1]][1])
            elif isinstance(x, tuple) and x[0] in ('G', 'C'):
                out.append(tuple(subst_struct(y, env, ip) if not isinstance(y, str) or i > 2 else y for i, y in enumerate(x)))
            elif isinstance(x, Tok):
                out.append(Tok(x.kind, x.name, [subst_struct(i, env, ip) for i in x.idx], subst_struct(x.data, env, ip)))
            else:
                out.append(x)
        return mkstr(out)
    if isinstance(v, Frozen):
        return Frozen(v.kind, subst_struct(v.data, env, ip), v.extra, v.twin)
    if isinstance(v, dict):
        return {k: subst_struct(x, env, ip) for k, x in v.items()}
    return v


def subst_sq(seq, env, ip):
    out = []
    for p in seq:
        if p[0] == 'O' and p[1] in env:
            if env[p[1]][0].last is not None and not is_zero(p[2] - env[p[1]][0].last[1]):
                raise Unsupported('part of a growing list')
            out.extend(env[p[1]][1])
        else:
            out.append(subst_struct(p, env, ip))
    return mkseq(out)


def all_el(p):
    return any(a.kind != 'var' for a in all_atoms(p))


def point_stores(p, h):
    """p as a list of (condition, stored value), the first that applies counts, else the old value h; None when it is none"""
    p = P(p)
    if is_zero(p - h):
        return []
    if len(p.t) != 1:
        return None
    (m, k), = p.t.items()
    if k != 1 or len(m) != 1 or m[0][1] != 1 or m[0][0].kind != 'ite':
        return None
    c, a, b = m[0][0].args
    (hn,) = [x.args[0] for x in all_atoms(h) if x.kind == 'el']
    ina, inb = hn in poly_names(a), hn in poly_names(b)
    if not ina and inb:
        r = point_stores(b, h)
        return None if r is None else [(c, a)] + r
    if not inb and ina:
        r = point_stores(a, h)
        return None if r is None else [(c_not(c), b)] + r
    if ina and inb:
        x, y = point_stores(a, h), point_stores(b, h)
        if x is None or y is None:
            return None
        return [(c_and(c, q), v) for q, v in x] + [(c_and(c_not(c), q), v) for q, v in y]
    return None


def solve_index(c, kn, pc=()):
    """from a conjunction containing an equality linear in kn: (solution, remaining condition with kn replaced)"""
    cs = list(c.args) if c.op == 'and' else [c]
    k = T.var(kn, 'int')
    for i, q in enumerate(cs):
        if isinstance(q, Cond) and q.op == 'eq' and kn in q.vars():
            e = q.args[0]
            co = T.subst(e, {kn: ONE}) - T.subst(e, {kn: ZERO})
            cc = co.const()
            if cc in (1, -1) and is_zero(e - co * k - T.subst(e, {kn: ZERO})):
                ks = T.subst(e, {kn: ZERO}).scale(-cc)
                rest = [subst_value(x, {kn: ks}) for j, x in enumerate(cs) if j != i]
                return ks, (c_and(*rest) if rest else True)
    # a block of length w: w*k <= e and e <= w*k + w - 1
    def lin(q):
        e = q.args[0]
        co = T.subst(e, {kn: ONE}) - T.subst(e, {kn: ZERO})
        e0 = T.subst(e, {kn: ZERO})
        return (co, e0) if kn not in co.vars() and is_zero(e - co * k - e0) else (None, None)
    les = [(j, *lin(q)) for j, q in enumerate(cs) if isinstance(q, Cond) and q.op == 'le' and kn in q.vars() and P(q.args[0]).is_int()]
    for j, w, e in les:
        if w is None or not entails(list(pc), c_le(1, w)):
            continue
        for j2, w2, e2 in les:
            if w2 is not None and j2 != j and is_zero(w + w2) and is_zero(e2 + e + w - 1):
                from .interp import simp_fdiv
                ks = simp_fdiv(e.scale(-1), w, list(pc))
                rest = [subst_value(x, {kn: ks}) for h, x in enumerate(cs) if h not in (j, j2)]
                return ks, (c_and(*rest) if rest else True)
    return None
