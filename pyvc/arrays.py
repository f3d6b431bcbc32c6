"""numpy-like arrays of exact terms, pandas-like series."""
from .terms import *
from . import terms as T
from .values import *
from .interp import simp_divs, nonneg
from .prove import find_ite, resolve_ite, entails
from . import ops
from .ops import num, is_num, raise_, num_op


def is_arr(v):
    return isinstance(v, (ArrV, SymArr, BlockArr, SeriesV, OpqArr, FrameDF, CaseV))


# ------------------------------------------------------------------ extended-real scalars
def xcases(v):
    if isinstance(v, CaseV):
        return list(v.cases)
    return [(True, v)]


def mkcase(cs):
    cs = [(c, v) for c, v in cs if c is not False]
    if len(cs) == 1:
        return cs[0][1]
    if not any(isinstance(v, Special) for c, v in cs):
        acc = P(cs[-1][1])
        for c, v in cs[-2::-1]:
            acc = ite(c, P(v), acc)
        return acc
    return CaseV(cs)


def split_ite(v, conds=(), depth=0):
    """cases of a polynomial by its conditional subterms"""
    if not isinstance(v, Poly) or depth > 6:
        return [(True, v)]
    a = find_ite(v)
    if a is None:
        return [(True, v)]
    c = a.args[0] if hasattr(a, 'args') else a
    out = []
    for val, cc in ((True, c), (False, c_not(c))):
        for c2, w in split_ite(resolve_ite(v, c, val), conds, depth + 1):
            out.append((c_and(cc, c2), w))
    return out


def xop(ip, op, a, b):
    """scalar operation with numpy semantics (division by zero gives inf/nan)"""
    if isinstance(a, (Cond, bool)):
        a = ops.boolpoly(a)
    if isinstance(b, (Cond, bool)):
        b = ops.boolpoly(b)
    if isinstance(a, CaseV) or isinstance(b, CaseV):
        out = []
        for ca, va in xcases(a):
            for cb, vb in xcases(b):
                c = c_and(ca, cb)
                if c is False:
                    continue
                for c2, v in xcases(xop(ip, op, va, vb)):
                    out.append((c_and(c, c2), v))
        return mkcase(out)
    if op == 'Div':
        return xdiv(ip, a, b)
    if is_num(a) and is_num(b):
        return num_op(ip, op, a, b)
    raise Unsupported('array element operation')


def xdiv(ip, a, b):
    if isinstance(b, Special) or isinstance(a, Special):
        return num_op(ip, 'Div', a, b)
    pb = P(b)
    out = []
    for c, q in split_ite(pb):
        q = P(q)
        if c is False:
            continue
        if not q.t:
            out.extend((c_and(c, c2), v) for c2, v in zero_div(ip, a))
        elif q.is_const() or ip.entails(c_not(c_eq(q))):
            out.append((c, num_op(ip, 'Div', a, q)))
        elif getattr(ip, 'np_zero_split', False):
            z = c_eq(q)
            out.extend((c_and(c, z, c2), v) for c2, v in zero_div(ip, a))
            out.append((c_and(c, c_not(z)), P(a) / q))
        else:
            out.append((c, num_op(ip, 'Div', a, q)))
    return mkcase(out)


def zero_div(ip, a):
    pa = P(a)
    k = pa.const()
    if k is not None:
        return [(True, NAN if k == 0 else INF if k > 0 else NINF)]
    if ip.entails(c_lt(0, pa)):
        return [(True, INF)]
    if ip.entails(c_lt(pa, 0)):
        return [(True, NINF)]
    return [(c_lt(0, pa), INF), (c_lt(pa, 0), NINF), (c_eq(pa), NAN)]


def x_abs(ip, v):
    if isinstance(v, CaseV):
        return mkcase([(c, x_abs(ip, x)) for c, x in v.cases])
    if isinstance(v, Special):
        return INF if v is not NAN else NAN
    v = num(v)
    if not isinstance(v, Poly):
        return abs(v)
    return ite(c_lt(v, 0), -v, v)


def x_cmp(ip, op, a, b):
    if isinstance(a, CaseV) or isinstance(b, CaseV):
        raise Unsupported('comparison of extended values')
    if op == 'Eq':
        return ops.py_eq(ip, a, b)
    if op == 'NotEq':
        return c_not(ops.py_eq(ip, a, b))
    return ops.num_cmp(op, ops.topoly(a) if isinstance(a, Cond) else a, ops.topoly(b) if isinstance(b, Cond) else b)


def x_ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, (CaseV, Special)) or isinstance(b, (CaseV, Special)):
        return mkcase([(c_and(c, x), v) for x, v in xcases(a)] + [(c_and(c_not(c), x), v) for x, v in xcases(b)])
    if isinstance(a, (str, SStr)) or isinstance(b, (str, SStr)):
        return mkstr([('C', c, SStr([a]), SStr([b]))])
    return ite(c, ops.topoly(a), ops.topoly(b))


# ------------------------------------------------------------------ construction
def elem(v):
    if isinstance(v, bool):
        return v
    return v


def from_value(ip, v):
    """np.array(v)"""
    if isinstance(v, ArrV):
        return ArrV(v.shape, v.flat)
    if isinstance(v, SymArr):
        return SymArr(v.shape, v.c[0], v.c[1])
    if isinstance(v, BlockArr):
        return v
    if isinstance(v, OpqArr):
        return v
    if isinstance(v, SeriesV):
        return from_seq(ip, v.seq)
    if is_num(v) or isinstance(v, (Cond, CaseV)):
        return ArrV((), (v,))
    if isinstance(v, (ListV, tuple, ops.SeqTuple, RangeV, LazyIter)):
        return from_seq(ip, ops.as_seq(ip, v))
    if v is None:
        raise Unsupported('array of None')
    if isinstance(v, ops.VecN):
        return from_seq(ip, (I_(*v.items),))
    raise Unsupported('np.array of %s' % type(v).__name__)


def from_seq(ip, seq):
    items = seq_items(seq)
    if items is not None:
        if not items:
            return ArrV((0,), ())
        its = [ip.thaw(x) for x in items]
        if all(is_num(x) or isinstance(x, (Cond, CaseV)) for x in its):
            return ArrV((len(its),), tuple(its))
        if any(isinstance(x, (str, SStr)) for x in its):
            return ArrV((len(its),), tuple(its))
        arrs = [from_value(ip, x) for x in its]
        if all(isinstance(a, ArrV) for a in arrs):
            if len({a.shape for a in arrs}) != 1:
                raise_(ValueError, 'inhomogeneous shape')
            flat = []
            for a in arrs:
                flat.extend(a.flat)
            return ArrV((len(arrs),) + arrs[0].shape, flat)
        if all(isinstance(a, SymArr) for a in arrs):
            v = fresh('r', 'int')
            (vn,) = v.vars()
            a0 = arrs[0]
            acc = a0_body(arrs[-1], a0)
            for j in range(len(arrs) - 2, -1, -1):
                acc = x_ite(c_eq(v, j), a0_body(arrs[j], a0), acc)
            return SymArr((P(len(arrs)),) + a0.shape, (vn,) + tuple(a0.c[0]), acc)
        raise Unsupported('array of mixed rows')
    if len(seq) == 1 and seq[0][0] == 'G':
        p = seq[0]
        n, v, body = p[1], p[2], p[3]
        it = seq_items(body)
        if it is not None and len(it) == 1:
            x = it[0]
            if is_num(x) or isinstance(x, (Cond, CaseV)):
                return SymArr((n,), (v,), x)
            if isinstance(x, Frozen) and x.kind in ('L', 'A', 'S') or isinstance(x, tuple):
                a = from_value(ip, ip.thaw(x) if isinstance(x, Frozen) else x)
                if isinstance(a, ArrV):
                    return stack_sym(n, v, a)
                if isinstance(a, SymArr):
                    if any(v in s.vars() for s in a.shape):
                        raise Unsupported('ragged array')
                    return SymArr((n,) + a.shape, (v,) + tuple(a.c[0]), a.c[1])
        else:
            # concatenation of blocks of constant length
            L = seq_len(body)
            if v not in L.vars():
                w = fresh('f', 'int')
                (wn,) = w.vars()
                inner = from_seq(ip, body)
                if isinstance(inner, SymArr) and len(inner.shape) == 1:
                    q = T.fdiv(w, L)
                    b = subst_value(inner.c[1], {v: q, inner.c[0][0]: w - q * L})
                    return SymArr((n * L,), (wn,), b)
                if isinstance(inner, ArrV) and len(inner.shape) == 1:
                    q = T.fdiv(w, L)
                    r = w - q * L
                    acc = subst_value(inner.flat[-1], {v: q})
                    for j in range(len(inner.flat) - 2, -1, -1):
                        acc = x_ite(c_eq(r, j), subst_value(inner.flat[j], {v: q}), acc)
                    return SymArr((n * L,), (wn,), acc)
    # general: explicit items mixed with generated ones
    n = seq_len(seq)
    v = fresh('a', 'int')
    (vn,) = v.vars()
    off = n
    acc = None
    offs = []
    o = ZERO
    for p in seq:
        offs.append(o)
        o = o + seq_len((p,))
    for p, o in reversed(list(zip(seq, offs))):
        a = from_seq(ip, (p,))
        rel = v - o
        if isinstance(a, ArrV):
            if len(a.shape) != 1:
                raise Unsupported('array of mixed pieces')
            for j in range(len(a.flat) - 1, -1, -1):
                acc = a.flat[j] if acc is None else x_ite(c_eq(rel, j), a.flat[j], acc)
        else:
            if len(a.shape) != 1:
                raise Unsupported('array of mixed pieces')
            b = subst_value(a.c[1], {a.c[0][0]: rel})
            acc = b if acc is None else x_ite(c_lt(rel, a.shape[0]), b, acc)
    return SymArr((n,), (vn,), acc)


def a0_body(a, a0):
    return subst_value(a.c[1], {x: T.var(y, 'int') for x, y in zip(a.c[0], a0.c[0])})


def stack_sym(n, v, a):
    """array of n rows, row v given by the concrete array a"""
    vs = []
    for s in a.shape:
        w = fresh('c', 'int')
        vs.append(next(iter(w.vars())))
    acc = a.flat[-1]
    ws = [T.var(x, 'int') for x in vs]
    for pos in range(len(a.flat) - 2, -1, -1):
        idx = unravel(pos, a.shape)
        acc = x_ite(c_and(*[c_eq(w, i) for w, i in zip(ws, idx)]), a.flat[pos], acc)
    return SymArr((n,) + a.shape, (v,) + tuple(vs), acc)


def unravel(pos, shape):
    out = []
    for s in reversed(shape):
        out.append(pos % s)
        pos //= s
    return tuple(reversed(out))


def to_sym(a):
    """view of a concrete array as an indexed term"""
    vs = [next(iter(fresh('c', 'int').vars())) for _ in a.shape]
    ws = [T.var(x, 'int') for x in vs]
    fl = a.flat
    if all(ops.vkey_eq(x, fl[0]) if False else (is_num(x) and is_num(fl[0]) and not isinstance(x, Special) and not isinstance(fl[0], Special) and is_zero(P(x) - P(fl[0]))) for x in fl):
        return SymArr(a.shape, vs, fl[0])
    acc = fl[-1]
    for pos in range(len(fl) - 2, -1, -1):
        acc = x_ite(c_and(*[c_eq(w, i) for w, i in zip(ws, unravel(pos, a.shape))]), fl[pos], acc)
    return SymArr(a.shape, vs, acc)


def offsets(sizes):
    out, s = [], ZERO
    for x in sizes:
        out.append(s)
        s = s + x
    return out


def block_sym(a):
    """view of a block matrix as an indexed term"""
    vs = [next(iter(fresh('c', 'int').vars())) for _ in (0, 1)]
    r, c = [T.var(x, 'int') for x in vs]
    hs = offsets([row[0].shape[0] for row in a.rows])
    ws = offsets([b.shape[1] for b in a.rows[0]])
    acc = None
    for i in range(len(hs) - 1, -1, -1):
        line = None
        for j in range(len(ws) - 1, -1, -1):
            b = a.rows[i][j]
            b = to_sym(b) if isinstance(b, ArrV) else b
            v = b.at(r - hs[i], c - ws[j])
            line = v if line is None else x_ite(c_lt(c, ws[j + 1]), v, line)
        acc = line if acc is None else x_ite(c_lt(r, hs[i + 1]), line, acc)
    return SymArr(a.shape, vs, acc)


def resolve_ites(ip, v):
    """decide the case distinctions of a value that the path condition settles"""
    if not isinstance(v, Poly):
        return v
    for _ in range(40):
        for a in v.atoms():
            if a.kind == 'ite':
                c, x, y = a.args
                t = cond_known(ip, c)
                if t is None:
                    continue
                v = map_poly(v, lambda b, a=a, t=t, x=x, y=y: (x if t else y) if b is a or b == a else None)
                break
        else:
            return v
    return v


def cond_known(ip, c):
    """truth value of a condition settled by the path condition, else None"""
    if isinstance(c, bool):
        return c
    if c.op in ('le', 'eq') and c.args[0].is_int():
        p = c.args[0]
        if nonneg(p - 1, ip.pc) or (c.op == 'eq' and nonneg(-p - 1, ip.pc)):
            return False
        if c.op == 'le' and nonneg(-p, ip.pc):
            return True
    if ip.entails(c):
        return True
    if ip.entails(c_not(c)):
        return False
    return None


def bounds(ip, x, s):
    """start and stop of a unit-step slice of an axis of length s"""
    if x.s is not None and num(x.s) != 1:
        raise Unsupported('slice step')

    def fix(k, dflt):
        if k is None:
            return dflt
        k = P(ops.cidx(k))
        if not nonneg(k, ip.pc) and ip.decide(c_lt(k, 0)):
            k = s + k
            if not nonneg(k, ip.pc) and ip.decide(c_lt(k, 0)):
                return ZERO
        if not nonneg(s - k, ip.pc) and ip.decide(c_lt(s, k)):
            return s
        return k
    return fix(x.a, ZERO), fix(x.b, s)


def full(ip, shape, val):
    dims = dims_of(ip, shape)
    if all(isinstance(d, int) for d in dims):
        n = 1
        for d in dims:
            n *= d
        if n > 20000:
            raise Unsupported('large array')
        return ArrV(tuple(dims), (val,) * n)
    return SymArr(dims, [next(iter(fresh('z', 'int').vars())) for _ in dims], val)


def dims_of(ip, shape):
    if isinstance(shape, (tuple, ListV)):
        ds = ops.unpack(ip, shape, None, None)
    else:
        ds = [shape]
    out = []
    for d in ds:
        d = num(d)
        if isinstance(d, Fraction):
            raise_(TypeError, 'float dimension')
        if isinstance(d, int) and d < -1:
            raise_(ValueError, 'negative dimension')
        out.append(d)
    return out


def reshape(ip, a, shape):
    dims = dims_of(ip, shape)
    if isinstance(a, ArrV) and all(isinstance(d, int) for d in dims):
        n = len(a.flat)
        if -1 in dims:
            k = 1
            for d in dims:
                if d != -1:
                    k *= d
            if k == 0 or n % k:
                raise_(ValueError, 'reshape')
            dims[dims.index(-1)] = n // k
        k = 1
        for d in dims:
            k *= d
        if k != n:
            raise_(ValueError, 'reshape')
        return ArrV(dims, None, a, list(range(n)))
    if isinstance(a, ArrV):
        a = to_sym(a)
    if isinstance(a, SymArr):
        n = ONE
        for s in a.shape:
            n = n * s
        if -1 in [d for d in dims if isinstance(d, int)]:
            k = ONE
            for d in dims:
                if not (isinstance(d, int) and d == -1):
                    k = k * P(d)
            q = n * inverse(k)
            if any(e < 0 for m in q.t for _, e in m):
                raise Unsupported('reshape')
            dims[[i for i, d in enumerate(dims) if isinstance(d, int) and d == -1][0]] = q
        k = ONE
        for d in dims:
            k = k * P(d)
        if not is_zero(k - n):
            raise_(ValueError, 'reshape') if not ip.entails(c_eq(k, n)) else None
        vs = [fresh('i', 'int') for _ in dims]
        names = [next(iter(v.vars())) for v in vs]
        flat = ZERO
        for v, d in zip(vs, dims):
            flat = flat * P(d) + v
        # index in the original shape
        idx = []
        rem = flat
        conds = []
        for v, d in zip(vs, dims):
            conds += [c_le(0, v), c_lt(v, d)]
        conds = [c for c in conds if not isinstance(c, bool)]
        from .interp import simp_fdiv
        tail = ONE
        for s in a.shape[1:]:
            tail = tail * s
        for j, s in enumerate(a.shape):
            if j == len(a.shape) - 1:
                idx.append(rem)
            else:
                q = simp_fdiv(rem, tail, ip.pc + conds)
                idx.append(q)
                rem = rem - q * tail
                tail = tail * inverse(a.shape[j + 1])
        return SymArr(dims, names, a.at(*idx))
    raise Unsupported('reshape')


# ------------------------------------------------------------------ operations
def bshape(s1, s2):
    out = []
    for i in range(max(len(s1), len(s2))):
        a = s1[len(s1) - 1 - i] if i < len(s1) else 1
        b = s2[len(s2) - 1 - i] if i < len(s2) else 1
        if a == b or b == 1:
            out.append(a)
        elif a == 1:
            out.append(b)
        else:
            raise_(ValueError, 'operands could not be broadcast together')
    return tuple(reversed(out))


def bindex(idx, shape):
    """flat position in an array of the given shape for a broadcast index"""
    idx = idx[len(idx) - len(shape):]
    pos = 0
    for i, s in zip(idx, shape):
        pos = pos * s + (0 if s == 1 else i)
    return pos


def broadcast(ip, f, a, b):
    if isinstance(a, ArrV) and isinstance(b, ArrV):
        sh = bshape(a.shape, b.shape)
        n = 1
        for s in sh:
            n *= s
        fa, fb = a.flat, b.flat
        if a.shape == b.shape:
            return ArrV(sh, [f(x, y) for x, y in zip(fa, fb)])
        return ArrV(sh, [f(fa[bindex(unravel(p, sh), a.shape)], fb[bindex(unravel(p, sh), b.shape)]) for p in range(n)])
    # symbolic
    if isinstance(a, ArrV):
        a = to_sym(a)
    if isinstance(b, ArrV):
        b = to_sym(b)
    nd = max(len(a.shape), len(b.shape))
    vs = [fresh('b', 'int') for _ in range(nd)]
    dims = []
    for i in range(nd):
        da = a.shape[len(a.shape) - nd + i] if len(a.shape) - nd + i >= 0 else ONE
        db = b.shape[len(b.shape) - nd + i] if len(b.shape) - nd + i >= 0 else ONE
        if is_zero(da - db):
            dims.append(da)
        elif da == ONE:
            dims.append(db)
        elif db == ONE:
            dims.append(da)
        elif ip.entails(c_eq(da, db)):
            dims.append(da)
        else:
            raise Unsupported('broadcast of unknown dimensions')

    def at(x):
        k = len(x.shape)
        ix = vs[nd - k:]
        return x.at(*[ZERO if s == ONE else v for v, s in zip(ix, x.shape)])
    return SymArr(dims, [next(iter(v.vars())) for v in vs], f(at(a), at(b)))


def binop(ip, op, a, b):
    if isinstance(a, FrameDF) or isinstance(b, FrameDF):
        raise Unsupported('DataFrame arithmetic')
    if isinstance(a, SeriesV) or isinstance(b, SeriesV):
        return series_op(ip, lambda x, y: belem(ip, op, x, y), a, b)
    if isinstance(a, CaseV) or isinstance(b, CaseV):
        if not is_arrlike(a) and not is_arrlike(b):
            return xop(ip, op, a, b)
    a, b = arrlike(ip, a), arrlike(ip, b)
    if op == 'MatMult':
        return matmul(ip, a, b)
    if isinstance(a, BlockArr) or isinstance(b, BlockArr):
        if isinstance(a, BlockArr) and isinstance(b, BlockArr):
            raise Unsupported('block arithmetic')
        if isinstance(a, BlockArr):
            return BlockArr([[binop(ip, op, x, b) for x in r] for r in a.rows])
        return BlockArr([[binop(ip, op, a, x) for x in r] for r in b.rows])
    r = broadcast(ip, lambda x, y: belem(ip, op, x, y), a, b)
    return unwrap(r)


def belem(ip, op, x, y):
    if op in ('BitAnd', 'BitOr') and isinstance(x, (bool, Cond)) and isinstance(y, (bool, Cond)):
        return c_and(x, y) if op == 'BitAnd' else c_or(x, y)
    return xop(ip, op, x, y)


def unwrap(r):
    if isinstance(r, ArrV) and r.shape == ():
        return r.flat[0]
    return r


def is_arrlike(v):
    return isinstance(v, (ArrV, SymArr, BlockArr, ListV, tuple))


def arrlike(ip, v):
    if isinstance(v, (ArrV, SymArr, BlockArr)):
        return v
    return from_value(ip, v)


def compare(ip, op, a, b):
    if isinstance(a, SeriesV) or isinstance(b, SeriesV):
        return series_op(ip, lambda x, y: x_cmp(ip, op, x, y), a, b)
    return unwrap(broadcast(ip, lambda x, y: x_cmp(ip, op, x, y), arrlike(ip, a), arrlike(ip, b)))


def umap(f, v):
    if isinstance(v, ArrV):
        return ArrV(v.shape, [f(x) for x in v.flat])
    if isinstance(v, SymArr):
        return SymArr(v.shape, v.c[0], f(v.c[1]))
    if isinstance(v, BlockArr):
        return BlockArr([[umap(f, x) for x in r] for r in v.rows])
    if isinstance(v, SeriesV):
        return SeriesV(map_seq(v.seq, f))
    raise Unsupported('elementwise operation')


def invert(ip, v):
    return umap(lambda x: c_not(x), v)


def series_op(ip, f, a, b):
    if isinstance(a, SeriesV) and isinstance(b, SeriesV):
        return SeriesV(zip_seqs([a.seq, b.seq], f))
    if isinstance(a, SeriesV):
        if is_arrlike(b):
            return SeriesV(zip_seqs([a.seq, arr_seq(ip, b)], f))
        return SeriesV(map_seq(a.seq, lambda x: f(x, b)))
    if is_arrlike(a):
        return SeriesV(zip_seqs([arr_seq(ip, a), b.seq], f))
    return SeriesV(map_seq(b.seq, lambda x: f(a, x)))


def arr_seq(ip, v):
    """elements of a one-dimensional value as a sequence"""
    if isinstance(v, SeriesV):
        return v.seq
    if isinstance(v, ArrV):
        return (I_(*v.flat),) if v.flat else ()
    if isinstance(v, SymArr):
        return mkseq([G_(v.shape[0], v.c[0][0], (I_(v.c[1]),))])
    return ops.as_seq(ip, v)


def matmul(ip, a, b):
    if isinstance(a, ArrV) and isinstance(b, ArrV):
        A, B = a, b
        sa, sb = a.shape, b.shape
        if len(sa) == 0 or len(sb) == 0:
            raise_(ValueError, 'matmul of scalars')
        r1 = len(sa) == 1
        c1 = len(sb) == 1
        if len(sa) > 2 or len(sb) > 2:
            raise Unsupported('matmul of stacks')
        n, k = (1, sa[0]) if r1 else sa
        k2, m = (sb[0], 1) if c1 else sb
        if k != k2:
            raise_(ValueError, 'matmul dimension mismatch')
        fa, fb = a.flat, b.flat
        out = []
        for i in range(n):
            for j in range(m):
                acc = ZERO
                for t in range(k):
                    acc = acc + P(fa[i * k + t]) * P(fb[t * m + j])
                out.append(acc)
        if r1 and c1:
            return num(out[0])
        if r1:
            return ArrV((m,), out)
        if c1:
            return ArrV((n,), out)
        return ArrV((n, m), out)
    if isinstance(a, BlockArr) or isinstance(b, BlockArr):
        raise Unsupported('block matmul')
    if isinstance(a, ArrV):
        a = to_sym(a)
    if isinstance(b, ArrV):
        b = to_sym(b)
    ka = a.shape[-1]
    kb = b.shape[0] if len(b.shape) == 1 else b.shape[-2]
    if not is_zero(ka - kb) and not ip.entails(c_eq(ka, kb)):
        if ip.entails(c_not(c_eq(ka, kb))):
            raise_(ValueError, 'matmul dimension mismatch')
        raise Unsupported('matmul of unknown dimensions')
    k = fresh('mm', 'int')
    (kn,) = k.vars()
    ra = [fresh('i', 'int') for _ in a.shape[:-1]]
    cb = [fresh('j', 'int') for _ in (b.shape[1:] if len(b.shape) == 2 else ())]
    body = mk_sum(ka, kn, P(a.at(*ra, k)) * P(b.at(k, *cb)))
    if not ra and not cb:
        return num(body)
    return SymArr(tuple(a.shape[:-1]) + tuple(b.shape[1:] if len(b.shape) == 2 else ()),
                  [next(iter(x.vars())) for x in ra + cb], body)


def transpose(ip, a):
    if isinstance(a, ArrV):
        if len(a.shape) < 2:
            return a
        if len(a.shape) == 2:
            n, m = a.shape
            return ArrV((m, n), None, a, [i * m + j for j in range(m) for i in range(n)])
    if isinstance(a, SymArr):
        return SymArr(tuple(reversed(a.shape)), tuple(reversed(a.c[0])), a.c[1])
    if isinstance(a, BlockArr):
        return BlockArr([[transpose(ip, a.rows[i][j]) for i in range(len(a.rows))] for j in range(len(a.rows[0]))])
    raise Unsupported('transpose')


def det_minor(M, n):
    if n == 1:
        return M[0][0]
    if n == 2:
        return M[0][0] * M[1][1] - M[0][1] * M[1][0]
    r = ZERO
    for j in range(n):
        if not M[0][j].t:
            continue
        sub = [[M[i][k] for k in range(n) if k != j] for i in range(1, n)]
        t = M[0][j] * det_minor(sub, n - 1)
        r = r + t if j % 2 == 0 else r - t
    return r


def inv(ip, a):
    a = arrlike(ip, a)
    if not isinstance(a, ArrV) or len(a.shape) != 2:
        raise Unsupported('inverse of a symbolic-size matrix')
    n, m = a.shape
    if n != m:
        raise_(LinAlg(), 'not square')
    M = [[P(a.flat[i * n + j]) for j in range(n)] for i in range(n)]
    if n <= 3:
        d = det_minor(M, n)
        if is_zero(d):
            raise_(LinAlg(), 'Singular matrix')
        if not d.is_const():
            ip.assumed.add('determinant nonzero: %s' % ops.shorten(d))
        di = inverse(d)
        out = []
        for i in range(n):
            for j in range(n):
                if n == 1:
                    out.append(di)
                    continue
                sub = [[M[r][c] for c in range(n) if c != i] for r in range(n) if r != j]
                c = det_minor(sub, n - 1)
                out.append((c if (i + j) % 2 == 0 else -c) * di)
        return ArrV((n, n), out)
    return ArrV((n, n), inv_entries(M, n, ip))


def inv_entries(M, n, ip=None):
    """entries of the inverse of a general matrix: atoms determined by the matrix"""
    # block diagonal matrices are inverted blockwise by the caller when needed
    flat = tuple(M[i][j] for i in range(n) for j in range(n))
    symm = all(is_zero(M[i][j] - M[j][i]) for i in range(n) for j in range(i))
    if ip is not None:
        ip.assumed.add('matrix passed to inv is invertible')
    out = []
    for i in range(n):
        for j in range(n):
            p, q = (j, i) if symm and j < i else (i, j)
            out.append(apoly(atom('opq', ('inv%d' % n, (flat, p, q)), 'real')))
    return out


def LinAlg():
    return Ext('numpy.linalg.LinAlgError')


def solve(ip, a, b):
    return matmul(ip, inv(ip, a), arrlike(ip, b))


def hstack(ip, arrs, axis=1):
    arrs = [arrlike(ip, x) for x in arrs]
    if any(isinstance(x, (SymArr, BlockArr)) for x in arrs):
        if all(isinstance(x, SymArr) and len(x.shape) == 2 for x in arrs):
            return BlockArr([arrs])
        if all(isinstance(x, (SymArr, ArrV)) and len(x.shape) == 1 for x in arrs):
            return from_seq(ip, mkseq([p for x in arrs for p in arr_seq(ip, x)]))
        if all(isinstance(x, BlockArr) for x in arrs):
            n = len(arrs[0].rows)
            return BlockArr([[b for x in arrs for b in x.rows[i]] for i in range(n)])
        arrs2 = [BlockArr([[x]]) if isinstance(x, SymArr) else x for x in arrs]
        if all(isinstance(x, BlockArr) for x in arrs2):
            return hstack(ip, arrs2)
        raise Unsupported('hstack')
    if len(arrs[0].shape) == 1:
        flat = []
        for x in arrs:
            flat.extend(x.flat)
        return ArrV((len(flat),), flat)
    n = arrs[0].shape[0]
    if any(x.shape[0] != n for x in arrs):
        raise_(ValueError, 'hstack')
    out = []
    for i in range(n):
        for x in arrs:
            m = x.shape[1]
            out.extend(x.flat[i * m:(i + 1) * m])
    return ArrV((n, len(out) // n), out)


def vstack(ip, arrs):
    arrs = [arrlike(ip, x) for x in arrs]
    if any(isinstance(x, (SymArr, BlockArr)) for x in arrs):
        rows = []
        for x in arrs:
            if isinstance(x, BlockArr):
                rows.extend(x.rows)
            elif isinstance(x, SymArr) and len(x.shape) == 2:
                rows.append([x])
            else:
                raise Unsupported('vstack')
        return BlockArr(rows)
    arrs = [ArrV((1, len(x.flat)), x.flat) if len(x.shape) == 1 else x for x in arrs]
    m = arrs[0].shape[1]
    if any(x.shape[1] != m for x in arrs):
        raise_(ValueError, 'vstack')
    flat = []
    for x in arrs:
        flat.extend(x.flat)
    return ArrV((len(flat) // m, m), flat)


def block(ip, v):
    rows = ops.unpack(ip, v, None, None)
    if all(isinstance(r, (ListV, tuple)) for r in rows):
        return vstack(ip, [hstack(ip, ops.unpack(ip, r, None, None)) for r in rows])
    return hstack(ip, rows)


# ------------------------------------------------------------------ indexing
def norm_index(i):
    return list(i) if isinstance(i, tuple) else [i]


def getitem(ip, a, i):
    if isinstance(a, SeriesV):
        if isinstance(i, SliceV):
            return SeriesV(ops.seq_slice(ip, ListV(a.seq), i))
        if isinstance(i, SeriesV):
            raise Unsupported('boolean selection')
        return ip.seq_at(a.seq, P(ops.cidx(i)))
    if isinstance(a, FrameDF):
        raise Unsupported('DataFrame selection')
    if isinstance(a, CaseV):
        raise_(TypeError, 'scalar')
    idx = norm_index(i)
    if isinstance(a, ArrV):
        if any(isinstance(x, (ListV, ArrV, SymArr)) for x in idx):
            return fancy(ip, a, idx)
        if any(x is Ellipsis or isinstance(x, Ext) for x in idx):
            raise Unsupported('ellipsis')
        if any(x is None for x in idx):
            k = idx.index(None)
            b = getitem(ip, a, tuple(idx[:k] + idx[k + 1:]))
            sh = list(b.shape)
            sh.insert(k, 1)
            return ArrV(sh, None, b, list(range(len(b.flat))))
        if len(idx) > len(a.shape):
            raise_(IndexError, 'too many indices')
        idx = idx + [SliceV(None, None, None)] * (len(a.shape) - len(idx))
        if all(not isinstance(x, SliceV) and isinstance(ops.cidx(x), int) or isinstance(x, SliceV) for x in idx):
            sel = []
            sh = []
            for x, s in zip(idx, a.shape):
                if isinstance(x, SliceV):
                    r = range(s)[ops.pyslice(x)]
                    sel.append(list(r))
                    sh.append(len(r))
                else:
                    k = ops.cidx(x)
                    if isinstance(k, Fraction) or not isinstance(k, int):
                        raise_(IndexError, 'index type')
                    if not -s <= k < s:
                        raise_(IndexError, 'index %s out of bounds' % k)
                    sel.append([k % s])
            pos = [0]
            for ks, s in zip(sel, a.shape):
                pos = [p * s + k for p in pos for k in ks]
            if not sh:
                return a.flat[pos[0]]
            return ArrV(sh, None, a, pos)
        if len(a.shape) == 1 and not isinstance(idx[0], SliceV):
            return ip.seq_at((I_(*a.flat),), P(ops.cidx(idx[0])))
        a = to_sym(a)
    if isinstance(a, BlockArr):
        if len(idx) == 2 and not any(isinstance(x, SliceV) for x in idx):
            pos = []
            for x, s in zip(idx, a.shape):
                k = P(ops.cidx(x))
                if not (nonneg(k, ip.pc) and nonneg(s - 1 - k, ip.pc)):
                    if ip.decide(c_lt(k, 0)):
                        k = s + k
                        if ip.decide(c_lt(k, 0)):
                            raise_(IndexError)
                    elif ip.decide(c_le(s, k)):
                        raise_(IndexError)
                pos.append(k)
            hs = offsets([row[0].shape[0] for row in a.rows])
            ws = offsets([b.shape[1] for b in a.rows[0]])
            bi = next(i for i in range(len(hs) - 1, -1, -1) if i == 0 or nonneg(pos[0] - hs[i], ip.pc)
                      or not nonneg(hs[i] - 1 - pos[0], ip.pc) and ip.decide(c_le(hs[i], pos[0])))
            bj = next(j for j in range(len(ws) - 1, -1, -1) if j == 0 or nonneg(pos[1] - ws[j], ip.pc)
                      or not nonneg(ws[j] - 1 - pos[1], ip.pc) and ip.decide(c_le(ws[j], pos[1])))
            return getitem(ip, a.rows[bi][bj], (pos[0] - hs[bi], pos[1] - ws[bj]))
        a = block_sym(a)
    if isinstance(a, SymArr):
        if len(idx) > len(a.shape):
            raise_(IndexError, 'too many indices')
        idx = idx + [SliceV(None, None, None)] * (len(a.shape) - len(idx))
        args, vs, dims = [], [], []
        for x, s in zip(idx, a.shape):
            if isinstance(x, SliceV):
                v = fresh('s', 'int')
                lo, hi, st = x.a, x.b, x.s
                lo = ZERO if lo is None else P(lo)
                if st is not None and num(st) == -1 and x.a is None and x.b is None:
                    args.append(s - 1 - v)
                    vs.append(next(iter(v.vars())))
                    dims.append(s)
                    continue
                if st is not None and num(st) != 1:
                    raise Unsupported('slice step')
                hi = s if hi is None else P(hi)
                if hi is not s:
                    if not nonneg(hi, ip.pc):
                        if ip.decide(c_lt(hi, 0)):
                            hi = s + hi
                    if not nonneg(s - hi, ip.pc):
                        if ip.decide(c_lt(s, hi)):
                            hi = s
                if not nonneg(lo, ip.pc):
                    if ip.decide(c_lt(lo, 0)):
                        lo = s + lo
                if not nonneg(hi - lo, ip.pc):
                    if ip.decide(c_lt(hi, lo)):
                        raise Unsupported('empty slice')
                args.append(lo + v)
                vs.append(next(iter(v.vars())))
                dims.append(hi - lo)
            else:
                k = P(ops.cidx(x))
                if not (nonneg(k, ip.pc) and nonneg(s - 1 - k, ip.pc)):
                    if ip.decide(c_lt(k, 0)):
                        k = s + k
                        if ip.decide(c_lt(k, 0)):
                            raise_(IndexError)
                    elif ip.decide(c_le(s, k)):
                        raise_(IndexError)
                args.append(k)
        b = simp_divs(a.at(*args), ip.pc)
        if not vs:
            return resolve_ites(ip, b)
        return SymArr(dims, vs, b)
    raise Unsupported('array index')


def fancy(ip, a, idx):
    if len(idx) == 1 and isinstance(idx[0], ListV):
        it = seq_items(idx[0].c)
        rows = [getitem(ip, a, x) for x in it]
        return from_seq(ip, (I_(*rows),))
    raise Unsupported('fancy index')


def setitem(ip, a, i, v):
    idx = norm_index(i)
    if isinstance(a, ArrV):
        if len(idx) > len(a.shape):
            raise_(IndexError)
        t = getitem_view(ip, a, idx)
        if isinstance(t, tuple):     # scalar position
            root, pos = t
            if isinstance(v, ArrV) and len(v.flat) == 1:
                v = v.flat[0]
            if not (is_num(v) or isinstance(v, (Cond, CaseV, str, SStr))):
                raise_(ValueError, 'setting an array element with a sequence')
            c = list(root.c)
            c[pos] = v
            ip.setc(root, tuple(c))
            return
        src = arrlike(ip, v)
        if not isinstance(src, ArrV):
            raise Unsupported('array store')
        vals = broadcast(ip, lambda x, y: y, t, src).flat
        if len(vals) != len(t.flat):
            raise_(ValueError, 'broadcast')
        store_all(ip, t, vals)
        return
    if isinstance(a, SymArr):
        if len(idx) == len(a.shape) and not any(isinstance(x, SliceV) for x in idx):
            vs, body = a.c
            ks = []
            for x, s in zip(idx, a.shape):
                k = P(ops.cidx(x))
                if not (nonneg(k, ip.pc) and nonneg(s - 1 - k, ip.pc)):
                    if ip.decide(c_lt(k, 0)):
                        k = s + k
                    elif ip.decide(c_le(s, k)):
                        raise_(IndexError)
                ks.append(k)
            c = c_and(*[c_eq(T.var(w, 'int'), k) for w, k in zip(vs, ks)])
            ip.setc(a, (vs, x_ite(c, v, body)))
            return
        if len(idx) <= len(a.shape) and all(isinstance(x, SliceV) and x.a is None and x.b is None and x.s is None or not isinstance(x, SliceV) for x in idx):
            idx = idx + [SliceV(None, None, None)] * (len(a.shape) - len(idx))
            vs, body = a.c
            conds, free = [], []
            for x, w, s in zip(idx, vs, a.shape):
                if isinstance(x, SliceV):
                    free.append(T.var(w, 'int'))
                else:
                    conds.append(c_eq(T.var(w, 'int'), P(ops.cidx(x))))
            src = arrlike(ip, v)
            if isinstance(src, ArrV):
                src = to_sym(src)
            val = src.at(*free[len(free) - len(src.shape):])
            ip.setc(a, (vs, x_ite(c_and(*conds) if conds else True, val, body)))
            return
        if len(idx) <= len(a.shape) and all(isinstance(x, SliceV) or is_num(x) for x in idx):
            idx = idx + [SliceV(None, None, None)] * (len(a.shape) - len(idx))
            vs, body = a.c
            conds, free, dims = [], [], []
            for x, w, s in zip(idx, vs, a.shape):
                w = T.var(w, 'int')
                if isinstance(x, SliceV):
                    lo, hi = bounds(ip, x, s)
                    if not is_zero(lo):
                        conds.append(c_le(lo, w))
                    if not is_zero(hi - s):
                        conds.append(c_lt(w, hi))
                    free.append(w - lo)
                    dims.append(hi - lo)
                else:
                    k = P(ops.cidx(x))
                    if not (nonneg(k, ip.pc) and nonneg(s - 1 - k, ip.pc)):
                        if ip.decide(c_lt(k, 0)):
                            k = s + k
                        elif ip.decide(c_le(s, k)):
                            raise_(IndexError)
                    conds.append(c_eq(w, k))
            src = arrlike(ip, v)
            src = to_sym(src) if isinstance(src, ArrV) else block_sym(src) if isinstance(src, BlockArr) else src
            if not isinstance(src, SymArr):
                raise Unsupported('array store')
            for d, e in zip(dims[len(dims) - len(src.shape):], src.shape):
                if not is_zero(d - e) and not ip.entails(c_eq(d, e)):
                    raise Unsupported('array store of another shape')
            val = src.at(*free[len(free) - len(src.shape):]) if src.shape else src.at()
            ip.setc(a, (vs, x_ite(c_and(*conds) if conds else True, val, body)))
            return
    raise Unsupported('array store')


def getitem_view(ip, a, idx):
    full_ = len(idx) == len(a.shape) and not any(isinstance(x, (SliceV, ListV, ArrV)) for x in idx)
    if full_:
        pos = 0
        for x, s in zip(idx, a.shape):
            k = ops.cidx(x)
            if not isinstance(k, int):
                raise Unsupported('symbolic store in a small array')
            if not -s <= k < s:
                raise_(IndexError)
            pos = pos * s + k % s
        return a.root, a.rootmap()[pos]
    r = getitem(ip, a, tuple(idx))
    if not isinstance(r, ArrV) or r.root is not a.root:
        raise Unsupported('store through a copy')
    return r


def store_all(ip, a, vals):
    root = a.root
    if a.base is None:
        ip.setc(root, tuple(vals))
        return
    c = list(root.c)
    for p, v in zip(a.rootmap(), vals):
        c[p] = v
    ip.setc(root, tuple(c))


# ------------------------------------------------------------------ attributes
def attr(ip, o, name):
    B = ops.Bound
    if isinstance(o, SeriesV):
        return series_attr(ip, o, name)
    if isinstance(o, FrameDF):
        return frame_attr(ip, o, name)
    if name == 'shape':
        return tuple(num(s) for s in o.shape)
    if name == 'T':
        return transpose(ip, o)
    if name == 'ndim':
        return len(o.shape)
    if name == 'size':
        n = ONE
        for s in o.shape:
            n = n * P(s)
        return num(n)
    if name == 'reshape':
        return B(lambda ip, a, k: reshape(ip, o, a[0] if len(a) == 1 else tuple(a)))
    if name in ('flatten', 'ravel'):
        return B(lambda ip, a, k: copy(reshape(ip, o, -1)))
    if name in ('copy', 'astype', 'toarray', 'todense', 'tocsr', 'tocsc', 'real'):
        if name == 'real':
            return o
        return B(lambda ip, a, k: copy(o))
    if name == 'transpose':
        return B(lambda ip, a, k: transpose(ip, o))
    if name == 'dot':
        return B(lambda ip, a, k: binop(ip, 'MatMult', o, a[0]))
    if name == 'tolist':
        return B(lambda ip, a, k: tolist(ip, o))
    if name == 'sum':
        return B(lambda ip, a, k: asum(ip, o, a[0] if a else k.get('axis')))
    if name == 'item':
        return B(lambda ip, a, k: o.flat[0])
    if name in ('all', 'any'):
        def f(ip, a, k):
            cs = [ops.truth(ip, x) for x in o.flat]
            return c_and(*cs) if name == 'all' else c_or(*cs)
        return B(f)
    if name in ('min', 'max'):
        return B(lambda ip, a, k: minmax(ip, list(o.flat), name))
    if name == 'fill':
        def f(ip, a, k):
            store_all(ip, o, [a[0]] * len(o.flat))
        return B(f)
    if name == 'diagonal':
        return B(lambda ip, a, k: ArrV((o.shape[0],), [o.flat[i * o.shape[1] + i] for i in range(o.shape[0])]))
    raise Unsupported('array attribute ' + name)


def copy(o):
    if isinstance(o, ArrV):
        return ArrV(o.shape, o.flat)
    if isinstance(o, SymArr):
        return SymArr(o.shape, o.c[0], o.c[1])
    return o


def tolist(ip, o):
    if isinstance(o, ArrV):
        if len(o.shape) == 1:
            return ListV((I_(*o.flat),) if o.flat else ())
        return ListV((I_(*[tolist(ip, getitem(ip, o, i)) for i in range(o.shape[0])]),))
    if isinstance(o, SymArr) and len(o.shape) == 1:
        return ListV(mkseq([G_(o.shape[0], o.c[0][0], (I_(o.c[1]),))]))
    raise Unsupported('tolist')


def asum(ip, o, axis=None):
    if axis is not None:
        if isinstance(o, ArrV) and len(o.shape) == 2:
            n, m = o.shape
            ax = ops.cidx(axis) % 2
            if ax == 0:
                return ArrV((m,), [sum((P(o.flat[i * m + j]) for i in range(n)), ZERO) for j in range(m)])
            return ArrV((n,), [sum((P(o.flat[i * m + j]) for j in range(m)), ZERO) for i in range(n)])
        if not (len(o.shape) == 1 and ops.cidx(axis) in (0, -1)):
            raise Unsupported('sum axis')
    if isinstance(o, ArrV):
        r = ZERO
        for x in o.flat:
            r = r + P(ops.topoly(x))
        return num(r)
    if isinstance(o, SymArr):
        b = P(o.c[1])
        for s, v in reversed(list(zip(o.shape, o.c[0]))):
            b = mk_sum(s, v, b)
        return num(b)
    raise Unsupported('sum')


def minmax(ip, items, name):
    if not items:
        raise_(ValueError, 'empty')
    acc = items[0]
    for x in items[1:]:
        if isinstance(acc, Special) or isinstance(x, Special):
            c = ops.num_cmp('Lt', x, acc) if name == 'min' else ops.num_cmp('Lt', acc, x)
            acc = x if c else acc
            continue
        c = c_lt(x, acc) if name == 'min' else c_lt(acc, x)
        if c is True:
            acc = x
        elif c is not False:
            if ip.entails(c):
                acc = x
            elif not ip.entails(c_not(c)):
                acc = ite(c, P(x), P(acc))
    return acc


def series_attr(ip, o, name):
    B = ops.Bound
    if name in ('mask', 'where'):
        def mask(ip, a, k):
            cond = a[0]
            other = a[1] if len(a) > 1 else k.get('other', NAN)
            cs = cond.seq if isinstance(cond, SeriesV) else arr_seq(ip, cond)
            f = (lambda c, x, y: x_ite(c, y, x)) if name == 'mask' else (lambda c, x, y: x_ite(c, x, y))
            if isinstance(other, SeriesV):
                return SeriesV(zip_seqs([cs, o.seq, other.seq], f))
            return SeriesV(zip_seqs([cs, o.seq], lambda c, x: f(c, x, other)))
        return B(mask)
    if name == 'abs':
        return B(lambda ip, a, k: SeriesV(map_seq(o.seq, lambda x: x_abs(ip, x))))
    if name == 'clip':
        def clip(ip, a, k):
            lo = a[0] if a else k.get('lower')
            hi = a[1] if len(a) > 1 else k.get('upper')

            def f(x):
                if lo is not None:
                    x = x_ite(x_cmp(ip, 'Lt', x, lo), lo, x)
                if hi is not None:
                    x = x_ite(x_cmp(ip, 'Gt', x, hi), hi, x)
                return x
            return SeriesV(map_seq(o.seq, f))
        return B(clip)
    if name in ('values',):
        return from_seq(ip, o.seq)
    if name in ('to_numpy', 'tolist', 'to_list', 'copy', 'astype'):
        if name in ('tolist', 'to_list'):
            return B(lambda ip, a, k: ListV(o.seq))
        if name == 'to_numpy':
            return B(lambda ip, a, k: from_seq(ip, o.seq))
        return B(lambda ip, a, k: o)
    if name in ('div', 'truediv', 'mul', 'add', 'sub', 'rsub', 'rdiv', 'lt', 'gt', 'le', 'ge'):
        def f(ip, a, k):
            m = {'div': 'Div', 'truediv': 'Div', 'mul': 'Mult', 'add': 'Add', 'sub': 'Sub'}
            c = {'lt': 'Lt', 'gt': 'Gt', 'le': 'LtE', 'ge': 'GtE'}
            if name in m:
                return binop(ip, m[name], o, a[0])
            if name in c:
                return compare(ip, c[name], o, a[0])
            return binop(ip, 'Sub' if name == 'rsub' else 'Div', a[0], o)
        return B(f)
    if name == 'shape':
        return (num(seq_len(o.seq)),)
    if name in ('apply', 'map'):
        return B(lambda ip, a, k: SeriesV(map_seq(o.seq, lambda x: ip.call(a[0], [x], {}))))
    raise Unsupported('Series.' + name)


def frame_attr(ip, o, name):
    B = ops.Bound
    if name in o.d:
        return SeriesV(o.d[name])
    if name in ('idxmin', 'min', 'idxmax', 'max'):
        def f(ip, a, k):
            ax = a[0] if a else k.get('axis', 0)
            if ops.cidx(ax) != 1 and ax != 'columns':
                raise Unsupported('axis')
            names = list(o.d)
            return SeriesV(zip_seqs([o.d[n] for n in names],
                                    lambda *xs: SStr([Tok(name, 'row', (), (tuple(names), tuple(wrapv(x) for x in xs)))])))
        return B(f)
    if name == 'copy':
        return B(lambda ip, a, k: FrameDF(o.d))
    if name == 'columns':
        return ListV((I_(*o.d),))
    if name == 'shape':
        return (num(seq_len(next(iter(o.d.values())))), len(o.d))
    if name == 'assign':
        def f(ip, a, k):
            r = FrameDF(o.d)
            for x, v in k.items():
                ops.setitem(ip, r, x, v)
            return r
        return B(f)
    if name == 'insert':
        def f(ip, a, k):
            ops.setitem(ip, o, a[1], a[2])
        return B(f)
    raise Unsupported('DataFrame.' + name)


def wrapv(x):
    if isinstance(x, CaseV):
        return ('case',) + tuple((c if not isinstance(c, bool) else c, v if not isinstance(v, Special) else v) for c, v in x.cases)
    return x
