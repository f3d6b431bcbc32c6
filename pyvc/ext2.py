"""Contracts of numpy, scipy, pandas, itertools, matplotlib (trusted: exact mathematical meaning)."""
from fractions import Fraction
from .terms import *
from . import terms as T
from .values import *
from .interp import MISSING
from . import ops, arrays, ext
from .ops import num, is_num, raise_, truth, cidx
from .ext import CALLS, BI, canon, to_float, seq_sum, VALUES, ALIAS, pieces_num


def reg(*names):
    def d(f):
        for n in names:
            CALLS[n] = f
        return f
    return d


def dtype_ok(ip, kw, dt=None):
    d = kw.get('dtype', dt)
    if d is None:
        return
    if isinstance(d, str):
        if 'int' in d:
            raise Unsupported('integer dtype')
        return
    if isinstance(d, Ext) and d.path in ('builtins.float', 'builtins.object', 'numpy.float32', 'builtins.bool'):
        if d.path.endswith('32'):
            raise Unsupported('single precision')
        return
    raise Unsupported('dtype')


@reg('numpy.array')
def np_array(ip, a, kw):
    dtype_ok(ip, kw, a[1] if len(a) > 1 else None)
    v = a[0]
    if kw.get('copy') is False and arrays.is_arr(v):
        return v
    return arrays.from_value(ip, v)


def np_asarray(ip, a, kw):
    if arrays.is_arr(a[0]) and not isinstance(a[0], (SeriesV, arrays.CaseV)):
        return a[0]
    return np_array(ip, a, kw)


CALLS['numpy.asarray'] = CALLS['numpy.ascontiguousarray'] = CALLS['numpy.asanyarray'] = np_asarray
for n in ('numpy.asarray', 'numpy.ascontiguousarray', 'numpy.asanyarray'):
    ALIAS.pop(n, None)


def np_full(val):
    def f(ip, a, kw):
        dtype_ok(ip, kw, a[1] if len(a) > 1 and not isinstance(a[1], str) else None)
        return arrays.full(ip, kw.get('shape', a[0] if a else None), val)
    return f


CALLS['numpy.zeros'] = np_full(0)
CALLS['numpy.ones'] = np_full(1)


@reg('numpy.empty')
def np_empty(ip, a, kw):
    s = arrays.full(ip, a[0], 0)
    if isinstance(s, ArrV):
        return ArrV(s.shape, [P(fresh('uninit')) for _ in s.flat])
    raise Unsupported('np.empty of symbolic size')


@reg('numpy.full')
def np_fullv(ip, a, kw):
    return arrays.full(ip, a[0], a[1] if len(a) > 1 else kw['fill_value'])


def np_like(val):
    def f(ip, a, kw):
        x = arrays.arrlike(ip, a[0])
        return arrays.umap(lambda _: val if val is not None else kw.get('fill_value', a[1] if len(a) > 1 else 0), x)
    return f


CALLS['numpy.zeros_like'] = np_like(0)
CALLS['numpy.ones_like'] = np_like(1)
CALLS['numpy.full_like'] = np_like(None)


@reg('numpy.eye', 'numpy.identity')
def np_eye(ip, a, kw):
    n = cidx(a[0])
    if isinstance(n, int):
        return ArrV((n, n), [1 if i == j else 0 for i in range(n) for j in range(n)])
    i, j = fresh('i', 'int'), fresh('j', 'int')
    return SymArr((n, n), [next(iter(i.vars())), next(iter(j.vars()))], ite(c_eq(i, j), ONE, ZERO))


@reg('numpy.diag')
def np_diag(ip, a, kw):
    x = arrays.arrlike(ip, a[0])
    if isinstance(x, ArrV) and len(x.shape) == 1:
        n = x.shape[0]
        return ArrV((n, n), [x.flat[i] if i == j else 0 for i in range(n) for j in range(n)])
    if isinstance(x, ArrV) and len(x.shape) == 2:
        n = min(x.shape)
        return ArrV((n,), [x.flat[i * x.shape[1] + i] for i in range(n)])
    raise Unsupported('diag')


def elementwise(g):
    def f(ip, a, kw):
        v = a[0]
        if isinstance(v, AnyV):
            v = to_float(ip, v)
        if isinstance(v, SeriesV):
            return SeriesV(map_seq(v.seq, lambda x: g(ip, x)))
        if isinstance(v, (ListV, tuple)):
            v = arrays.from_value(ip, v)
        if arrays.is_arr(v) and not isinstance(v, arrays.CaseV):
            if isinstance(v, OpqArr):
                raise Unsupported('function of an opaque array')
            return arrays.umap(lambda x: g(ip, x), v)
        return g(ip, v)
    return f


def scal(v):
    if isinstance(v, (bool, Cond)):
        return ops.boolpoly(v)
    if not is_num(v) or isinstance(v, Special):
        raise Unsupported('function of a special value')
    return P(v)


CALLS['numpy.cos'] = elementwise(lambda ip, v: num(T.cos(scal(v))))
CALLS['numpy.sin'] = elementwise(lambda ip, v: num(T.sin(scal(v))))
CALLS['numpy.tan'] = elementwise(lambda ip, v: num(T.fdivide(T.sin(scal(v)), T.cos(scal(v)))) if hasattr(T, 'fdivide') else num(T.sin(scal(v)) * inverse(T.cos(scal(v)))))
CALLS['numpy.deg2rad'] = elementwise(lambda ip, v: num(scal(v) * PIV() * Fraction(1, 180)))
CALLS['numpy.rad2deg'] = CALLS['numpy.degrees'] = elementwise(lambda ip, v: num(scal(v) * inverse(PIV()) * 180))
CALLS['numpy.square'] = elementwise(lambda ip, v: ops.binop(ip, 'Mult', v, v))
CALLS['numpy.negative'] = elementwise(lambda ip, v: ops.unop(ip, 'USub', v))
CALLS['numpy.float32'] = lambda ip, a, kw: (_ for _ in ()).throw(Unsupported('single precision'))


def PIV():
    return T.PI() if callable(T.PI) else T.PI


def np_sqrt(ip, v):
    v = num(v)
    if isinstance(v, Special):
        return v
    p = P(v)
    c = p.const()
    if c is not None:
        if c < 0:
            return NAN
        import math
        a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if a * a == c.numerator and b * b == c.denominator:
            return num(P(Fraction(a, b)))
    # perfect square monomial
    if len(p.t) == 1:
        (m, k), = p.t.items()
        if all(e % 2 == 0 for _, e in m) and k > 0:
            import math
            a, b = math.isqrt(k.numerator), math.isqrt(k.denominator)
            if a * a == k.numerator and b * b == k.denominator:
                r = Poly({tuple((x, e // 2) for x, e in m): Fraction(a, b)})
                if ip.entails(c_le(0, r)):
                    return r
    return T.sqrt(p)


CALLS['numpy.sqrt'] = elementwise(np_sqrt)
CALLS['numpy.abs'] = lambda ip, a, kw: BI['abs'](ip, [arrays.from_value(ip, a[0])] if isinstance(a[0], (ListV, tuple)) else a, kw)


def isspec(kind):
    def g(ip, v):
        if isinstance(v, AnyV):
            v = to_float(ip, v)
        if isinstance(v, arrays.CaseV):
            return c_or(*[c_and(c, g(ip, x)) for c, x in v.cases])
        if isinstance(v, Special):
            return {'isnan': v is NAN, 'isinf': v is INF or v is NINF, 'isfinite': False}[kind]
        if not is_num(v) and not isinstance(v, (bool, Cond)):
            raise_(TypeError, kind)
        return kind == 'isfinite'
    return elementwise(g)


for k in ('isnan', 'isinf', 'isfinite'):
    CALLS['numpy.' + k] = isspec(k)


@reg('numpy.sign')
def np_sign(ip, a, kw):
    return elementwise(lambda ip, v: ite(c_lt(0, scal(v)), ONE, ite(c_lt(scal(v), 0), -ONE, ZERO)))(ip, a, kw)


@reg('numpy.linalg.inv')
def np_inv(ip, a, kw):
    h = ip.hooks.get('inv')
    if h is not None:
        r = h(ip, a[0])
        if r is not None:
            return r
    return arrays.inv(ip, a[0])


@reg('numpy.linalg.solve')
def np_solve(ip, a, kw):
    M = np_inv(ip, [a[0]], {})
    return arrays.matmul(ip, M, arrays.arrlike(ip, a[1]))


@reg('numpy.linalg.det')
def np_det(ip, a, kw):
    x = arrays.arrlike(ip, a[0])
    n = x.shape[0]
    if not isinstance(x, ArrV) or n > 3:
        raise Unsupported('det')
    return num(arrays.det_minor([[P(x.flat[i * n + j]) for j in range(n)] for i in range(n)], n))


@reg('numpy.dot', 'numpy.matmul')
def np_dot(ip, a, kw):
    x, y = arrays.arrlike(ip, a[0]), arrays.arrlike(ip, a[1])
    if len(x.shape) == 0 or len(y.shape) == 0:
        return arrays.binop(ip, 'Mult', x, y)
    return arrays.binop(ip, 'MatMult', x, y)


@reg('numpy.linalg.multi_dot')
def np_multi_dot(ip, a, kw):
    its = ops.unpack(ip, a[0], None, None)
    r = its[0]
    for x in its[1:]:
        r = np_dot(ip, [r, x], {})
    return r


@reg('numpy.outer')
def np_outer(ip, a, kw):
    x, y = arrays.arrlike(ip, a[0]), arrays.arrlike(ip, a[1])
    if isinstance(x, ArrV) and isinstance(y, ArrV):
        return ArrV((len(x.flat), len(y.flat)), [ops.binop(ip, 'Mult', p, q) for p in x.flat for q in y.flat])
    if isinstance(x, ArrV):
        x = arrays.to_sym(x)
    if isinstance(y, ArrV):
        y = arrays.to_sym(y)
    i, j = fresh('i', 'int'), fresh('j', 'int')
    return SymArr((x.shape[0], y.shape[0]), [next(iter(i.vars())), next(iter(j.vars()))], ops.binop(ip, 'Mult', x.at(i), y.at(j)))


def seq_list(ip, v):
    it = seq_items(ops.as_seq(ip, v))
    if it is None:
        return None
    return [ip.thaw(x) for x in it]


@reg('numpy.vstack')
def np_vstack(ip, a, kw):
    its = seq_list(ip, a[0])
    if its is None:
        r = arrays.from_value(ip, a[0])
        if len(r.shape) == 2:
            return r
        raise Unsupported('vstack')
    return arrays.vstack(ip, its)


@reg('numpy.hstack')
def np_hstack(ip, a, kw):
    its = seq_list(ip, a[0])
    if its is None:
        raise Unsupported('hstack')
    return arrays.hstack(ip, its)


@reg('numpy.concatenate')
def np_concat(ip, a, kw):
    its = seq_list(ip, a[0])
    if its is None:
        raise Unsupported('concatenate')
    ax = cidx(a[1] if len(a) > 1 else kw.get('axis', 0))
    arrs = [arrays.arrlike(ip, x) for x in its]
    if len(arrs[0].shape) == 1 and ax == 0:
        return arrays.hstack(ip, arrs)
    if ax == 0:
        return arrays.vstack(ip, arrs)
    if ax in (1, -1):
        return arrays.hstack(ip, arrs)
    raise Unsupported('concatenate axis')


@reg('numpy.block', 'scipy.sparse.bmat', 'scipy.sparse.block_array')
def np_block(ip, a, kw):
    return arrays.block(ip, a[0])


@reg('numpy.stack', 'numpy.column_stack')
def np_stack(ip, a, kw):
    its = seq_list(ip, a[0])
    if its is None:
        return arrays.from_value(ip, a[0])
    r = arrays.from_value(ip, ListV((I_(*its),)))
    ax = cidx(kw.get('axis', a[1] if len(a) > 1 else 0))
    if ax in (1, -1) and len(r.shape) == 2:
        return arrays.copy(arrays.transpose(ip, r))
    if ax == 0:
        return r
    raise Unsupported('stack axis')


CALLS['numpy.column_stack'] = lambda ip, a, kw: np_stack(ip, a, {'axis': 1})


@reg('numpy.reshape')
def np_reshape(ip, a, kw):
    return arrays.reshape(ip, arrays.arrlike(ip, a[0]), a[1])


@reg('numpy.transpose')
def np_transpose(ip, a, kw):
    return arrays.transpose(ip, arrays.arrlike(ip, a[0]))


CALLS['numpy.ravel'] = lambda ip, a, kw: arrays.reshape(ip, arrays.arrlike(ip, a[0]), -1)


@reg('numpy.copy')
def np_copy(ip, a, kw):
    return arrays.copy(arrays.arrlike(ip, a[0]))


@reg('numpy.linspace')
def np_linspace(ip, a, kw):
    lo, hi = P(a[0]), P(a[1])
    n = a[2] if len(a) > 2 else kw.get('num', 50)
    ep = truth(ip, kw.get('endpoint', a[3] if len(a) > 3 else True))
    n = num(n)
    if isinstance(n, int):
        d = n - 1 if ep else n
        if n <= 200:
            return ArrV((n,), [num(lo + (hi - lo) * Fraction(j, d)) if j or d else num(lo) for j in range(n)])
    j = fresh('g', 'int')
    d = P(n) - 1 if ep else P(n)
    # for a single point numpy returns the start
    if ip.entails(c_lt(1, n)) or not ep:
        body = lo + (hi - lo) * j * inverse(d)
    elif ip.decide(c_lt(1, n)):
        body = lo + (hi - lo) * j * inverse(d)
    else:
        body = lo
    return SymArr((n,), [next(iter(j.vars()))], body)


@reg('numpy.arange')
def np_arange(ip, a, kw):
    from .ext import b_range
    for x in a:
        if not isinstance(num(x), int) and not (isinstance(x, Poly) and x.is_int()):
            raise Unsupported('arange of floats')
    return arrays.from_value(ip, b_range(ip, a, {}))


@reg('numpy.meshgrid')
def np_meshgrid(ip, a, kw):
    x, y = [arrays.arrlike(ip, v) for v in a]
    ij = kw.get('indexing', 'xy') == 'ij'
    if isinstance(x, ArrV) and isinstance(y, ArrV):
        nx, ny = len(x.flat), len(y.flat)
        if ij:
            return ListV((I_(ArrV((nx, ny), [x.flat[i] for i in range(nx) for j in range(ny)]),
                             ArrV((nx, ny), [y.flat[j] for i in range(nx) for j in range(ny)])),))
        return ListV((I_(ArrV((ny, nx), [x.flat[j] for i in range(ny) for j in range(nx)]),
                         ArrV((ny, nx), [y.flat[i] for i in range(ny) for j in range(nx)])),))
    xs = arrays.to_sym(x) if isinstance(x, ArrV) else x
    ys = arrays.to_sym(y) if isinstance(y, ArrV) else y
    out = []
    for who in (0, 1):
        i, j = fresh('i', 'int'), fresh('j', 'int')
        vs = [next(iter(i.vars())), next(iter(j.vars()))]
        if ij:
            out.append(SymArr((xs.shape[0], ys.shape[0]), vs, xs.at(i) if who == 0 else ys.at(j)))
        else:
            out.append(SymArr((ys.shape[0], xs.shape[0]), vs, xs.at(j) if who == 0 else ys.at(i)))
    return ListV((I_(*out),))


@reg('numpy.where')
def np_where(ip, a, kw):
    if len(a) != 3:
        raise Unsupported('np.where with one argument')
    c, x, y = a
    if isinstance(c, (bool, Cond)):
        return arrays.x_ite(c, x, y)
    return where3(ip, c, x, y)


def where3(ip, c, x, y):
    f = arrays.x_ite
    if any(isinstance(v, SeriesV) for v in (c, x, y)):
        n = [v for v in (c, x, y) if isinstance(v, SeriesV) or arrays.is_arrlike(v)]
        base = arrays.arr_seq(ip, n[0])

        def sq(v):
            if isinstance(v, SeriesV) or arrays.is_arrlike(v):
                return arrays.arr_seq(ip, v)
            return map_seq(base, lambda _: v)
        r = zip_seqs([sq(c), sq(x), sq(y)], f)
        return arrays.from_seq(ip, r) if seq_items(r) is not None and not any(isinstance(q, arrays.CaseV) for q in seq_items(r)) else SeriesV(r)
    ca = arrays.arrlike(ip, c)
    pair = arrays.broadcast(ip, lambda p, q: ('pair', p, q), arrays.arrlike(ip, x), arrays.arrlike(ip, y))
    return arrays.broadcast(ip, lambda p, q: f(p, q[1], q[2]), ca, pair)


def bin2(f):
    def g(ip, a, kw):
        x, y = a[0], a[1]
        if isinstance(x, SeriesV) or isinstance(y, SeriesV):
            return arrays.series_op(ip, lambda p, q: f(ip, p, q), x, y)
        if not any(arrays.is_arr(v) or isinstance(v, (ListV, tuple)) for v in (x, y)):
            return f(ip, x, y)
        return arrays.unwrap(arrays.broadcast(ip, lambda p, q: f(ip, p, q), arrays.arrlike(ip, x), arrays.arrlike(ip, y)))
    return g


CALLS['numpy.maximum'] = CALLS['numpy.fmax'] = bin2(lambda ip, p, q: arrays.x_ite(arrays.x_cmp(ip, 'Lt', p, q), q, p))
CALLS['numpy.minimum'] = CALLS['numpy.fmin'] = bin2(lambda ip, p, q: arrays.x_ite(arrays.x_cmp(ip, 'Lt', q, p), q, p))
for n_, o_ in (('multiply', 'Mult'), ('add', 'Add'), ('subtract', 'Sub'), ('divide', 'Div'), ('true_divide', 'Div'), ('power', 'Pow')):
    CALLS['numpy.' + n_] = (lambda o: lambda ip, a, kw: ops.binop(ip, o, arrays.arrlike(ip, a[0]) if isinstance(a[0], (ListV, tuple)) else a[0],
                                                                 arrays.arrlike(ip, a[1]) if isinstance(a[1], (ListV, tuple)) else a[1]))(o_)
for o_ in ('Mult', 'Add', 'Sub'):
    CALLS['op.' + o_] = (lambda o: lambda ip, a, kw: ops.binop(ip, o, a[0], a[1]))(o_)


@reg('numpy.clip')
def np_clip(ip, a, kw):
    x, lo, hi = a[0], a[1] if len(a) > 1 else None, a[2] if len(a) > 2 else None
    if lo is not None:
        x = CALLS['numpy.maximum'](ip, [x, lo], {})
    if hi is not None:
        x = CALLS['numpy.minimum'](ip, [x, hi], {})
    return x


@reg('numpy.sum')
def np_sum(ip, a, kw):
    return arrays.asum(ip, arrays.arrlike(ip, a[0]), a[1] if len(a) > 1 else kw.get('axis'))


@reg('numpy.max')
def np_max(ip, a, kw):
    return arrays.minmax(ip, list(arrays.arrlike(ip, a[0]).flat), 'max')


@reg('numpy.min')
def np_min(ip, a, kw):
    return arrays.minmax(ip, list(arrays.arrlike(ip, a[0]).flat), 'min')


@reg('numpy.cumsum')
def np_cumsum(ip, a, kw):
    if kw or len(a) > 1 or isinstance(a[0], (ArrV, SymArr)) and len(a[0].shape) != 1:
        raise Unsupported('cumsum with an axis')
    return arrays.from_value(ip, running(ip, a[0], 0, lambda p, x: ops.binop(ip, 'Add', p, x)))


def running(ip, it, start, step):
    out = ListV(())
    ext.accumulate(ip, it, start, step, lambda v: ip.setc(out, mkseq(out.c + (I_(v),))))
    return out


@reg('itertools.accumulate')
def it_accumulate(ip, a, kw):
    f = a[1] if len(a) > 1 else kw.get('func')
    init = kw.get('initial')
    add = lambda p, x: ops.binop(ip, 'Add', p, x)
    step = add if f is None else (lambda p, x: ip.call(f, [p, x], {}))
    if init is not None:
        out = running(ip, a[0], init, step)
        ip.setc(out, mkseq((I_(init),) + out.c))
        return ext.IterVc('list', out)
    if f is None and pieces_num(ops.as_seq(ip, a[0])):
        return ext.IterVc('list', running(ip, a[0], 0, step))
    raise Unsupported('accumulate without a start value')


@reg('numpy.diff')
def np_diff(ip, a, kw):
    s = ops.as_seq(ip, a[0]) if not arrays.is_arrlike(a[0]) else arrays.arr_seq(ip, a[0])
    l = ListV(s)
    n = seq_len(s)
    k = fresh('d', 'int')
    it = seq_items(s)
    if it is not None:
        return arrays.from_value(ip, ListV((I_(*[ops.binop(ip, 'Sub', q, p) for p, q in zip(it, it[1:])]),)))
    x = arrays.from_value(ip, l)
    return SymArr((n - 1,), [next(iter(k.vars()))], ops.binop(ip, 'Sub', x.at(k + 1), x.at(k)))


@reg('numpy.array_equal')
def np_array_equal(ip, a, kw):
    x, y = arrays.arrlike(ip, a[0]), arrays.arrlike(ip, a[1])
    if isinstance(x, ArrV) and isinstance(y, ArrV):
        if x.shape != y.shape:
            return False
        return c_and(*[ops.truth(ip, ops.py_eq(ip, p, q)) for p, q in zip(x.flat, y.flat)])
    raise Unsupported('array_equal')


@reg('numpy.isscalar')
def np_isscalar(ip, a, kw):
    return is_num(a[0]) or isinstance(a[0], (str, SStr, bool))


@reg('numpy.shape')
def np_shape(ip, a, kw):
    return tuple(num(s) for s in arrays.arrlike(ip, a[0]).shape)


@reg('numpy.size')
def np_size(ip, a, kw):
    return arrays.attr(ip, arrays.arrlike(ip, a[0]), 'size')


@reg('numpy.real')
def np_real(ip, a, kw):
    return a[0]


@reg('numpy.errstate', 'numpy.printoptions', 'warnings.catch_warnings', 'pandas.option_context')
def null_ctx(ip, a, kw):
    return ops.NullCtx()


def ignore(ip, a, kw):
    return None


for n in ('warnings.warn', 'warnings.simplefilter', 'warnings.filterwarnings', 'pandas.set_option', 'numpy.seterr', 'numpy.set_printoptions'):
    CALLS[n] = ignore


@reg('time.time', 'time.perf_counter', 'time.process_time', 'time.monotonic')
def clock(ip, a, kw):
    return fresh('time')


# ------------------------------------------------------------------ scipy
@reg('scipy.sparse.csr_matrix')
def csr(ip, a, kw):
    v = a[0]
    if isinstance(v, (ArrV, SymArr, BlockArr, OpqArr)):
        return v
    return arrays.from_value(ip, v)


def hooked(name):
    def f(ip, a, kw):
        h = ip.hooks.get(name)
        if h is None:
            raise Unsupported('external call ' + name)
        return h(ip, a, kw)
    return f


for n_, k_ in (('scipy.sparse.linalg.eigsh', 'eigsh'), ('scipy.sparse.linalg.eigs', 'eigs'), ('scipy.linalg.eigh', 'eigh'),
               ('scipy.linalg.eig', 'eig'), ('numpy.linalg.eigh', 'np_eigh'),
               ('scipy.optimize.minimize', 'minimize')):
    CALLS[n_] = hooked(k_)


class RecV:
    """record produced by an external constructor: callable name with its arguments"""

    def __init__(self, name, args, kw):
        self.name, self.args, self.kw = name, list(args), dict(kw)

    def getattr_(self, ip, name):
        if name in self.kw:
            return self.kw[name]
        raise Unsupported('attribute %s of %s' % (name, self.name))


for n_ in ('NonlinearConstraint', 'LinearConstraint', 'Bounds'):
    CALLS['scipy.optimize.' + n_] = (lambda n: lambda ip, a, kw: RecV(n, a, kw))(n_)


# ------------------------------------------------------------------ itertools
CALLS['itertools.count'] = lambda ip, a, kw: IterV('count', (a[0] if a else kw.get('start', 0), a[1] if len(a) > 1 else kw.get('step', 1)))
CALLS['itertools.chain'] = lambda ip, a, kw: LazyIter('chain', list(a))
CALLS['itertools.repeat'] = lambda ip, a, kw: LazyIter('repeat', [a[0]], a[1] if len(a) > 1 else kw.get('times'))


@reg('itertools.product')
def it_product(ip, a, kw):
    r = cidx(kw.get('repeat', 1))
    return LazyIter('product', list(a) * r)


@reg('itertools.chain.from_iterable')
def it_chain_from(ip, a, kw):
    out = ListV(())

    def body(x):
        ip.setc(out, mkseq(out.c + ops.as_seq(ip, x)))
    ip.iterate(a[0], body)
    return out


@reg('functools.reduce')
def ft_reduce(ip, a, kw):
    step = lambda p, x: ip.call(a[0], [p, x], {})
    if len(a) < 3:
        it = seq_items(ops.as_seq(ip, a[1]))
        if not it:
            raise Unsupported('reduce without a start value')
        acc = it[0]
        for x in it[1:]:
            acc = step(acc, x)
        return acc
    return ext.accumulate(ip, a[1], a[2], step)


CALLS['copy.copy'] = lambda ip, a, kw: shallow(ip, a[0])
CALLS['copy.deepcopy'] = lambda ip, a, kw: deep(ip, a[0], {})


def shallow(ip, v):
    if isinstance(v, ListV):
        return ListV(ops.as_seq(ip, v))
    if isinstance(v, DictV):
        return DictV(v.d)
    if isinstance(v, (ArrV, SymArr)):
        return arrays.copy(v)
    if isinstance(v, ObjV):
        return ObjV(v.cls, v.d)
    return v


def deep(ip, v, memo):
    if isinstance(v, Cell) and not isinstance(v, ClassV):
        if id(v) in memo:
            return memo[id(v)]
        if isinstance(v, ListV):
            it = seq_items(ops.as_seq(ip, v))
            if it is None:
                if all(not isinstance(x, Cell) for p in v.c for x in ([p] if p[0] != 'I' else p[1])):
                    r = memo[id(v)] = ListV(v.c)
                    return r
                raise Unsupported('deepcopy')
            r = memo[id(v)] = ListV(())
            r.c = (I_(*[deep(ip, ip.thaw(x), memo) for x in it]),) if it else ()
            return r
        r = memo[id(v)] = shallow(ip, v)
        if isinstance(r, (DictV, ObjV)):
            for k in list(r.d):
                r.d[k] = deep(ip, r.d[k], memo)
        return r
    if isinstance(v, tuple) and not isinstance(v, Piece):
        return tuple(deep(ip, x, memo) for x in v)
    return v


# ------------------------------------------------------------------ pandas
@reg('pandas.DataFrame')
def pd_frame(ip, a, kw):
    data = a[0] if a else kw.get('data')
    cols = kw.get('columns', a[2] if len(a) > 2 else None)
    df = FrameDF()
    if data is None:
        return df
    if isinstance(data, FrameDF):
        df.d = dict(data.d)
    elif isinstance(data, DictV):
        d2 = {}
        for k, v in data.d.items():
            if isinstance(v, (ListV, tuple, SeriesV, ops.SeqTuple)) or arrays.is_arrlike(v):
                d2[k] = arrays.arr_seq(ip, v) if arrays.is_arrlike(v) else ops.as_seq(ip, v)
        lens = [seq_len(s) for s in d2.values()]
        if lens and not all(is_zero(x - lens[0]) or ip.entails(c_eq(x, lens[0])) for x in lens):
            raise_(ValueError, 'All arrays must be of the same length')
        for k, v in data.d.items():
            if k in d2:
                df.d[k] = d2[k]
            else:
                df.d[k] = map_seq(next(iter(d2.values())), lambda _: v)
    else:
        rows = ops.as_seq(ip, data)
        cl = ops.unpack(ip, cols, None, None) if cols is not None else None

        def pick(row, j, name):
            row = ip.thaw(row) if isinstance(row, Frozen) else row
            if isinstance(row, DictV):
                if name not in row.d:
                    raise Unsupported('missing column')
                return row.d[name]
            its = seq_items(ops.as_seq(ip, row)) if not isinstance(row, tuple) else row
            return its[j]
        if cl is None:
            f = first_item(ip, rows)
            if isinstance(f, DictV):
                cl = list(f.d)
            else:
                raise Unsupported('DataFrame without columns')
        for j, name in enumerate(cl):
            df.d[name] = map_seq(rows, lambda r: pick(r, j, name))
    if cols is not None:
        cl = ops.unpack(ip, cols, None, None)
        df.d = {c: df.d[c] for c in cl}
    return df


def first_item(ip, s):
    for p in s:
        if p[0] == 'I' and p[1]:
            return ip.thaw(p[1][0]) if isinstance(p[1][0], Frozen) else p[1][0]
        if p[0] == 'G':
            return first_item(ip, p[3])
    raise Unsupported('empty rows')


@reg('pandas.Series')
def pd_series(ip, a, kw):
    return SeriesV(arrays.arr_seq(ip, a[0]) if arrays.is_arrlike(a[0]) else ops.as_seq(ip, a[0]))


# ------------------------------------------------------------------ plotting: everything is recorded in ip.fx
class FxObj:
    def __init__(self, path):
        self.path = path

    def getattr_(self, ip, name):
        p = self.path + '.' + name
        return ops.Bound(lambda ip, a, kw: record(ip, p, a, kw))


def record(ip, path, a, kw):
    ip.setc(ip.fx, mkseq(ip.fx.c + (I_(('fx', path, tuple(snap(x) for x in a), tuple((k, snap(v)) for k, v in kw.items()))),)))
    last = path.rsplit('.', 1)[-1]
    if last == 'subplots':
        return (FxObj('fig'), FxObj('ax'))
    return FxObj(path + '()')


def snap(v):
    if isinstance(v, ArrV):
        return ArrV(v.shape, v.flat)
    if isinstance(v, SymArr):
        return SymArr(v.shape, v.c[0], v.c[1])
    if isinstance(v, ListV):
        return ListV(v.c)
    return v
