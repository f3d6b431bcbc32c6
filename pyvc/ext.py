"""Contracts of the external world: Python builtins, numpy, pandas, itertools, plotting.

Every function here is a trusted contract: the exact mathematical meaning of the external function on real numbers."""
import math
from fractions import Fraction
from .terms import *
from . import terms as T
from .values import *
from .interp import MISSING, nonneg, Frame, Poison, PoisonRead
from . import ops, arrays
from .ops import num, is_num, raise_, truth, cidx

EXC_BASE = {
    'numpy.linalg.LinAlgError': ValueError,
    'scipy.linalg.LinAlgError': ValueError,
    'scipy.sparse.linalg.ArpackError': RuntimeError,
    'scipy.sparse.linalg.ArpackNoConvergence': RuntimeError,
    'scipy.sparse.linalg._eigen.arpack.arpack.ArpackError': RuntimeError,
}


def exc_sub(p, q):
    p, q = canon(p), canon(q)
    if p == q:
        return True
    return p.endswith('ArpackNoConvergence') and q.endswith('ArpackError')


ALIAS = {
    'numpy.absolute': 'numpy.abs', 'numpy.fabs': 'numpy.abs', 'numpy.row_stack': 'numpy.vstack',
    'numpy.radians': 'numpy.deg2rad', 'numpy.Inf': 'numpy.inf', 'numpy.NaN': 'numpy.nan', 'numpy.NAN': 'numpy.nan',
    'numpy.asarray': 'numpy.array', 'numpy.ascontiguousarray': 'numpy.array', 'numpy.asanyarray': 'numpy.array',
    'numpy.float64': 'builtins.float', 'numpy.float_': 'builtins.float', 'numpy.double': 'builtins.float',
    'numpy.int64': 'builtins.int', 'numpy.int_': 'builtins.int', 'numpy.bool_': 'builtins.bool',
    'numpy.amax': 'numpy.max', 'numpy.amin': 'numpy.min', 'numpy.concat': 'numpy.concatenate',
    'scipy.linalg.inv': 'numpy.linalg.inv', 'scipy.linalg.solve': 'numpy.linalg.solve',
    'scipy.sparse.csr_array': 'scipy.sparse.csr_matrix', 'scipy.sparse.csc_matrix': 'scipy.sparse.csr_matrix',
    'scipy.sparse.csc_array': 'scipy.sparse.csr_matrix', 'scipy.sparse.linalg.eigen.arpack.ArpackError': 'scipy.sparse.linalg.ArpackError',
    'math.fabs': 'numpy.abs', 'math.cos': 'numpy.cos', 'math.sin': 'numpy.sin', 'math.radians': 'numpy.deg2rad',
    'math.sqrt': 'numpy.sqrt', 'math.pi': 'numpy.pi', 'math.inf': 'numpy.inf', 'math.nan': 'numpy.nan',
    'math.isnan': 'numpy.isnan', 'math.isinf': 'numpy.isinf', 'math.isfinite': 'numpy.isfinite',
    'operator.mul': 'op.Mult', 'operator.add': 'op.Add', 'operator.sub': 'op.Sub',
    'matplotlib.pyplot.cm': 'matplotlib.cm',
}


def canon(p):
    return ALIAS.get(p, p)


VALUES = {'numpy.pi': lambda: T.PI if not callable(T.PI) else T.PI(), 'numpy.inf': lambda: INF, 'numpy.nan': lambda: NAN,
          'numpy.newaxis': lambda: None, 'sys.float_info.epsilon': lambda: Fraction(1, 2 ** 52)}


def known(path):
    p = canon(path)
    return p in VALUES or p in CALLS


def get_attr(ip, e, name):
    p = e.path + '.' + name
    c = canon(p)
    if c in VALUES:
        return VALUES[c]()
    if p == 'builtins.NotImplemented':
        return Ext(p)
    if name == '__name__':
        return e.path.rsplit('.', 1)[-1]
    return Ext(c)


# ------------------------------------------------------------------ types
def is_type(ip, v, t):
    if isinstance(t, tuple):
        return any_(is_type(ip, v, x) for x in t)
    if isinstance(t, ListV):
        raise_(TypeError, 'isinstance arg 2')
    if isinstance(t, ClassV):
        return isinstance(v, ObjV) and v.cls.issub(t)
    if isinstance(t, type):
        return isinstance(v, PyExc) and isinstance(v.cls, type) and issubclass(v.cls, t)
    if not isinstance(t, Ext):
        raise_(TypeError, 'isinstance arg 2')
    if isinstance(v, AnyV):
        return c_bool('isinstance', v.name, t.path)
    isb = isinstance(v, (bool, Cond))
    isint = isinstance(v, int) or isb or (isinstance(v, Poly) and v.is_int())
    isfl = (is_num(v) and not isint) or isinstance(v, arrays.CaseV)
    n = t.path
    if n == 'builtins.object':
        return True
    if n == 'builtins.str':
        return isinstance(v, (str, SStr, ops.StrChoice))
    if n == 'builtins.bool':
        return isb
    if n in ('builtins.int', 'numbers.Integral', 'numpy.integer'):
        return isint
    if n in ('builtins.float', 'numpy.floating'):
        return isfl
    if n in ('numbers.Number', 'numbers.Real', 'builtins.complex', 'numbers.Complex', 'numbers.Rational'):
        if n == 'builtins.complex':
            return False
        return isint or isfl
    if n == 'builtins.list':
        return isinstance(v, ListV)
    if n == 'builtins.tuple':
        return isinstance(v, (tuple, ops.SeqTuple))
    if n == 'builtins.dict':
        return isinstance(v, DictV)
    if n == 'builtins.set':
        return isinstance(v, SetV)
    if n in ('numpy.ndarray',):
        return isinstance(v, (ArrV, SymArr, BlockArr, OpqArr))
    if n in ('pandas.DataFrame',):
        return isinstance(v, FrameDF)
    if n in ('pandas.Series',):
        return isinstance(v, SeriesV)
    if n in ('collections.abc.Sequence', 'collections.abc.Iterable', 'collections.abc.Sized', 'typing.Sequence', 'typing.Iterable'):
        if n.endswith('Sequence'):
            return isinstance(v, (ListV, tuple, str, SStr, ops.SeqTuple, RangeV))
        return isinstance(v, (ListV, tuple, str, SStr, ops.SeqTuple, DictV, SetV, RangeV, LazyIter, ArrV, SymArr))
    if n in ('collections.abc.Mapping', 'typing.Mapping', 'collections.abc.MutableMapping'):
        return isinstance(v, DictV)
    raise Unsupported('isinstance ' + n)


def any_(it):
    r = False
    for x in it:
        r = c_or(r, x)
        if r is True:
            return True
    return r


def type_of(ip, v):
    if isinstance(v, ObjV):
        return v.cls
    if isinstance(v, PyExc):
        return v.cls
    if v is None:
        return Ext('builtins.NoneType')
    for n in ('bool', 'int', 'float', 'str', 'list', 'tuple', 'dict', 'set'):
        if is_type(ip, v, Ext('builtins.' + n)) is True:
            return Ext('builtins.' + n)
    for n in ('numpy.ndarray', 'pandas.DataFrame', 'pandas.Series'):
        if is_type(ip, v, Ext(n)) is True:
            return Ext(n)
    raise Unsupported('type()')


# ------------------------------------------------------------------ builtins
def to_float(ip, v):
    if isinstance(v, AnyV):
        if ip.decide(c_bool('bad', v.name)):
            raise Raise(PyExc(TypeError, ('float',)))
        if ip.decide(c_bool('nan', v.name)):
            return NAN
        if ip.decide(c_bool('pinf', v.name)):
            return INF
        if ip.decide(c_bool('ninf', v.name)):
            return NINF
        return T.var(v.name)
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, Cond):
        return ops.boolpoly(v)
    if is_num(v):
        return v
    if isinstance(v, arrays.CaseV):
        return v
    if isinstance(v, (str, SStr)):
        return ops.str_float(ip, v)
    if isinstance(v, ArrV) and len(v.flat) == 1:
        if len(v.shape) > 0:
            raise_(TypeError, 'only 0-dimensional arrays can be converted')
        return to_float(ip, v.flat[0])
    if isinstance(v, OpqArr):
        raise Unsupported('float of an array')
    raise_(TypeError, 'float() argument')


def to_int(ip, v):
    if isinstance(v, AnyV):
        v = to_float(ip, v)
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, Cond):
        return ops.boolpoly(v)
    if isinstance(v, Special):
        raise_(OverflowError if v is not NAN else ValueError, 'cannot convert')
    if isinstance(v, (str, SStr)):
        return ops.str_int(ip, v)
    if isinstance(v, ArrV) and v.shape == ():
        v = v.flat[0]
    if is_num(v):
        v = num(v)
        if isinstance(v, int):
            return v
        if isinstance(v, Fraction):
            return int(v)
        if v.is_int():
            return v
        f = atom_floor(v)
        if ip.entails(c_eq(v, f)):
            return f
        if ip.entails(c_le(0, v)):
            return f
        return ite(c_le(0, v), f, -atom_floor(-v))
    raise_(TypeError, 'int() argument')


def atom_floor(v):
    return apoly(atom('app', ('floor', (P(v),)), 'int'))


def b_len(ip, a, kw):
    v = a[0]
    if isinstance(v, (str,)):
        return len(v)
    if isinstance(v, SStr):
        return num(sstr_len(ip, v))
    if isinstance(v, DictV):
        return len(v.d)
    if isinstance(v, SetV):
        return len(v.c)
    if isinstance(v, FrameDF):
        return num(seq_len(next(iter(v.d.values())))) if v.d else 0
    if isinstance(v, (ArrV, SymArr, BlockArr, OpqArr)):
        if not v.shape:
            raise_(TypeError, 'len() of unsized object')
        return num(P(v.shape[0]))
    if isinstance(v, ops.VecN):
        return v.n
    if isinstance(v, RangeV):
        return num(ops.range_len(ip, v))
    if isinstance(v, ObjV):
        m = v.cls.lookup('__len__')
        if m is None:
            raise_(TypeError, 'no len()')
        return ip.call(m, [v], {})
    if isinstance(v, (ListV, tuple, ops.SeqTuple, SeriesV)):
        return num(seq_len(ops.as_seq(ip, v)))
    if isinstance(v, AnyV):
        raise Unsupported('len of an arbitrary value')
    raise_(TypeError, 'has no len()')


def sstr_len(ip, s):
    from .loops import segments, seglen
    return seglen(segments(ip, s))


def b_range(ip, a, kw):
    a = [ints(ip, x) for x in a]
    if len(a) == 1:
        return RangeV(0, a[0], 1)
    if len(a) == 2:
        return RangeV(a[0], a[1], 1)
    return RangeV(*a)


def ints(ip, x):
    if isinstance(x, bool):
        return int(x)
    x = num(x) if is_num(x) else x
    if isinstance(x, Fraction) or isinstance(x, Special) or not is_num(x):
        raise_(TypeError, 'integer required')
    if isinstance(x, Poly) and not x.is_int():
        raise_(TypeError, 'integer required')
    return x


def b_list(ip, a, kw):
    if not a:
        return ListV(())
    v = a[0]
    if isinstance(v, OpqArr) and len(v.shape) == 1:
        raise Unsupported('list of an opaque array')
    return ListV(ops.as_seq(ip, v))


def b_tuple(ip, a, kw):
    if not a:
        return ()
    if isinstance(a[0], tuple):
        return a[0]
    s = ops.as_seq(ip, a[0])
    it = seq_items(s)
    return tuple(it) if it is not None else ops.SeqTuple(s)


def b_dict(ip, a, kw):
    d = {}
    if a:
        if isinstance(a[0], DictV):
            d.update(a[0].d)
        else:
            it = seq_items(ops.as_seq(ip, a[0]))
            if it is None:
                raise Unsupported('dict of unknown size')
            for p in it:
                k, v = ops.unpack(ip, ip.thaw(p), 2, None)
                d[ops.hkey(ip, k)] = v
    d.update(kw)
    return DictV(d)


def b_set(ip, a, kw):
    if not a:
        return SetV(())
    it = seq_items(ops.as_seq(ip, a[0]))
    if it is None:
        raise Unsupported('set of unknown size')
    out, ks = [], set()
    for x in it:
        k = ops.hkey(ip, x)
        if k not in ks:
            ks.add(k)
            out.append(x)
    return SetV(out)


def b_bool(ip, a, kw):
    return truth(ip, a[0]) if a else False


def b_str(ip, a, kw):
    return ops.to_str(ip, a[0]) if a else ''


def b_abs(ip, a, kw):
    v = a[0]
    if isinstance(v, SeriesV):
        return SeriesV(map_seq(v.seq, lambda x: arrays.x_abs(ip, x)))
    if arrays.is_arr(v) and not isinstance(v, arrays.CaseV):
        return arrays.umap(lambda x: arrays.x_abs(ip, x), v)
    if is_num(v) or isinstance(v, arrays.CaseV):
        return arrays.x_abs(ip, v)
    if isinstance(v, (bool, Cond)):
        return ops.boolpoly(v)
    raise_(TypeError, 'bad operand type for abs()')


def items_of(ip, a):
    if len(a) == 1:
        s = ops.as_seq(ip, a[0])
        it = seq_items(s)
        if it is None:
            raise Unsupported('min/max of unknown length')
        return [ip.thaw(x) for x in it]
    return list(a)


def b_minmax(name):
    def f(ip, a, kw):
        its = items_of(ip, a)
        if kw.get('key') is not None:
            keys = [ip.call(kw['key'], [x], {}) for x in its]
            best, bk = its[0], keys[0]
            for x, k in zip(its[1:], keys[1:]):
                c = truth(ip, ops.compare(ip, 'Lt' if name == 'min' else 'Gt', k, bk))
                if ip.decide(c):
                    best, bk = x, k
            return best
        if not its and 'default' in kw:
            return kw['default']
        return num(arrays.minmax(ip, its, name))
    return f


def b_sum(ip, a, kw):
    start = a[1] if len(a) > 1 else kw.get('start', 0)
    acc = [start]
    v = a[0]
    if isinstance(v, (ArrV, SymArr)) and len(v.shape) == 1:
        return ops.binop(ip, 'Add', arrays.asum(ip, v), start)
    s = ops.as_seq(ip, v)
    out = start
    simple = pieces_num(s)
    if simple:
        r = P(start) if is_num(start) else None
        if r is not None:
            return num(r + seq_sum(s))
    # as a loop
    return accumulate(ip, ListV(s), start, lambda cur, x: ops.binop(ip, 'Add', cur, x))


def accumulate(ip, it, start, step, each=None):
    """acc = start; for x in it: acc = step(acc, x); the accumulator is a variable of its own frame"""
    fr = Frame(None)
    ip.setk(fr, 'acc', start)

    def read():
        v = fr.d['acc']
        if isinstance(v, Poison):
            raise PoisonRead(v.loc)
        return v

    def body(x):
        v = step(read(), x)
        ip.setk(fr, 'acc', v)
        if each is not None:
            each(v)
    ip.iterate(it, body)
    return read()


def pieces_num(s):
    for p in s:
        if p[0] == 'I':
            if not all(is_num(x) and not isinstance(x, Special) or isinstance(x, (bool, Cond)) for x in p[1]):
                return False
        elif p[0] == 'G':
            if not pieces_num(p[3]):
                return False
        elif p[0] == 'C':
            if not (pieces_num(p[2]) and pieces_num(p[3])):
                return False
        else:
            return False
    return True


def seq_sum(s):
    r = ZERO
    for p in s:
        if p[0] == 'I':
            for x in p[1]:
                r = r + ops.topoly(x)
        elif p[0] == 'G':
            r = r + mk_sum(p[1], p[2], seq_sum(p[3]))
        else:
            r = r + ite(p[1], seq_sum(p[2]), seq_sum(p[3]))
    return r


def b_sorted(ip, a, kw):
    s = ops.as_seq(ip, a[0])
    key = kw.get('key')
    rev = truth(ip, kw.get('reverse', False))
    if key is None:
        return ListV(ops.sort_seq(ip, s, rev))
    it = seq_items(s)
    if it is None:
        raise Unsupported('sorted with key')
    ks = [ip.call(key, [x], {}) for x in it]
    out = []
    for x, k in zip(it, ks):
        pos = len(out)
        for j in range(len(out)):
            c = ops.compare(ip, 'Lt' if not rev else 'Gt', k, out[j][1])
            if ip.decide(truth(ip, c)):
                pos = j
                break
        out.insert(pos, (x, k))
    return ListV((I_(*[x for x, k in out]),) if out else ())


def b_isinstance(ip, a, kw):
    return is_type(ip, a[0], a[1])


def b_round(ip, a, kw):
    v = num(a[0])
    if isinstance(v, int):
        return v
    if isinstance(v, Fraction):
        return round(v, cidx(a[1])) if len(a) > 1 else round(v)
    return T.app('round', P(v), P(a[1] if len(a) > 1 else 0))


def b_anyall(name):
    def f(ip, a, kw):
        it = seq_items(ops.as_seq(ip, a[0]))
        if it is None:
            s = ops.as_seq(ip, a[0])
            if len(s) == 1 and s[0][0] == 'G':
                body = seq_items(s[0][3])
                if body is not None and len(body) == 1:
                    c = truth(ip, body[0])
                    if name == 'all':
                        return c_forall(s[0][1], s[0][2], c)
                    return c_not(c_forall(s[0][1], s[0][2], c_not(c)))
            raise Unsupported(name)
        cs = [truth(ip, x) for x in it]
        return c_and(*cs) if name == 'all' else c_or(*cs)
    return f


def b_iter(ip, a, kw):
    if isinstance(a[0], IterV):
        return a[0]
    return IterVc('list', ListV(ops.as_seq(ip, a[0])))


def IterVc(kind, data):
    return IterV(kind, data)


def b_next(ip, a, kw):
    it = a[0]
    if isinstance(it, IterV):
        if it.kind == 'count':
            return fresh('count', 'int')
        if it.kind == 'list':
            s = it.data.c
            n = seq_len(s)
            if ip.decide(c_eq(n, 0)):
                if len(a) > 1:
                    return a[1]
                raise_(StopIteration)
            v = ip.seq_at(s, ZERO, it.data)
            ip.setc(it.data, ops.drop_first(ip, s, ONE))
            return v
    if isinstance(it, ListV):      # a generator evaluated eagerly
        n = seq_len(it.c)
        if ip.decide(c_eq(n, 0)):
            if len(a) > 1:
                return a[1]
            raise_(StopIteration)
        v = ip.seq_at(it.c, ZERO, it)
        ip.setc(it, ops.drop_first(ip, it.c, ONE))
        return v
    raise Unsupported('next()')


def b_hasattr(ip, a, kw):
    try:
        ip.getattr(a[0], a[1])
        return True
    except Raise as r:
        if ip.exc_match(r.exc, AttributeError):
            return False
        raise


def b_getattr(ip, a, kw):
    if not isinstance(a[1], str):
        raise Unsupported('getattr of a symbolic name')
    try:
        return ip.getattr(a[0], a[1])
    except Raise as r:
        if len(a) > 2 and ip.exc_match(r.exc, AttributeError):
            return a[2]
        raise


def b_print(ip, a, kw):
    return None


def b_filter(ip, a, kw):
    out = ListV(())

    def body(x):
        c = truth(ip, x if a[0] is None else ip.call(a[0], [x], {}))
        ip.branch(c, lambda: ip.setc(out, mkseq(out.c + (I_(x),))), lambda: None)
    ip.iterate(a[1], body)
    return out


BI = {
    'len': b_len, 'range': b_range, 'list': b_list, 'tuple': b_tuple, 'dict': b_dict, 'set': b_set, 'bool': b_bool, 'str': b_str,
    'frozenset': b_set, 'repr': b_str,
    'float': lambda ip, a, kw: to_float(ip, a[0]) if a else 0,
    'int': lambda ip, a, kw: to_int(ip, a[0]) if a else 0,
    'abs': b_abs, 'min': b_minmax('min'), 'max': b_minmax('max'), 'sum': b_sum, 'sorted': b_sorted,
    'enumerate': lambda ip, a, kw: LazyIter('enumerate', [a[0]], a[1] if len(a) > 1 else kw.get('start', 0)),
    'zip': lambda ip, a, kw: LazyIter('zip', list(a)),
    'map': lambda ip, a, kw: LazyIter('map', list(a[1:]), a[0]),
    'filter': b_filter,
    'reversed': lambda ip, a, kw: LazyIter('reversed', [a[0]]),
    'isinstance': b_isinstance, 'print': b_print, 'round': b_round, 'any': b_anyall('any'), 'all': b_anyall('all'),
    'iter': b_iter, 'next': b_next, 'hasattr': b_hasattr, 'getattr': b_getattr,
    'setattr': lambda ip, a, kw: ip.setattr(a[0], a[1], a[2]),
    'type': lambda ip, a, kw: type_of(ip, a[0]),
    'pow': lambda ip, a, kw: ops.binop(ip, 'Pow', a[0], a[1]),
    'slice': lambda ip, a, kw: SliceV(None, a[0], None) if len(a) == 1 else SliceV(a[0], a[1], a[2] if len(a) > 2 else None),
    'callable': lambda ip, a, kw: isinstance(a[0], (FuncV, BoundM, ClassV, Ext, StaticV)),
    'divmod': lambda ip, a, kw: (ops.binop(ip, 'FloorDiv', a[0], a[1]), ops.binop(ip, 'Mod', a[0], a[1])),
    'id': lambda ip, a, kw: ident(a[0]),
    'float.is_integer': lambda ip, a, kw: ops.is_integer(ip, float_only(ip, a[0])),
    'object.__init__': lambda ip, a, kw: None,
    'object': lambda ip, a, kw: ObjV(ClassV('object', [], None)),
    'dict.get': lambda ip, a, kw: ip.call(ip.getattr(a[0], 'get'), a[1:], kw),
    'dict.fromkeys': lambda ip, a, kw: DictV({ops.hkey(ip, k): (a[1] if len(a) > 1 else None) for k in seq_items(ops.as_seq(ip, a[0]))}),
    'property': lambda ip, a, kw: PropV(a[0] if a else None, a[1] if len(a) > 1 else None),
    'issubclass': lambda ip, a, kw: isinstance(a[0], ClassV) and isinstance(a[1], ClassV) and a[0].issub(a[1]),
}


def float_only(ip, v):
    if isinstance(v, int):
        return v      # a float in the code (float() keeps integral values as integers here)
    return v


def ident(v):
    if isinstance(v, Cell):
        return v.serial
    raise Unsupported('id()')
CALLS = {}
for k_, v_ in BI.items():
    CALLS['builtins.' + k_] = v_


def call(ip, path, args, kw):
    p = canon(path)
    f = CALLS.get(p)
    if f is not None:
        try:
            return f(ip, list(args), kw)
        except (IndexError, KeyError) as e:
            raise Unsupported('call of %s: %r' % (p, e))
    if p.startswith('matplotlib'):
        return record(ip, p, list(args), kw)
    if p in EXC_BASE:
        return PyExc(Ext(p), tuple(args))
    if p.startswith('builtins.'):
        q = p.split('.')
        if len(q) == 3 and args:
            return ip.call(ip.getattr(args[0], q[2]), list(args[1:]), kw)
    if p == 'numpy.abs':
        return b_abs(ip, args, kw)
    raise Unsupported('external function ' + p)


from .ext2 import record   # noqa: E402  (registers the numpy, scipy, pandas contracts)
