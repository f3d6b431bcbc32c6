"""Operators, indexing, string/list/dict methods."""
from fractions import Fraction
from .terms import *
from . import terms as T
from .values import *
from .interp import Unsupported, seq_items, simp_fdiv, nonneg, PyExc, Raise, _has_frozen
import math


class Bound:
    """a bound builtin method"""

    def __init__(self, fn):
        self.fn = fn

    def __call__(self, ip, args, kw):
        return self.fn(ip, args, kw)


class NullCtx:
    pass


class ExprStr:
    """the string of an expression whose evaluation is known"""

    def __init__(self, fn, name=''):
        self.fn = fn
        self.name = name


NUMT = (int, Fraction, Poly)


def is_num(v):
    return isinstance(v, NUMT) or isinstance(v, Special)


def num(v):
    """normalise numbers: constant polys become int / Fraction"""
    if isinstance(v, Poly):
        c = v.const()
        if c is not None:
            return int(c) if c.denominator == 1 else c
    return v


def is_float(v):
    if isinstance(v, Fraction) or isinstance(v, Special):
        return True
    return isinstance(v, Poly) and not v.is_int()


def raise_(cls, *a):
    e = PyExc(cls, a)
    e.implicit = True       # raised by a built-in operation, not by a raise statement
    raise Raise(e)


def boolpoly(c):
    if isinstance(c, bool):
        return P(int(c))
    return ite(c, ONE, ZERO)


def topoly(v):
    if isinstance(v, Cond):
        return boolpoly(v)
    return P(v)


def truth(ip, v):
    if isinstance(v, bool):
        return v
    if isinstance(v, Cond):
        return v
    if v is None:
        return False
    if isinstance(v, (int, Fraction)):
        return v != 0
    if isinstance(v, Poly):
        return c_not(c_eq(v))
    if isinstance(v, Special):
        return True
    if isinstance(v, str):
        return bool(v)
    if isinstance(v, SStr):
        if any(isinstance(x, str) or (isinstance(x, Tok) and x.kind in ('angle', 'count')) for x in v.p):
            return True
        raise Unsupported('truth of a symbolic string')
    if isinstance(v, tuple):
        return len(v) > 0
    if isinstance(v, ListV):
        return c_lt(0, seq_len(v.c))
    if isinstance(v, (DictV,)):
        return len(v.d) > 0
    if isinstance(v, SetV):
        return len(v.c) > 0
    if isinstance(v, ArrV):
        if len(v.flat) == 1:
            return truth(ip, v.flat[0])
        raise_(ValueError, 'truth value of an array')
    if isinstance(v, RangeV):
        return c_lt(0, range_len(ip, v))
    if isinstance(v, ObjV):
        m = v.cls.lookup('__bool__') or v.cls.lookup('__len__')
        if m is not None:
            return truth(ip, ip.call(m, [v], {}))
        return True
    if isinstance(v, (FuncV, BoundM, ClassV, Ext, ModV, type)):
        return True
    raise Unsupported('truth of %s' % type(v).__name__)


def hkey(ip, k):
    """dictionary key"""
    if isinstance(k, Poly):
        c = k.const()
        if c is None:
            raise Unsupported('symbolic dictionary key')
        k = int(c) if c.denominator == 1 else c
    if isinstance(k, tuple):
        return tuple(hkey(ip, x) for x in k)
    if isinstance(k, (str, int, Fraction, bool, type(None), ClassV, FuncV, Ext, type)):
        return k
    if isinstance(k, Cell):
        if isinstance(k, (ListV, DictV, SetV, ArrV)):
            raise_(TypeError, 'unhashable')
        if isinstance(k, ObjV) and k.cls.lookup('__eq__') and not k.cls.lookup('__hash__'):
            raise_(TypeError, 'unhashable')
        return ('cell', id(k))
    raise Unsupported('dictionary key %s' % type(k).__name__)


# ------------------------------------------------------------------ arithmetic
DUNDER = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'FloorDiv': 'floordiv', 'Mod': 'mod', 'Pow': 'pow',
          'MatMult': 'matmul'}


def binop(ip, op, a, b):
    if isinstance(a, bool):
        a = int(a) if op not in ('BitAnd', 'BitOr', 'BitXor') else a
    if isinstance(b, bool):
        b = int(b) if op not in ('BitAnd', 'BitOr', 'BitXor') else b
    if op in ('BitAnd', 'BitOr', 'BitXor') and isinstance(a, (bool, Cond)) and isinstance(b, (bool, Cond)):
        if op == 'BitAnd':
            return c_and(a, b)
        if op == 'BitOr':
            return c_or(a, b)
        raise Unsupported('xor')
    if isinstance(a, Cond):
        a = boolpoly(a)
    if isinstance(b, Cond):
        b = boolpoly(b)
    if is_num(a) and is_num(b):
        return num_op(ip, op, a, b)
    from . import arrays
    if arrays.is_arr(a) or arrays.is_arr(b):
        return arrays.binop(ip, op, a, b)
    if op == 'Add':
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            return mkstr([a, b])
        if isinstance(a, ListV) and isinstance(b, ListV):
            ip.check_memo(a)
            ip.check_memo(b)
            return ListV(mkseq(ip.copied(a) + ip.copied(b)))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(a, SeqTuple) or isinstance(b, SeqTuple):
            if isinstance(a, (tuple, SeqTuple)) and isinstance(b, (tuple, SeqTuple)):
                return SeqTuple(mkseq(as_seq(ip, a) + as_seq(ip, b)))
    if op == 'Mult':
        if is_num(a):
            a, b = b, a
        if isinstance(a, ListV) and is_num(b):
            return ListV(seq_times(ip, ip.copied(a), b))
        if isinstance(a, tuple) and isinstance(num(b), int):
            return a * num(b)
        if isinstance(a, (str, SStr)):
            k = num(b)
            if isinstance(k, int):
                return mkstr([a] * k)
            v = fresh('x', 'int')
            return mkstr([('G', P(k), next(iter(v.vars())), SStr([a]))])
    if op == 'Mod' and isinstance(a, str):
        raise Unsupported('% formatting')
    if isinstance(a, ObjV) or isinstance(b, ObjV):
        nme = DUNDER.get(op)
        if nme:
            if isinstance(a, ObjV) and a.cls.lookup('__%s__' % nme):
                return ip.call(a.cls.lookup('__%s__' % nme), [a, b], {})
            if isinstance(b, ObjV) and b.cls.lookup('__r%s__' % nme):
                return ip.call(b.cls.lookup('__r%s__' % nme), [b, a], {})
        raise_(TypeError, 'unsupported operand')
    if op == 'Sub' and isinstance(a, SetV) and isinstance(b, SetV):
        bs = {hkey(ip, x) for x in b.c}
        return SetV([x for x in a.c if hkey(ip, x) not in bs])
    if op == 'BitOr' and isinstance(a, DictV) and isinstance(b, DictV):
        d = DictV(a.d)
        d.d.update(b.d)
        return d
    for x in (a, b):
        if x is None or isinstance(x, (str, tuple, ListV, DictV, PyExc)):
            raise_(TypeError, 'unsupported operand types for %s: %s %s' % (op, type(a).__name__, type(b).__name__))
    raise Unsupported('%s on %s and %s' % (op, type(a).__name__, type(b).__name__))


def seq_times(ip, seq, k):
    k = num(k)
    if isinstance(k, int):
        return mkseq(seq * max(k, 0))
    if isinstance(k, Fraction):
        raise_(TypeError, 'non-int multiplier')
    if not ip.entails(c_le(0, k)):
        if ip.decide(c_lt(k, 0)):
            return ()
    v = fresh('x', 'int')
    return mkseq([G_(k, next(iter(v.vars())), seq)])


def special_op(ip, op, a, b):
    """arithmetic with inf/nan"""
    def sgn(x):
        if x is INF:
            return 1
        if x is NINF:
            return -1
        x = num(x)
        if isinstance(x, Poly):
            if ip.decide(c_eq(x)):
                return 0
            return -1 if ip.decide(c_lt(x, 0)) else 1
        return (x > 0) - (x < 0)
    if a is NAN or b is NAN:
        return NAN
    fin = lambda x: not isinstance(x, Special)
    if op == 'Sub':
        op = 'Add'
        b = {INF: NINF, NINF: INF}.get(b, b) if not fin(b) else -P(b)
    if op == 'Add':
        if not fin(a) and not fin(b):
            return a if a is b else NAN
        return a if not fin(a) else b
    if op == 'Mult':
        s = sgn(a) * sgn(b)
        return NAN if s == 0 else (INF if s > 0 else NINF)
    if op == 'Div':
        if fin(a):
            return 0
        if not fin(b):
            return NAN
        s = sgn(a) * (sgn(b) or 1)
        return INF if s > 0 else NINF
    raise Unsupported('inf/nan in %s' % op)


def num_op(ip, op, a, b):
    if isinstance(a, Special) or isinstance(b, Special):
        return special_op(ip, op, a, b)
    a, b = num(a), num(b)
    if not isinstance(a, Poly) and not isinstance(b, Poly):
        fl = isinstance(a, Fraction) or isinstance(b, Fraction)
        if op == 'Add':
            r = a + b
        elif op == 'Sub':
            r = a - b
        elif op == 'Mult':
            r = a * b
        elif op == 'Div':
            if b == 0:
                raise_(ZeroDivisionError, 'division by zero')
            return Fraction(a) / Fraction(b)
        elif op == 'FloorDiv':
            if b == 0:
                raise_(ZeroDivisionError)
            r = math.floor(Fraction(a) / Fraction(b))
            return Fraction(r) if fl else r
        elif op == 'Mod':
            if b == 0:
                raise_(ZeroDivisionError)
            r = a - b * math.floor(Fraction(a) / Fraction(b))
        elif op == 'Pow':
            return pow_(ip, a, b)
        elif op in ('BitAnd', 'BitOr', 'BitXor', 'LShift', 'RShift') and isinstance(a, int) and isinstance(b, int):
            return {'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b, 'LShift': a << b if b < 99 else 0, 'RShift': a >> b if b >= 0 else 0}[op]
        else:
            raise_(TypeError, 'unsupported operand')
        return Fraction(r) if fl else r
    pa, pb = P(a), P(b)
    if op == 'Add':
        return num(pa + pb) if not (pa + pb).is_const() else constres(pa + pb, a, b)
    if op == 'Sub':
        return num(pa - pb) if not (pa - pb).is_const() else constres(pa - pb, a, b)
    if op == 'Mult':
        r = pa * pb
        return constres(r, a, b) if r.is_const() else r
    if op == 'Div':
        if not pb.t:
            raise_(ZeroDivisionError, 'division by zero')
        if pb.const() is None:
            ip.assumed.add('divisor nonzero: %s' % shorten(pb))
            if is_zero(pb):
                raise_(ZeroDivisionError, 'division by zero')
        r = pa / pb
        c = r.const()
        return Fraction(c) if c is not None else r
    if op == 'FloorDiv':
        if pa.is_int() and pb.is_int():
            return num(simp_fdiv(pa, pb, ip.pc))
        return apoly(atom('app', ('floor', (pa / pb,)), 'int'))
    if op == 'Mod':
        if pa.is_int() and pb.is_int():
            return num(pa - pb * simp_fdiv(pa, pb, ip.pc))
        raise Unsupported('mod of reals')
    if op == 'Pow':
        return pow_(ip, a, b)
    if op == 'BitAnd' and b == 1 and pa.is_int():
        return num(pa - 2 * simp_fdiv(pa, P(2), ip.pc))
    raise Unsupported('operator %s on symbols' % op)


def constres(p, a, b):
    c = p.const()
    if is_float(a) or is_float(b) or c.denominator != 1:
        return Fraction(c)
    return int(c)


def shorten(p, n=160):
    s = str(p)
    return s if len(s) <= n else s[:n] + '...'


def pow_(ip, a, b):
    a, b = num(a), num(b)
    if isinstance(b, (int, Fraction)) and b == int(b):
        k = int(b)
        if isinstance(a, Poly):
            if k < 0:
                ip.assumed.add('divisor nonzero: %s' % shorten(a))
            r = a ** k
            c = r.const()
            return r if c is None else constres(r, a, b)
        if k < 0:
            if a == 0:
                raise_(ZeroDivisionError)
            return Fraction(a) ** k
        return a ** k if not isinstance(b, Fraction) else Fraction(a) ** k
    if isinstance(b, Fraction) and b.denominator == 2:
        s = sqrt(P(a))
        r = s ** b.numerator
        return num(r)
    if isinstance(b, Poly) and b.is_int():
        if a == -1:
            return num(parity(b))
        if a == 1:
            return 1
        return apoly(atom('app', ('pow', (P(a), b)), 'real'))
    raise Unsupported('power')


def unop(ip, op, v):
    if isinstance(v, bool):
        v = int(v)
    if op == 'USub':
        if isinstance(v, Special):
            return {INF: NINF, NINF: INF, NAN: NAN}[v]
        if is_num(v):
            return -v
        return binop(ip, 'Mult', -1, v)
    if op == 'UAdd':
        return v
    if op == 'Invert':
        if isinstance(v, Cond):
            return c_not(v)
        from . import arrays
        if arrays.is_arr(v):
            return arrays.invert(ip, v)
    raise Unsupported('unary %s' % op)


def iop(ip, op, cur, v):
    """augmented assignment"""
    from . import arrays
    if isinstance(cur, ListV) and op == 'Add':
        ip.setc(cur, mkseq(cur.c + as_seq(ip, v)))
        return cur
    if isinstance(cur, ListV) and op == 'Mult':
        ip.setc(cur, seq_times(ip, cur.c, v))
        return cur
    if isinstance(cur, (ArrV, SymArr)):
        r = arrays.binop(ip, op, cur, v)
        if isinstance(cur, ArrV) and isinstance(r, ArrV) and r.shape == cur.shape:
            arrays.store_all(ip, cur, r.flat)
            return cur
        if isinstance(cur, SymArr) and isinstance(r, SymArr):
            ip.setc(cur, r.c)
            return cur
        raise Unsupported('in-place array operation')
    if isinstance(cur, ObjV) and DUNDER.get(op) and cur.cls.lookup('__i%s__' % DUNDER[op]):
        return ip.call(cur.cls.lookup('__i%s__' % DUNDER[op]), [cur, v], {})
    return binop(ip, op, cur, v)


# ------------------------------------------------------------------ comparison
def compare(ip, op, a, b):
    from . import arrays
    if op in ('Is', 'IsNot'):
        r = is_same(ip, a, b)
        return r if op == 'Is' else c_not(r)
    if op in ('In', 'NotIn'):
        r = contains(ip, b, a)
        return r if op == 'In' else c_not(r)
    if arrays.is_arr(a) or arrays.is_arr(b):
        if op in ('Eq', 'NotEq') and (a is None or b is None or isinstance(a, (str, SStr)) or isinstance(b, (str, SStr))):
            raise Unsupported('array compared with a non-number')
        return arrays.compare(ip, op, a, b)
    if op == 'Eq':
        return py_eq(ip, a, b)
    if op == 'NotEq':
        if isinstance(a, ObjV):
            m = a.cls.lookup('__ne__')
            if m is not None:
                return ip.call(m, [a, b], {})
        return c_not(truth(ip, py_eq(ip, a, b)))
    if isinstance(a, bool):
        a = int(a)
    if isinstance(b, bool):
        b = int(b)
    if isinstance(a, Cond):
        a = boolpoly(a)
    if isinstance(b, Cond):
        b = boolpoly(b)
    if is_num(a) and is_num(b):
        return num_cmp(op, a, b)
    if isinstance(a, str) and isinstance(b, str):
        return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
    if isinstance(a, SStr) or isinstance(b, SStr):
        raise Unsupported('ordering of symbolic strings')
    if isinstance(a, tuple) and isinstance(b, tuple):
        # lexicographic
        res = len(a) < len(b) if op in ('Lt',) else None
        raise Unsupported('tuple ordering')
    raise_(TypeError, 'ordering')


def num_cmp(op, a, b):
    if isinstance(a, Special) or isinstance(b, Special):
        if a is NAN or b is NAN:
            return False
        key = lambda x: 1 if x is INF else (-1 if x is NINF else 0)
        x, y = key(a), key(b)
        return {'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[op]
    if op == 'Lt':
        return c_lt(a, b)
    if op == 'LtE':
        return c_le(a, b)
    if op == 'Gt':
        return c_lt(b, a)
    return c_le(b, a)


def is_same(ip, a, b):
    if a is b:
        return True
    if a is None or b is None:
        return False
    if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
        return type(a) == type(b) and a == b
    if isinstance(a, Cell) or isinstance(b, Cell):
        return False
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, Cond) and isinstance(b, bool):
        return a if b else c_not(a)
    if isinstance(b, Cond) and isinstance(a, bool):
        return is_same(ip, b, a)
    if isinstance(a, Special) or isinstance(b, Special):
        return False
    if isinstance(a, (Ext, type, ClassV)) or isinstance(b, (Ext, type, ClassV)):
        return a is b
    if type(a) != type(b):
        return False
    raise Unsupported('identity of values')


def py_eq(ip, a, b):
    if isinstance(a, ObjV) or isinstance(b, ObjV):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, ObjV):
                m = x.cls.lookup('__eq__')
                if m is not None:
                    r = ip.call(m, [x, y], {})
                    if isinstance(r, Ext) and r.path == 'builtins.NotImplemented':
                        continue
                    return r
        return a is b
    if isinstance(a, (bool, Cond)) and isinstance(b, (bool, Cond)):
        return c_or(c_and(a, b), c_and(c_not(a), c_not(b)))
    if isinstance(a, bool):
        a = int(a)
    if isinstance(b, bool):
        b = int(b)
    if is_num(a) and is_num(b):
        if isinstance(a, Special) or isinstance(b, Special):
            return a is b and a is not NAN
        return c_eq(a, b)
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        return sstr_eq(ip, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        cs = []
        for x, y in zip(a, b):
            c = elem_eq(ip, x, y)
            if c is False:
                return False
            cs.append(c)
        return c_and(*cs)
    if isinstance(a, ListV) and isinstance(b, ListV):
        return seq_eq_cond(ip, a, b)
    if isinstance(a, DictV) and isinstance(b, DictV):
        if set(a.d) != set(b.d):
            return False
        return c_and(*[elem_eq(ip, a.d[k], b.d[k]) for k in a.d])
    if isinstance(a, SetV) and isinstance(b, SetV):
        return {hkey(ip, x) for x in a.c} == {hkey(ip, x) for x in b.c}
    if isinstance(a, StrChoice):
        return a.eq(b)
    if isinstance(b, StrChoice):
        return b.eq(a)
    if a is None or b is None:
        return a is b
    if isinstance(a, (Ext, type, ClassV, FuncV)) or isinstance(b, (Ext, type, ClassV, FuncV)):
        return a is b
    kinds = lambda v: ('n' if is_num(v) else 's' if isinstance(v, (str, SStr)) else 't' if isinstance(v, tuple)
                       else 'l' if isinstance(v, ListV) else 'd' if isinstance(v, DictV) else
                       'a' if isinstance(v, ArrV) else '?')
    ka, kb = kinds(a), kinds(b)
    if '?' not in (ka, kb) and ka != kb:
        return False
    raise Unsupported('== on %s and %s' % (type(a).__name__, type(b).__name__))


def elem_eq(ip, x, y):
    """element equality inside containers: identity or =="""
    if x is y:
        return True
    return truth(ip, py_eq(ip, x, y))


def seq_eq_cond(ip, a, b):
    ia, ib = seq_items(a.c), seq_items(b.c)
    if ia is not None and ib is not None:
        if len(ia) != len(ib):
            return False
        cs = []
        for x, y in zip(ia, ib):
            c = elem_eq(ip, ip.thaw(x), ip.thaw(y))
            if c is False:
                return False
            cs.append(c)
        return c_and(*cs)
    la, lb = seq_len(a.c), seq_len(b.c)
    ln = c_eq(la, lb)
    if ln is False:
        return False
    v = fresh('e', 'int')
    npc = len(ip.pc)
    ip.pc.extend([c for c in (c_le(0, v), c_lt(v, la), c_lt(v, lb)) if c is not True])
    try:
        x = ip.seq_at(a.c, v, a)
        y = ip.seq_at(b.c, v, b)
        e = elem_eq(ip, x, y)
    finally:
        del ip.pc[npc:]
    return c_and(ln, c_forall(la, next(iter(v.vars())), e))


def contains(ip, cont, x):
    if isinstance(cont, (str, SStr)) and isinstance(x, str):
        return str_find(ip, cont, x) is not None
    if isinstance(cont, DictV):
        return hkey(ip, x) in cont.d
    if isinstance(cont, tuple):
        return c_or(*[elem_eq(ip, y, x) for y in cont])
    if isinstance(cont, SetV):
        return c_or(*[elem_eq(ip, y, x) for y in cont.c])
    if isinstance(cont, ListV):
        it = seq_items(cont.c)
        if it is not None:
            return c_or(*[elem_eq(ip, ip.thaw(y), x) for y in it])
        # one generated piece: exists
        cs = []
        for p in cont.c:
            if p[0] == 'I':
                cs.extend(elem_eq(ip, y, x) for y in p[1])
            elif p[0] == 'G' and seq_items(p[3]) is not None:
                for y in seq_items(p[3]):
                    e = elem_eq(ip, y, x)
                    cs.append(c_not(c_forall(p[1], p[2], c_not(e))))
            elif p[0] == 'C':
                ya, yb = contains(ip, ListV(p[2]), x), contains(ip, ListV(p[3]), x)
                cs.append(c_or(c_and(p[1], ya), c_and(c_not(p[1]), yb)))
            else:
                raise Unsupported('membership')
        return c_or(*cs)
    if isinstance(cont, RangeV):
        if num(cont.s) == 1:
            return c_and(c_le(cont.a, x), c_lt(x, cont.b))
    if isinstance(cont, FrameDF):
        return x in cont.d
    raise Unsupported('membership in %s' % type(cont).__name__)


_codes = {}


def name_code(s):
    """number standing for a string in comparisons with unknown strings"""
    return _codes.setdefault(s, len(_codes) + 1)


class StrChoice:
    """an unknown string, compared only for equality (case-folded names are derived)"""

    def __init__(self, name, fold=None):
        self.name = name
        self.fold = fold

    def eq(self, s):
        if not self.name.endswith('.lower()'):
            raise Unsupported('comparison of an unknown string before case folding')
        if isinstance(s, str):
            return c_eq(T.var('name of ' + self.name, 'int'), name_code(s))
        return False


# ------------------------------------------------------------------ sequences
class SeqTuple:
    """tuple of symbolic length"""

    def __init__(self, seq):
        self.seq = seq


def as_seq(ip, v):
    """sequence of the elements of v"""
    if isinstance(v, ListV):
        ip.check_memo(v)
        return ip.copied(v)
    if isinstance(v, tuple):
        return (I_(*v),) if v else ()
    if isinstance(v, SeqTuple):
        return v.seq
    if isinstance(v, SeriesV):
        return v.seq
    if isinstance(v, DictV):
        return (I_(*v.d.keys()),) if v.d else ()
    if isinstance(v, SetV):
        return (I_(*v.c),) if v.c else ()
    if isinstance(v, LazyIter) and v.kind == 'product' and all(plain_items(x) for x in v.srcs):
        from . import loops
        return loops.segs_to_seq(ip, loops.segments(ip, v))
    out = ListV(())
    ip.iterate(v, lambda x: ip.setc(out, mkseq(out.c + (I_(x),))))
    return out.c


def plain_item(x):
    return isinstance(x, (int, Fraction, Poly, str)) or isinstance(x, tuple) and all(plain_item(y) for y in x)


def plain_items(v):
    """a sequence of numbers and strings"""
    def ok(seq):
        for p in seq:
            if p[0] == 'I':
                if not all(plain_item(x) for x in p[1]):
                    return False
            elif p[0] == 'G':
                if not ok(p[3]):
                    return False
            elif p[0] == 'C':
                if not (ok(p[2]) and ok(p[3])):
                    return False
            else:
                return False
        return True
    if isinstance(v, ListV):
        return ok(v.c)
    if isinstance(v, tuple):
        return ok((I_(*v),)) if v else True
    return isinstance(v, RangeV)


def range_len(ip, r):
    a, b, s = P(r.a), P(r.b), num(r.s)
    if not isinstance(s, int):
        raise Unsupported('symbolic range step')
    if s > 0:
        d = b - a
        n = d if s == 1 else fdiv2(ip, d + (s - 1), s)
    else:
        d = a - b
        n = d if s == -1 else fdiv2(ip, d + (-s - 1), -s)
    c = n.const()
    if c is not None:
        return P(max(int(c), 0))
    if nonneg(n, ip.pc):
        return n
    if ip.decide(c_lt(n, 0)):
        return ZERO
    return n


def fdiv2(ip, a, b):
    from .prove import eq_substitution
    r = simp_fdiv(a, P(b), ip.pc)
    if any(x.kind == 'app' for x in r.atoms()):
        env = eq_substitution(ip.pc)
        if env:
            r2 = simp_fdiv(T.subst(P(a), env), P(b), ip.pc)
            if not any(x.kind == 'app' and x.args[0] == 'fdiv' for x in r2.atoms()):
                return r2
    return r


def unpack(ip, v, n, atleast):
    """concrete list of elements"""
    if isinstance(v, tuple):
        items = list(v)
    elif isinstance(v, ArrV):
        items = [getitem(ip, v, i) for i in range(v.shape[0])]
    elif isinstance(v, ListV):
        items = seq_items(v.c)
        if items is not None:
            items = [ip.thaw(x) for x in items] if any(_has_frozen(x) for x in items) else items
        elif n is not None:
            ln = seq_len(v.c)
            if not ip.decide(c_eq(ln, n)):
                raise_(ValueError, 'unpack')
            items = [ip.seq_at(v.c, P(i), v) for i in range(n)]
    elif isinstance(v, (DictV,)):
        items = list(v.d)
    elif isinstance(v, str):
        items = list(v)
    elif isinstance(v, SetV):
        items = list(v.c)
    elif isinstance(v, (RangeV, LazyIter)):
        items = seq_items(as_seq(ip, v))
    elif isinstance(v, VecN):
        if n is not None:
            if n != v.n:
                raise_(ValueError, 'unpack')
        items = list(v.items)
    elif v is None or is_num(v):
        raise_(TypeError, 'cannot unpack')
    else:
        raise Unsupported('unpack %s' % type(v).__name__)
    if items is None:
        raise Unsupported('unpack a sequence of unknown length')
    if n is not None and len(items) != n:
        raise_(ValueError, 'wrong number of values to unpack')
    if atleast is not None and len(items) < atleast:
        raise_(ValueError, 'not enough values to unpack')
    return items


class VecN:
    def __init__(self, items):
        self.items = items
        self.n = len(items)


def cidx(i):
    i = num(i)
    if isinstance(i, bool):
        return int(i)
    return i


def getitem(ip, o, i):
    from . import arrays
    if isinstance(i, Cond) and isinstance(o, (tuple, ListV, SeqTuple)):
        i = int(ip.decide(i))
    if isinstance(o, tuple):
        if isinstance(i, SliceV):
            return o[pyslice(i)]
        k = cidx(i)
        if isinstance(k, int):
            if -len(o) <= k < len(o):
                return o[k]
            raise_(IndexError, 'tuple index')
        if is_num(k):
            return ip.seq_at((I_(*o),), P(k))
    if isinstance(o, ListV):
        if isinstance(i, SliceV):
            return ListV(seq_slice(ip, o, i))
        k = cidx(i)
        if isinstance(k, (int, Poly)):
            v = ip.seq_at(o.c, P(k), o)
            if _has_frozen(v):
                v = ip.thaw(v)
            return v
        raise_(TypeError, 'list index')
    if isinstance(o, SeqTuple):
        if isinstance(i, SliceV):
            return SeqTuple(seq_slice(ip, ListV(o.seq), i))
        return ip.seq_at(o.seq, P(cidx(i)))
    if isinstance(o, DictV):
        if getattr(o, 'getter', None) is not None:
            return o.getter(ip, i)
        if isinstance(i, StrChoice):
            cs = [(i.eq(k), v) for k, v in o.d.items()]
            if not cs or not ip.entails(c_or(*[c for c, _ in cs])):
                if not cs or not ip.decide(c_or(*[c for c, _ in cs])):
                    raise_(KeyError)
            if all(isinstance(v, ListV) for _, v in cs):      # merged, read-only
                r = cs[-1][1].c
                for c, v in reversed(cs[:-1]):
                    r = mkseq([C_(c, v.c, r)])
                out = ListV(r)
                out.readonly = True
                return out
            for c, v in cs:
                if ip.decide(c):
                    return v
            raise_(KeyError)
        try:
            k = hkey(ip, i)
        except Unsupported:
            return dict_symbolic(ip, o, i)
        if k in o.d:
            return o.d[k]
        raise_(KeyError, k)
    if isinstance(o, (str, SStr)):
        return str_index(ip, o, i)
    if isinstance(o, RangeV):
        if not isinstance(i, SliceV):
            return num(P(o.a) + P(o.s) * P(i))
    if isinstance(o, FrameDF):
        if isinstance(i, str):
            if i not in o.d:
                raise_(KeyError, i)
            return SeriesV(o.d[i])
        if isinstance(i, ListV):
            names = seq_items(i.c)
            return FrameDF({n: o.d[n] for n in names})
    if arrays.is_arr(o):
        return arrays.getitem(ip, o, i)
    if isinstance(o, ObjV):
        m = o.cls.lookup('__getitem__')
        if m is not None:
            return ip.call(m, [o, i], {})
    if o is None or is_num(o):
        raise_(TypeError, 'not subscriptable')
    raise Unsupported('subscript of %s' % type(o).__name__)


def dict_symbolic(ip, o, key):
    """lookup with symbolic key(s) in a dictionary with concrete keys: fork over the keys"""
    if len(o.d) > 60:
        raise Unsupported('symbolic lookup in a large dictionary')
    for k, v in o.d.items():
        if ip.decide(truth(ip, py_eq(ip, key, k))):
            return v
    raise_(KeyError)


def pyslice(s):
    f = lambda x: None if x is None else cidx(x)
    a, b, c = f(s.a), f(s.b), f(s.s)
    if any(isinstance(x, Poly) for x in (a, b, c)):
        raise Unsupported('symbolic slice')
    return slice(a, b, c)


def seq_slice(ip, o, s):
    seq = as_seq(ip, o)
    a, b, st = s.a, s.b, s.s
    st = 1 if st is None else cidx(st)
    items = seq_items(seq)
    sa = None if a is None else cidx(a)
    sb = None if b is None else cidx(b)
    if items is not None and not any(isinstance(x, Poly) for x in (sa, sb, st)):
        r = items[slice(sa, sb, st)]
        return (I_(*r),) if r else ()
    if st == -1 and sa is None and sb is None:
        return seq_rev(seq)
    if st == -1 and sb is None and isinstance(sa, int) and sa < 0:
        return seq_rev(drop_last(ip, seq, -sa - 1))
    if st != 1:
        raise Unsupported('slice step')
    if len(seq) == 1 and seq[0][0] == 'C':
        p = seq[0]
        return mkseq([C_(p[1], seq_slice(ip, ListV(p[2]), s), seq_slice(ip, ListV(p[3]), s))])
    if any(p[0] == 'C' for p in seq):
        return seq_slice(ip, ListV(push_ite(seq)), s)
    if isinstance(sb, int) and sb < 0:
        seq = drop_last(ip, seq, -sb)
    elif sb is not None:
        seq = take_first(ip, seq, P(sb))
    if sa is not None and sa != 0:
        if isinstance(sa, int) and sa < 0:
            seq = seq_rev(take_first(ip, seq_rev(seq), P(-sa)))
        else:
            seq = drop_first(ip, seq, P(sa))
    return seq


def push_ite(seq):
    """move a conditional piece to the top"""
    for i, p in enumerate(seq):
        if p[0] == 'C':
            a = push_ite(tuple(seq[:i]) + tuple(p[2]) + tuple(seq[i + 1:]))
            b = push_ite(tuple(seq[:i]) + tuple(p[3]) + tuple(seq[i + 1:]))
            return (C_(p[1], a, b),)
    return mkseq(seq)


def body_len1(p):
    it = seq_items(p[3])
    return it is not None and len(it) == 1


def take_first(ip, seq, k):
    """first k elements (k >= 0)"""
    k = P(k)
    if k.const() is None and not nonneg(k, ip.pc):
        raise Unsupported('slice bound sign')
    out = []
    for p in seq:
        if not k.t:
            break
        if p[0] == 'I':
            L = len(p[1])
            c = k.const()
            if c is not None:
                c = int(c)
                out.append(I_(*p[1][:c]))
                k = P(max(c - L, 0))
            elif ip.decide(c_le(L, k)):
                out.append(p)
                k = k - L
            else:
                for j in range(L):
                    if ip.decide(c_eq(k, j)):
                        out.append(I_(*p[1][:j]))
                        k = ZERO
                        break
                else:
                    raise Unsupported('slice')
        elif p[0] == 'G' and body_len1(p):
            if nonneg(k - p[1], ip.pc):
                out.append(p)
                k = k - p[1]
            elif nonneg(p[1] - k, ip.pc) or ip.decide(c_le(k, p[1])):
                out.append(G_(k, p[2], p[3]))
                k = ZERO
            else:
                out.append(p)
                k = k - p[1]
        else:
            raise Unsupported('slice of an unknown sequence')
    return mkseq(out)


def drop_first(ip, seq, k):
    k = P(k)
    out = []
    seq = list(seq)
    for pn, p in enumerate(seq):
        if not k.t:
            out.append(p)
            continue
        if p[0] == 'I':
            c = k.const()
            if c is None:
                raise Unsupported('slice')
            c = int(c)
            out.append(I_(*p[1][c:]))
            k = P(max(c - len(p[1]), 0))
        elif p[0] == 'G' and body_len1(p):
            if ip.decide(c_le(k, p[1])):
                v = fresh('d', 'int')
                out.append(G_(p[1] - k, next(iter(v.vars())), subst_seq(p[3], {p[2]: v + k})))
                k = ZERO
            else:
                k = k - p[1]
        else:
            raise Unsupported('slice of an unknown sequence')
    return mkseq(out)


def drop_last(ip, seq, k):
    seq = list(seq)
    while k and seq:
        p = seq[-1]
        if p[0] == 'I':
            if len(p[1]) > k:
                seq[-1] = I_(*p[1][:-k])
                k = 0
            else:
                k -= len(p[1])
                seq.pop()
        elif p[0] == 'G' and seq_items(p[3]) is not None:
            L = len(seq_items(p[3]))
            q = -(-k // L)
            if not ip.decide(c_le(q, p[1])):
                if q == 1:      # the piece is empty here
                    seq.pop()
                    continue
                raise Unsupported('slice beyond a generated piece')
            extra = q * L - k
            tail = []
            for j in range(q, 0, -1):
                tail.extend(seq_items(subst_seq(p[3], {p[2]: p[1] - j})))
            seq[-1] = G_(p[1] - q, p[2], p[3])
            if extra:
                seq.append(I_(*tail[:extra]))
            k = 0
        else:
            raise Unsupported('slice of an unknown sequence')
    return mkseq(seq)


def setitem(ip, o, i, v):
    from . import arrays
    if isinstance(o, ListV):
        if isinstance(i, SliceV):
            it = seq_items(o.c)
            if it is None:
                a, b = i.a, i.b
                ca, cb = (None if x is None else cidx(x) for x in (a, b))
                if i.s is not None or not (ca is None or isinstance(ca, int)) or not (cb is None or isinstance(cb, int)) \
                        or (ca is not None and cb is not None and ((ca < 0) != (cb < 0) or ca > cb)):
                    raise Unsupported('slice assignment')
                ip.check_memo(o)
                src = ListV(o.c)
                new = (seq_slice(ip, src, SliceV(None, ca, None)) if ca is not None else ()) + tuple(as_seq(ip, v)) \
                    + (seq_slice(ip, src, SliceV(cb, None, None)) if cb is not None else ())
                ip.setmemo(o, {})
                ip.setc(o, mkseq(new))
                return
            it = list(it)
            it[pyslice(i)] = unpack(ip, v, None, None)
            ip.setc(o, (I_(*it),) if it else ())
            return
        k = cidx(i)
        it = seq_items(o.c)
        if it is not None and isinstance(k, int):
            if not -len(it) <= k < len(it):
                raise_(IndexError)
            it = list(it)
            it[k] = v
            ip.setc(o, (I_(*it),))
            return
        ip.setc(o, seq_store(ip, o, P(k), v))
        return
    if isinstance(o, DictV):
        ip.setk(o, hkey(ip, i), v)
        return
    if isinstance(o, FrameDF):
        if not isinstance(i, str):
            raise Unsupported('DataFrame assignment')
        if isinstance(v, SeriesV):
            seq = v.seq
        else:
            seq = as_seq(ip, v)
        if o.d:
            ref = next(iter(o.d.values()))
            if not is_zero(seq_len(ref) - seq_len(seq)):
                raise Unsupported('column length')
        ip.setk(o, i, seq)
        return
    if arrays.is_arr(o):
        return arrays.setitem(ip, o, i, v)
    if isinstance(o, (tuple, str, SStr)) or is_num(o) or o is None:
        raise_(TypeError, 'item assignment')
    if isinstance(o, ObjV):
        m = o.cls.lookup('__setitem__')
        if m is not None:
            return ip.call(m, [o, i, v], {})
    raise Unsupported('item assignment on %s' % type(o).__name__)


def seq_store(ip, o, idx, v):
    """functional update at a symbolic position"""
    seq = o.c
    c = idx.const()
    if c is not None and c < 0:
        k = int(-c)
        tail = drop_last(ip, seq, k)
        rest = seq_rev(take_first(ip, seq_rev(seq), P(k)))
        items = seq_items(rest)
        if items is None:
            raise Unsupported('store')
        items = list(items)
        items[0] = v
        return mkseq(list(tail) + [I_(*items)])
    if len(seq) == 1 and seq[0][0] == 'G' and body_len1(seq[0]):
        p = seq[0]
        if isinstance(v, Cell) or _has_frozen(v):
            raise Unsupported('store of an object at a symbolic position')
        if not ip.entails(c_and(c_le(0, idx), c_lt(idx, p[1]))):
            if not ip.decide(c_and(c_le(0, idx), c_lt(idx, p[1]))):
                raise_(IndexError)
        w = fresh('s', 'int')
        old = seq_items(subst_seq(p[3], {p[2]: w}))[0]
        if isinstance(v, (str, SStr)) and isinstance(old, (str, SStr)):
            return mkseq([G_(p[1], next(iter(w.vars())), (I_(mkstr([('C', c_eq(w, idx), SStr([v]), SStr([old]))])),))])
        if not is_num(v) or not is_num(old):
            raise Unsupported('store of a non-number at a symbolic position')
        return mkseq([G_(p[1], next(iter(w.vars())), (I_(ite(c_eq(w, idx), P(v), P(old))),))])
    if c is not None:
        head = take_first(ip, seq, idx)
        tail = drop_first(ip, seq, idx + 1)
        return mkseq(list(head) + [I_(v)] + list(tail))
    raise Unsupported('store at a symbolic position')


def delitem(ip, o, i):
    if isinstance(o, DictV):
        k = hkey(ip, i)
        if k not in o.d:
            raise_(KeyError)
        ip.delk(o, k)
        return
    if isinstance(o, ListV):
        it = seq_items(o.c)
        k = cidx(i)
        if it is not None and isinstance(k, int):
            it = list(it)
            if not -len(it) <= k < len(it):
                raise_(IndexError, 'list index')
            del it[k]
            ip.setc(o, (I_(*it),) if it else ())
            return
        if isinstance(k, int):
            getitem(ip, o, k)       # IndexError
            if k < 0:
                a, b = SliceV(None, k, None), SliceV(k + 1, None, None) if k != -1 else None
            else:
                a, b = SliceV(None, k, None), SliceV(k + 1, None, None)
            ip.check_memo(o)
            src = ListV(o.c)
            ip.setmemo(o, {})
            ip.setc(o, mkseq(seq_slice(ip, src, a) + (seq_slice(ip, src, b) if b is not None else ())))
            return
        if isinstance(i, SliceV) and i.s is None:
            setitem(ip, o, i, ListV(()))
            return
    raise Unsupported('del item')


# ------------------------------------------------------------------ strings
def tok_has(t, ch):
    """may the token contain character ch? (False = certainly not)"""
    if isinstance(t, Tok):
        cs = TOK_CHARS.get(t.kind)
        if cs is None:
            if t.kind == 'fmt' and is_num(t.data) and not isinstance(t.data, Special):
                return ch in '0123456789.+-e'      # str() of a finite number
            return None
        return ch in cs
    return None


def str_index(ip, s, i):
    if isinstance(i, SliceV):
        return str_slice(ip, s, i)
    k = cidx(i)
    if isinstance(s, str) and isinstance(k, int):
        if -len(s) <= k < len(s):
            return s[k]
        raise_(IndexError)
    ps = sstr_pieces(s)
    if isinstance(k, int):
        seq = ps if k >= 0 else tuple(reversed(ps))
        n = k if k >= 0 else -k - 1
        for p in seq:
            if isinstance(p, str):
                if n < len(p):
                    return p[n] if k >= 0 else p[-1 - n]
                n -= len(p)
            else:
                if n == 0 and isinstance(p, Tok) and p.kind in ('angle', 'count'):
                    return SStr([('ch', p, P(0) if k >= 0 else P(-1))])
                if n == 0 and isinstance(p, tuple) and p[0] == 'C':
                    return str_index(ip, mkstr([p[2] if ip.decide(p[1]) else p[3]] + list(seq[seq.index(p) + 1:])), i) if k >= 0 else \
                        str_index(ip, mkstr(list(reversed(seq[seq.index(p) + 1:])) + [p[2] if ip.decide(p[1]) else p[3]]), i)
                raise Unsupported('character of a symbolic string')
        raise_(IndexError)
    raise Unsupported('symbolic string index')


def str_slice(ip, s, sl):
    if isinstance(s, str):
        return s[pyslice(sl)]
    q = pyslice(sl)
    if q.step not in (None, 1):
        raise Unsupported('string slice step')
    ps = list(s.p)
    a = q.start or 0
    if a < 0:
        raise Unsupported('string slice')
    while a:
        if not ps:
            break
        if isinstance(ps[0], str):
            k = min(a, len(ps[0]))
            ps[0] = ps[0][k:]
            a -= k
            if not ps[0]:
                ps.pop(0)
        else:
            raise Unsupported('string slice through a symbol')
    b = q.stop
    if b is not None:
        if b >= 0:
            raise Unsupported('string slice')
        b = -b
        while b:
            if not ps:
                break
            if isinstance(ps[-1], str):
                k = min(b, len(ps[-1]))
                ps[-1] = ps[-1][:-k]
                b -= k
                if not ps[-1]:
                    ps.pop()
            elif isinstance(ps[-1], tuple) and ps[-1][0] == 'C':
                c = ps.pop()
                ps.extend(sstr_pieces(c[2] if ip.decide(c[1]) else c[3]))
            else:
                raise Unsupported('string slice through a symbol')
    return mkstr(ps)


def str_find(ip, s, lit):
    """position class of the first occurrence: index of the piece, or None when it certainly does not occur"""
    if isinstance(s, str):
        return s.find(lit) if lit in s else None
    for i, p in enumerate(s.p):
        if isinstance(p, str):
            if lit in p:
                return i
            # an occurrence spanning pieces
            if i + 1 < len(s.p):
                for k in range(1, len(lit)):
                    if p.endswith(lit[:k]):
                        nxt = s.p[i + 1]
                        h = piece_may(nxt, lit[k])
                        if h is not False:
                            raise Unsupported('substring spanning a symbol')
        else:
            h = [piece_may(p, ch) for ch in lit]
            if all(x is not False for x in h):
                if isinstance(p, tuple) and p[0] == 'C':
                    if ip.decide(p[1]):
                        return str_find(ip, mkstr(s.p[:i] + sstr_pieces(p[2]) + s.p[i + 1:]), lit)
                    return str_find(ip, mkstr(s.p[:i] + sstr_pieces(p[3]) + s.p[i + 1:]), lit)
                raise Unsupported('substring search in a symbol')
    return None


def sstr_len(s):
    from .loops import str_segs, seglen
    return P(seglen(str_segs(None, sstr_pieces(s))))


def str_pos(ip, s, lit):
    """position of the first occurrence, None when it certainly does not occur"""
    while True:
        if isinstance(s, str):
            return s.find(lit) if lit in s else None
        if str_find(ip, s, lit) is None:
            return None
        for i, p in enumerate(s.p):     # conditional pieces that may hold the literal are settled by now: settle them here too
            if isinstance(p, tuple) and p[0] == 'C' and any(piece_may(p, ch) is not False for ch in lit):
                s = mkstr(s.p[:i] + tuple(sstr_pieces(p[2] if ip.decide(p[1]) else p[3])) + s.p[i + 1:])
                break
        else:
            break
    n = ZERO
    for p in s.p:
        if isinstance(p, str):
            if lit in p:
                return n + p.find(lit)
            n = n + len(p)
        else:
            n = n + sstr_len(SStr([p]))
    raise Unsupported('position of a substring')


def piece_may(p, ch):
    """False when the piece certainly does not contain ch"""
    if isinstance(p, str):
        return ch in p
    if isinstance(p, Tok):
        return tok_has(p, ch) is not False or None if tok_has(p, ch) is not False else False
    if isinstance(p, SStr):
        return False if all(piece_may(x, ch) is False for x in p.p) else None
    if p[0] == 'G':
        return piece_may(SStr([p[3]]), ch)
    if p[0] == 'C':
        return False if piece_may(SStr([p[2]]), ch) is False and piece_may(SStr([p[3]]), ch) is False else None
    return None


def str_replace(ip, s, lit, by):
    if isinstance(s, str):
        return s.replace(lit, by) if isinstance(by, str) else mkstr(_interleave(s.split(lit), by))
    out = []
    n = len(s.p)
    for i, p in enumerate(s.p):
        if isinstance(p, str):
            if len(lit) > 1:
                for k in range(1, len(lit)):
                    if p.endswith(lit[:k]) and i + 1 < n and piece_may(s.p[i + 1], lit[k]) is not False:
                        raise Unsupported('substring spanning a symbol')
            out.append(p.replace(lit, by))
        elif isinstance(p, Tok):
            if any(tok_has(p, ch) is False for ch in lit):
                out.append(p)
            else:
                raise Unsupported('replace in a symbol')
        elif p[0] == 'G':
            if len(lit) > 1 and not all(piece_may(p, ch) is False for ch in lit[:1]):
                b = p[3]
                ps = sstr_pieces(b)
                # literals never span the iteration boundary when the boundary characters differ
                if not (isinstance(ps[-1], str) and not any(ps[-1].endswith(lit[:k]) for k in range(1, len(lit)))):
                    if not isinstance(ps[-1], Tok):
                        raise Unsupported('replace in a repeated symbol')
            out.append(('G', p[1], p[2], SStr([str_replace(ip, p[3], lit, by)])))
        elif p[0] == 'C':
            out.append(('C', p[1], SStr([str_replace(ip, p[2], lit, by)]), SStr([str_replace(ip, p[3], lit, by)])))
        else:
            raise Unsupported('replace in a symbol')
    return mkstr(out)


def _interleave(parts, by):
    out = []
    for i, x in enumerate(parts):
        if i:
            out.append(by)
        out.append(x)
    return out


def resolve_c(ip, s):
    """decide conditional pieces of a string"""
    while isinstance(s, SStr):
        for i, p in enumerate(s.p):
            if isinstance(p, tuple) and p[0] == 'C':
                s = mkstr(s.p[:i] + sstr_pieces(p[2] if ip.decide(p[1]) else p[3]) + s.p[i + 1:])
                break
        else:
            return s
    return s


def str_strip(ip, s, side='both', chars=None):
    s = resolve_c(ip, s)
    if isinstance(s, str):
        return {'both': s.strip, 'l': s.lstrip, 'r': s.rstrip}[side](chars)
    ps = list(s.p)
    if side in ('both', 'l'):
        while ps:
            p = ps[0]
            if isinstance(p, str):
                q = p.lstrip(chars)
                if q:
                    ps[0] = q
                    break
                ps.pop(0)
            elif isinstance(p, Tok) and p.kind == 'ws' and chars is None:
                ps.pop(0)
            elif isinstance(p, Tok) and p.kind in ('angle', 'count') and not any(tok_has(p, c) for c in (chars or ' \t\n')):
                break
            else:
                raise Unsupported('strip of a symbol')
    if side in ('both', 'r'):
        while ps:
            p = ps[-1]
            if isinstance(p, str):
                q = p.rstrip(chars)
                if q:
                    ps[-1] = q
                    break
                ps.pop()
            elif isinstance(p, Tok) and p.kind == 'ws' and chars is None:
                ps.pop()
            elif isinstance(p, Tok) and p.kind in ('angle', 'count') and not any(tok_has(p, c) for c in (chars or ' \t\n')):
                break
            else:
                raise Unsupported('strip of a symbol')
    return mkstr(ps)


def str_split(ip, s, sep):
    s = resolve_c(ip, s)
    if sep is None:
        if isinstance(s, str):
            return [x for x in s.split()]
        raise Unsupported('split on blanks of a symbol')
    if isinstance(s, str):
        return s.split(sep)
    out = [[]]
    for p in s.p:
        if isinstance(p, str):
            parts = p.split(sep)
            out[-1].append(parts[0])
            for x in parts[1:]:
                out.append([x])
        elif piece_may(p, sep[0]) is False:
            out[-1].append(p)
        else:
            raise Unsupported('split of a symbol')
    return [mkstr(x) for x in out]


def str_float(ip, s):
    if isinstance(s, str):
        try:
            return parse_float(s)
        except ValueError:
            raise_(ValueError, 'could not convert string to float')
    s = str_strip(ip, s)
    if isinstance(s, SStr) and len(s.p) == 1 and isinstance(s.p[0], Tok):
        t = s.p[0]
        if t.kind == 'angle':
            return el('ang:' + t.name, *t.idx)
        if t.kind == 'count':
            return el('cnt:' + t.name, *t.idx, sort='int')
        if t.kind == 'fmt' and is_num(t.data):
            return t.data
    if isinstance(s, SStr) and len(s.p) == 2 and s.p[0] in ('-', '+') and isinstance(s.p[1], Tok) and s.p[1].kind == 'count':
        v = el('cnt:' + s.p[1].name, *s.p[1].idx, sort='int')
        return -v if s.p[0] == '-' else v
    if isinstance(s, SStr) and any(isinstance(p, str) and any(c in p for c in '/_()[]\\{}') and '_' not in p for p in s.p):
        raise_(ValueError, 'could not convert string to float')
    raise Unsupported('float of a symbolic string')


def parse_float(s):
    t = s.strip().lower().replace('_', '') if not ('__' in s) else s
    v = float(s)
    if v != v:
        return NAN
    if v in (float('inf'), float('-inf')):
        return INF if v > 0 else NINF
    return Fraction(t)


def str_int(ip, s):
    if isinstance(s, str):
        try:
            return int(s)
        except ValueError:
            raise_(ValueError, 'invalid literal for int')
    s = str_strip(ip, s)
    if isinstance(s, SStr) and len(s.p) == 1 and isinstance(s.p[0], Tok):
        t = s.p[0]
        if t.kind == 'count':
            return el('cnt:' + t.name, *t.idx, sort='int')
        if t.kind == 'fmt' and is_num(t.data) and not is_float(t.data):
            return t.data
    raise Unsupported('int of a symbolic string')


def sstr_eq(ip, a, b):
    """equality of strings with symbols"""
    pa, pb = list(sstr_pieces(a)), list(sstr_pieces(b))
    if pa == pb:
        return True
    # single character of a token against a literal
    for x, y in ((pa, pb), (pb, pa)):
        if len(x) == 1 and isinstance(x[0], tuple) and x[0][0] == 'ch':
            if len(y) == 1 and isinstance(y[0], str):
                if len(y[0]) != 1 or tok_has(x[0][1], y[0]) is False:
                    return False
                raise Unsupported('character of a symbol')
            if not y:
                return False
    # strip common prefixes / suffixes
    def strip_common(pa, pb):
        while pa and pb:
            x, y = pa[0], pb[0]
            if isinstance(x, str) and isinstance(y, str):
                k = 0
                while k < min(len(x), len(y)) and x[k] == y[k]:
                    k += 1
                if k == 0 or (k < len(x) and k < len(y)):
                    return False
                pa[0], pb[0] = x[k:], y[k:]
                if not pa[0]:
                    pa.pop(0)
                if not pb[0]:
                    pb.pop(0)
            elif not isinstance(x, str) and not isinstance(y, str) and x == y:
                pa.pop(0)
                pb.pop(0)
            else:
                return None
        return True
    r = strip_common(pa, pb)
    if r is False:
        return False
    if not pa and not pb:
        return True
    for x, y in ((pa, pb), (pb, pa)):
        if not x:
            # y must be empty
            if any(isinstance(p, str) or (isinstance(p, Tok) and p.kind in ('angle', 'count')) for p in y):
                return False
        if len(x) == 1 and isinstance(x[0], str) and len(y) >= 1 and isinstance(y[0], Tok):
            t = y[0]
            if t.kind in ('angle', 'count') and not tok_has(t, x[0][0]):
                return False
    raise Unsupported('equality of symbolic strings')


def to_str(ip, v, spec=None):
    if spec is None:
        if isinstance(v, (str, SStr)):
            return v
        if isinstance(v, bool):
            return str(v)
        v2 = num(v) if isinstance(v, Poly) else v
        if isinstance(v2, int):
            return str(v2)
        if isinstance(v2, Fraction):
            return repr(float(v2))
        if v is None:
            return 'None'
    if spec is None and isinstance(v, PyExc) and not getattr(v, 'implicit', False) and len(v.args) <= 1 and getattr(v.cls, '__name__', '') != 'KeyError' and isinstance(v.cls, type):
        return to_str(ip, v.args[0]) if v.args else ''
    if isinstance(v, (Cell, PyExc, type, Ext)) or (isinstance(v, tuple)):
        return SStr([Tok('fmt', 'obj', (), ('objstr', id(v) if not isinstance(v, tuple) else 0, spec))])
    if spec is not None:
        return SStr([Tok('fmt', 'v', (), (v if not isinstance(v, int) or isinstance(v, bool) else P(v), spec))])
    if isinstance(v, (int, Fraction)):
        v = P(v)
    return SStr([Tok('fmt', 'v', (), v)])


def char_pieces(ip, s):
    """for iteration over the characters of a string"""
    return sstr_pieces(s)


# ------------------------------------------------------------------ methods of builtin objects
def attr(ip, o, name):
    from . import arrays
    if isinstance(o, (str, SStr)):
        return str_method(ip, o, name)
    if isinstance(o, ListV):
        return list_method(ip, o, name)
    if isinstance(o, DictV):
        return dict_method(ip, o, name)
    if isinstance(o, SetV):
        if name == 'add':
            def add(ip, a, k):
                ks = {hkey(ip, x) for x in o.c}
                if hkey(ip, a[0]) not in ks:
                    ip.setc(o, o.c + (a[0],))
            return Bound(add)
    if isinstance(o, tuple):
        if name == 'index':
            return Bound(lambda ip, a, k: list_index(ip, ListV((I_(*o),)), a[0]))
        if name == 'count':
            raise Unsupported('tuple.count')
    if isinstance(o, (SeriesV, FrameDF)) or arrays.is_arr(o):
        return arrays.attr(ip, o, name)
    if isinstance(o, StrChoice):
        if name in ('lower', 'casefold'):
            return Bound(lambda ip, a, k: StrChoice(o.name + '.lower()') if o.fold is None else o)
        raise Unsupported('.%s of an unknown string' % name)
    if is_num(o):
        if name in ('real',):
            return o
        if name == 'is_integer':
            return Bound(lambda ip, a, k: is_integer(ip, o))
        if name in ('item', 'conjugate'):
            return Bound(lambda ip, a, k: o)
        if name == 'copy':
            return Bound(lambda ip, a, k: o)
        raise_(AttributeError, name)
    if isinstance(o, PyExc):
        if name == 'args':
            return tuple(o.args)
    if isinstance(o, FuncV) and name in ('__name__', '__doc__'):
        return o.name if name == '__name__' else None
    if isinstance(o, FuncV):
        raise_(AttributeError, name)
    if o is None:
        raise_(AttributeError, name)
    if hasattr(o, 'getattr_'):
        return o.getattr_(ip, name)
    raise Unsupported('attribute %s of %s' % (name, type(o).__name__))


def is_integer(ip, v):
    v = num(v)
    if isinstance(v, Special):
        return False
    if isinstance(v, int):
        return True
    if isinstance(v, Fraction):
        return v.denominator == 1
    if v.is_int():
        return True
    return c_eq(v, apoly(atom('app', ('floor', (v,)), 'int')))


def list_index(ip, o, x):
    it = seq_items(o.c)
    if it is None:
        raise Unsupported('index in a symbolic list')
    for i, y in enumerate(it):
        if ip.decide(elem_eq(ip, y, x)):
            return i
    raise_(ValueError, 'not in list')


def list_remove(ip, o, x):
    def rem(seq):
        seq = list(seq)
        for i, p in enumerate(seq):
            if p[0] == 'C':
                # distribute
                a = rem(tuple(seq[:i]) + tuple(p[2]) + tuple(seq[i + 1:]))
                b = rem(tuple(seq[:i]) + tuple(p[3]) + tuple(seq[i + 1:]))
                return (C_(p[1], a, b),)
            if p[0] == 'I':
                for j, y in enumerate(p[1]):
                    if ip.decide(elem_eq(ip, y, x)):
                        return mkseq(seq[:i] + [I_(*(p[1][:j] + p[1][j + 1:]))] + seq[i + 1:])
            elif p[0] == 'G' and body_len1(p):
                # does any element of the piece equal x?
                v = fresh('q', 'int')
                e = seq_items(subst_seq(p[3], {p[2]: v}))[0]
                c = elem_eq(ip, e, x)
                if c is False or not_feasible(ip, [c_le(0, v), c_lt(v, p[1]), c]):
                    continue
                # peel the first elements
                if ip.decide(c_le(1, p[1])):
                    w = fresh('q', 'int')
                    first = seq_items(subst_seq(p[3], {p[2]: ZERO}))[0]
                    rest = G_(p[1] - 1, next(iter(w.vars())), subst_seq(p[3], {p[2]: w + 1}))
                    ip._peel = getattr(ip, '_peel', 0) + 1
                    if ip._peel > 40:
                        ip._peel = 0
                        raise Unsupported('remove from a symbolic list')
                    r = rem(tuple(seq[:i]) + (I_(first), rest) + tuple(seq[i + 1:]))
                    ip._peel = 0
                    return r
            else:
                raise Unsupported('remove from an unknown list')
        raise_(ValueError, 'not in list')
    return mkseq(rem(o.c))


def not_feasible(ip, conds):
    from .prove import feasible
    return not feasible(ip.pc + [c for c in conds if c is not True])


def list_method(ip, o, name):
    def append(ip, a, k):
        ip.setc(o, mkseq(o.c + (I_(a[0]),)))

    def extend(ip, a, k):
        ip.setc(o, mkseq(o.c + as_seq(ip, a[0])))

    def insert(ip, a, k):
        if cidx(a[0]) == 0:
            ip.setc(o, mkseq((I_(a[1]),) + o.c))
            return
        it = seq_items(o.c)
        if it is None:
            raise Unsupported('insert')
        it = list(it)
        it.insert(cidx(a[0]), a[1])
        ip.setc(o, (I_(*it),))

    def pop(ip, a, k):
        i = cidx(a[0]) if a else -1
        v = getitem(ip, o, i)
        if i == -1:
            ip.setc(o, drop_last(ip, o.c, 1))
        elif i == 0:
            ip.setc(o, drop_first(ip, o.c, ONE))
        else:
            delitem(ip, o, i)
        return v

    def remove(ip, a, k):
        ip.setc(o, list_remove(ip, o, a[0]))

    def reverse(ip, a, k):
        ip.setc(o, seq_rev(as_seq(ip, o)))

    def copy(ip, a, k):
        return ListV(as_seq(ip, o))

    def clear(ip, a, k):
        ip.setc(o, ())

    def sort(ip, a, k):
        if k.get('key') is not None:
            raise Unsupported('sort key')
        ip.setc(o, sort_seq(ip, o.c, truth(ip, k.get('reverse', False))))

    def count(ip, a, k):
        it = seq_items(o.c)
        if it is None:
            raise Unsupported('count')
        r = ZERO
        for y in it:
            r = r + boolpoly(elem_eq(ip, y, a[0]))
        return num(r)
    m = {'append': append, 'extend': extend, 'insert': insert, 'pop': pop, 'remove': remove, 'reverse': reverse,
         'copy': copy, 'clear': clear, 'sort': sort, 'count': count,
         'index': lambda ip, a, k: list_index(ip, o, a[0])}
    if name in m:
        return Bound(m[name])
    raise_(AttributeError, name)


def sort_seq(ip, seq, rev):
    it = seq_items(seq)
    if it is None:
        raise Unsupported('sort of a symbolic list')
    it = list(it)
    # insertion sort with decisions
    out = []
    for x in it:
        pos = len(out)
        for j in range(len(out)):
            c = compare(ip, 'Lt', x, out[j]) if not rev else compare(ip, 'Gt', x, out[j])
            if ip.decide(truth(ip, c)):
                pos = j
                break
        out.insert(pos, x)
    return (I_(*out),) if out else ()


def dict_method(ip, o, name):
    def get(ip, a, k):
        key = hkey(ip, a[0])
        return o.d.get(key, a[1] if len(a) > 1 else k.get('default'))

    def items(ip, a, k):
        return ListV((I_(*[(x, y) for x, y in o.d.items()]),) if o.d else ())

    def keys(ip, a, k):
        return ListV((I_(*o.d.keys()),) if o.d else ())

    def values(ip, a, k):
        return ListV((I_(*o.d.values()),) if o.d else ())

    def update(ip, a, k):
        for src in a:
            for x, y in src.d.items():
                ip.setk(o, x, y)
        for x, y in k.items():
            ip.setk(o, x, y)

    def setdefault(ip, a, k):
        key = hkey(ip, a[0])
        if key not in o.d:
            ip.setk(o, key, a[1] if len(a) > 1 else None)
        return o.d[key]

    def pop(ip, a, k):
        key = hkey(ip, a[0])
        if key in o.d:
            v = o.d[key]
            ip.delk(o, key)
            return v
        if len(a) > 1:
            return a[1]
        raise_(KeyError, key)

    def copy(ip, a, k):
        return DictV(o.d)

    def clear(ip, a, k):
        for key in list(o.d):
            ip.delk(o, key)
    m = {'get': get, 'items': items, 'keys': keys, 'values': values, 'update': update, 'setdefault': setdefault,
         'pop': pop, 'copy': copy, 'clear': clear}
    if name in m:
        return Bound(m[name])
    raise_(AttributeError, name)


def str_method(ip, o, name):
    def find(ip, a, k):
        if isinstance(o, str) and isinstance(a[0], str):
            return o.find(a[0])
        r = str_pos(ip, o, a[0])
        return -1 if r is None else r

    def replace(ip, a, k):
        if not isinstance(a[0], str):
            raise Unsupported('replace of a symbol')
        return str_replace(ip, o, a[0], a[1])

    def split(ip, a, k):
        sep = a[0] if a else k.get('sep')
        if len(a) > 1 or 'maxsplit' in k:
            if isinstance(o, str):
                ms = cidx(a[1] if len(a) > 1 else k['maxsplit'])
                r = o.split(sep, ms)
                return ListV((I_(*r),))
            raise Unsupported('maxsplit')
        s = o
        if isinstance(s, SStr) and sep is not None and any(isinstance(p, tuple) and p[0] == 'G' and piece_may(p, sep[0]) is not False for p in s.p):
            return ListV(split_star(ip, s, sep))
        r = str_split(ip, o, sep)
        return ListV((I_(*r),) if r else ())

    def join(ip, a, k):
        return str_join(ip, o, a[0])

    def lower(ip, a, k):
        if isinstance(o, str):
            return getattr(o, name)()
        return mkstr([getattr(p, name)() if isinstance(p, str) else p if isinstance(p, Tok) and p.kind in ('angle', 'count', 'ws')
                      else _uns('case of a symbol') for p in o.p])

    def startswith(ip, a, k):
        xs = a[0] if isinstance(a[0], tuple) else (a[0],)
        if isinstance(o, str):
            return getattr(o, name)(tuple(xs))
        s = resolve_c(ip, o)
        p = s.p[0] if name == 'startswith' else s.p[-1]
        res = []
        for x in xs:
            if isinstance(p, str) and len(p) >= len(x):
                res.append(getattr(p, name)(x))
            elif isinstance(p, Tok) and p.kind in ('angle', 'count') and x and not tok_has(p, x[0] if name == 'startswith' else x[-1]):
                res.append(False)
            else:
                raise Unsupported('prefix of a symbol')
        return any(res)

    def simple(ip, a, k):
        if isinstance(o, str) and all(isinstance(x, (str, int)) for x in a):
            r = getattr(o, name)(*a)
            return ListV((I_(*r),)) if isinstance(r, list) else r
        raise Unsupported('str.%s on a symbol' % name)

    def count(ip, a, k):
        if isinstance(o, str):
            return o.count(a[0])
        n = 0
        for p in o.p:
            if isinstance(p, str):
                n += p.count(a[0])
            elif any(piece_may(p, ch) is False for ch in a[0]):
                pass
            else:
                raise Unsupported('count in a symbol')
        return n

    def isx(ip, a, k):
        if isinstance(o, str):
            return getattr(o, name)()
        if len(o.p) == 1 and isinstance(o.p[0], Tok) and o.p[0].kind == 'count' and name in ('isdigit', 'isnumeric', 'isdecimal'):
            return True
        if len(o.p) == 1 and isinstance(o.p[0], tuple) and o.p[0][0] == 'ch':
            t = o.p[0][1]
            if name == 'isspace' and t.kind in ('angle', 'count'):
                return False
        raise Unsupported('str.%s' % name)

    def format_(ip, a, k):
        raise Unsupported('str.format')

    def partition(ip, a, k):
        if isinstance(o, str):
            return tuple(getattr(o, name)(a[0]))
        r = str_split(ip, o, a[0])
        if len(r) == 1:
            return (r[0], '', '') if name == 'partition' else ('', '', r[0])
        if len(r) == 2:
            return (r[0], a[0], r[1])
        raise Unsupported('partition')
    m = {'find': find, 'replace': replace, 'split': split, 'join': join, 'lower': lower, 'upper': lower, 'casefold': lower,
         'startswith': startswith, 'endswith': startswith, 'count': count, 'isdigit': isx, 'isspace': isx, 'isnumeric': isx,
         'strip': lambda ip, a, k: str_strip(ip, o, 'both', a[0] if a else None),
         'lstrip': lambda ip, a, k: str_strip(ip, o, 'l', a[0] if a else None),
         'rstrip': lambda ip, a, k: str_strip(ip, o, 'r', a[0] if a else None),
         'partition': partition, 'rpartition': partition, 'format': format_}
    if name in m:
        return Bound(m[name])
    if hasattr(str, name):
        return Bound(simple)
    raise_(AttributeError, name)


def _uns(msg):
    raise Unsupported(msg)


def cond_pieces(p):
    """conditional pieces inside a string"""
    for x in sstr_pieces(p):
        if isinstance(x, tuple) and x[0] == 'C':
            yield x
            yield from cond_pieces(x[2])
            yield from cond_pieces(x[3])
        elif isinstance(x, tuple) and x[0] == 'G':
            yield from cond_pieces(x[3])


def settle(ip, s):
    """conditional pieces whose condition the path settles"""
    out = []
    for x in sstr_pieces(s):
        if isinstance(x, tuple) and x[0] == 'C':
            if ip.entails(x[1]):
                out.extend(sstr_pieces(settle(ip, x[2])))
            elif ip.entails(c_not(x[1])):
                out.extend(sstr_pieces(settle(ip, x[3])))
            else:
                out.append(('C', x[1], SStr([settle(ip, x[2])]), SStr([settle(ip, x[3])])))
        else:
            out.append(x)
    return mkstr(out)


def peel(ip, p):
    """repeated piece whose body has conditions on the iteration: first and last iteration apart, conditions settled"""
    n, v, b = p[1], p[2], p[3]
    at = lambda k: settle(ip, subst_value(b, {v: P(k)}))
    if ip.decide(c_le(n, 0)):
        return []
    if ip.decide(c_eq(n, 1)):
        return list(sstr_pieces(at(0)))
    first, last = at(0), at(n - 1)
    w = fresh('ps', 'int')
    npc = len(ip.pc)
    ip.pc.extend([c for c in (c_le(0, w), c_lt(w, n - 2)) if c is not True])
    try:
        mid = at(w + 1)
    finally:
        del ip.pc[npc:]
    return list(sstr_pieces(first)) + [('G', n - 2, next(iter(w.vars())), SStr([mid]))] + list(sstr_pieces(last))


def split_star(ip, s, sep):
    """split of a string with repeated pieces X Star(Y) Z: only for stars whose body ends or starts with the separator"""
    while True:
        for i, p in enumerate(s.p):
            if isinstance(p, tuple) and p[0] == 'C' and piece_may(p, sep[0]) is not False:
                s = mkstr(s.p[:i] + tuple(sstr_pieces(p[2] if ip.decide(p[1]) else p[3])) + s.p[i + 1:])
                break
            if isinstance(p, tuple) and p[0] == 'G' and any(p[2] in x[1].vars() and piece_may(x, sep[0]) is not False for x in cond_pieces(p[3])) \
                    and not any(q == p for q in getattr(ip, 'peeled', ())):
                r = peel(ip, p)
                if any(isinstance(x, tuple) and x[0] == 'G' and any(x[2] in y[1].vars() and (piece_may(y, sep[0]) is not False) for y in cond_pieces(x[3])) for x in r):
                    raise Unsupported('split of a repeated symbol')
                ip.peeled = [x for x in r if isinstance(x, tuple) and x[0] == 'G']
                s = mkstr(s.p[:i] + tuple(r) + s.p[i + 1:])
                break
        else:
            break
        if isinstance(s, str):
            return (I_(*s.split(sep)),)
    out = []
    cur = []
    ps = list(s.p)
    for i, p in enumerate(ps):
        if isinstance(p, str):
            parts = p.split(sep)
            if cur is None:
                if parts[0]:
                    raise Unsupported('split of a repeated symbol')
                parts = parts[1:]
                cur = []
                if not parts:
                    continue
                cur = [parts[0]]
                parts = parts[1:]
                for x in parts:
                    out.append(I_(mkstr(cur)))
                    cur = [x]
                continue
            cur.append(parts[0])
            for x in parts[1:]:
                out.append(I_(mkstr(cur)))
                cur = [x]
        elif cur is None:
            raise Unsupported('split of a repeated symbol')
        elif isinstance(p, tuple) and p[0] == 'G' and piece_may(p, sep[0]) is not False:
            inner = split_open(p[3], sep)
            if inner is None or len(inner) < 2:
                raise Unsupported('split of a repeated symbol')
            if inner[-1] == '' and not any(x != '' for x in cur):
                out.append(G_(p[1], p[2], (I_(*inner[:-1]),)))
                cur = []
            elif inner[0] == '':
                out.append(I_(mkstr(cur)))
                out.append(G_(p[1], p[2], (I_(*inner[1:]),)))
                cur = None      # complete only when a separator or the end follows
            else:
                raise Unsupported('split of a repeated symbol')
        elif piece_may(p, sep[0]) is False:
            cur.append(p)
        else:
            raise Unsupported('split of a symbol')
    if cur is not None:
        out.append(I_(mkstr(cur)))
    return mkseq(out)


def split_open(s, sep):
    """split of a loop body; conditional pieces must not contain the separator"""
    out = [[]]
    for p in sstr_pieces(s):
        if isinstance(p, str):
            parts = p.split(sep)
            out[-1].append(parts[0])
            for x in parts[1:]:
                out.append([x])
        elif piece_may(p, sep[0]) is False:
            out[-1].append(p)
        else:
            return None
    return [mkstr(x) for x in out]


def str_join(ip, sep, v):
    seq = as_seq(ip, v)
    items = seq_items(seq)
    if items is not None:
        return mkstr(_interleave(items, sep))
    if sep == '':
        return mkstr([spiece_of(p) for p in seq])
    # general: first element special; put the separator before every element, then drop the first one
    out = []
    for p in seq:
        if p[0] == 'I':
            for x in p[1]:
                out.extend([sep, x])
        elif p[0] == 'G':
            it = seq_items(p[3])
            if it is None:
                raise Unsupported('join')
            if not out:
                if not ip.decide(c_le(1, p[1])):
                    continue
                for x in seq_items(subst_seq(p[3], {p[2]: ZERO})):
                    out.extend([sep, x])
                w = fresh('j', 'int')
                body = []
                for x in seq_items(subst_seq(p[3], {p[2]: w + 1})):
                    body.extend([sep, x])
                out.append(('G', p[1] - 1, next(iter(w.vars())), SStr(body)))
            else:
                body = []
                for x in it:
                    body.extend([sep, x])
                out.append(('G', p[1], p[2], SStr(body)))
        else:
            raise Unsupported('join')
    return mkstr(out[1:]) if out else ''


def spiece_of(p):
    if p[0] == 'I':
        return SStr(list(p[1]))
    if p[0] == 'G':
        return SStr([('G', p[1], p[2], SStr([spiece_of(q) for q in p[3]]))])
    raise Unsupported('join')
