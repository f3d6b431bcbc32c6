"""Symbolic values and heap cells of the interpreter."""
import itertools
from fractions import Fraction
from .terms import *
from . import terms as T


class Unsupported(Exception):
    """construct outside the verified subset: the obligation stays undecided"""


class PyExc:
    def __init__(self, cls, args=()):
        self.cls = cls
        self.args = args

    def __repr__(self):
        return '%s%r' % (getattr(self.cls, '__name__', self.cls), self.args)


class Raise(Exception):
    def __init__(self, exc):
        self.exc = exc


class Special:
    """inf / nan as distinguished float values"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


INF, NINF, NAN = Special('inf'), Special('-inf'), Special('nan')


class AnyV:
    """an arbitrary Python value, used for validator arguments (float() decides what it is)"""

    def __init__(self, name):
        self.name = name


_serial = itertools.count(1)


class Cell:
    def __init__(self):
        self.serial = next(_serial)
        self.origin = None
        self.twin = None        # owners of other copies of this object (see interp.no_twin)


class ListV(Cell):
    def __init__(self, seq=()):
        super().__init__()
        self.c = seq

    def __repr__(self):
        return 'ListV%s' % (self.c,)


class DictV(Cell):
    def __init__(self, d=None):
        super().__init__()
        self.d = dict(d or {})


class SetV(Cell):
    def __init__(self, items=()):
        super().__init__()
        self.c = tuple(items)


class ObjV(Cell):
    def __init__(self, cls, d=None):
        super().__init__()
        self.cls = cls
        self.d = dict(d or {})

    def __repr__(self):
        return '<%s obj>' % (self.cls.name,)


class ArrV(Cell):
    """numpy array of concrete shape; entries are Poly / Cond / Special / nested"""

    def __init__(self, shape, flat, base=None, imap=None):
        super().__init__()
        self.shape = tuple(shape)
        self.base = base
        self.imap = imap
        self.c = tuple(flat) if base is None else None

    @property
    def flat(self):
        if self.base is None:
            return self.c
        f = self.base.flat
        return tuple(f[i] for i in self.imap)

    @property
    def root(self):
        b = self
        while b.base is not None:
            b = b.base
        return b

    def rootmap(self):
        """indices of my entries in the root's flat content"""
        if self.base is None:
            return list(range(len(self.c)))
        up = self.base.rootmap()
        return [up[i] for i in self.imap]

    def __repr__(self):
        return 'ArrV%s%s' % (self.shape, self.flat)


class SymArr(Cell):
    """array with symbolic dimensions: c = (index variable names, body)"""

    def __init__(self, shape, vs, body):
        super().__init__()
        self.shape = tuple(P(s) for s in shape)
        self.c = (tuple(vs), body)

    def at(self, *idx):
        vs, body = self.c
        return subst_value(body, dict(zip(vs, [P(i) for i in idx])))


class BlockArr(Cell):
    """block matrix: rows of blocks (SymArr)"""

    def __init__(self, rows):
        super().__init__()
        self.rows = rows

    @property
    def shape(self):
        r = ZERO
        for row in self.rows:
            r = r + row[0].shape[0]
        c = ZERO
        for b in self.rows[0]:
            c = c + b.shape[1]
        return (r, c)


class OpqArr(Cell):
    """array known only by name (contract results, eigenvectors)"""

    def __init__(self, name, shape):
        super().__init__()
        self.name = name
        self.shape = tuple(shape)


class FrameDF(Cell):
    def __init__(self, cols=None):
        super().__init__()
        self.d = dict(cols or {})     # name -> Seq


class SeriesV:
    def __init__(self, seq):
        self.seq = seq


class CaseV:
    """value given by disjoint exhaustive cases: [(Cond, Poly | Special)]"""

    def __init__(self, cases):
        self.cases = tuple(cases)

    def __repr__(self):
        return 'Case%s' % (self.cases,)


class SubDF:
    def __init__(self, cols):
        self.cols = cols      # list of (name, Seq)


class Frozen:
    """immutable template of a heap cell inside a generated sequence"""
    __slots__ = ('kind', 'data', 'extra', 'twin')

    def __init__(self, kind, data, extra=None, twin=None):
        self.kind, self.data, self.extra = kind, data, extra
        self.twin = twin        # cells that hold another copy of the same object, or None

    def __repr__(self):
        return 'Frozen(%s,%r)' % (self.kind, self.data)


class FuncV:
    def __init__(self, node, module, name, closure=None, cls=None, defaults=(), kwdefaults=None, deco=()):
        self.node, self.module, self.name = node, module, name
        self.closure, self.cls = closure, cls
        self.defaults, self.kwdefaults = defaults, kwdefaults or {}
        self.deco = deco

    @property
    def qual(self):
        q = self.name if self.cls is None else self.cls.name + '.' + self.name
        return self.module.name + ':' + q


class BoundM:
    def __init__(self, self_, func):
        self.self_, self.func = self_, func


class PropV:
    def __init__(self, fget, fset=None, cached=False):
        self.fget, self.fset, self.cached = fget, fset, cached


class StaticV:
    def __init__(self, f):
        self.f = f


class ClassMV:
    def __init__(self, f):
        self.f = f


class ClassV(Cell):
    def __init__(self, name, bases, module):
        super().__init__()
        self.name, self.bases, self.module = name, bases, module
        self.d = {}

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassV):
                for x in b.mro():
                    if x not in out:
                        out.append(x)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.d:
                return c.d[name]
        return None

    def issub(self, other):
        return other in self.mro()

    def __repr__(self):
        return '<class %s>' % self.name


class SuperV:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Ext:
    """attribute of an external module, e.g. numpy.linalg.inv"""
    _all = {}

    def __new__(cls, path):
        e = cls._all.get(path)
        if e is None:
            e = object.__new__(cls)
            e.path = path
            cls._all[path] = e
        return e

    def __repr__(self):
        return '<ext %s>' % self.path


class ModV:
    def __init__(self, mod):
        self.mod = mod


class IterV(Cell):
    """itertools.count and similar opaque iterators"""

    def __init__(self, kind, data=None):
        super().__init__()
        self.kind, self.data = kind, data


class RangeV:
    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s


class LazyIter:
    """zip / enumerate / product / map / reversed over sources"""

    def __init__(self, kind, srcs, extra=None):
        self.kind, self.srcs, self.extra = kind, srcs, extra


class SliceV:
    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s


# ------------------------------------------------------------------ strings
class Tok:
    """an unknown substring. kind decides the characters it may contain and whether it may be empty:
    angle  - nonempty text of a number, accepted by float(), value el('ang', idx)
    count  - nonempty digits, int() value el('cnt', idx)
    ws     - possibly empty run of blanks
    fmt    - str()/format of a value (data = value)"""
    __slots__ = ('kind', 'name', 'idx', 'data')

    def __init__(self, kind, name, idx=(), data=None):
        self.kind, self.name, self.idx, self.data = kind, name, tuple(idx), data

    def key(self):
        return (self.kind, self.name, self.idx, vkey(self.data) if self.data is not None else None)

    def __eq__(self, o):
        return isinstance(o, Tok) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        if self.kind == 'fmt':
            return '{%s}' % (self.data,)
        return '<%s%s>' % (self.name, list(self.idx) if self.idx else '')


TOK_CHARS = {'angle': set('0123456789.+-eE'), 'count': set('0123456789'), 'ws': set(' \t')}


class SStr:
    """piecewise symbolic string: str | Tok | ('G', count, var, SStr) | ('C', cond, SStr, SStr) | ('O', name)"""
    __slots__ = ('p',)

    def __init__(self, pieces=()):
        out = []
        for x in pieces:
            if isinstance(x, SStr):
                xs = x.p
            else:
                xs = (x,)
            for y in xs:
                if y == '':
                    continue
                if isinstance(y, str) and out and isinstance(out[-1], str):
                    out[-1] = out[-1] + y
                else:
                    out.append(y)
        self.p = tuple(out)

    def __repr__(self):
        return 'SStr%r' % (self.p,)


def mkstr(pieces):
    s = SStr(pieces)
    if not s.p:
        return ''
    if len(s.p) == 1 and isinstance(s.p[0], str):
        return s.p[0]
    return s


def sstr_pieces(s):
    if isinstance(s, str):
        return (s,) if s else ()
    return s.p


# ------------------------------------------------------------------ substitution in values
def subst_value(v, env):
    if isinstance(v, Poly):
        return T.subst(v, env)
    if isinstance(v, Cond):
        return T.subst_cond(v, env)
    if isinstance(v, (str, bool, int, Fraction, type(None), Special)):
        return v
    if isinstance(v, tuple):
        if v and v[0] in ('I', 'G', 'C', 'O', 'R') and isinstance(v[0], str) and len(v) > 1 and _is_piece(v):
            return subst_piece(v, env)
        return tuple(subst_value(x, env) for x in v)
    if isinstance(v, SStr):
        return mkstr([subst_spiece(x, env) for x in v.p])
    if isinstance(v, Frozen):
        return Frozen(v.kind, subst_value(v.data, env), v.extra, v.twin)
    if isinstance(v, SeriesV):
        return SeriesV(subst_seq(v.seq, env))
    if isinstance(v, CaseV):
        cs = [(T.subst_cond(c, env) if isinstance(c, Cond) else c, subst_value(x, env)) for c, x in v.cases]
        cs = [(c, x) for c, x in cs if c is not False]
        return cs[0][1] if len(cs) == 1 else CaseV(cs)
    if isinstance(v, dict):
        return {k: subst_value(x, env) for k, x in v.items()}
    return v


class Piece(tuple):
    """marker type for sequence pieces"""
    __slots__ = ()


def _is_piece(v):
    return isinstance(v, Piece)


def subst_spiece(x, env):
    if isinstance(x, str):
        return x
    if isinstance(x, Tok):
        return Tok(x.kind, x.name, [T.subst(i, env) for i in x.idx], subst_value(x.data, env))
    if x[0] == 'G':
        return ('G', T.subst(x[1], env), x[2], subst_value(x[3], env))
    if x[0] == 'C':
        c = T.subst_cond(x[1], env)
        a, b = subst_value(x[2], env), subst_value(x[3], env)
        if c is True:
            return a
        if c is False:
            return b
        return ('C', c, a, b)
    return x


def subst_piece(p, env):
    k = p[0]
    if k == 'I':
        return I_(*[subst_value(x, env) for x in p[1]])
    if k == 'G':
        return Piece(('G', T.subst(p[1], env), p[2], subst_seq(p[3], env)))
    if k == 'C':
        return Piece(('C', T.subst_cond(p[1], env), subst_seq(p[2], env), subst_seq(p[3], env)))
    if k == 'O':
        return Piece(('O', p[1], T.subst(p[2], env)))
    raise ValueError(p)


def subst_seq(seq, env):
    return mkseq([subst_piece(p, env) for p in seq])


def I_(*vals):
    return Piece(('I', tuple(vals)))


def G_(count, v, body):
    """concatenation over v<count of the sequence body"""
    return Piece(('G', P(count), v, body))


def gen1(count, fn, hint='g'):
    """sequence [fn(k) for k in range(count)]"""
    v = fresh(hint, 'int')
    (nm,) = v.vars()
    return mkseq([G_(count, nm, (I_(fn(v)),))])


def C_(cond, a, b):
    return Piece(('C', cond, a, b))


def mkseq(pieces):
    """normalise a list of pieces"""
    out = []
    for p in pieces:
        if p[0] == 'C':
            if p[1] is True:
                out.extend(p[2])
                continue
            if p[1] is False:
                out.extend(p[3])
                continue
        if p[0] == 'I':
            if not p[1]:
                continue
            if out and out[-1][0] == 'I':
                out[-1] = I_(*(out[-1][1] + p[1]))
                continue
        if p[0] == 'G':
            k = p[1].const()
            if k is not None and k <= 64:
                for j in range(int(k)):
                    for q in subst_seq(p[3], {p[2]: P(j)}):
                        if q[0] == 'I' and out and out[-1][0] == 'I':
                            out[-1] = I_(*(out[-1][1] + q[1]))
                        else:
                            out.append(q)
                continue
            if not p[3]:
                continue
        out.append(p)
    return tuple(out)


def seq_len(seq):
    r = ZERO
    for p in seq:
        if p[0] == 'I':
            r = r + len(p[1])
        elif p[0] == 'G':
            b = seq_len(p[3])
            r = r + mk_sum(p[1], p[2], b) if p[2] in b.vars() else r + p[1] * b
        elif p[0] == 'C':
            r = r + ite(p[1], seq_len(p[2]), seq_len(p[3]))
        elif p[0] == 'O':
            r = r + p[2]
    return r


def seq_items(seq):
    """python list of values when the sequence is concrete, else None"""
    out = []
    for p in seq:
        if p[0] != 'I':
            return None
        out.extend(p[1])
    return out


def seq_rev(seq):
    out = []
    for p in reversed(seq):
        if p[0] == 'I':
            out.append(I_(*reversed(p[1])))
        elif p[0] == 'G':
            nv = fresh('r', 'int')
            (nn,) = nv.vars()
            body = subst_seq(p[3], {p[2]: p[1] - 1 - nv})
            out.append(G_(p[1], nn, seq_rev(body)))
        elif p[0] == 'C':
            out.append(C_(p[1], seq_rev(p[2]), seq_rev(p[3])))
        else:
            raise Unsupported('reverse of an unknown sequence')
    return mkseq(out)


def map_seq(seq, f):
    """apply f to every element value"""
    out = []
    for p in seq:
        if p[0] == 'I':
            out.append(I_(*[f(x) for x in p[1]]))
        elif p[0] == 'G':
            nv = fresh('m', 'int')
            (nn,) = nv.vars()
            out.append(G_(p[1], nn, map_seq(subst_seq(p[3], {p[2]: nv}), f)))
        elif p[0] == 'C':
            out.append(C_(p[1], map_seq(p[2], f), map_seq(p[3], f)))
        else:
            raise Unsupported('map over an unknown sequence')
    return mkseq(out)


def zip_seqs(seqs, f):
    """elementwise f over sequences of the same piece structure"""
    if len(seqs) == 1:
        return map_seq(seqs[0], lambda x: f(x))
    n = len(seqs[0])
    if any(len(s) != n for s in seqs):
        raise Unsupported('elementwise operation on sequences of different structure')
    out = []
    for ps in zip(*seqs):
        k = ps[0][0]
        if any(p[0] != k for p in ps):
            raise Unsupported('elementwise operation on sequences of different structure')
        if k == 'I':
            if len({len(p[1]) for p in ps}) != 1:
                raise Unsupported('elementwise operation on sequences of different length')
            out.append(I_(*[f(*xs) for xs in zip(*[p[1] for p in ps])]))
        elif k == 'G':
            if any(not is_zero(p[1] - ps[0][1]) for p in ps):
                raise Unsupported('elementwise operation on sequences of different length')
            nv = fresh('z', 'int')
            (nn,) = nv.vars()
            out.append(G_(ps[0][1], nn, zip_seqs([subst_seq(p[3], {p[2]: nv}) for p in ps], f)))
        else:
            raise Unsupported('elementwise operation on unknown sequences')
    return mkseq(out)


# ------------------------------------------------------------------ keys (structural identity)
def glevel(v):
    """nesting depth of generated pieces"""
    if isinstance(v, Piece):
        if v[0] == 'G':
            return 1 + glevel(tuple(v[3]))
        return max([glevel(x) for x in v[1:] if isinstance(x, tuple)] or [0])
    if isinstance(v, tuple):
        return max([glevel(x) for x in v] or [0])
    if isinstance(v, Frozen):
        return glevel(v.data)
    if isinstance(v, dict):
        return max([glevel(x) for x in v.values()] or [0])
    return 0


def vkey(v):
    if isinstance(v, Poly):
        return ('p', v.key())
    if isinstance(v, (int, Fraction)) and not isinstance(v, bool):
        return ('p', P(v).key())
    if isinstance(v, Cond):
        return ('c', v)
    if isinstance(v, (str, bool, type(None))):
        return ('k', v)
    if isinstance(v, Piece) and v[0] == 'G':
        nm = '@%d' % (glevel(v[3]) + 1)
        return ('pc', 'G', vkey(v[1]), nm, vkey(subst_value(tuple(v[3]), {v[2]: T.var(nm, 'int')})))
    if isinstance(v, Piece):
        return ('pc', v[0]) + tuple(vkey(x) if not isinstance(x, str) else x for x in v[1:])
    if isinstance(v, tuple):
        return ('t',) + tuple(vkey(x) for x in v)
    if isinstance(v, Frozen):
        return ('f', v.kind, vkey(v.data), id(v.extra))
    if isinstance(v, SStr):
        return ('s',) + tuple(x if isinstance(x, (str, Tok)) else vkey(tuple(y for y in x)) for x in v.p)
    if isinstance(v, ArrV):
        return ('a', v.shape, tuple(vkey(x) for x in v.flat))
    if isinstance(v, ListV):
        return ('l', vkey(v.c))
    if isinstance(v, CaseV):
        return ('case',) + tuple((vkey(c), vkey(x)) for c, x in v.cases)
    if isinstance(v, SeriesV):
        return ('ser', vkey(tuple(v.seq)))
    if isinstance(v, dict):
        return ('d',) + tuple((k, vkey(x)) for k, x in v.items())
    return ('id', id(v))


def free_vars(v):
    if isinstance(v, (Poly, Cond)):
        return set(v.vars())
    if isinstance(v, Piece):
        if v[0] == 'G':
            return free_vars(v[1]) | (free_vars(v[3]) - {v[2]})
        s = set()
        for x in v[1:]:
            s |= free_vars(x) if not isinstance(x, str) else set()
        if v[0] == 'O':
            s.add(v[1])
        return s
    if isinstance(v, (tuple, list)):
        s = set()
        for x in v:
            s |= free_vars(x)
        return s
    if isinstance(v, Frozen):
        return free_vars(v.data)
    if isinstance(v, CaseV):
        return free_vars(tuple(v.cases))
    if isinstance(v, SStr):
        s = set()
        for x in v.p:
            if isinstance(x, Tok):
                s |= free_vars(x.idx) | (free_vars(x.data) if x.data is not None else set())
            elif isinstance(x, tuple):
                if x[0] == 'G':
                    s |= free_vars(x[1]) | (free_vars(x[3]) - {x[2]})
                elif x[0] == 'C':
                    s |= free_vars(x[1]) | free_vars(x[2]) | free_vars(x[3])
                elif x[0] == 'O':
                    s.add(x[1])
        return s
    if isinstance(v, dict):
        s = set()
        for x in v.values():
            s |= free_vars(x)
        return s
    if isinstance(v, SeriesV):
        return free_vars(v.seq)
    if isinstance(v, ArrV):
        return free_vars(v.flat)
    if isinstance(v, ListV):
        return free_vars(v.c)
    if isinstance(v, SymArr):
        return (free_vars(v.shape) | free_vars(v.c[1])) - set(v.c[0])
    return set()
