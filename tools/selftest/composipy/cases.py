"""Small programs for the differential test of the engine. KIND gives the arguments: r real, i int, n int >= 0, p int >= 1,
L list of reals of length n (an earlier n or p argument; else of its own length >= 0), A the same as numpy array, q positive real, t angle text is not used here."""
import math
import copy
import itertools
import functools
from itertools import product
import numpy as np

KIND = {}


def case(kind):
    def d(f):
        KIND[f.__name__] = kind
        return f
    return d


@case('rr')
def c_abs_cmp(x, y):
    if x < y <= 1:
        return 'a', abs(x - y)
    elif not x > y or y == 0:
        return 'b', x * y
    return 'c', -x


@case('L')
def c_sum_sq(x):
    s = 0
    for v in x:
        s += v * v
    return s


@case('L')
def c_prefix(x):
    s, out = 0, [0]
    for v in x:
        s += v
        out.append(s)
    return out


@case('L')
def c_prefix_centered(x):
    tot = sum(x)
    z = [-tot / 2]
    for v in x:
        z.append(z[-1] + v)
    return z, z[-1], len(z)


@case('L')
def c_alias(x):
    a = x
    b = list(x)
    a.append(1.5)
    b.insert(0, 2.5)
    return x, a is x, b, len(x) - len(b)


@case('L')
def c_reverse(x):
    y = x[::-1]
    x.reverse()
    return y == x, x + y, list(reversed(y))


@case('L')
def c_filter(x):
    return [v for v in x if v > 0], len([v for v in x if v > 0])


@case('p')
def c_indices(n):
    r = list(range(n))
    del r[0]
    r.insert(0, -1)
    return r, r[-1], r[0]


@case('p')
def c_remove(n):
    r = list(range(n + 4))
    r.remove(1)
    r.remove(3)
    return r[:n]


@case('nn')
def c_product(m, n):
    return list(product(range(m), range(n)))


@case('nn')
def c_nested(m, n):
    out = []
    for i in range(m):
        for j in range(n):
            out.append(i * 10 + j)
    return out


@case('n')
def c_while(n):
    i, s = 0, 0
    while i < n:
        s += i * i
        i += 1
    return s, i


@case('n')
def c_double(n):
    s = 1
    for i in range(n):
        s = 2 * s + 1
    return s


@case('n')
def c_alternate(n):
    s, out = 1, []
    for _ in range(n):
        out.append(s)
        s = -s
    return out


@case('L')
def c_last(x):
    last = None
    for v in x:
        last = v
    return last


@case('L')
def c_max(x):
    m = 0
    for v in x:
        if v > m:
            m = v
    return m


@case('LL')
def c_zip(x, y):
    return [a * b for a, b in zip(x, y)]


@case('nLL')
def c_zip_n(n, x, y):
    s = 0
    for i, (a, b) in enumerate(zip(x, y)):
        s += (i + 1) * a * b
    return s


@case('i')
def c_divmod(i):
    return i // 3, i % 3, -i // 2, (-i) % 5, i // -3, i % -4, divmod(i, 7)


@case('rr')
def c_minmax(x, y):
    return min(x, y), max(x, y, 0), sorted([x, y, 0.5]), sum([x, y], 1)


@case('r')
def c_try(x):
    log = []
    try:
        log.append(1)
        if x > 0:
            raise ValueError('positive')
        y = 1 / 0 if x < -1 else x
        log.append(2)
    except ValueError as e:
        log.append(str(e))
        y = 3
    except ZeroDivisionError:
        log.append('z')
        y = 4
    else:
        log.append('else')
    finally:
        log.append('fin')
    return y, log


@case('r')
def c_finally_return(x):
    log = []

    def f():
        try:
            if x > 0:
                return 1
            log.append('n')
        finally:
            log.append('f')
        return 2
    return f(), log


@case('r')
def c_raise(x):
    if x > 0:
        raise KeyError('k')
    if x < -1:
        return [1, 2][5]
    return {'a': 1}['a']


@case('L')
def c_for_else(x):
    for v in x:
        if v > 1:
            break
    else:
        return 'none'
    return v


@case('rr')
def c_defaults(x, y):
    def f(a, b=[], *args, k=2, **kw):
        b.append(a)
        return b, args, k, sorted(kw)
    r = f(x)
    s = f(y)
    t = f(1, [2], 3, 4, k=5, z=6)
    return r, s, t


@case('rr')
def c_closure(x, y):
    fs = []
    for c in (1, 2, 3):
        fs.append(lambda v: v * c)
    gs = [lambda v, c=c: v * c for c in (1, 2, 3)]
    n = 0

    def inc():
        nonlocal n
        n += 1
        return n
    return [f(x) for f in fs], [g(y) for g in gs], inc(), inc(), n


class Base:
    kind = 'base'
    shared = []

    def __init__(self, a):
        self.a = a
        self._c = None

    @property
    def twice(self):
        if self._c is None:
            self._c = 2 * self.a
        return self._c

    @classmethod
    def make(cls, a):
        return cls(a + 1)

    @staticmethod
    def neg(a):
        return -a

    def who(self):
        return 'B' + self.kind

    def __eq__(self, o):
        if not isinstance(o, Base):
            return NotImplemented
        return self.a == o.a

    def __add__(self, o):
        return Base(self.a + o.a)

    def __len__(self):
        return 3

    def __getitem__(self, i):
        return self.a * i


class Derived(Base):
    kind = 'derived'

    def __init__(self, a, b):
        super().__init__(a)
        self.b = b

    @property
    def twice(self):
        return super().twice + self.b

    def who(self):
        return 'D' + super().who()


@case('rr')
def c_classes(x, y):
    o = Derived(x, y)
    t1 = o.twice
    o.a = 5
    t2 = o.twice
    p = Base.make(x)
    return t1, t2, o.who(), p.a, Base.neg(y), isinstance(o, Base), type(o) is Base, p == Base(x + 1), p != o, (p + o).a, len(o), o[2]


@case('rr')
def c_dict(x, y):
    d = {'a': x, 'b': y}
    e = d
    f = dict(d)
    f['a'] = 0
    e['c'] = 1
    out = [k for k in d]
    return d, f, out, list(d.values()), list(d.items()), d.get('z', 7), 'a' in d, d.pop('a'), len(d), {k: v + 1 for k, v in f.items()}


@case('r')
def c_strings(x):
    s = 'Ab/cD'
    return s.lower(), s.upper(), s.split('/'), '-'.join(['a', 'b']), s[1:-1], s.replace('b', 'x'), s.startswith('A'), 'c' in s, s.find('c'), \
        f'{s}!', '%s-%d' % (s, 3), s * 2, s[::-1], ' a '.strip(), 'a,b,,c'.split(','), s.endswith(('D', 'x')), '{}-{}'.format(1, 'b'), s.isalpha(), '12'.isdigit()


@case('rr')
def c_unpack(x, y):
    a, *b = [x, y, 3]
    (c, d), e = (x, y), 4
    a, c = c, a
    f = g = [x]
    g.append(y)
    *h, k = 'xyz'
    return a, b, c, d, e, f, h, k


@case('rr')
def c_truthy(x, y):
    return x and y, x or y, not x, [] or 'e', 'a' if [] else 'b', None is None, bool([0]), x == y == 0


@case('rrr')
def c_np_views(x, y, z):
    a = np.array([[x, y], [z, 1.0]])
    b = a[0]
    b[0] = 7
    c = a.T
    c[0, 1] = 8
    d = a.copy()
    d[1, 1] = 9
    e = a[:, 1]
    e += 1
    f = a.reshape(4)
    f[3] = -1
    g = a.flatten()
    g[0] = 100
    return a.tolist(), d.tolist(), e.tolist(), f.tolist()


@case('rrr')
def c_np_ops(x, y, z):
    a = np.array([[x, y], [z, 1.0]])
    b = np.array([[1.0, 2], [3, 4]])
    v = np.array([x, y])
    return ((a @ b).tolist(), (a * b).tolist(), (a @ v).tolist(), (v @ a).tolist(), a.dot(v).tolist(), (a + v).tolist(), (a.T - 1).tolist(),
            a.sum(), a.sum(axis=0).tolist(), a.sum(axis=1).tolist(), np.trace(a), np.outer(v, v).tolist(), (a ** 2).tolist(), (v * v[:, None]).tolist(),
            np.dot(v, v), (-a).tolist(), (2 / b).tolist(), b.shape, a.size, a.ndim, len(a))


@case('rrr')
def c_np_build(x, y, z):
    a = np.zeros((2, 3))
    a[0, :] = [x, y, z]
    a[1] = 2
    a[:, 2] *= 3
    e = np.eye(2)
    e[0, 1] = x
    d = np.diag([x, y])
    o = np.ones(2)
    return (a.tolist(), e.tolist(), d.tolist(), np.diag(np.array([[x, y], [z, 1]])).tolist(), np.vstack([a, a]).tolist(), np.hstack([e, d]).tolist(), o.tolist(),
            np.concatenate([e, d]).tolist(), np.block([[e, d], [d, e]]).tolist(), np.array([x, y])[::-1].tolist(), np.full((2, 2), y).tolist(),
            np.zeros_like(e).tolist(), np.arange(4).tolist(), np.linspace(0, 1, 5).tolist(), np.asarray([x, y]).tolist())


@case('rrr')
def c_np_einsum(x, y, z):
    a = np.array([[x, y], [z, 1.0]])
    b = np.array([[1.0, 2], [3, 4]])
    return np.einsum('ij,jk->ik', a, b).tolist(), np.einsum('ij,ij', a, b), np.einsum('ij->ji', a).tolist(), np.einsum('i,j->ij', a[0], b[1]).tolist(), np.einsum('ii', a)


@case('rrr')
def c_np_inplace_alias(x, y, z):
    a = np.array([x, y, z])
    b = a
    b = b * 2
    c = a
    c *= 2
    d = a[1:]
    d -= 1
    lst = [a, a.copy()]
    lst[0][0] = 5
    return a.tolist(), b.tolist(), c is a, lst[1].tolist()


@case('rrr')
def c_np_where(x, y, z):
    a = np.array([x, y, z])
    return np.where(a > 0, a, 0).tolist(), np.abs(a).tolist(), np.maximum(a, 0).tolist(), np.max(a), np.min(a), (a > 0).tolist(), np.any(a > 1), np.all(a < 2), np.allclose(a, a)


@case('q')
def c_trig(x):
    c, s = math.cos(x), math.sin(x)
    return c * c + s * s, np.cos(2 * x), np.sin(np.pi / 2 + x), np.sqrt(x) ** 2, math.sqrt(x), math.cos(math.radians(30 * x)), np.deg2rad(x), math.pi, math.cos(math.radians(60))


@case('L')
def c_np_sym(x):
    a = np.array(x)
    return (a * 2).tolist(), a.sum(), len(a), (a + 1).sum()


@case('pLL')
def c_np_sym2(n, x, y):
    a, b = np.array(x), np.array(y)
    return (a * b).sum(), np.dot(a, b), (a[1:] - a[:-1]).tolist(), a[0], a[-1]


@case('pL')
def c_fill(n, x):
    k = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            k[i, j] = x[i] * x[j] + i - j
    return k.tolist()


@case('pL')
def c_fill_upper(n, x):
    k = np.zeros((n, n))
    for i in range(n):
        for j in range(i, n):
            k[i, j] = x[i] * x[j] + i
            k[j, i] = k[i, j]
    return k.tolist()


@case('pL')
def c_fill_counter(n, x):
    k = np.zeros(n * n)
    c = 0
    for i in range(n):
        for j in range(n):
            k[c] = x[i] + 2 * x[j]
            c += 1
    return k.tolist(), c


@case('pL')
def c_fill_divmod(n, x):
    out = []
    for c in range(n * n):
        i, j = divmod(c, n)
        out.append(x[i] - x[j])
    return out


@case('pL')
def c_backwards(n, x):
    out = []
    for i in range(n - 1, -1, -1):
        out.append(x[i])
    s = 0
    for i in range(1, n, 2):
        s += x[i]
    return out, s


@case('pL')
def c_prev(n, x):
    p = x[0]
    out = []
    for v in x[1:]:
        out.append(v - p)
        p = v
    return out, p


@case('pL')
def c_break(n, x):
    out = []
    for v in x:
        if v < 0:
            break
        out.append(v)
    return len(out)


@case('pL')
def c_continue(n, x):
    s = 0
    for i, v in enumerate(x):
        if i == 0:
            continue
        s += v
    return s


@case('pL')
def c_dict_fill(n, x):
    d = {}
    for i in range(n):
        d[i] = x[i] * 2
    return [d[i] for i in range(n)], d[0], d[n - 1], len(d)


@case('pL')
def c_list_set(n, x):
    y = [0] * n
    for i in range(n):
        y[i] = x[n - 1 - i]
    y[0] += 1
    return y


@case('pL')
def c_extend(n, x):
    out = []
    for v in x:
        out.extend([v, -v])
        out += [0]
    return out, out[3], len(out)


@case('pL')
def c_insert_front(n, x):
    out = []
    for v in x:
        out.insert(0, v)
    return out


@case('pL')
def c_nested_lists(n, x):
    rows = [[v, i] for i, v in enumerate(x)]
    rows[0].append(9)
    flat = [a for r in rows for a in r]
    return rows, flat, rows[-1][1]


@case('pL')
def c_shared_row(n, x):
    row = [0, 0]
    rows = [row for _ in range(3)]
    rows[0][1] = x[0]
    return rows


@case('pL')
def c_tuple_keys(n, x):
    d = {}
    for i in range(3):
        for j in range(2):
            d[i, j] = x[0] * i + j
    return [d[k] for k in sorted(d)], (2, 1) in d, d[(1, 1)]


@case('pL')
def c_generator(n, x):
    def g():
        for v in x:
            yield v
            yield 2 * v
    return list(g()), sum(v * v for v in x), any(v > 1 for v in x), all(v < 1.5 for v in x)


@case('pL')
def c_copy(n, x):
    a = [x, x]
    b = copy.copy(a)
    c = copy.deepcopy(a)
    x.append(1)
    return len(a[0]) - n, len(b[1]) - n, len(c[0]) - n, c[0] is c[1], b[0] is x


@case('pL')
def c_slices(n, x):
    return x[:1], x[-1:], x[1:], x[:-1], x[0:n], x[n:], x[::1], x[-1]


@case('pL')
def c_slice_assign(n, x):
    x[0:1] = [1, 2]
    x[-1:] = []
    return x


@case('pL')
def c_pop(n, x):
    a = x.pop()
    x.append(a)
    b = x.pop(0)
    return a, b, x


@case('pL')
def c_count_pos(n, x):
    k = 0
    for v in x:
        if v > 0:
            k += 1
    return k


@case('pL')
def c_two_acc(n, x):
    s = t = 0
    for v in x:
        s, t = s + v, t + s
    return s, t


@case('pL')
def c_fib_like(n, x):
    a, b = 0, 1
    for v in x:
        a, b = b, a + v
    return a, b


@case('pL')
def c_moment(n, x):
    z = [0]
    for t in x:
        z.append(z[-1] + t)
    h = z[-1] / 2
    z = [v - h for v in z]
    return sum((z[k + 1] ** 3 - z[k] ** 3) for k in range(n)), sum(z[k + 1] ** 2 - z[k] ** 2 for k in range(n)), z


@case('pL')
def c_matrix_acc(n, x):
    A = np.zeros((2, 2))
    for k, v in enumerate(x):
        A = A + np.array([[v, 1], [k, v * v]])
    B = np.zeros((2, 2))
    for v in x:
        B += np.array([[v, 1], [2, v * v]])
    return A.tolist(), B.tolist()


@case('pL')
def c_list_of_mats(n, x):
    ms = []
    for v in x:
        m = np.zeros((2, 2))
        m[0, 0] = v
        m[1, 0] = m[0, 0] + 1
        ms.append(m)
    tot = sum(ms)
    return [m.tolist() for m in ms], tot.tolist()


@case('pL')
def c_shared_mat(n, x):
    m = np.zeros(2)
    ms = []
    for v in x:
        m[0] = v
        ms.append(m)
    return ms[0].tolist(), ms[-1].tolist()


@case('pL')
def c_cached_global_list(n, x):
    acc = [0.0, 0.0]
    for v in x:
        acc[0] += v
        acc[1] = max(acc[1], v)
    return acc


@case('ni')
def c_cond_loop(n, i):
    out = []
    for k in range(n):
        if k == i:
            out.append('x')
        elif k < i:
            out.append('lo')
        else:
            out.append('hi')
    return out


@case('nii')
def c_cond_skip(n, i, j):
    return [k for k in range(n) if k != i and k != j]


@case('ii')
def c_range3(i, j):
    return list(range(i, j)), list(range(j, i, -1)), len(range(i, j, 2)), list(range(i, j, 3))


@case('i')
def c_int(i):
    return int(2.7), int(-2.7), float(i), int('12'), round(2.5), round(3.5), float('1e3'), isinstance(i, int), isinstance(True, int), bool(i), i ** 2, i ** 0


@case('r')
def c_nan(x):
    nan, inf = float('nan'), float('inf')
    return nan == nan, nan < x, inf > x, -inf < x, max(x, inf) == inf, x + inf == inf, math.isnan(nan), np.isfinite(x), np.isnan(nan), math.isinf(inf)


@case('r')
def c_global_state(x):
    return helper(x), helper(x) + 1


def helper(x, scale=2):
    return x * scale


@case('rr')
def c_walrus(x, y):
    if (s := x + y) > 0:
        return s
    return -s, [t := 1, t + 1]


@case('rr')
def c_lambda_sort(x, y):
    items = [('b', 2), ('a', 3), ('c', 1)]
    return sorted(items), sorted(items, key=lambda t: t[1]), sorted(items, reverse=True), list(map(lambda t: t[1], items)), list(filter(lambda t: t[1] > 1, items)), functools.reduce(lambda a, b: a + b, [x, y, 1])


@case('rr')
def c_itertools(x, y):
    return list(itertools.chain([x], [y])), list(itertools.accumulate([x, y, 1])), list(itertools.product([0, 1], repeat=2)), list(itertools.repeat(x, 2)), list(zip([1, 2], 'ab', [x, y]))


@case('rr')
def c_set(x, y):
    s = {1, 2, 2}
    s.add(3)
    s.discard(1)
    return sorted(s), 2 in s, len(s), sorted(s | {9}), sorted(s - {2}), sorted(s & {3})


@case('rr')
def c_getattr(x, y):
    o = Base(x)
    setattr(o, 'z', y)
    return getattr(o, 'z'), getattr(o, 'nope', 5), hasattr(o, 'a'), o.__dict__['a'], type(o).__name__, o.__class__ is Base


@case('rr')
def c_class_state(x, y):
    o, p = Base(x), Base(y)
    o.kind = 'own'
    return p.kind, o.kind, Base.kind, o.shared is p.shared


@case('rr')
def c_match_chain(x, y):
    def sgn(v):
        return (v > 0) - (v < 0)
    return sgn(x), sgn(y), sgn(0), True + True, [10, 20][x > y]


@case('pL')
def c_accumulate(n, x):
    return np.cumsum(x).tolist(), np.prod([2.0, 3.0]), np.diff(np.array(x)).tolist(), np.mean(np.array(x)), list(itertools.accumulate(x))


@case('pLL')
def c_weighted(n, x, y):
    z = np.concatenate([[0], np.cumsum(y)])
    return float(sum(v * (z[k + 1] - z[k]) for k, v in enumerate(x)))


@case('pL')
def c_max_index(n, x):
    return max(x), min(x)


@case('pL')
def c_index_last(n, x):
    i = len(x) - 1
    while i > 0:
        i -= 1
    return i


@case('pL')
def c_halve_inplace(n, x):
    a = [np.array([v, 2 * v]) for v in x]
    for m in a:
        m[1] /= 2
    return [m.tolist() for m in a]


@case('pL')
def c_halve_twice_view(n, x):
    a = [np.array([v, 2 * v]) for v in x]
    b = [m for m in a]
    for m in b:
        m[1] /= 2
    return [m.tolist() for m in a]


@case('pL')
def c_enumerate_start(n, x):
    return [(i, v) for i, v in enumerate(x, start=1)], [i for i, _ in enumerate(x)]


@case('pL')
def c_twice_each(n, x):
    out = []
    for k in range(n):
        for f in ('b', 't'):
            out.append((k + 1, f, x[k]))
    return out


@case('pL')
def c_repeat(n, x):
    return x * 2, [0] * 3, [x[0]] * n


@case('pL')
def c_ternary_loop(n, x):
    return [v if v > 0 else -v for v in x], [(v, 'p' if v >= 1 else 'm') for v in x]


@case('pL')
def c_del(n, x):
    y = list(x)
    del y[-1]
    z = list(x)
    z.clear()
    return y, z


@case('pL')
def c_neighbours(n, x):
    return [x[i] + x[i - 1] for i in range(n)], [x[i] for i in range(-1, n - 1)]


@case('pL')
def c_mod_index(n, x):
    return [x[i % n] for i in range(2 * n)], [x[i // 2] for i in range(2 * n)]


def _sign(x):
    if x > 0:
        return 1
    if x < 0:
        return -1
    return 0


def _first_negative(v):
    for k, x in enumerate(v):
        if x < 0:
            return k
    return -1


class _Memo:
    def __init__(self):
        self.v = None
        self.calls = 0

    def get(self, x):
        self.calls += 1
        if self.v is not None:
            return self.v
        if x > 1:
            self.v = [x, 1]
            return self.v
        self.v = [x, 2]
        return self.v


@case('rrr')
def c_early(x, y, z):
    return _sign(x) + 10 * _sign(y), _first_negative([x, y, z]), _first_negative((z, z, 1.0))


@case('rr')
def c_early_memo(x, y):
    m = _Memo()
    a = m.get(x)
    b = m.get(y)
    a.append(7)
    return a, b, m.v, m.calls, a is b


def _pick(x, a, b):
    if x > 0:
        return a
    return b


@case('rr')
def c_early_alias(x, y):
    a, b = [1], [2]
    c = _pick(x, a, b)
    c.append(y)
    return a, b, c


def _upd(x, log):
    if x > 1:
        log.append('big')
        return x
    if x < 0:
        log.append('neg')
        return -x
    return 0.0


@case('rr')
def c_early_effects(x, y):
    log = []
    r = _upd(x, log) + _upd(y, log)
    return r, log


@case('L')
def c_early_in_loop(v):
    return [_sign(x) for x in v], sum(_sign(x) for x in v)


@case('nL')
def c_pairs(n, v):
    a = [0, 2] + list(range(3, n + 3))
    b = [(x, 1) for x in v]
    return [(i, j, k) for i in a for j, k in b], [(k, i) for (i, _) in b for k in a], [(x, y) for x in v for y in v]


@case('nL')
def c_list_acc(n, v):
    xi = [0, 0, 0]
    for k, x in enumerate(v):
        for j, f in enumerate([x, 2 * x, k]):
            xi[j] += f
    return [3 * x for x in xi], xi[0]


@case('pL')
def c_fill_two(n, v):
    K = np.zeros((n, n))
    G = np.zeros((n, n))
    for p, x in enumerate(v):
        for q, y in enumerate(v):
            K[p, q] = x * y
            G[p, q] = x + q
    return K, G


@case('nL')
def c_sum_mats(n, v):
    z = [0.0] + v
    return sum(((b - a) * np.array([[1, b], [2, a]]) for a, b in zip(z, z[1:])), np.zeros((2, 2)))


@case('pL')
def c_ends(n, v):
    z = [1.0]
    for x in v:
        z.append(z[-1] + x)
    return z[-1] - z[0], z[n], z


@case('nL')
def c_last_cond(n, v):
    z = [0.5]
    for x in v:
        if x > 0:
            z.append(z[-1] + x)
    return z


@case('nL')
def c_last_twice(n, v):
    z = [0.5]
    for x in v:
        z.append(z[-1] + x)
        z.append(2 * x)
    return z


@case('nL')
def c_last_copy(n, v):
    z, out = [0.5], []
    for x in v:
        z.append(z[-1] + x)
        out.append(list(z))
    return z, out


@case('nLL')
def c_last_two(n, v, w):
    z, y = [0.5], [1]
    for i in range(n):
        z.append(z[i] + v[i])
        y.append(y[-1] + z[-1] * w[i])
    return z, y[-1], y[len(y) - 1]


@case('nL')
def c_last_reset(n, v):
    z = [0.5]
    for x in v:
        z = [z[-1] + x]
    return z


@case('nL')
def c_items(n, v):
    a = [0, 1, 2.5]
    for i, x in enumerate(v):
        a[0] += x
        a[2] = a[2] + i * a[0]
        a[1] -= 1
    return a


@case('nL')
def c_items_grid(n, v):
    a = [0, 0, 0, 0]
    for i, x in enumerate(v):
        for j, y in enumerate([1, 2, x]):
            a[j] += x * y
        a[3] += 1
    return a, sum(a)


@case('nL')
def c_reduce(n, v):
    return functools.reduce(lambda p, q: p + q * q, v, 1.0), list(itertools.accumulate(v, initial=2)), \
        functools.reduce(lambda p, q: p * q, [v[0] if n else 2, 3, 4])


@case('nL')
def c_while_list(n, v):
    i, out = 0, []
    while i < len(v):
        x = v[i]
        i += 1
        if x > 1:
            continue
        out.append(x * i)
    else:
        out.append(-1)
    return out, i


@case('n')
def c_while_step(n):
    i, s = n, 0
    while i > 0:
        s += i
        i -= 2
    return s, i


@case('nn')
def c_while_ne(n, m):
    s = 0
    while n != 0:
        s += n * m
        n -= 1
    while m:
        m -= 1
        s += 1
    return s


@case('nL')
def c_while_grid(n, x):
    k = np.zeros((n, n))
    i = 0
    while i < n:
        j = 0
        while j <= n - 1:
            k[i, j] = x[i] * x[j]
            j += 1
        i += 1
    return k


@case('nr')
def c_while_odd(n, t):
    i, s = 0, 0
    while i < n:
        i += 2 if t > 0 else 1
        s += 1
    return s


@case('nn')
def c_while_ne1(n, m):
    s = 0
    while n != 0:
        s += n * m
        n -= 1
    return s


class Lazy:
    def __init__(self, x):
        self.x, self._sq = x, None

    @property
    def sq(self):
        if self._sq is None:
            self._sq = [v * v for v in self.x]
        return self._sq

    def total(self):
        t, m, k = 0, np.zeros((2, 2)), 0
        while k < len(self.x):
            t += self.sq[k] * (k + 1)
            m += np.array([[self.sq[k], 1], [k, self.x[k]]])
            k += 1
        return t, m

    def total2(self):
        t = 1.5
        for k in range(len(self.x)):
            t += self.sq[k] if k else 7
        return t


@case('pL')
def c_lazy(n, x):
    a = Lazy(x)
    return a.total(), a.sq


@case('pL')
def c_lazy2(n, x):
    return Lazy(x).total2(), Lazy(x).total2()
