"""equality of symbolic sequences of numbers"""
from .terms import *
from . import terms as T
from .values import *
from .prove import *


def _simp(seq):
    """drop empty pieces"""
    return [p for p in seq if not (p[0] == 'I' and not p[1])]


def prove_seq(a, b, conds, budget, depth=0):
    """(True, '') when the sequences are proved equal under conds"""
    a, b = _simp(a), _simp(b)
    if budget.over() or depth > 60:
        return False, 'limit'
    if not a and not b:
        return True, ''
    if a == b:
        return True, ''
    for x, y in ((a, b), (b, a)):
        if x and x[0][0] == 'C':
            c = x[0][1]
            for val, br in ((c, x[0][2]), (c_not(c), x[0][3])):
                if val is False:
                    continue
                cs = conds + ([val] if val is not True else [])
                if not feasible(cs):
                    continue
                n = list(br) + x[1:]
                r = prove_seq(n, b, cs, budget, depth + 1) if x is a else prove_seq(a, n, cs, budget, depth + 1)
                if not r[0]:
                    return r
            return True, ''
    for x, y in ((a, b), (b, a)):
        if x and x[0][0] == 'G':
            n = x[0][1]
            if not y or y[0][0] == 'I' or (y[0][0] == 'G' and (P(y[0][1]) - n).const() is None and not prove_zero(P(y[0][1]) - n, conds, budget)):
                # no counterpart: empty, or a known number of iterations
                if entails(conds, c_le(n, 0)):
                    return prove_seq(x[1:], y, conds, budget, depth + 1)
                if y and y[0][0] == 'I' and entails(conds, c_le(1, n)):
                    h = fresh('k', 'int')
                    first = list(subst_seq(x[0][3], {x[0][2]: ZERO}))
                    rest = ('G', n - 1, next(iter(h.vars())), subst_seq(x[0][3], {x[0][2]: h + 1}))
                    return prove_seq(first + [rest] + x[1:], y, conds, budget, depth + 1)
                if not entails(conds, c_le(1, n)):
                    # split on emptiness
                    for c in (c_le(n, 0), c_le(1, n)):
                        cs = conds + [c]
                        if not feasible(cs):
                            continue
                        r = prove_seq(x, y, cs, budget, depth + 1)
                        if not r[0]:
                            return r
                    return True, ''
    if not a or not b:
        return False, 'lengths: %s' % str(a or b)[:150]
    p, q = a[0], b[0]
    if p[0] == 'I' and q[0] == 'I':
        n = min(len(p[1]), len(q[1]))
        for x, y in zip(p[1][:n], q[1][:n]):
            if x is y or x == y:
                continue
            try:
                d = P(x) - P(y)
            except Exception:
                return False, 'elements %s and %s' % (str(x)[:80], str(y)[:80])
            if not prove_zero(d, conds, budget):
                return False, 'element %s instead of %s' % (str(x)[:120], str(y)[:120])
        ra = ([('I', p[1][n:])] if len(p[1]) > n else []) + a[1:]
        rb = ([('I', q[1][n:])] if len(q[1]) > n else []) + b[1:]
        return prove_seq(ra, rb, conds, budget, depth + 1)
    if p[0] == 'G' and q[0] == 'G':
        if prove_zero(P(p[1]) - P(q[1]), conds, budget):
            v = fresh('k', 'int')
            cs = conds + [c for c in (c_le(0, v), c_lt(v, p[1])) if c is not True]
            if False in cs:
                return prove_seq(a[1:], b[1:], conds, budget, depth + 1)
            r = prove_seq(list(subst_seq(p[3], {p[2]: v})), list(subst_seq(q[3], {q[2]: v})), cs, budget, depth + 1)
            if not r[0]:
                return r
            return prove_seq(a[1:], b[1:], conds, budget, depth + 1)
        d = (P(p[1]) - P(q[1])).const()
        if d is not None and d.denominator == 1 and 0 < abs(d) <= 8:
            # one more iteration on one side: its last one is written out
            x, y = (a, b) if d > 0 else (b, a)
            g = x[0]
            if entails(conds, c_le(1, g[1])):
                n = [('G', P(g[1]) - 1, g[2], g[3])] + list(subst_seq(g[3], {g[2]: P(g[1]) - 1})) + x[1:]
                return prove_seq(n, y, conds, budget, depth + 1) if x is a else prove_seq(y, n, conds, budget, depth + 1)
        return False, 'repeat counts %s and %s' % (str(p[1])[:100], str(q[1])[:100])
    return False, 'pieces %s and %s' % (str(p)[:100], str(q)[:100])


def expand(seq, ev, limit=400):
    """numeric elements of a sequence under an assignment"""
    out = []
    for p in seq:
        if p[0] == 'I':
            for x in p[1]:
                out.append(ev.poly(P(x)))
        elif p[0] == 'C':
            out.extend(expand(p[2] if ev.cond(p[1]) else p[3], ev, limit))
        elif p[0] == 'G':
            n = int(ev.poly(P(p[1])))
            if n > limit:
                raise NoVal()
            for i in range(max(n, 0)):
                out.extend(expand(subst_seq(p[3], {p[2]: P(i)}), ev, limit))
        else:
            raise NoVal()
        if len(out) > limit:
            raise NoVal()
    return out


def refute_seq(a, b, conds, dom):
    """an assignment under which the sequences differ"""
    keep = []

    def test(ev):
        try:
            x, y = expand(a, ev), expand(b, ev)
        except (NoVal, KeyError, AttributeError, TypeError):
            return False
        if len(x) != len(y) or any(abs(float(p) - float(q)) > 1e-9 * (1 + abs(float(q))) for p, q in zip(x, y)):
            keep[:] = [x[:20], y[:20]]
            return True
        return False
    ev = find_assignment(conds, dom, test=test)
    return (ev, list(keep)) if ev is not None else None
