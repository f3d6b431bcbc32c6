"""Joining the states of several local paths into one state with conditional values."""
from .terms import *
from . import terms as T
from .values import *
from .values import _serial
from .interp import Infeasible, Poison, PoisonRead, MISSING, _has_frozen, twin_of
from .execx import NoMerge


class PathState:
    def __init__(self, conds, writes, elems, value):
        self.conds, self.writes, self.elems, self.value = conds, writes, elems, value


def count_frozen(v, seen):
    """Frozen nodes reachable; raises NoMerge when one is reachable twice from different places"""
    if isinstance(v, Frozen):
        seen[id(v)] = seen.get(id(v), 0) + 1
        count_frozen(v.data, seen)
    elif isinstance(v, tuple):
        for x in v:
            count_frozen(x, seen)
    elif isinstance(v, dict):
        for x in v.values():
            count_frozen(x, seen)


def path_states(ip, fn, limit=24, allow_exit=False):
    """run fn on all local paths; heap rolled back. Returns (PathState list, exits) where exits are
    (conds, outcome) of the paths that do not end normally"""
    mark = len(ip.journal)
    since = next(_serial)
    states, exits = [], []
    npc = len(ip.pc)

    def collect(out):
        if out[0] != 'ok':
            exits.append((list(ip.pc[npc:]), out))
            return None
        memo = {}
        writes = {}
        seen = {}
        for cell, key, old in ip.writes_since(mark):
            if cell.serial > since:
                continue
            if key is None:
                cur = cell.c
            else:
                cur = cell.d.get(key, MISSING)
            if cur is old:
                continue
            f = ip.freeze(cur, since, memo) if cur is not MISSING and not isinstance(cur, Poison) else cur
            count_frozen(f, seen)
            writes[(id(cell), key)] = (cell, key, old, f)
        alias = any(n > 1 for n in seen.values())
        elems = []
        done = set()
        for cell, key, old in ip.journal[mark:]:
            if key == ('memo',) and cell.serial <= since and id(cell) not in done:
                done.add(id(cell))
                m = cell.__dict__.get('memo') or {}
                for k, (val, mk) in m.items():
                    mod = ip.modified_since(val, max(mk, mark))
                    elems.append((cell, k, val, mod, ip.freeze(val, -1) if mod and mk >= mark else None, mk >= mark))
        ip.check_oldmemo = None
        v = out[1]
        fv = ip.freeze(v, since, memo) if v is not None else None
        count_frozen(fv, seen)
        alias = alias or any(n > 1 for n in seen.values())
        states.append(PathState(list(ip.pc[npc:]), writes, elems, fv))
        states[-1].alias = alias
        return None
    ip.explore(fn, limit=limit, collect=collect)
    return states, exits


def merged_run(ip, fn, key=None):
    states, exits = path_states(ip, fn)
    if exits or not states:
        raise NoMerge()
    if any(s.alias for s in states) and len(states) > 1:
        raise NoMerge()
    for s in states:
        for cell, k, val, mod, fz, new in s.elems:
            if mod:
                raise NoMerge()
    apply_merged(ip, states, key)
    return True


def merged_call(ip, fn, key=None):
    """value of fn() on all local paths, as one value; the state is joined as well"""
    states, exits = path_states(ip, fn)
    if exits or not states:
        raise NoMerge()
    if len(states) > 1:
        if any(s.alias for s in states) or any(mod for s in states for cell, k, val, mod, fz, new in s.elems):
            raise NoMerge()
    elif states[0].alias or any(mod for cell, k, val, mod, fz, new in states[0].elems):
        raise NoMerge()
    v = merge_states(ip, [s.conds for s in states], [s.value for s in states], False)
    apply_merged(ip, states, key)
    ip.mark_twins(v)
    return ip.thaw(v)


def holds(v, obj):
    if v is obj:
        return True
    if isinstance(v, Frozen):
        return holds(v.data, obj)
    if isinstance(v, dict):
        return any(holds(x, obj) for x in v.values())
    if isinstance(v, (tuple, list)):
        return any(holds(x, obj) for x in v)
    if isinstance(v, Cell) and not isinstance(v, ClassV):
        return True     # anything not frozen may lead to it
    return False


def branch_values(ip, states, k, old):
    """value of a location at the end of each path; where some paths bind a new list and others keep the old one, and nothing
    else refers to the old one, only contents matter"""
    vals = [s.writes[k][3] if k in s.writes else old for s in states]
    if isinstance(old, ListV) and any(isinstance(v, Frozen) and v.kind == 'L' for v in vals) and any(v is old for v in vals) \
            and all(v is old or isinstance(v, Frozen) and v.kind == 'L' for v in vals) and not ip.shared(old) \
            and not any(holds(w[3], old) for s in states for q, w in s.writes.items() if q != k):
        ip.check_memo(old)
        out = []
        for s, v in zip(states, vals):
            if v is old:
                w = s.writes.get((id(old), None))
                v = Frozen('L', w[3] if w is not None else old.c, None, twin_of(old))
            out.append(v)
        return out
    return vals


def apply_merged(ip, states, nkey=None):
    locs = {}
    for s in states:
        for k, (cell, key, old, f) in s.writes.items():
            locs[k] = (cell, key, old)
    res = []
    for k, (cell, key, old) in locs.items():
        vals = branch_values(ip, states, k, old)
        if any(v is MISSING or isinstance(v, Poison) for v in vals):
            if all(v is MISSING for v in vals):
                res.append((cell, key, MISSING))
            else:
                res.append((cell, key, Poison(('merge', nkey))))
            continue
        res.append((cell, key, merge_states(ip, [s.conds for s in states], vals, key is None and isinstance(cell, ListV))))
    memo = {}
    for cell, key, v in res:
        if v is MISSING:
            if key in cell.d:
                ip.delk(cell, key)
            continue
        if not isinstance(v, Poison):
            ip.mark_twins(v)
            if key is None and isinstance(cell, ListV):
                pass
            elif key is None and isinstance(cell, FrameDF):
                pass
            else:
                v = ip.thaw(v, memo)
        if key is None:
            ip.setc(cell, v)
        else:
            ip.setk(cell, key, v)


def merge2(ip, c, a, b):
    """value equal to a when c holds and to b otherwise (a, b may be fresh cells)"""
    if a is b:
        return a
    r = merge_val(ip, c, ip.freeze(a, 0) if isinstance(a, Cell) and not isinstance(a, (ClassV,)) and not isinstance(a, ObjV) else a,
                  ip.freeze(b, 0) if isinstance(b, Cell) and not isinstance(b, (ClassV,)) and not isinstance(b, ObjV) else b)
    return ip.thaw(r)


def merge_states(ip, conds, vals, top):
    """value that is vals[i] on the path with conditions conds[i] (the paths are disjoint and cover everything): a decision tree
    over the conditions the paths forked on"""
    if len(vals) == 1:
        return vals[0]
    if all(v is vals[0] or same(v, vals[0]) for v in vals[1:]):
        return vals[0]
    for c in conds[0]:
        n = c_not(c)
        yes = [i for i in range(len(vals)) if c in conds[i]]
        no = [i for i in range(len(vals)) if n in conds[i] and c not in conds[i]]
        if len(yes) + len(no) != len(vals) or not no:
            continue
        part = lambda idx, x: merge_states(ip, [[y for y in conds[i] if y != x] for i in idx], [vals[i] for i in idx], top)
        return merge_val(ip, c, part(yes, c), part(no, n), top)
    acc = vals[-1]
    for cs, v in list(zip(conds, vals))[-2::-1]:
        acc = merge_val(ip, c_and(*cs) if cs else True, v, acc, top)
    return acc


NUM = (int, Fraction, Poly)


def merge_val(ip, c, a, b, top=False):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if top:
        return merge_seq(ip, c, a, b)
    if isinstance(a, (bool, Cond)) and isinstance(b, (bool, Cond)):
        if isinstance(a, bool) and isinstance(b, bool):
            if a == b:
                return a
            return c if a else c_not(c)
        a, b = under(a, c, True), under(b, c, False)
        return c_or(c_and(c, a), c_and(c_not(c), b))
    if isinstance(a, bool):
        a = int(a)
    if isinstance(b, bool):
        b = int(b)
    if isinstance(a, NUM) and isinstance(b, NUM):
        fa, fb = isinstance(a, Fraction), isinstance(b, Fraction)
        pa, pb = P(a), P(b)
        if is_zero(pa - pb):
            return a if not fb else b
        return ite(c, pa, pb)
    try:
        if vkey(a) == vkey(b):
            return a
    except Exception:
        pass
    if isinstance(a, Frozen) and isinstance(b, Frozen) and a.kind == b.kind:
        k = a.kind
        tw = (a.twin or ()) + (b.twin or ()) or None
        if k == 'L':
            return Frozen('L', merge_seq(ip, c, a.data, b.data), None, tw)
        if k == 'A' and a.data[0] == b.data[0]:
            return Frozen('A', (a.data[0], tuple(merge_val(ip, c, x, y) for x, y in zip(a.data[1], b.data[1]))), None, tw)
        if k in ('D', 'O') and a.extra is b.extra and list(a.data) == list(b.data):
            return Frozen(k, {x: merge_val(ip, c, a.data[x], b.data[x]) for x in a.data}, a.extra, tw)
        if k == 'S' and len(a.data[0]) == len(b.data[0]) and all(is_zero(x - y) for x, y in zip(a.data[0], b.data[0])):
            vs, bo = b.data[1]
            va, ba = a.data[1]
            bo2 = subst_value(bo, {y: T.var(x, 'int') for x, y in zip(va, vs)})
            return Frozen('S', (a.data[0], (va, merge_val(ip, c, ba, bo2))), None, tw)
        raise NoMerge()
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        return merge_str(ip, c, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and not isinstance(a, Piece) and not isinstance(b, Piece):
        if a and b and isinstance(a[0], Piece) or b and isinstance(b[0], Piece):
            return merge_seq(ip, c, a, b)
        if len(a) == len(b):
            return tuple(merge_val(ip, c, x, y) for x, y in zip(a, b))
    raise NoMerge()


def under(v, c, val):
    """simplify a sequence, text or condition knowing that c is val"""
    if isinstance(c, bool):
        return v
    if c.op == 'not':
        return under(v, c.args[0], not val)
    if c.op == ('and' if val else 'or'):
        for x in c.args:
            v = under(v, x, val)
        return v
    n = c_not(c)

    def cond(x):
        if isinstance(x, bool):
            return x
        if x == c:
            return val
        if x == n:
            return not val
        if x.op == 'not':
            return c_not(cond(x.args[0]))
        if x.op == 'and':
            return c_and(*map(cond, x.args))
        if x.op == 'or':
            return c_or(*map(cond, x.args))
        return x

    def seq(s):
        out = []
        for p in s:
            if p[0] == 'C':
                k = cond(p[1])
                if k is True or k is False:
                    out.extend(seq(p[2] if k else p[3]))
                else:
                    out.append(C_(k, seq(p[2]), seq(p[3])))
            elif p[0] == 'G':
                out.append(Piece(('G', p[1], p[2], seq(p[3]))))
            else:
                out.append(p)
        return mkseq(out)

    def text(s):
        out = []
        for p in sstr_pieces(s):
            if isinstance(p, tuple) and p[0] == 'C':
                k = cond(p[1])
                if k is True or k is False:
                    out.extend(sstr_pieces(text(p[2] if k else p[3])))
                else:
                    out.append(('C', k, text(p[2]), text(p[3])))
            elif isinstance(p, tuple) and p[0] == 'G':
                out.append(('G', p[1], p[2], text(p[3])))
            else:
                out.append(p)
        return mkstr(out)
    if isinstance(v, Cond):
        return cond(v)
    if isinstance(v, SStr):
        return text(v)
    if isinstance(v, tuple) and v and isinstance(v[0], Piece):
        return seq(v)
    return v


def merge_seq(ip, c, a, b):
    a, b = list(under(tuple(a), c, True)), list(under(tuple(b), c, False))
    pre, post = [], []
    if seq_items(tuple(a)) is not None and seq_items(tuple(b)) is not None:
        xa, xb = seq_items(tuple(a)), seq_items(tuple(b))
        if len(xa) == len(xb):
            try:
                r = [merge_val(ip, c, x, y) for x, y in zip(xa, xb)]
                return (I_(*r),) if r else ()
            except NoMerge:
                pass
        i = 0
        while i < min(len(xa), len(xb)) and same(xa[i], xb[i]):
            i += 1
        j = 0
        while j < min(len(xa), len(xb)) - i and same(xa[-1 - j], xb[-1 - j]):
            j += 1
        mk = lambda xs: (I_(*xs),) if xs else ()
        return mkseq(list(mk(xa[:i])) + [C_(c, mk(xa[i:len(xa) - j]), mk(xb[i:len(xb) - j]))] + list(mk(xa[len(xa) - j:])))
    while a and b and same(a[0], b[0]):
        pre.append(a.pop(0))
        b.pop(0)
    while a and b and same(a[-1], b[-1]):
        post.insert(0, a.pop())
        b.pop()
    if a and b and a[0][0] == 'I' and b[0][0] == 'I':
        xa, xb = list(a[0][1]), list(b[0][1])
        com = []
        while xa and xb and same(xa[0], xb[0]):
            com.append(xa.pop(0))
            xb.pop(0)
        if com:
            pre.append(I_(*com))
            a[0:1] = [I_(*xa)] if xa else []
            b[0:1] = [I_(*xb)] if xb else []
    if len(a) == len(b) == 1 and a[0][0] == 'G' and b[0][0] == 'G' and is_zero(a[0][1] - b[0][1]):
        try:
            v = fresh('mg', 'int')
            (vn,) = v.vars()
            body = merge_seq(ip, c, subst_seq(a[0][3], {a[0][2]: v}), subst_seq(b[0][3], {b[0][2]: v}))
            if not any(p[0] == 'C' for p in body):
                return mkseq(pre + [G_(a[0][1], vn, body)] + post)
        except NoMerge:
            pass
    if not a and not b:
        return mkseq(pre + post)
    xa, xb = seq_items(mkseq(a)), seq_items(mkseq(b))
    if xa is not None and xb is not None and len(xa) == len(xb):
        try:
            return mkseq(pre + [I_(*[merge_val(ip, c, x, y) for x, y in zip(xa, xb)])] + post)
        except NoMerge:
            pass
    return mkseq(pre + [C_(c, mkseq(a), mkseq(b))] + post)


def same(x, y):
    try:
        return x is y or vkey(x) == vkey(y)
    except Exception:
        return False


def merge_str(ip, c, a, b):
    if isinstance(a, str) and isinstance(b, str) and a == b:
        return a
    a, b = under(a, c, True), under(b, c, False)
    pa, pb = list(sstr_pieces(a)), list(sstr_pieces(b))
    pre, post = [], []
    key = lambda x: x if isinstance(x, (str, Tok)) else vkey(tuple(x))
    while pa and pb and key(pa[0]) == key(pb[0]):
        pre.append(pa.pop(0))
        pb.pop(0)
    while pa and pb and key(pa[-1]) == key(pb[-1]):
        post.insert(0, pa.pop())
        pb.pop()
    if pa and pb and isinstance(pa[0], str) and isinstance(pb[0], str):
        i = 0
        x, y = pa[0], pb[0]
        while i < min(len(x), len(y)) and x[i] == y[i]:
            i += 1
        if i:
            pre.append(x[:i])
            pa[0:1] = [x[i:]] if x[i:] else []
            pb[0:1] = [y[i:]] if y[i:] else []
    if not pa and not pb:
        return mkstr(pre + post)
    return mkstr(pre + [('C', c, mkstr(pa), mkstr(pb))] + post)
