"""Query-order independence: an invariant over the fields of the objects, established as a fixpoint.

The invariant maps every field of the objects to the set of values it can hold after any sequence of queries (starting with the
constructor's). Each query is executed from the generic state "every field holds any value of its set"; the values it stores are
added to the sets until nothing changes. Then, by induction over the sequence, a query's result in any reachable state is one of
those computed from the generic state, and each is proved equal to the fresh object's."""
from .common import *
from pyvc.values import _serial
from pyvc.execx import OneOf


class Diff(Exception):
    pass


def same_value(u, name, a, b):
    """obligations: value a equals value b (numbers, arrays, sequences, strings, None, dicts of these)"""
    ip = u.ip
    a = ip.thaw(a) if isinstance(a, Frozen) else a
    b = ip.thaw(b) if isinstance(b, Frozen) else b
    if a is b:
        return u.fact(name, True)
    if not isinstance(a, Cell) and not isinstance(b, Cell) and vkey(a) == vkey(b) and vkey(a)[0] != 'id':
        return u.fact(name, True)
    if ops.is_num(a) and ops.is_num(b) or isinstance(a, (arrays.CaseV, Special)) or isinstance(b, (arrays.CaseV, Special)):
        return u.eq(name, a, b)
    if isinstance(a, (str, bool, type(None), SStr, Cond)) or isinstance(b, (str, bool, type(None))):
        return u.eq(name, a, b)
    if isinstance(a, ArrV) and isinstance(b, ArrV):
        return u.arr(name, a, b)
    if isinstance(a, SymArr) and isinstance(b, SymArr):
        ok = True
        for x, y in zip(a.shape, b.shape):
            ok = u.zero(name + ' shape', P(x) - P(y)) and ok
        idx = [T.fresh('ix', 'int') for _ in a.shape]
        npc = len(ip.pc)
        for i, d in zip(idx, a.shape):
            ip.pc += [c_le(0, i), c_lt(i, d)]
        try:
            return u.eq(name + '[generic]', a.at(*idx), b.at(*idx)) and ok
        finally:
            del ip.pc[npc:]
    if isinstance(a, FrameDF) and isinstance(b, FrameDF):
        u.fact(name + ' columns', list(a.d) == list(b.d), 'columns %s instead of %s' % (list(a.d), list(b.d)))
        ok = True
        for c in a.d:
            if c in b.d:
                ok = same_value(u, '%s.%s' % (name, c), ListV(a.d[c]), ListV(b.d[c])) and ok
        return ok
    if type(a) is type(b) and isinstance(a, SeriesV):
        return same_value(u, name, ListV(a.seq), ListV(b.seq))
    if isinstance(a, DictV) and isinstance(b, DictV):
        ok = u.fact(name + ' keys', list(a.d) == list(b.d), 'different keys')
        for c in a.d:
            if c in b.d:
                ok = same_value(u, '%s[%s]' % (name, c), a.d[c], b.d[c]) and ok
        return ok
    if isinstance(a, (ListV, tuple, ops.SeqTuple)) and isinstance(b, (ListV, tuple, ops.SeqTuple)):
        sa, sb = ops.as_seq(ip, a), ops.as_seq(ip, b)
        la, lb = seq_len(sa), seq_len(sb)
        ok = u.zero(name + ' length', P(la) - P(lb))
        if not ok:
            return False
        n = P(la).const()
        if n is not None and n <= 12:
            for i in range(int(n)):
                ok = same_value(u, '%s[%d]' % (name, i), ops.getitem(ip, a, i), ops.getitem(ip, b, i)) and ok
            return ok
        al = aligned(sa, sb)
        if al is not None:
            for v, cnt, pa, pb in al:
                npc = len(ip.pc)
                if v is not None:
                    ip.pc += [c_le(0, v), c_lt(v, cnt)]
                try:
                    for j, (x, y) in enumerate(zip(pa, pb)):
                        ok = same_value(u, '%s[generic %d]' % (name, j), x, y) and ok
                finally:
                    del ip.pc[npc:]
            return ok
        i = T.fresh('ix', 'int')
        npc = len(ip.pc)
        ip.pc += [c_le(0, i), c_lt(i, la)]
        try:
            return same_value(u, name + '[generic]', ops.getitem(ip, a, i), ops.getitem(ip, b, i)) and ok
        finally:
            del ip.pc[npc:]
    if isinstance(a, ObjV) and isinstance(b, ObjV) and a.cls is b.cls:
        if vkey(ip.freeze(a, -1)) == vkey(ip.freeze(b, -1)):
            return u.fact(name, True)
        ok = True
        for f in a.d:
            if not f.startswith('_') and f in b.d:
                ok = same_value(u, '%s.%s' % (name, f), a.d[f], b.d[f]) and ok
        return ok
    return u.unknown(name, 'not comparable: %s and %s' % (type(a).__name__, type(b).__name__))


def aligned(sa, sb):
    """pieces of two sequences of the same structure: [(generic index or None, count, items, items)]"""
    if len(sa) != len(sb):
        return None
    out = []
    for p, q in zip(sa, sb):
        if p[0] != q[0]:
            return None
        if p[0] == 'I':
            if len(p[1]) != len(q[1]):
                return None
            out.append((None, None, p[1], q[1]))
        elif p[0] == 'G' and is_zero(P(p[1]) - P(q[1])):
            v = T.fresh('gx', 'int')
            a, b = (seq_items(subst_seq(x[3], {x[2]: v})) for x in (p, q))
            if a is None or b is None or len(a) != len(b):
                return None
            out.append((v, p[1], a, b))
        else:
            return None
    return out


def reach(v, seen=None, out=None):
    """heap objects reachable from v, in a fixed order"""
    if seen is None:
        seen, out = set(), []
    if isinstance(v, Cell) and not isinstance(v, ClassV):
        if id(v) in seen:
            return out
        seen.add(id(v))
        if isinstance(v, ObjV):
            out.append(v)
            for x in v.d.values():
                reach(x, seen, out)
        elif isinstance(v, ListV):
            for p in v.c:
                if p[0] == 'I':
                    for x in p[1]:
                        reach(x, seen, out)
        elif isinstance(v, DictV):
            for x in v.d.values():
                reach(x, seen, out)
    elif isinstance(v, tuple):
        for x in v:
            reach(x, seen, out)
    return out


def frozen(ip, v, since):
    return ip.freeze(v, since) if isinstance(v, (Cell, tuple)) else v


def run_all(u, body):
    """all paths of body(), heap rolled back; returns the collected results"""
    res = []
    for conds, r in u.ip.explore(lambda: body(), limit=200, collect=lambda out: res.append((out, list(u.ip.pc)))):
        pass
    return res


def fixpoint(u, make, queries, extra_frame=None, rounds=8, maxvals=6):
    """make() -> object under study; queries: [(name, fn(obj) -> value)]; all obligations are added to u"""
    ip = u.ip
    obj = make()
    objs = reach(obj)
    fresh = {}
    for qn, q in queries:
        since = next(_serial)
        got = []

        def go():
            v = q(obj)
            got.append((frozen(ip, v, since), list(ip.pc)))
        outs = ip.explore(go, limit=50, collect=lambda o: o)
        if len(got) != 1 or len(outs) != 1:
            if any(o[1][0] == 'raise' for o in outs):
                raise Raise([o[1][1] for o in outs if o[1][0] == 'raise'][0])
            raise Unsupported('%s has several outcomes on a fresh object' % qn)
        fresh[qn] = got[0][0]
    base = {(i, f): v for i, o in enumerate(objs) for f, v in o.d.items()}
    sets = {k: [v] for k, v in base.items()}
    frame_bad = []

    def install():
        for (i, f), vs in sets.items():
            if len(vs) > 1:
                ip.setk(objs[i], f, OneOf(vs))

    ids = {id(o): i for i, o in enumerate(objs)}

    def harvest(since, mark, qn, new):
        for cell, key, old in ip.writes_since(mark):
            if cell.serial > since or isinstance(cell, Frame):
                continue
            i = ids.get(id(cell))
            if i is None or key is None:
                if key is None and isinstance(cell, (ListV, ArrV)) and cell.c is not old:
                    frame_bad.append('%s modifies %s in place' % (qn, type(cell).__name__))
                elif key is not None and cell.d.get(key, MISSING) is not old:
                    frame_bad.append('%s writes %s of %s' % (qn, key, type(cell).__name__))
                continue
            v = cell.d.get(key, MISSING)
            if isinstance(v, OneOf):
                continue
            if v is MISSING:
                frame_bad.append('%s deletes %s' % (qn, key))
                continue
            new.append(((i, key), frozen(ip, v, since)))

    def known(k, v):
        kv = vkey(v)
        for w in sets.get(k, []):
            if w is v or vkey(w) == kv:
                return True
        return False

    stable = False
    reads, seen = {}, {}
    idf = lambda k: (id(objs[k[0]]), k[1])
    for r in range(rounds):
        added = False
        for qn, q in queries:
            now = {idf(k): len(vs) for k, vs in sets.items()}
            if qn in reads and all(now.get(f) == seen[qn].get(f) for f in reads[qn]):
                continue        # nothing this query reads has changed
            mark0 = len(ip.journal)
            install()
            since = next(_serial)
            ip.readlog = reads.setdefault(qn, set())
            seen[qn] = now
            new = []
            mark = len(ip.journal)

            def go():
                q(obj)
            ip.explore(go, limit=100, collect=lambda o: harvest(since, mark, qn, new))
            ip.readlog = None
            ip.rollback(mark0)
            for k, v in new:
                if k not in sets:
                    sets[k] = [MISSING]
                if not known(k, v):
                    if MISSING in sets[k]:
                        raise Unsupported('field %s appears only after %s' % (k[1], qn))
                    sets[k].append(v)
                    added = True
                    if len(sets[k]) > maxvals:
                        raise Unsupported('field %s takes too many values' % (k[1],))
        if not added:
            stable = True
            break
    u.soft = True
    try:
        if not stable:
            u.unknown('cache invariant', 'no fixpoint')
        else:
            u.fact('cache invariant is inductive', True)
        if frame_bad:
            u.unknown('queries write only the fields of the object', '; '.join(sorted(set(frame_bad))[:4]))
        else:
            u.fact('queries write only the fields of the object', True)
        for (i, f), vs in sets.items():
            if not f.startswith('_') and len(vs) > 1:
                u.unknown('%s unchanged' % f, 'a query stores another value in %s' % f)
        for qn, q in queries:
            mark0 = len(ip.journal)
            install()

            def go():
                v = q(obj)
                if not same_value(u, '%s in any state' % qn, v, fresh[qn]):
                    pass
            ip.explore(go, limit=200, collect=lambda o: unexpected(u, qn, o))
            ip.rollback(mark0)
    finally:
        u.soft = False
    return sets


def unexpected(u, qn, out):
    if out[0] == 'raise':
        u._refute(u.ob('%s raises in no state' % qn), 'raises %r' % (out[1],))


def pairs(u, make, queries, only=None):
    """each query after each other one, from a fresh object: concrete histories that refute when the invariant does not hold"""
    ip = u.ip
    obj = make()
    fresh = {}
    for qn, q in queries:
        since = next(_serial)
        got = []
        ip.explore(lambda: got.append(frozen(ip, q(obj), since)), limit=50)
        fresh[qn] = got[0]
    pub = [(o, f, v) for o in reach(obj) for f, v in o.d.items() if not f.startswith('_')]
    for n1, q1 in queries:
        def go():
            v1 = q1(obj)
            keep = frozen(ip, v1, -1) if isinstance(v1, (ArrV, ListV, tuple)) else None
            snap = [vkey(frozen(ip, v, -1)) if isinstance(v, (ListV, DictV)) else None for o, f, v in pub]
            n2, q2 = queries[ip.choose(len(queries))]
            v2 = q2(obj)
            same_value(u, '%s after %s' % (n2, n1), v2, fresh[n2])
            if keep is not None:
                now = frozen(ip, v1, -1)
                if vkey(now) != vkey(keep):
                    same_value(u, '%s as read before %s' % (n1, n2), now, keep)
            for o, f, v in pub:
                if o.d.get(f) is not v:
                    same_value(u, '%s after %s' % (f, n2), o.d.get(f), v)
        ip.explore(go, limit=400, collect=lambda o: unexpected(u, n1, o))
