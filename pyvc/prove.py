"""Proof back ends: exact algebra (terms.is_zero), case splitting, z3/cvc5; numeric evaluation for refutation."""
import math
import random
import time
from fractions import Fraction
import z3
from .terms import *
from . import terms as T

STATS = {'algebra': 0, 'split': 0, 'z3': 0, 'z3_time': 0.0, 'z3_calls': 0, 'ground': 0, 'cvc5': 0, 'numeric': 0}


# ------------------------------------------------------------------ z3 export
class Exp:
    def __init__(self):
        self.cache = {}
        self.side = []
        self.atoms = {}
        self.depth = 0

    def poly(self, p):
        terms = []
        for m, c in p.t.items():
            fs = []
            allint = c.denominator == 1
            for a, e in m:
                if a.sort != 'int' or e < 0:
                    allint = False
            for a, e in m:
                z = self.atom(a)
                if not allint and z.is_int():
                    z = z3.ToReal(z)
                if e > 0:
                    fs.extend([z] * e)
                else:
                    inv = self.inv(a, z)
                    fs.extend([inv] * (-e))
            cc = z3.IntVal(int(c)) if allint else z3.RealVal(str(c))
            t = cc
            for f in fs:
                t = t * f
            terms.append((t, allint))
        if not terms:
            return z3.IntVal(0)
        if all(i for _, i in terms):
            r = terms[0][0]
            for t, _ in terms[1:]:
                r = r + t
            return r
        r = None
        for t, i in terms:
            if i:
                t = z3.ToReal(t)
            r = t if r is None else r + t
        return r

    def inv(self, a, z):
        k = ('inv', a)
        if k not in self.cache:
            r = z3.Real('inv_%d' % a.id)
            if z.is_int():
                z = z3.ToReal(z)
            self.cache[k] = r
            self.side.append(r * z == 1)
        return self.cache[k]

    def atom(self, a):
        if a in self.cache:
            return self.cache[a]
        k = a.kind
        if k == 'ite':
            c = self.cond(a.args[0])
            x, y = self.poly(a.args[1]), self.poly(a.args[2])
            if x.is_int() != y.is_int():
                x = z3.ToReal(x) if x.is_int() else x
                y = z3.ToReal(y) if y.is_int() else y
            z = z3.If(c, x, y)
            if a.sort == 'real' and z.is_int():
                z = z3.ToReal(z)
            self.cache[a] = z
            return z
        nm = '%s_%d' % (k, a.id)
        z = z3.Int(nm) if a.sort == 'int' else z3.Real(nm)
        self.cache[a] = z
        self.atoms[a] = z
        if k == 'recip':
            q = self.poly(a.args[0])
            if q.is_int():
                q = z3.ToReal(q)
            self.side.append(z * q == 1)
        elif k in ('cos', 'sin'):
            o = T.atom('sin' if k == 'cos' else 'cos', a.args)
            if o not in self.cache:
                zo = self.atom(o)
                self.side.append(z * z + zo * zo == 1)
                self.side.append(z3.And(z <= 1, z >= -1, zo <= 1, zo >= -1))
        elif k == 'sqrt':
            q = self.poly(a.args[0])
            if q.is_int():
                q = z3.ToReal(q)
            self.side.append(z3.And(z >= 0, z * z == q))
        elif k == 'pi':
            self.side.append(z3.And(z > z3.RealVal('3.14159'), z < z3.RealVal('3.1416')))
        elif k == 'el' and str(a.args[0]).startswith('len:'):
            self.side.append(z >= (0 if str(a.args[0]).startswith('len:ws') else 1))
        elif k == 'el' and str(a.args[0]).startswith('cnt:'):
            self.side.append(z >= 0)
        elif k == 'par':
            self.side.append(z3.Or(z == 1, z == -1))
        elif k == 'app' and a.args[0] == 'fdiv':
            x, y = self.poly(a.args[1][0]), self.poly(a.args[1][1])
            if x.is_int() and y.is_int():
                self.side.append(z3.Implies(y > 0, z3.And(z * y <= x, x < z * y + y)))
        elif k == 'app' and a.args[0] == 'floor':
            x = self.poly(a.args[1][0])
            if x.is_int():
                x = z3.ToReal(x)
            self.side.append(z3.And(z3.ToReal(z) <= x, x < z3.ToReal(z) + 1))
        return z

    def cond(self, c):
        if isinstance(c, bool):
            return z3.BoolVal(c)
        if c in self.cache:
            return self.cache[c]
        o = c.op
        if o == 'eq':
            r = self.poly(c.args[0]) == 0
        elif o == 'lt':
            r = self.poly(c.args[0]) < 0
        elif o == 'le':
            r = self.poly(c.args[0]) <= 0
        elif o == 'not':
            r = z3.Not(self.cond(c.args[0]))
        elif o == 'and':
            r = z3.And(*[self.cond(x) for x in c.args])
        elif o == 'or':
            r = z3.Or(*[self.cond(x) for x in c.args])
        else:
            r = z3.Bool('b_%d' % (abs(hash(c)) % 10 ** 15))
            self.cache[c] = r
            if o == 'forall':
                # instantiate at index terms is left to the caller
                pass
            return r
        self.cache[c] = r
        return r


_exports = {}


def export(c):
    """(z3 formula, side conditions, atoms, cache) of one condition; memoised, since z3 constants are named after the interned atoms"""
    r = _exports.get(c)
    if r is None:
        ex = Exp()
        f = ex.cond(c)
        if len(_exports) > 30000:
            _exports.clear()
        r = _exports[c] = (f, ex.side, ex.atoms, {k: z for k, z in ex.cache.items() if isinstance(k, Cond) and k.op in ('batom', 'forall')})
    return r


def z3_check(conds, timeout=4000, model=False):
    """returns 'unsat' | 'sat' | 'unknown' (and model dict atom->Fraction if sat and asked)"""
    t0 = time.time()
    STATS['z3_calls'] += 1
    s = z3.Solver()
    s.set('timeout', timeout)
    fs, side, atoms, bools = [], {}, {}, {}
    for c in conds:
        if c is True:
            continue
        if c is False:
            return ('unsat', None) if model else 'unsat'
        f, sd, at, bl = export(c)
        fs.append(f)
        for x in sd:
            side[x.get_id()] = x
        if model:
            atoms.update(at)
            bools.update(bl)
    s.add(*fs)
    s.add(*side.values())
    r = s.check()
    STATS['z3_time'] += time.time() - t0
    rs = str(r)
    if not model:
        return rs
    md = None
    if rs == 'sat':
        m = s.model()
        md = {}
        for a, z in atoms.items():
            v = m.eval(z, model_completion=False)
            if z3.is_int_value(v):
                md[a] = Fraction(v.as_long())
            elif z3.is_rational_value(v):
                md[a] = v.as_fraction()
            elif z3.is_algebraic_value(v):
                md[a] = Fraction(v.approx(20).as_fraction())
        for c, z in bools.items():
            if True:
                v = m.eval(z, model_completion=False)
                if z3.is_true(v):
                    md[c] = True
                elif z3.is_false(v):
                    md[c] = False
    return rs, md


def cvc5_check(conds, timeout=8000):
    try:
        import cvc5
        s = z3.Solver()
        ex = Exp()
        s.add(*[ex.cond(c) for c in conds if c is not True])
        s.add(*ex.side)
        txt = '(set-logic ALL)\n' + s.to_smt2()
        tm = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
        slv = cvc5.Solver(tm) if tm else cvc5.Solver()
        slv.setOption('tlimit-per', str(timeout))
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'x')
        sm = p.getSymbolManager()
        res = 'unknown'
        while True:
            cmd = p.nextCommand()
            if cmd.isNull():
                break
            out = cmd.invoke(slv, sm)
            if 'unsat' in str(out):
                res = 'unsat'
            elif str(out).strip() == 'sat':
                res = 'sat'
        return res
    except Exception:
        return 'unknown'


# ------------------------------------------------------------------ feasibility
_feas = {}


def feasible(conds):
    """False only when the conjunction is proved unsatisfiable"""
    cs = []
    for c in conds:
        if c is False:
            return False
        if c is True:
            continue
        cs.append(c)
    k = frozenset(cs)
    if k in _feas:
        return _feas[k]
    for c in cs:
        if c_not(c) in k:
            _feas[k] = False
            return False
    r = all(_comp_sat(g) for g in components(cs + theory_facts(cs)))
    _feas[k] = r
    return r


_comp = {}


def _comp_sat(g):
    k = frozenset(g)
    if k not in _comp:
        _comp[k] = z3_check(list(k) if len(g) != len(k) else g, timeout=1500) != 'unsat'
    return _comp[k]


def components(cs):
    """conditions grouped so that different groups have no unknown in common: the conjunction is satisfiable exactly when every
    group is"""
    groups = []         # [names, conds]
    for c in cs:
        if c is True:
            continue
        if c is False:
            return [[False]]
        ns = _names(c)
        hit = [g for g in groups if not ns.isdisjoint(g[0])]
        if not hit:
            groups.append([set(ns), [c]])
            continue
        g = hit[0]
        for h in hit[1:]:
            g[0] |= h[0]
            g[1] += h[1]
            groups = [x for x in groups if x is not h]
        g[0] |= ns
        g[1].append(c)
    return [g[1] for g in groups]


_nm = {}


def _names(c):
    r = _nm.get(c)
    if r is None:
        f, side, at, bl = export(c)
        seen, out, work = set(), set(), [f] + list(side)
        while work:
            x = work.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            ch = x.children()
            if ch:
                work.extend(ch)
            elif x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
        if len(_nm) > 30000:
            _nm.clear()
        r = _nm[c] = frozenset(out)
    return r


_inst = {}


def theory_facts(conds, goal=()):
    """instantiate forall facts at the index terms occurring in the other conditions"""
    out = []
    fa = []
    work = [c for c in conds if isinstance(c, Cond)]
    while work:
        c = work.pop()
        if c.op == 'and':
            work.extend(x for x in c.args if isinstance(x, Cond))
        elif c.op == 'forall':
            fa.append(c)
    if not fa:
        return out
    idx = {ZERO}
    for a in all_atoms(tuple(conds) + (goal,)):
        if a.kind == 'el':
            for x in a.args[1]:
                if not any(v.startswith('#') for v in x.vars()):
                    idx.add(x)
    for f in fa:
        upper, lvl, body = f.args
        for x in sorted(idx, key=lambda x: (len(str(x)), str(x)))[:14]:
            r = _inst.get((f, x))
            if r is None:
                if len(_inst) > 30000:
                    _inst.clear()
                r = _inst[(f, x)] = c_or(c_lt(x, 0), c_le(upper, x), subst_cond(body, {bname(lvl): x}))
            if r is not True:
                out.append(r)
    return out


def entails(conds, c, timeout=4000):
    if c is True:
        return True
    if c is False:
        return not feasible(conds)
    if isinstance(c, Cond) and c in conds:
        return True
    if isinstance(c, Cond) and c.op == 'and':
        return all(entails(conds, x, timeout) for x in c.args)
    cs = list(conds) + [c_not(c)]
    if not feasible(cs):
        return True
    return False


# ------------------------------------------------------------------ equalities in the path condition
def eq_substitution(conds):
    """variables solved from equations in the path condition: dict name -> Poly"""
    env = {}
    work = [c for c in conds if isinstance(c, Cond)]
    flat = []
    for c in work:
        flat.extend(c.args if c.op == 'and' else [c])
    les = {c.args[0] for c in flat if isinstance(c, Cond) and c.op == 'le'}
    if len(les) > 1:
        flat.extend(c_eq(q, 0) for q in sorted(les, key=str) if -q in les)
    for c in flat:
        if not isinstance(c, Cond) or c.op != 'eq':
            continue
        p = subst(c.args[0], env)
        for m, k in sorted(p.t.items(), key=lambda x: [(-a.id, e) for a, e in x[0]]):
            if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'var':
                a = m[0][0]
                rest = p - Poly({m: k})
                if a.args[0] in rest.vars():
                    continue
                sol = rest.scale(-1 / k)
                if a.sort == 'int' and not sol.is_int():
                    continue
                env = {n: subst(q, {a.args[0]: sol}) for n, q in env.items()}
                env[a.args[0]] = sol
                break
    return env


def find_ite(p, deep=False):
    """first ite atom occurring outside binders"""
    seen = set()
    stack = [p]
    while stack:
        x = stack.pop()
        if isinstance(x, Poly):
            for m in x.t:
                for a, e in m:
                    if a in seen:
                        continue
                    seen.add(a)
                    if a.kind == 'ite':
                        # innermost condition first
                        inner = find_ite(tuple(a.args))
                        return inner or a
                    if a.kind != 'sum':
                        stack.append(a.args)
        elif isinstance(x, Cond):
            if x.op != 'forall':
                stack.append(x.args)
        elif isinstance(x, tuple):
            stack.extend(x)
    return None


def resolve_ite(p, cond, val):
    """replace ite atoms with condition `cond` by their branch"""
    def f(a):
        if a.kind == 'ite':
            c = a.args[0]
            if c == cond:
                return rp(a.args[1] if val else a.args[2])
            return ite(rc(c), rp(a.args[1]), rp(a.args[2]))
        if a.kind in ('var', 'pi'):
            return None
        if a.kind == 'sum':
            return None
        if a.kind == 'opq':
            return None
        q = T.rebuild(a, rany)
        return q

    def rp(q):
        return map_poly(q, f)

    def rc(c):
        if isinstance(c, bool):
            return c
        if c == cond:
            return val
        if c == c_not(cond):
            return not val
        if c.op in ('eq', 'lt', 'le'):
            q = rp(c.args[0])
            return {'eq': c_eq, 'lt': c_lt, 'le': c_le}[c.op](q)
        if c.op == 'not':
            return c_not(rc(c.args[0]))
        if c.op == 'and':
            return c_and(*map(rc, c.args))
        if c.op == 'or':
            return c_or(*map(rc, c.args))
        return c

    def rany(x):
        if isinstance(x, Poly):
            return rp(x)
        if isinstance(x, Cond):
            return rc(x)
        if isinstance(x, tuple):
            return tuple(rany(y) for y in x)
        return x
    return rp(p)


class Budget:
    def __init__(self, secs):
        self.t = time.time() + secs

    def over(self):
        return time.time() > self.t


def _simp_sums(p, conds):
    """simplify ite conditions inside sums that hold/fail on the whole index range"""
    def f(a):
        if a.kind != 'sum':
            return None
        upper, lvl, body = a.args
        if not any(x.kind == 'ite' for x in all_atoms(body)):
            return None
        v = fresh('s', 'int')
        (nm,) = v.vars()
        b = subst(body, {bname(lvl): v})
        rng = list(conds) + [c_le(0, v), c_lt(v, upper)]
        for _ in range(6):
            it = find_ite(b)
            if it is None:
                break
            c = it.args[0]
            if entails(rng, c):
                b = resolve_ite(b, c, True)
            elif entails(rng, c_not(c)):
                b = resolve_ite(b, c, False)
            else:
                break
        return mk_sum(upper, nm, b)
    return map_poly(p, f)


def _split_parity(p, conds):
    """find an integer variable occurring in par()/fdiv(.,2)/mod conditions, to split into even and odd"""
    for a in all_atoms(p) | all_atoms(tuple(c for c in conds if isinstance(c, Cond))):
        if a.kind == 'par':
            for m in a.args[0].t:
                if len(m) == 1 and m[0][0].kind == 'var' and m[0][1] == 1:
                    return m[0][0].args[0]
        if a.kind == 'app' and a.args[0] == 'fdiv' and a.args[1][1] == P(2):
            for m in a.args[1][0].t:
                if len(m) == 1 and m[0][0].kind == 'var' and m[0][1] == 1 and m[0][0].sort == 'int':
                    return m[0][0].args[0]
    return None


def prove_zero(p, conds, budget=None, depth=0):
    """True iff p == 0 is proved under conds"""
    budget = budget or Budget(20)
    p = P(p)
    if is_zero(p):
        STATS['algebra'] += 1
        return True
    env = eq_substitution(conds)
    if env:
        p2 = subst(p, env)
        if is_zero(p2):
            STATS['algebra'] += 1
            return True
        cs2 = [subst_cond(c, env) for c in conds]
        cs2 = [c for c in cs2 if c is not True]
        if any(c is False for c in cs2):
            return True
        if p2 != p or cs2 != list(conds):
            return prove_zero(p2, cs2, budget, depth)
    if depth > 14 or budget.over():
        return False
    it = find_ite(p)
    if it is not None:
        c = it.args[0]
        STATS['split'] += 1
        for val in (True, False):
            cc = c if val else c_not(c)
            if cc is False:
                continue
            cs = list(conds) + ([cc] if cc is not True else [])
            if not feasible(cs):
                continue
            if not prove_zero(resolve_ite(p, c, val), cs, budget, depth + 1):
                return False
        return True
    p2 = _simp_sums(p, conds)
    if p2 != p:
        return prove_zero(p2, conds, budget, depth + 1)
    v = _split_parity(p, conds)
    if v is not None and depth < 6:
        STATS['split'] += 1
        for r in (0, 1):
            q = fresh('h', 'int')
            e = {v: q * 2 + r}
            cs = [subst_cond(c, e) for c in conds if isinstance(c, Cond)]
            if any(c is False for c in cs) or not feasible([c for c in cs if c is not True]):
                continue
            if not prove_zero(subst(p, e), [c for c in cs if c is not True], budget, depth + 1):
                return False
        return True
    q = clear_denoms(p)
    if len(q.t) > 400:
        return False
    cs = [c for c in conds if isinstance(c, Cond)]
    if len(q.t) > 3 and quick_nonzero(p, cs):
        STATS['numeric'] += 1
        return False
    r = z3_check(cs + theory_facts(cs, q) + [c_not(c_eq(q))] if not isinstance(c_eq(q), bool) else [True], timeout=3000)
    if r == 'unsat':
        STATS['z3'] += 1
        return True
    return False


def prove_cond(c, conds, budget=None, depth=0):
    """True iff c is proved under conds"""
    budget = budget or Budget(20)
    if c is True:
        return True
    if c is False:
        return not feasible(conds)
    if c.op == 'and':
        return all(prove_cond(x, conds, budget, depth + 1) for x in c.args)
    if c.op == 'eq':
        if prove_zero(c.args[0], conds, budget, depth):
            return True
        return False
    if c.op == 'forall':
        upper, lvl, body = c.args
        v = fresh('k', 'int')
        b = subst_cond(body, {bname(lvl): v})
        return prove_cond(b, list(conds) + [c_le(0, v), c_lt(v, upper)], budget, depth + 1)
    cs = [x for x in conds if isinstance(x, Cond)]
    neg = c_not(c)
    r = z3_check(cs + theory_facts(cs + [c]) + [neg], timeout=5000)
    if r == 'unsat':
        STATS['z3'] += 1
        return True
    if r == 'unknown':
        r = cvc5_check(cs + [neg])
        if r == 'unsat':
            STATS['cvc5'] += 1
            return True
    return False


def prove_iff(a, b, conds, budget=None):
    if a == b:
        STATS['algebra'] += 1
        return True
    ca = list(conds) + ([a] if a is not True else [])
    cb = list(conds) + ([b] if b is not True else [])
    if (a is False or prove_cond(b, ca, budget)) and (b is False or prove_cond(a, cb, budget)):
        return True
    na, nb = c_not(a), c_not(b)     # the same equivalence between the negations, where these are the conjunctions
    if sum(isinstance(x, Cond) and x.op in ('and', 'forall') for x in (na, nb)) > sum(isinstance(x, Cond) and x.op in ('and', 'forall') for x in (a, b)):
        return prove_iff(na, nb, conds, budget)
    return False


# ------------------------------------------------------------------ numeric evaluation
def bardell_If(*v):
    import os
    import sys
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness')
    if d not in sys.path:
        sys.path.append(d)
    from bardell import If
    return If(*v)


class NoVal(Exception):
    pass


class Ev:
    """numeric assignment; undetermined symbols are drawn from `dom` on demand"""

    def __init__(self, seed=0, dom=None, fixed=None):
        self.rng = random.Random(seed)
        self.seed = seed
        self.dom = dom or {}
        self.vals = dict(fixed or {})
        self.bound = {}
        self.bools = {}
        self.over = {}      # atom -> value overrides (from a model)

    def draw(self, name, idx, sort):
        base = name.split('$')[0]
        g = self.dom.get(name) or self.dom.get(base)
        if g is not None:
            return g(self.rng, *idx)
        if sort == 'int':
            return self.rng.randint(0, 6) if self.seed % 3 else self.rng.randint(1, 6)
        if self.seed >= 7000 and self.seed % 2:
            return round(self.rng.uniform(0.1, 2), 3)
        return round(self.rng.uniform(-2, 2), 3)

    def get(self, key, sort):
        if key not in self.vals:
            self.vals[key] = self.draw(key[0], key[1], sort)
        return self.vals[key]

    def poly(self, p):
        r = 0.0 if not p.is_int() else 0
        for m, c in p.t.items():
            v = float(c) if c.denominator != 1 else int(c)
            for a, e in m:
                x = self.atom(a)
                try:
                    v = v * (x ** e) if e != 1 else v * x
                except (ZeroDivisionError, OverflowError):
                    raise NoVal()
            r += v
        return r

    def atom(self, a):
        k = a.kind
        if k == 'var':
            n = a.args[0]
            if n in self.bound:
                return self.bound[n]
            return self.get((n, ()), a.sort)
        if k == 'pi':
            return math.pi
        if k == 'el':
            idx = tuple(self._int(self.poly(x)) for x in a.args[1])
            v = self.get((a.args[0], idx), a.sort)
            n = str(a.args[0])
            if n[:4] in ('len:', 'cnt:'):
                return abs(int(v)) + (0 if n.startswith('len:ws') else 1)
            return v
        if k == 'cos':
            return math.cos(self.poly(a.args[0]))
        if k == 'sin':
            return math.sin(self.poly(a.args[0]))
        if k == 'recip':
            d = self.poly(a.args[0])
            if abs(d) < 1e-300:
                raise NoVal()
            return 1.0 / d
        if k == 'sqrt':
            d = self.poly(a.args[0])
            if d < 0:
                raise NoVal()
            return math.sqrt(d)
        if k == 'par':
            return -1 if self._int(self.poly(a.args[0])) % 2 else 1
        if k == 'ite':
            return self.poly(a.args[1] if self.cond(a.args[0]) else a.args[2])
        if k == 'sum':
            u, lvl, body = a.args
            n = self._int(self.poly(u))
            if n > 3000:
                raise NoVal()
            r = 0
            old = self.bound.get(bname(lvl))
            for j in range(n):
                self.bound[bname(lvl)] = j
                r += self.poly(body)
            if old is None:
                self.bound.pop(bname(lvl), None)
            else:
                self.bound[bname(lvl)] = old
            return r
        if k == 'app':
            name = a.args[0]
            args = a.args[1]
            if name == 'fdiv':
                y = self.poly(args[1])
                if y == 0:
                    raise NoVal()
                return math.floor(self.poly(args[0]) / y)
            if name == 'floor':
                return math.floor(self.poly(args[0]))
            vals = tuple(self._key(x) for x in args)
            if name == 'I' and all(isinstance(x, int) for x in vals) and max(vals) < 60 and min(vals) >= 0:
                return bardell_If(*vals)        # the exact integral, so that identities between integrals hold
            return self.get((name, vals), a.sort)
        if k == 'opq':
            if a.args[0].startswith('inv') and a.args[0][3:].isdigit():
                flat, i, j = a.args[1]
                n = int(a.args[0][3:])
                return self._inverse(tuple(float(self.poly(P(x))) for x in flat), n)[i][j]
            return self.get((a.args[0], self._key(a.args[1])), a.sort)
        raise NoVal(k)

    def _inverse(self, flat, n):
        key = ('\0inverse', flat)
        if key not in self.vals:
            M = [list(flat[n * i:n * i + n]) + [float(i == j) for j in range(n)] for i in range(n)]
            big = max(abs(x) for x in flat) or 1.0
            for c in range(n):
                p = max(range(c, n), key=lambda r: abs(M[r][c]))
                if abs(M[p][c]) < 1e-6 * big:
                    raise NoVal()
                M[c], M[p] = M[p], M[c]
                d = M[c][c]
                M[c] = [x / d for x in M[c]]
                for r in range(n):
                    if r != c and M[r][c]:
                        f = M[r][c]
                        M[r] = [x - f * y for x, y in zip(M[r], M[c])]
            self.vals[key] = [r[n:] for r in M]
        return self.vals[key]

    def _key(self, x):
        if isinstance(x, Poly):
            v = self.poly(x)
            return round(v, 9) if isinstance(v, float) else v
        if isinstance(x, Cond):
            return self.cond(x)
        if isinstance(x, tuple):
            return tuple(self._key(y) for y in x)
        return x

    def _int(self, v):
        r = round(v)
        if abs(v - r) > 1e-6:
            raise NoVal()
        return int(r)

    def cond(self, c):
        if isinstance(c, bool):
            return c
        o = c.op
        if o == 'eq':
            return abs(self.poly(c.args[0])) < 1e-12
        if o == 'lt':
            return self.poly(c.args[0]) < 0
        if o == 'le':
            return self.poly(c.args[0]) <= 0
        if o == 'not':
            return not self.cond(c.args[0])
        if o == 'and':
            return all(self.cond(x) for x in c.args)
        if o == 'or':
            return any(self.cond(x) for x in c.args)
        if o == 'forall':
            u, lvl, body = c.args
            n = self._int(self.poly(u))
            old = self.bound.get(bname(lvl))
            r = True
            for j in range(n):
                self.bound[bname(lvl)] = j
                if not self.cond(body):
                    r = False
                    break
            if old is None:
                self.bound.pop(bname(lvl), None)
            else:
                self.bound[bname(lvl)] = old
            return r
        key = ('?' + str(c.args[0]), self._key(c.args[1]))
        if key not in self.vals:
            g = self.dom.get('?' + str(c.args[0]))
            self.vals[key] = g(self.rng) if g else self.rng.random() < 0.5
        return self.vals[key]

    def scale_of(self, p):
        """sum of absolute values of the terms, for a relative comparison"""
        r = 0.0
        for m, c in p.t.items():
            v = abs(float(c))
            for a, e in m:
                v *= abs(self.atom(a)) ** e
            r += v
        return r


def seeds_from_model(conds, dom):
    rs, md = z3_check([c for c in conds if isinstance(c, Cond)], timeout=1500, model=True)
    if rs != 'sat':
        return None
    return md


def find_assignment(conds, dom, tries=60, seed=0, test=None):
    """an Ev satisfying conds (and test(ev) when given)"""
    conds = [c for c in conds if isinstance(c, Cond)]
    env = eq_substitution(conds)

    def ok(ev):
        for n, q in env.items():
            if (n, ()) not in ev.vals:
                try:
                    v = ev.poly(q)
                    ev.vals[(n, ())] = v
                except NoVal:
                    return False
        try:
            for c in conds:
                if not ev.cond(c):
                    return False
            return test(ev) if test else True
        except (NoVal, OverflowError, ValueError, ZeroDivisionError):
            return False

    n = max(4, tries // 2)
    for t in range(n):
        ev = Ev(seed * 1000 + t, dom)
        if ok(ev):
            return ev
    md = seeds_from_model(conds, dom)
    if md:
        for t in range(n):
            ev = Ev(seed * 1000 + 500 + t, dom)
            try:
                for a, v in sorted(((a, v) for a, v in md.items() if isinstance(a, T.Atom)), key=lambda x: x[0].id):
                    val = int(v) if a.sort == 'int' else float(v)
                    if a.kind == 'var':
                        ev.vals[(a.args[0], ())] = val
                for a, v in md.items():
                    if isinstance(a, T.Atom):
                        val = int(v) if a.sort == 'int' else float(v)
                        if a.kind == 'el' and not any(x.startswith('#') for x in a.vars):
                            idx = tuple(ev._int(ev.poly(x)) for x in a.args[1])
                            ev.vals[(a.args[0], idx)] = val
                    elif a.op == 'batom':
                        ev.vals[('?' + str(a.args[0]), ev._key(a.args[1]))] = v
            except (NoVal, OverflowError):
                continue
            if ok(ev):
                return ev
    return None


def quick_nonzero(p, conds):
    """a cheap look for an assignment that satisfies the conditions and makes p nonzero"""
    for t in range(16):
        ev = Ev(7000 + t, {})
        try:
            if not all(ev.cond(c) for c in conds):
                continue
            v, sc = ev.poly(p), ev.scale_of(p)
            if math.isfinite(v) and abs(v) > 1e-6 * max(sc, 1e-30) and abs(v) > 1e-9:
                return True
        except (NoVal, OverflowError, ValueError, ZeroDivisionError):
            continue
    return False


def refute_zero(p, conds, dom, tries=40, seed=0):
    """an assignment satisfying conds under which p is clearly nonzero, or None"""
    p = P(p)

    def test(ev):
        v = ev.poly(p)
        s = ev.scale_of(p)
        return math.isfinite(v) and abs(v) > 1e-6 * max(s, 1e-30) and abs(v) > 1e-12
    return find_assignment(conds, dom, tries, seed, test)


def refute_cond(c, conds, dom, tries=40, seed=0):
    return find_assignment(conds, dom, tries, seed, lambda ev: not ev.cond(c))
