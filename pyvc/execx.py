"""Expressions, statements, calls."""
import ast
import builtins
from .interp import *
from .interp import _has_frozen
from .values import _serial
from . import ops
from .ops import truth, num, is_num, as_seq

_EXC = {n: getattr(builtins, n) for n in dir(builtins)
        if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)}
_BUILTINS = {'len', 'range', 'enumerate', 'zip', 'list', 'tuple', 'dict', 'set', 'str', 'int', 'float', 'bool', 'abs',
             'min', 'max', 'sum', 'sorted', 'reversed', 'isinstance', 'issubclass', 'print', 'type', 'round', 'map', 'filter',
             'any', 'all', 'iter', 'next', 'eval', 'hasattr', 'getattr', 'setattr', 'repr', 'super', 'object', 'property',
             'staticmethod', 'classmethod', 'id', 'pow', 'divmod', 'slice', 'callable', 'complex', 'NotImplemented', 'open',
             'hash', 'format', 'frozenset', 'exec', 'vars', 'chr', 'ord', 'bytes', 'Ellipsis', 'delattr'}


class Exec(Interp):

    # ------------------------------------------------------------------ names
    def lookup(self, name, fr):
        f = fr
        while f is not None:
            if name in f.d and name not in f.globals_:
                v = f.d[name]
                if isinstance(v, Poison):
                    raise PoisonRead(v.loc)
                return v
            if f.local_names and name in f.local_names:
                exc = UnboundLocalError if f is fr else NameError
                raise Raise(PyExc(exc, (name,)))
            f = f.closure
        v = self.mod_get(fr.module, name)
        if v is not MISSING:
            return v
        if name in _EXC:
            return _EXC[name]
        if name in _BUILTINS:
            return Ext('builtins.' + name)
        if name in ('__name__',):
            return fr.module.name
        if name == '__file__':
            return fr.module.path
        raise Raise(PyExc(NameError, (name,)))

    def assign_name(self, name, v, fr):
        if name in fr.globals_:
            m = fr.module
            if not self.initdepth:
                raise Unsupported('write to state that outlives the call')
            fake = Frame(m)
            fake.d = m.d
            self.setk(fake, name, v)
            return
        if name in fr.nonlocals_:
            f = fr.closure
            while f is not None:
                if name in f.d or (f.local_names and name in f.local_names):
                    self.setk(f, name, v)
                    return
                f = f.closure
        self.setk(fr, name, v)

    def mangle(self, name, fr):
        if name.startswith('__') and not name.endswith('__'):
            f = fr
            while f is not None:
                if f.cls is not None:
                    return '_%s%s' % (f.cls.name.lstrip('_'), name)
                f = f.closure
        return name

    # ------------------------------------------------------------------ statements
    def exec_block(self, body, fr):
        for st in body:
            self.exec_stmt(st, fr)

    def exec_stmt(self, st, fr):
        self.steps += 1
        if self.steps > self.step_limit:
            raise Unsupported('step limit')
        k = type(st).__name__
        m = getattr(self, 's_' + k, None)
        if m is None:
            raise Unsupported('statement %s' % k)
        return m(st, fr)

    def s_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value, fr)

    def s_Pass(self, st, fr):
        pass

    def s_Import(self, st, fr):
        for a in st.names:
            if self.is_pkg_mod(a.name):
                self.module(a.name)
                if a.asname:
                    self.setk(fr, a.asname, ModV(self.module(a.name)))
                else:
                    self.setk(fr, a.name.split('.')[0], ModV(self.module(a.name.split('.')[0])))
            else:
                if a.asname:
                    self.setk(fr, a.asname, Ext(a.name))
                else:
                    self.setk(fr, a.name.split('.')[0], Ext(a.name.split('.')[0]))

    def s_ImportFrom(self, st, fr):
        modname = self.resolve_from(fr.module, st)
        for a in st.names:
            if a.name == '*':
                continue
            if self.is_pkg_mod(modname):
                v = self.mod_get(self.module(modname), a.name)
                if v is MISSING:
                    raise Raise(PyExc(ImportError, (a.name,)))
            else:
                v = Ext(modname + '.' + a.name)
            self.setk(fr, a.asname or a.name, v)

    def s_FunctionDef(self, st, fr, cls=None):
        f = self.make_func(st, fr, cls)
        v = f
        for d in reversed(st.decorator_list):
            v = self.apply_deco(d, v, fr)
        self.assign_name(st.name, v, fr)

    def make_func(self, st, fr, cls=None):
        a = st.args
        defaults = [self.ev(x, fr) for x in a.defaults]
        kwd = {}
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kwd[x.arg] = self.ev(d, fr)
        closure = fr if fr.func is not None or fr.closure is not None else None
        if isinstance(fr, ClassFrame):
            closure = fr.closure
            cls = fr.clsv
        elif cls is None:
            cls = None
        f = FuncV(st, fr.module, getattr(st, 'name', '<lambda>'), closure, cls, defaults, kwd)
        f.mcls = cls or fr.cls
        return f

    def apply_deco(self, d, v, fr):
        if isinstance(d, ast.Attribute) and d.attr in ('setter', 'getter', 'deleter'):
            base = self.ev(d.value, fr)
            if isinstance(base, PropV):
                if d.attr == 'setter':
                    return PropV(base.fget, v, base.cached)
                if d.attr == 'getter':
                    return PropV(v, base.fset, base.cached)
            raise Unsupported('decorator')
        dv = self.ev(d, fr)
        if isinstance(dv, Ext):
            if dv.path == 'builtins.property':
                return PropV(v)
            if dv.path == 'builtins.staticmethod':
                return StaticV(v)
            if dv.path == 'builtins.classmethod':
                return ClassMV(v)
            if dv.path == 'functools.cached_property':
                return PropV(v, None, True)
            if dv.path == 'functools.wraps':
                return v
            raise Unsupported('decorator ' + dv.path)
        return self.call(dv, [v], {})

    def s_ClassDef(self, st, fr):
        bases = [self.ev(b, fr) for b in st.bases]
        for b in bases:
            if isinstance(b, Ext) and b.path == 'builtins.object':
                continue
        if st.keywords or st.decorator_list:
            raise Unsupported('class keywords/decorators')
        c = ClassV(st.name, [b for b in bases if isinstance(b, ClassV)], fr.module)
        c.extbases = [b for b in bases if not isinstance(b, ClassV)]
        cf = ClassFrame(fr.module)
        cf.closure = fr if fr.func is not None else None
        cf.clsv = c
        cf.cls = c
        cf.d = c.d
        self.exec_block(st.body, cf)
        self.assign_name(st.name, c, fr)

    def s_Return(self, st, fr):
        raise ReturnSig(self.ev(st.value, fr) if st.value is not None else None)

    def s_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.delk(fr, t.id)
            elif isinstance(t, ast.Subscript):
                ops.delitem(self, self.ev(t.value, fr), self.ev(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                self.delk(o, self.mangle(t.attr, fr))
            else:
                raise Unsupported('del')

    def s_Assign(self, st, fr):
        v = self.ev(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, fr), fr)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), self.mangle(t.attr, fr), v)
        elif isinstance(t, ast.Subscript):
            ops.setitem(self, self.ev(t.value, fr), self.ev(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            items = ops.unpack(self, v, len(t.elts) if not star else None, len(t.elts) - 1 if star else None)
            if star:
                i = star[0]
                k = len(t.elts) - i - 1
                mid = items[i:len(items) - k]
                parts = items[:i] + [ListV((I_(*mid),) if mid else ())] + items[len(items) - k:]
                for x, y in zip(t.elts, parts):
                    self.assign(x.value if isinstance(x, ast.Starred) else x, y, fr)
            else:
                for x, y in zip(t.elts, items):
                    self.assign(x, y, fr)
        else:
            raise Unsupported('assignment target')

    def s_AugAssign(self, st, fr):
        op = type(st.op).__name__
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            self.assign_name(t.id, ops.iop(self, op, cur, self.ev(st.value, fr)), fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            a = self.mangle(t.attr, fr)
            cur = self.getattr(o, a)
            self.setattr(o, a, ops.iop(self, op, cur, self.ev(st.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            i = self.ev(t.slice, fr)
            cur = ops.getitem(self, o, i)
            ops.setitem(self, o, i, ops.iop(self, op, cur, self.ev(st.value, fr)))
        else:
            raise Unsupported('augmented target')

    def s_If(self, st, fr):
        c = truth(self, self.ev(st.test, fr))
        self.branch(c, lambda: self.exec_block(st.body, fr), lambda: self.exec_block(st.orelse, fr), id(st))

    def branch(self, c, then, other, key=None):
        if isinstance(c, bool):
            (then if c else other)()
            return
        if c in self.pc or not feasible(self.pc + [c_not(c)]):
            then()
            return
        if c_not(c) in self.pc or not feasible(self.pc + [c]):
            other()
            return
        # try to merge both branches
        if key not in self.nomerge:
            mark = len(self.journal)
            try:
                if self.run_merged(lambda: self.branch_body(c, then, other), key):
                    return
            except (Unsupported, NoMerge):
                pass
            self.rollback(mark)
        if self.decide(c):
            then()
        else:
            other()

    def branch_body(self, c, then, other):
        if self.decide(c):
            then()
        else:
            other()

    def run_merged(self, fn, key=None):
        """run fn on all local paths and merge the resulting states; False when a path does not end normally"""
        from .merge import merged_run
        return merged_run(self, fn, key)

    def s_While(self, st, fr):
        n = 0
        while True:
            c = truth(self, self.ev(st.test, fr))
            if not isinstance(c, bool):
                if self.entails(c_not(c)):
                    c = False
                elif n and self.entails(c):
                    c = True
                else:
                    mark, sure = len(self.journal), self.entails(c)
                    try:
                        self.counted_while(st, fr)
                        c = False
                    except Unsupported:
                        if not sure:
                            raise
                        self.rollback(mark)
                        c = True
            if not c:
                self.exec_block(st.orelse, fr)
                return
            n += 1
            if n > 5000:
                raise Unsupported('while loop bound')
            try:
                self.exec_block(st.body, fr)
            except BreakSig:
                return
            except ContinueSig:
                continue

    def gap(self, st, fr, sign=None):
        """the integer whose sign decides the test of a while loop: the loop goes on exactly while it is positive"""
        t = st.test
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            l, r = self.ev(t.left, fr), self.ev(t.comparators[0], fr)
            op = type(t.ops[0])
        elif isinstance(t, (ast.Name, ast.Attribute)):
            l, r, op = self.ev(t, fr), 0, ast.NotEq
        else:
            raise Unsupported('while loop with a symbolic condition')
        if not all(isinstance(x, (int, Poly)) and not isinstance(x, bool) and P(x).is_int() for x in (l, r)):
            raise Unsupported('while loop over real numbers')
        l, r = P(l), P(r)
        if op in (ast.Lt, ast.LtE):
            return r - l + (1 if op is ast.LtE else 0)
        if op in (ast.Gt, ast.GtE):
            return l - r + (1 if op is ast.GtE else 0)
        if op is ast.NotEq:
            if sign is not None:
                return (r - l) * sign
            for g in (r - l, l - r):
                if self.entails(c_le(0, g)):
                    return g
        raise Unsupported('while loop with a symbolic condition')

    def counted_while(self, st, fr):
        """a while loop whose test compares integers that approach each other by a constant per iteration: the number of
        iterations is computed from the values before the loop; every iteration then checks that the test holds, and that it fails at the end"""
        from . import merge as M
        from .loops import summarise
        def holds(want):
            c = truth(self, self.ev(st.test, fr))
            if not isinstance(c, bool):
                if self.entails(c if want else c_not(c)):
                    c = want
            if c is not want:
                raise Unsupported('while loop with a symbolic condition')

        g0 = self.gap(st, fr)
        sign = -1 if is_zero(g0 + self.gap(st, fr, 1)) else 1
        if not self.decide(c_lt(0, g0)):
            holds(False)
            return
        # trial of one arbitrary iteration: the variables of the test stand for any values the test allows
        names = [x.id for x in ast.walk(st.test) if isinstance(x, ast.Name) and x.id in fr.d
                 and isinstance(fr.d[x.id], (int, Poly)) and not isinstance(fr.d[x.id], bool) and P(fr.d[x.id]).is_int()]
        stored = {x.id for y in st.body for x in ast.walk(y) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        names = [x for x in dict.fromkeys(names) if x in stored]
        init = {x: P(fr.d[x]) for x in names}
        steps = []

        def once():
            try:
                self.exec_block(st.body, fr)
            except ContinueSig:
                pass

        def trial():
            here = {x: fresh('w', 'int') for x in names}
            for x in names:
                self.setk(fr, x, here[x])
            g = self.gap(st, fr, sign)
            up = {x: g.vars() and T.subst(g, {next(iter(here[x].vars())): ONE}) - T.subst(g, {next(iter(here[x].vars())): ZERO}) for x in names}
            for x in names:
                c = P(up[x] or 0).const()
                if c:
                    self.pc.append(c_le(init[x], here[x]) if c < 0 else c_le(here[x], init[x]))
            self.pc.append(c_lt(0, g))
            once()
            steps.append((g - self.gap(st, fr, sign), {x: P(fr.d[x]) - here[x] if isinstance(fr.d[x], (int, Poly)) else None for x in names}))
        M.path_states(self, trial)
        if not steps or any(s.const() is None or s.const() <= 0 or not is_zero(s - steps[0][0]) for s, _ in steps):
            raise Unsupported('while loop without a constant step')
        d = steps[0][0]
        move = {x: steps[0][1][x] for x in names
                if all(m[x] is not None and m[x].const() is not None and is_zero(m[x] - steps[0][1][x]) for _, m in steps)}
        n = g0 if d.const() == 1 else simp_fdiv(g0 + d - 1, d, self.pc)

        def body(_):
            holds(True)
            once()
        summarise(self, n, lambda k: [('I', [lambda: None])], body, counters=[(fr, x, init[x], move[x]) for x in move])
        holds(False)

    def s_For(self, st, fr):
        it = self.ev(st.iter, fr)
        dead = dead_names(fr)

        def bind(t, x):
            if isinstance(t, ast.Name) and t.id in dead:
                return      # never read: its value cannot be observed
            if isinstance(t, ast.Tuple) and isinstance(x, tuple) and len(x) == len(t.elts) and not any(isinstance(e, ast.Starred) for e in t.elts):
                for e, y in zip(t.elts, x):
                    bind(e, y)
                return
            self.assign(t, x, fr)

        def body(x):
            bind(st.target, x)
            try:
                self.exec_block(st.body, fr)
            except ContinueSig:
                pass
        try:
            self.iterate(it, body, membership_tests(st.target, st.body))
        except BreakSig:
            return
        self.exec_block(st.orelse, fr)

    def s_Break(self, st, fr):
        raise BreakSig()

    def s_Continue(self, st, fr):
        raise ContinueSig()

    def s_Raise(self, st, fr):
        if st.exc is None:
            raise Raise(fr.d.get('#exc') or PyExc(RuntimeError))
        v = self.ev(st.exc, fr)
        if isinstance(v, type) and issubclass(v, BaseException):
            v = PyExc(v)
        elif isinstance(v, Ext):
            v = PyExc(v)
        elif isinstance(v, ClassV):
            v = self.call(v, [], {})
            v = PyExc(v.cls)
        elif isinstance(v, ObjV):
            v = PyExc(v.cls)
        if not isinstance(v, PyExc):
            raise Unsupported('raise of a non-exception')
        raise Raise(v)

    def exc_match(self, exc, t):
        if isinstance(t, tuple):
            return any(self.exc_match(exc, x) for x in t)
        c = exc.cls
        if isinstance(t, type):
            if isinstance(c, type):
                return issubclass(c, t)
            if isinstance(c, Ext):
                return issubclass(self.ext.EXC_BASE.get(c.path, Exception), t)
            if isinstance(c, ClassV):
                for m in c.mro():
                    for b in getattr(m, 'extbases', []):
                        if isinstance(b, type) and issubclass(b, t):
                            return True
                return False
        if isinstance(t, Ext):
            return isinstance(c, Ext) and self.ext.exc_sub(c.path, t.path)
        if isinstance(t, ClassV):
            return isinstance(c, ClassV) and c.issub(t)
        raise Unsupported('except clause')

    def s_Try(self, st, fr):
        nfr = len(self.frames)
        try:
            try:
                self.exec_block(st.body, fr)
            except Raise as r:
                del self.frames[nfr:]
                for h in st.handlers:
                    if h.type is None or self.exc_match(r.exc, self.ev(h.type, fr)):
                        if h.name:
                            self.setk(fr, h.name, r.exc)
                        old = fr.d.get('#exc')
                        self.setk(fr, '#exc', r.exc)
                        self.exec_block(h.body, fr)
                        self.setk(fr, '#exc', old)
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse, fr)
        except (Raise, ReturnSig, BreakSig, ContinueSig):
            self.exec_block(st.finalbody, fr)
            raise
        self.exec_block(st.finalbody, fr)

    def s_With(self, st, fr):
        for it in st.items:
            v = self.ev(it.context_expr, fr)
            if not (isinstance(v, ops.NullCtx)):
                raise Unsupported('with statement')
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        self.exec_block(st.body, fr)

    def s_Assert(self, st, fr):
        c = truth(self, self.ev(st.test, fr))
        if not self.decide(c):
            raise Raise(PyExc(AssertionError))

    def s_Global(self, st, fr):
        pass

    s_Nonlocal = s_Global

    # ------------------------------------------------------------------ expressions
    def ev(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        v = e.value
        if isinstance(v, float):
            if v != v:
                return NAN
            if v in (float('inf'), float('-inf')):
                return INF if v > 0 else NINF
            return Fraction(repr(v)) if 'e' not in repr(v) else Fraction(repr(v))
        if v is Ellipsis:
            return Ext('builtins.Ellipsis')
        return v

    def e_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def elts(self, xs, fr):
        out = []
        for x in xs:
            if isinstance(x, ast.Starred):
                out.extend(ops.unpack(self, self.ev(x.value, fr), None, None))
            else:
                out.append(self.ev(x, fr))
        return out

    def e_List(self, e, fr):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            seq = ()
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    seq = mkseq(seq + as_seq(self, self.ev(x.value, fr)))
                else:
                    seq = mkseq(seq + (I_(self.ev(x, fr)),))
            return ListV(seq)
        vals = self.elts(e.elts, fr)
        return ListV((I_(*vals),) if vals else ())

    def e_Set(self, e, fr):
        return SetV(self.elts(e.elts, fr))

    def e_Dict(self, e, fr):
        d = DictV()
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v, fr)
                if not isinstance(o, DictV):
                    raise Unsupported('** in dict display')
                d.d.update(o.d)
            else:
                d.d[ops.hkey(self, self.ev(k, fr))] = self.ev(v, fr)
        return d

    def e_BinOp(self, e, fr):
        return ops.binop(self, type(e.op).__name__, self.ev(e.left, fr), self.ev(e.right, fr))

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        k = type(e.op).__name__
        if k == 'Not':
            c = truth(self, v)
            return c_not(c)
        return ops.unop(self, k, v)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        vals = e.values
        acc = None
        for i, x in enumerate(vals):
            v = self.ev(x, fr)
            c = truth(self, v)
            last = i == len(vals) - 1
            if isinstance(c, bool):
                if c != isand:      # short circuit
                    if acc is None:
                        return v
                    return False if isand else True
                if last:
                    if acc is None:
                        return v
                    return acc
                continue
            if self.entails(c):
                if not isand:
                    return v if acc is None else True
                continue_val = True
                if last:
                    return v if acc is None else acc
                continue
            if self.entails(c_not(c)):
                if isand:
                    return v if acc is None else False
                if last:
                    return v if acc is None else acc
                continue
            if isinstance(v, Cond) and (last or self.pure(vals[i + 1])):
                acc = c if acc is None else (c_and(acc, c) if isand else c_or(acc, c))
                if last:
                    return acc
                # evaluating the rest unconditionally is fine for pure operands, under the guard
                self.pc.append(c if isand else c_not(c))
                npc = len(self.pc)
                try:
                    rest = ast.BoolOp(op=e.op, values=vals[i + 1:])
                    rv = self.ev(rest, fr) if len(vals) - i - 1 > 1 else self.ev(vals[i + 1], fr)
                    rc = truth(self, rv)
                finally:
                    guard = self.pc.pop(npc - 1) if len(self.pc) >= npc else None
                return c_and(acc, rc) if isand else c_or(acc, rc)
            if self.decide(c) != isand:
                return v
            if last:
                return v
        return isand

    def pure(self, x):
        for n in ast.walk(x):
            if isinstance(n, ast.Call):
                if not (isinstance(n.func, ast.Name) and n.func.id in ('len', 'abs', 'isinstance', 'float', 'int', 'min', 'max')):
                    return False
            if isinstance(n, (ast.NamedExpr, ast.Subscript, ast.Yield, ast.Await)):
                return False
        return True

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = True
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fr)
            v = ops.compare(self, type(op).__name__, left, right)
            if len(e.ops) == 1:
                return v
            c = truth(self, v)
            res = c_and(res, c)
            if res is False:
                return False
            left = right
        return res

    def e_IfExp(self, e, fr):
        c = truth(self, self.ev(e.test, fr))
        if isinstance(c, bool):
            return self.ev(e.body if c else e.orelse, fr)
        if self.entails(c):
            return self.ev(e.body, fr)
        if self.entails(c_not(c)):
            return self.ev(e.orelse, fr)
        mark = len(self.journal)
        if self.pure(e.body) and self.pure(e.orelse):
            npc = len(self.pc)
            try:
                self.pc.append(c)
                a = self.ev(e.body, fr)
                del self.pc[npc:]
                self.pc.append(c_not(c))
                b = self.ev(e.orelse, fr)
                del self.pc[npc:]
                from .merge import merge2
                return merge2(self, c, a, b)
            except (Unsupported, Raise, NoMerge):
                del self.pc[npc:]
                self.rollback(mark)
        if self.decide(c):
            return self.ev(e.body, fr)
        return self.ev(e.orelse, fr)

    def e_Attribute(self, e, fr):
        o = self.ev(e.value, fr)
        return self.getattr(o, self.mangle(e.attr, fr))

    def e_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        return ops.getitem(self, o, self.ev(e.slice, fr))

    def e_Slice(self, e, fr):
        f = lambda x: None if x is None else self.ev(x, fr)
        return SliceV(f(e.lower), f(e.upper), f(e.step))

    def e_JoinedStr(self, e, fr):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                spec = None
                if v.format_spec is not None:
                    spec = self.ev(v.format_spec, fr)
                if v.conversion not in (-1, 115):
                    x = self.ev(v.value, fr)
                    out.append(ops.to_str(self, x, ('!', v.conversion)))
                else:
                    out.append(ops.to_str(self, self.ev(v.value, fr), spec or None))
        return mkstr(out)

    def e_Lambda(self, e, fr):
        return self.make_func(e, fr)

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Starred(self, e, fr):
        raise Unsupported('starred')

    def comp(self, e, fr, add):
        cf = Frame(fr.module, func=fr.func or e, closure=fr if not isinstance(fr, ClassFrame) else fr.closure, cls=fr.cls)
        gens = e.generators
        first = self.ev(gens[0].iter, fr)

        def level(k):
            g = gens[k]
            it = first if k == 0 else self.ev(g.iter, cf)

            def body(x):
                self.assign(g.target, x, cf)

                def inner():
                    if k + 1 < len(gens):
                        level(k + 1)
                    else:
                        add(cf)
                conds = [truth(self, self.ev(c, cf)) for c in g.ifs]
                c = c_and(*conds) if conds else True
                if c is True:
                    inner()
                elif c is not False:
                    self.branch(c, inner, lambda: None)
            self.iterate(it, body, membership_tests(g.target, g.ifs))
        level(0)

    def product_comp(self, e, fr):
        """[(i, j, ..) for .. in A for .. in B]: a rearranged Cartesian product of plain sequences"""
        names = set()

        def targets(t):
            if isinstance(t, ast.Name):
                if t.id in names:
                    return False
                names.add(t.id)
                return True
            return isinstance(t, ast.Tuple) and all(targets(x) for x in t.elts)

        def pure(x):
            return isinstance(x, ast.Constant) or isinstance(x, ast.Name) or isinstance(x, ast.Tuple) and all(pure(y) for y in x.elts)
        if len(e.generators) < 2 or not pure(e.elt):
            return None
        for g in e.generators:
            if g.ifs or not isinstance(g.iter, ast.Name) or g.iter.id in names or not targets(g.target):
                return None
        if any(isinstance(x, ast.Name) and x.id not in names for x in ast.walk(e.elt)):
            return None
        srcs = [self.ev(g.iter, fr) for g in e.generators]
        if not all(isinstance(s, (ListV, RangeV, tuple)) and ops.plain_items(s) for s in srcs) or all(isinstance(s, tuple) or isinstance(s, ListV) and seq_items(s.c) is not None for s in srcs):
            return None
        seq = as_seq(self, LazyIter('product', srcs))

        class Bad(Exception):
            pass

        def bind(t, x, d):
            if isinstance(t, ast.Name):
                d[t.id] = x
            elif isinstance(x, tuple) and len(x) == len(t.elts):
                for a, b in zip(t.elts, x):
                    bind(a, b, d)
            else:
                raise Bad()

        def make(x, d):
            return x.value if isinstance(x, ast.Constant) else d[x.id] if isinstance(x, ast.Name) else tuple(make(y, d) for y in x.elts)

        def item(x):
            d = {}
            for g, y in zip(e.generators, x):
                bind(g.target, y, d)
            return make(e.elt, d)

        def go(s):
            return tuple(I_(*[item(x) for x in p[1]]) if p[0] == 'I' else Piece(('G', p[1], p[2], go(p[3]))) if p[0] == 'G' else
                         Piece(('C', p[1], go(p[2]), go(p[3]))) for p in s)
        try:
            return ListV(go(seq))
        except Bad:
            return None

    def e_ListComp(self, e, fr):
        out = self.product_comp(e, fr)
        if out is not None:
            return out
        out = ListV(())

        def add(cf):
            v = self.ev(e.elt, cf)
            self.setc(out, mkseq(out.c + (I_(v),)))
        self.comp(e, fr, add)
        return out

    def e_GeneratorExp(self, e, fr):
        return self.e_ListComp(e, fr)

    def e_SetComp(self, e, fr):
        l = self.e_ListComp(e, fr)
        it = seq_items(l.c)
        if it is None:
            raise Unsupported('set of unknown size')
        return SetV(it)

    def e_DictComp(self, e, fr):
        out = DictV()

        def add(cf):
            k = self.ev(e.key, cf)
            self.setk(out, ops.hkey(self, k), self.ev(e.value, cf))
        self.comp(e, fr, add)
        return out

    # ------------------------------------------------------------------ attributes
    def getattr(self, o, name):
        if isinstance(o, ObjV):
            p = o.cls.lookup(name)
            if isinstance(p, PropV) and not p.cached:
                return self.call_func(p.fget, [o], {})
            if name in o.d:
                v = o.d[name]
                if self.readlog is not None:
                    self.readlog.add((id(o), name))
                if isinstance(v, Poison):
                    raise PoisonRead(v.loc)
                if isinstance(v, OneOf):
                    i = 0
                    while i < len(v.vals) - 1 and not self.decide(c_bool('pick', '%s.%s' % (o.serial, name), str(i))):
                        i += 1
                    val = v.vals[i]
                    if isinstance(val, Frozen):
                        val = self.thaw(val)
                    if callable(val):
                        val = val(self)
                    self.setk(o, name, val)
                    return val
                return v
            if isinstance(p, PropV):
                v = self.call_func(p.fget, [o], {})
                self.setk(o, name, v)
                return v
            if p is None:
                h = o.cls.lookup('__getattr__')
                if h is not None:
                    raise Unsupported('__getattr__')
                if name == '__class__':
                    return o.cls
                if name == '__dict__':
                    raise Unsupported('__dict__')
                raise Raise(PyExc(AttributeError, (name,)))
            return self.bind(p, o, o.cls)
        if isinstance(o, ClassV):
            if name == '__name__':
                return o.name
            p = o.lookup(name)
            if p is None:
                raise Raise(PyExc(AttributeError, (name,)))
            if isinstance(p, StaticV):
                return p.f
            if isinstance(p, ClassMV):
                return BoundM(o, p.f)
            return p
        if isinstance(o, SuperV):
            mro = o.obj.cls.mro()
            for c in mro[mro.index(o.cls) + 1:]:
                if name in c.d:
                    p = c.d[name]
                    if isinstance(p, PropV):
                        return self.call_func(p.fget, [o.obj], {})
                    return self.bind(p, o.obj, o.obj.cls)
            if name == '__init__':
                return Ext('builtins.object.__init__')
            raise Raise(PyExc(AttributeError, (name,)))
        if isinstance(o, ModV):
            v = self.mod_get(o.mod, name)
            if v is MISSING:
                raise Raise(PyExc(AttributeError, (name,)))
            return v
        if isinstance(o, Ext):
            return self.ext.get_attr(self, o, name)
        return ops.attr(self, o, name)

    def bind(self, p, o, cls):
        if isinstance(p, FuncV):
            return BoundM(o, p)
        if isinstance(p, StaticV):
            return p.f
        if isinstance(p, ClassMV):
            return BoundM(cls, p.f)
        return p

    def setattr(self, o, name, v):
        if isinstance(o, ObjV):
            p = o.cls.lookup(name)
            if isinstance(p, PropV) and not p.cached:
                if p.fset is None:
                    raise Raise(PyExc(AttributeError, (name,)))
                self.call_func(p.fset, [o, v], {})
                return
            self.setk(o, name, v)
        elif isinstance(o, ClassV):
            self.setk(o, name, v)
        elif isinstance(o, ArrV) and name == 'shape':
            raise Unsupported('shape assignment')
        elif isinstance(o, FrameDF):
            raise Unsupported('attribute of DataFrame')
        else:
            raise Unsupported('setattr on %s' % type(o).__name__)

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            f = fr
            while f is not None and f.cls is None:
                f = f.closure
            selfname = f.func.args.args[0].arg
            return SuperV(f.cls, f.d[selfname])
        fn = self.ev(e.func, fr)
        args = self.elts(e.args, fr)
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                if not isinstance(v, DictV):
                    raise Unsupported('** argument')
                for a, b in v.d.items():
                    kw[a] = b
            else:
                kw[k.arg] = v
        if isinstance(fn, Ext) and fn.path in ('builtins.eval', 'builtins.locals', 'builtins.vars'):
            if fn.path == 'builtins.eval':
                return self.do_eval(args, fr)
            raise Unsupported(fn.path)
        return self.call(fn, args, kw)

    _eval_cache = {}

    def do_eval(self, args, fr):
        s = args[0]
        if isinstance(s, SStr) and len(s.p) == 1 and isinstance(s.p[0], Tok) and s.p[0].kind == 'expr':
            return s.p[0].data(self, fr)
        if isinstance(s, ops.ExprStr):
            return s.fn(self, fr)
        if not isinstance(s, str) or len(args) > 1:
            raise Unsupported('eval of a symbolic string')
        t = self._eval_cache.get(s)
        if t is None:
            t = ast.parse(s.strip(), mode='eval')
            self._eval_cache[s] = t
        return self.ev(t.body, fr)

    def call(self, fn, args, kw):
        if isinstance(fn, FuncV):
            return self.call_func(fn, args, kw)
        if isinstance(fn, BoundM):
            return self.call(fn.func, [fn.self_] + list(args), kw)
        if isinstance(fn, ClassV):
            return self.instantiate(fn, args, kw)
        if isinstance(fn, StaticV):
            return self.call(fn.f, args, kw)
        if isinstance(fn, Ext):
            return self.ext.call(self, fn.path, args, kw)
        if isinstance(fn, type) and issubclass(fn, BaseException):
            return PyExc(fn, tuple(args))
        if isinstance(fn, ops.Bound):
            return fn(self, args, kw)
        if isinstance(fn, ObjV):
            m = fn.cls.lookup('__call__')
            if m is not None:
                return self.call(m, [fn] + list(args), kw)
        if callable(fn) and getattr(fn, 'is_handler', False):
            return fn(self, args, kw)
        raise Unsupported('call of %s' % (type(fn).__name__,))

    def instantiate(self, cls, args, kw):
        q = cls.module.name + ':' + cls.name
        h = self.contracts.get(q)
        if h is not None and self.contract_ok(q):
            self.used_contracts.add(q)
            return h(self, args, kw)
        if cls.lookup('__new__') is not None:
            raise Unsupported('__new__')
        o = ObjV(cls)
        init = cls.lookup('__init__')
        if init is not None:
            self.call_func(init, [o] + list(args), kw)
        elif getattr(cls, 'extbases', None) and any(isinstance(b, type) for b in cls.extbases):
            return PyExc(cls, tuple(args))
        return o

    def contract_ok(self, q):
        return q not in getattr(self, 'suspended', set())

    def bind_args(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        d = {}
        args = list(args)
        kw = dict(kw)
        npos = len(names)
        for nme, v in zip(names, args):
            d[nme] = v
        if len(args) > npos:
            if a.vararg is None:
                raise Raise(PyExc(TypeError, ('too many arguments',)))
            d[a.vararg.arg] = tuple(args[npos:])
        elif a.vararg is not None:
            d[a.vararg.arg] = ()
        nd = len(f.defaults)
        for i, nme in enumerate(names):
            if nme in kw:
                if nme in d:
                    raise Raise(PyExc(TypeError, ('multiple values', nme)))
                d[nme] = kw.pop(nme)
            elif nme not in d:
                j = i - (npos - nd)
                if j >= 0:
                    d[nme] = f.defaults[j]
                else:
                    raise Raise(PyExc(TypeError, ('missing argument', nme)))
        for x in a.kwonlyargs:
            if x.arg in kw:
                d[x.arg] = kw.pop(x.arg)
            elif x.arg in f.kwdefaults:
                d[x.arg] = f.kwdefaults[x.arg]
            else:
                raise Raise(PyExc(TypeError, ('missing keyword argument', x.arg)))
        if kw:
            if a.kwarg is None:
                raise Raise(PyExc(TypeError, ('unexpected keyword', tuple(kw))))
            d[a.kwarg.arg] = DictV(kw)
        elif a.kwarg is not None:
            d[a.kwarg.arg] = DictV()
        return d

    def call_func(self, f, args, kw):
        if not isinstance(f, FuncV):
            return self.call(f, args, kw)
        q = f.qual
        h = self.contracts.get(q)
        if h is not None and self.contract_ok(q):
            try:
                d = self.bind_args(f, args, kw)
            except Raise:
                raise
            r = h(self, d)
            if r is not NotImplemented:
                self.used_contracts.add(q)
                return r
        d = self.bind_args(f, args, kw)
        self.executed.add(q)
        fr = Frame(f.module, f.node, f.closure, getattr(f, 'mcls', None) or f.cls)
        ln, gl, nl = local_names(f.node)
        fr.local_names, fr.globals_, fr.nonlocals_ = ln | set(d), gl, nl
        fr.d = d
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise Unsupported('call depth')
        if not self.frames:
            self.base_serial = next(_serial)
        self.frames.append(fr)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, fr)
            if is_generator(f.node):
                return self.run_generator(f, fr)
            if self.explorers and early_return(f.node) and ('call', id(f.node)) not in self.nomerge and self.callmerge < 3:
                self.frames.pop()
                return self.call_merged(f, fr)
            self.exec_block(f.node.body, fr)
            return None
        except ReturnSig as r:
            return r.v
        finally:
            self.depth -= 1
            if self.frames and self.frames[-1] is fr:
                self.frames.pop()

    def call_merged(self, f, fr0):
        """a function with several return statements: its paths are joined into one result where they can be"""
        from .merge import merged_call

        def body():
            fr = Frame(f.module, f.node, f.closure, fr0.cls)
            fr.local_names, fr.globals_, fr.nonlocals_ = fr0.local_names, fr0.globals_, fr0.nonlocals_
            fr.d = dict(args)
            self.frames.append(fr)
            try:
                self.exec_block(f.node.body, fr)
                return None
            except ReturnSig as r:
                return r.v
            finally:
                if self.frames and self.frames[-1] is fr:
                    self.frames.pop()
        args = fr0.d
        mark, npc, nfr = len(self.journal), len(self.pc), len(self.frames)
        ex = Explorer([])
        self.explorers.append(ex)
        self.callmerge += 1
        try:
            try:
                try:
                    v = body()
                finally:
                    self.explorers.pop()
                if not ex.alts:
                    return v        # one path only
            except (Raise, Infeasible):
                if not ex.alts:
                    raise
            self.rollback(mark)
            del self.pc[npc:]
            del self.frames[nfr:]
            try:
                return merged_call(self, body, ('call', id(f.node)))
            except (Unsupported, NoMerge):
                self.rollback(mark)
                del self.pc[npc:]
                del self.frames[nfr:]
        finally:
            self.callmerge -= 1
        return body()

    def run_generator(self, f, fr):
        """eager evaluation of a generator function into a list"""
        out = ListV(())
        fr.d['#yield'] = out
        try:
            self.exec_block(f.node.body, fr)
        except ReturnSig:
            pass
        return out

    def e_Yield(self, e, fr):
        f = fr
        while f is not None and '#yield' not in f.d:
            f = f.closure
        out = f.d['#yield']
        v = self.ev(e.value, fr) if e.value is not None else None
        self.setc(out, mkseq(out.c + (I_(v),)))
        return None

    # ------------------------------------------------------------------ iteration
    def iterate(self, it, body, tests=None):
        from .loops import run_segments, segments, peel_range
        n = len(self.held)
        self.held.append(it)
        try:
            segs = segments(self, it)
            if tests is not None and isinstance(it, RangeV):
                segs = peel_range(self, it, segs, tests)
            run_segments(self, segs, body)
        finally:
            del self.held[n:]


_GEN = {}
_EARLY = {}


def early_return(node):
    r = _EARLY.get(id(node))
    if r is None:
        def walk(n):
            return sum((isinstance(x, ast.Return)) + (0 if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) else walk(x))
                       for x in ast.iter_child_nodes(n))
        last = isinstance(node, ast.FunctionDef) and isinstance(node.body[-1], ast.Return)
        r = _EARLY[id(node)] = (isinstance(node, ast.FunctionDef) and walk(node) > (1 if last else 0), node)
    return r[0]


def is_generator(node):
    r = _GEN.get(id(node))
    if r is None:
        def walk(n):
            for x in ast.iter_child_nodes(n):
                if isinstance(x, (ast.Yield, ast.YieldFrom)):
                    return True
                if not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)) and walk(x):
                    return True
            return False
        r = _GEN[id(node)] = (walk(node), node)
    return r[0]


_DEAD = {}


_MEMB = {}


def membership_tests(target, where):
    """is the loop variable tested for membership (x in ..., x not in ...) there"""
    if not isinstance(target, ast.Name) or not where:
        return None
    k = id(where)
    if k not in _MEMB or _MEMB[k][1] is not where:
        r = any(isinstance(x, ast.Compare) and isinstance(x.left, ast.Name) and x.left.id == target.id
                and any(isinstance(o, (ast.In, ast.NotIn)) for o in x.ops) for w in where for x in ast.walk(w))
        _MEMB[k] = (r or None, where)
    return _MEMB[k][0]


def dead_names(fr):
    """local names of a function that its text never reads"""
    n = fr.func
    if not isinstance(n, ast.FunctionDef):
        return ()
    if n not in _DEAD:
        st, ld = set(), set()
        for x in ast.walk(n):
            if isinstance(x, ast.Name):
                (st if isinstance(x.ctx, ast.Store) else ld).add(x.id)
            elif isinstance(x, (ast.Global, ast.Nonlocal)):
                ld.update(x.names)
        _DEAD[n] = set() if ld & {'locals', 'vars', 'eval', 'exec', 'globals', 'dir'} else st - ld
    return _DEAD[n]


class ClassFrame(Frame):
    pass


class NoMerge(Exception):
    pass


class OneOf:
    """a field that may hold any of several values (each a value or a function interp -> value)"""

    def __init__(self, vals):
        self.vals = list(vals)
