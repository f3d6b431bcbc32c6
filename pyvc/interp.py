"""Symbolic interpreter for the Python subset used by composipy: executes the AST of the real source."""
import ast
import warnings
warnings.simplefilter('ignore', SyntaxWarning)
import builtins
import os
from fractions import Fraction
from .terms import *
from . import terms as T
from .values import *
from .values import _serial
from .prove import feasible, entails, prove_zero, prove_cond, Budget

MISSING = object()


class ReturnSig(Exception):
    def __init__(self, v):
        self.v = v


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class Infeasible(Exception):
    pass


class UnknownElem(Unsupported):
    """an element of the sequence `name`, unknown at the start of a loop iteration, is read"""

    def __init__(self, msg, name):
        super().__init__(msg)
        self.name = name


class PoisonRead(Exception):
    def __init__(self, loc):
        self.loc = loc


class Poison:
    def __init__(self, loc):
        self.loc = loc


_PARSED = {}


class Module:
    def __init__(self, name, path, interp):
        self.name, self.path, self.interp = name, path, interp
        with open(path, encoding='utf-8') as f:
            self.src = f.read()
        key = (path, self.src)
        if key not in _PARSED:
            _PARSED[key] = ast.parse(self.src)
        self.tree = _PARSED[key]      # shared, so that statement identities are stable within a process
        self.d = {}
        self.state = 0
        self.stars = []
        self.names = set()
        for st in self.tree.body:
            for n in ast.walk(st) if isinstance(st, (ast.If, ast.Try, ast.With, ast.For)) else [st]:
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    self.names.add(n.name)
                elif isinstance(n, ast.Assign):
                    for t in n.targets:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name):
                                self.names.add(x.id)
                elif isinstance(n, (ast.AnnAssign, ast.AugAssign)) and isinstance(n.target, ast.Name):
                    self.names.add(n.target.id)
                elif isinstance(n, ast.Import):
                    for a in n.names:
                        self.names.add((a.asname or a.name).split('.')[0])
                elif isinstance(n, ast.ImportFrom):
                    for a in n.names:
                        if a.name == '*':
                            self.stars.append(interp.resolve_from(self, n))
                        else:
                            self.names.add(a.asname or a.name)


class Frame(Cell):
    def __init__(self, module, func=None, closure=None, cls=None):
        super().__init__()
        self.d = {}
        self.module, self.func, self.closure, self.cls = module, func, closure, cls
        self.local_names = None
        self.globals_ = set()
        self.nonlocals_ = set()


_loc_cache = {}


def local_names(node):
    """names assigned in a function body"""
    k = id(node)
    if k in _loc_cache:
        return _loc_cache[k][0]
    names, gl, nl = set(), set(), set()

    def visit(n, top=False):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and not top:
            names.add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) and not top:
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        if isinstance(n, ast.Global):
            gl.update(n.names)
        if isinstance(n, ast.Nonlocal):
            nl.update(n.names)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split('.')[0])
        for c in ast.iter_child_nodes(n):
            visit(c)
    body = node.body if isinstance(node.body, list) else [node.body]
    for st in body:
        visit(st)
    r = (names - gl - nl, gl, nl)
    _loc_cache[k] = (r, node)
    return r


class Explorer:
    def __init__(self, prefix):
        self.prefix = list(prefix)
        self.pos = 0
        self.taken = []
        self.alts = []


class Interp:
    def __init__(self, root, pkg='composipy'):
        self.root, self.pkg = root, pkg
        self.modules = {}
        self.journal = []
        self.pc = []
        self.explorers = []
        self.contracts = {}
        self.readlog = None
        self.used_contracts = set()
        self.executed = set()
        self.assumed = set()          # definedness assumptions
        self.pending_oneof = {}
        self.memo_thaw = {}
        self.depth = 0
        self.notes = set()
        self.fx = ListV(())           # recorded external effects (plots, optimiser calls)
        self.nomerge = set()
        self.merge_key = None
        self.frames = []
        self.callmerge = 0
        self.held = []          # objects being iterated over
        self.initdepth, self.statics = 0, []    # serial ranges of objects made by module and class bodies
        self.base_serial = 0    # objects made before the outermost call in progress may be known outside
        self.steps = 0
        self.step_limit = 3000000
        self.cellmark = 0
        self.hooks = {}
        from . import ext
        self.ext = ext

    # ------------------------------------------------------------------ modules
    def module_path(self, name):
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py'), True
        return p + '.py', False

    def module(self, name):
        if name not in self.modules:
            path, _ = self.module_path(name)
            if not os.path.exists(path):
                raise Raise(PyExc(ModuleNotFoundError, (name,)))
            m = Module(name, path, self)
            self.modules[name] = m
        return self.modules[name]

    def resolve_from(self, mod, node):
        if node.level == 0:
            return node.module
        path, isp = self.module_path(mod.name)
        parts = mod.name.split('.')
        if not isp:
            parts = parts[:-1]
        if node.level > 1:
            parts = parts[:-(node.level - 1)]
        return '.'.join(parts + ([node.module] if node.module else []))

    def is_pkg_mod(self, name):
        return name == self.pkg or name.startswith(self.pkg + '.')

    def mod_get(self, mod, name, default=MISSING):
        if name in mod.d:
            return mod.d[name]
        if name in mod.names:
            self.run_module(mod)
            if name in mod.d:
                return mod.d[name]
        for s in reversed(mod.stars):
            if self.is_pkg_mod(s):
                m = self.module(s)
                if self.exports(m, name):
                    v = self.mod_get(m, name, MISSING)
                    if v is not MISSING:
                        return v
            else:
                e = Ext(s + '.' + name)
                if self.ext.known(e.path):
                    return e
        path, isp = self.module_path(mod.name)
        if isp:
            sub = mod.name + '.' + name
            if os.path.exists(self.module_path(sub)[0]):
                return ModV(self.module(sub))
        return default

    def exports(self, m, name):
        if '__all__' in m.names:
            self.run_module(m)
            a = m.d.get('__all__')
            if isinstance(a, ListV):
                it = seq_items(a.c)
                return it is None or name in it
        return not name.startswith('_')

    def run_module(self, mod):
        if mod.state:
            return
        mod.state = 1
        fr = Frame(mod)
        fr.d = mod.d
        saved = self.explorers, self.pc
        self.explorers, self.pc = [], []
        mark = len(self.journal)
        lo = next(_serial)
        self.initdepth += 1
        try:
            self.exec_block(mod.tree.body, fr)
        finally:
            self.initdepth -= 1
            self.statics.append((lo, next(_serial)))
            self.explorers, self.pc = saved
            del self.journal[mark:]     # module initialisation is never rolled back

    # ------------------------------------------------------------------ heap
    def shared(self, obj):
        """False only when the object, created during the current outermost call, is referenced from one place"""
        if obj.serial < self.base_serial:
            return True
        n, seen = 0, set()
        work = [fr for fr in self.frames] + [c for c, _, _ in self.journal if not isinstance(c, ClassV)] + list(self.held)
        n += sum(1 for x in self.held if x is obj)
        while work:
            x = work.pop()
            if id(x) in seen:
                continue
            seen.add(id(x))
            if isinstance(x, (tuple, list)):
                ch = x
            elif isinstance(x, dict):
                ch = x.values()
            elif isinstance(x, (str, bytes, int, float, Fraction, Poly, Cond, SStr, Tok, ClassV, Module)) or x is None:
                continue
            elif isinstance(x, Frame):
                ch = list(x.d.values()) + [x.closure]
            elif isinstance(x, (Cell, Frozen)) or type(x).__module__.startswith('pyvc.') and hasattr(x, '__dict__'):
                if isinstance(x, ArrV) and x.base is not None and x.root is obj:
                    return True
                ch = [v for k, v in x.__dict__.items() if k not in ('cls', 'node', 'module', 'standin', 'func')]
                if isinstance(x, Frozen):
                    ch = [x.data]
            else:
                continue
            for y in ch:
                if y is obj:
                    n += 1
                    if n > 1:
                        return True
                elif not isinstance(y, (str, int, float, Poly, Cond, SStr)) and y is not None:
                    work.append(y)
        return False

    def no_static(self, cell):
        """objects made when a module was loaded outlive every call: a write makes later calls depend on the history, which the
        contracts (whose pre-states know only the objects at hand) do not describe"""
        if not self.initdepth:
            n = cell.serial
            for lo, hi in self.statics:
                if lo < n < hi:
                    raise Unsupported('write to state that outlives the call')

    def setc(self, cell, val):
        self.no_static(cell)
        if getattr(cell, 'readonly', False):
            raise Unsupported('write to a merged view')
        st = cell.__dict__.get('standin')
        if st is not None:
            st[0].mutated.add(st[1])
        self.no_twin(cell)
        self.journal.append((cell, None, cell.c))
        cell.c = val

    def setk(self, cell, key, val):
        self.no_static(cell)
        if not isinstance(cell, Frame):
            self.no_twin(cell, key)
        self.journal.append((cell, key, cell.d.get(key, MISSING)))
        cell.d[key] = val

    def delk(self, cell, key):
        self.no_static(cell)
        if not isinstance(cell, Frame):
            self.no_twin(cell, ('deleted',))
        self.journal.append((cell, key, cell.d[key]))
        del cell.d[key]

    def setmemo(self, cell, val):
        self.journal.append((cell, ('memo',), cell.__dict__.get('memo')))
        cell.memo = val

    def rollback(self, mark):
        j = self.journal
        while len(j) > mark:
            cell, key, old = j.pop()
            if key is None:
                cell.c = old
            elif key == ('memo',):
                cell.memo = old
            elif old is MISSING:
                cell.d.pop(key, None)
            else:
                cell.d[key] = old

    def writes_since(self, mark):
        out = {}
        for cell, key, old in self.journal[mark:]:
            if key == ('memo',):
                continue
            if (id(cell), key) not in out:
                out[(id(cell), key)] = (cell, key, old)
        return list(out.values())

    # ------------------------------------------------------------------ decisions
    def assume(self, c):
        if c is True:
            return
        if c is False or not feasible(self.pc + [c]):
            raise Infeasible()
        self.pc.append(c)

    def entails(self, c):
        return entails(self.pc, c)

    def decide(self, c):
        """truth of a condition on the current path; forks when both outcomes are possible"""
        if isinstance(c, bool):
            return c
        if c in self.pc:
            return True
        n = c_not(c)
        if n in self.pc:
            return False
        ft = feasible(self.pc + [c])
        if not ft:
            return False
        if not feasible(self.pc + [n]):
            return True
        if not self.explorers:
            raise Unsupported('symbolic decision outside an exploration: %s' % (c,))
        ex = self.explorers[-1]
        if ex.pos < len(ex.prefix):
            v = ex.prefix[ex.pos]
        else:
            v = True
            ex.prefix.append(True)
            ex.alts.append(len(ex.prefix) - 1)
        ex.pos += 1
        self.pc.append(c if v else n)
        return v

    def choose(self, k, label=''):
        """nondeterministic choice among k alternatives (decided by the explorer)"""
        if k <= 1:
            return 0
        ex = self.explorers[-1]
        for i in range(k - 1):
            if ex.pos < len(ex.prefix):
                v = ex.prefix[ex.pos]
            else:
                v = True
                ex.prefix.append(True)
                ex.alts.append(len(ex.prefix) - 1)
            ex.pos += 1
            if v:
                return i
        return k - 1

    def explore(self, fn, limit=400, collect=None):
        """run fn() on every path; returns [(path conditions added, outcome)] with the heap rolled back.
        outcome = ('ok', value) | ('raise', PyExc) ; collect(outcome) is called before the rollback"""
        results = []
        todo = [[]]
        mark = len(self.journal)
        npc = len(self.pc)
        while todo:
            prefix = todo.pop()
            ex = Explorer(prefix)
            nfr = len(self.frames)
            self.explorers.append(ex)
            try:
                try:
                    out = ('ok', fn())
                except Raise as r:
                    out = ('raise', r.exc)
                except Infeasible:
                    out = None
                except ReturnSig as r:
                    out = ('return', r.v)
                except BreakSig:
                    out = ('break', None)
                except ContinueSig:
                    out = ('continue', None)
            except BaseException:
                self.rollback(mark)
                del self.pc[npc:]
                raise
            finally:
                self.explorers.pop()
                del self.frames[nfr:]
            conds = self.pc[npc:]
            try:
                if out is not None:
                    results.append((list(conds), collect(out) if collect else out))
            finally:
                self.rollback(mark)
                del self.pc[npc:]
            for a in ex.alts:
                todo.append(ex.prefix[:a] + [False])
            if len(results) > limit:
                raise Unsupported('too many paths')
        return results

    # ------------------------------------------------------------------ freezing
    def freeze(self, v, since, memo=None):
        """replace heap cells created after serial `since` by immutable templates"""
        if memo is None:
            memo = {}
        if isinstance(v, Piece):
            k = v[0]
            if k == 'I':
                return I_(*[self.freeze(x, since, memo) for x in v[1]])
            if k == 'G':
                return Piece(('G', v[1], v[2], self.freeze_seq(v[3], since, memo)))
            if k == 'C':
                return Piece(('C', v[1], self.freeze_seq(v[2], since, memo), self.freeze_seq(v[3], since, memo)))
            return v
        if isinstance(v, tuple):
            return tuple(self.freeze(x, since, memo) for x in v)
        if isinstance(v, Cell) and not isinstance(v, (ClassV, Frame)) and v.serial > since:
            if id(v) in memo:
                return memo[id(v)][1]
            if isinstance(v, ListV):
                self.check_memo(v)
                r = Frozen('L', self.freeze_seq(v.c, since, memo), None, twin_of(v))
            elif isinstance(v, ArrV):
                r = Frozen('A', (v.shape, tuple(self.freeze(x, since, memo) for x in v.flat)), None, twin_of(v))
            elif isinstance(v, DictV):
                r = Frozen('D', {k: self.freeze(x, since, memo) for k, x in v.d.items()}, None, twin_of(v))
            elif isinstance(v, ObjV):
                r = Frozen('O', {k: self.freeze(x, since, memo) for k, x in v.d.items()}, v.cls, twin_of(v))
            elif isinstance(v, SymArr):
                r = Frozen('S', (v.shape, v.c), None, twin_of(v))
            elif isinstance(v, FrameDF):
                r = Frozen('F', {k: self.freeze_seq(x, since, memo) for k, x in v.d.items()})
            else:
                raise Unsupported('freeze %s' % type(v).__name__)
            memo[id(v)] = (v, r)
            return r
        if isinstance(v, dict):
            return {k: self.freeze(x, since, memo) for k, x in v.items()}
        return v

    def freeze_seq(self, seq, since, memo=None):
        return tuple(self.freeze(p, since, memo) for p in seq)

    def check_memo(self, lst):
        """elements taken out of a generated sequence and modified make the template stale"""
        m = lst.__dict__.get('memo')
        if m:
            for k, (val, mk) in m.items():
                if self.modified_since(val, mk):
                    raise Unsupported('sequence element modified in place')

    def modified_since(self, val, mk):
        cells = set()

        def walk(x):
            if isinstance(x, Cell):
                if id(x) in cells or isinstance(x, ClassV):
                    return
                cells.add(id(x))
                if isinstance(x, ListV):
                    walk(x.c)
                elif isinstance(x, (DictV, ObjV)):
                    for y in x.d.values():
                        walk(y)
            elif isinstance(x, (tuple, list)):
                for y in x:
                    walk(y)
        walk(val)
        for cell, key, old in self.journal[mk:]:
            if id(cell) in cells and key != ('memo',):
                return True
        return False

    def thaw(self, v, memo=None):
        if memo is None:
            memo = {}
        if isinstance(v, Frozen):
            if id(v) in memo:
                return memo[id(v)][1]
            if v.kind == 'A':
                r = ArrV(v.data[0], tuple(self.thaw(x, memo) for x in v.data[1]))
            elif v.kind == 'L':
                r = ListV(v.data)
            elif v.kind == 'D':
                r = DictV({k: self.thaw(x, memo) for k, x in v.data.items()})
            elif v.kind == 'O':
                r = ObjV(v.extra, {k: self.thaw(x, memo) for k, x in v.data.items()})
            elif v.kind == 'S':
                r = SymArr(v.data[0], v.data[1][0], v.data[1][1])
            elif v.kind == 'F':
                r = FrameDF(v.data)
            else:
                raise Unsupported('thaw ' + v.kind)
            r.twin = v.twin
            memo[id(v)] = (v, r)
            return r
        if isinstance(v, Piece):
            return v
        if isinstance(v, tuple):
            return tuple(self.thaw(x, memo) for x in v)
        return v

    # ------------------------------------------------------------------ sequences
    def elem_from_template(self, owner, template, key):
        """materialise a template; the same (owner, key) always gives the same cells"""
        if not _has_frozen(template):
            return template
        if owner is None:
            return self.thaw_twin(template)
        m = owner.__dict__.get('memo') or {}
        k = key
        if k in m:
            return m[k][0]
        for k2, (val, mk) in m.items():
            if self.modified_since(val, mk):
                # a different element was modified in place: it may be the same one only if the indices agree
                if not (isinstance(k2[1], Poly) and isinstance(key[1], Poly)
                        and k2[0] == key[0] and self.entails(c_not(c_eq(k2[1], key[1])))) and k2[0] == key[0]:
                    raise Unsupported('possible aliasing of sequence elements')
        v = self.thaw(template)
        m = dict(m)
        m[k] = (v, len(self.journal))
        self.setmemo(owner, m)
        self.mark_origin(v, owner, key)
        return v

    def thaw_twin(self, v):
        """an element of a sequence that cannot be updated through it: reading is fine, writing would be lost"""
        r = self.thaw(v)

        def walk(x):
            if isinstance(x, tuple):
                for y in x:
                    walk(y)
            elif isinstance(x, Cell) and not isinstance(x, ClassV) and x.twin is None:
                x.twin = ('elsewhere',)
                for y in x.d.values() if isinstance(x, (ObjV, DictV)) else x.c if isinstance(x, ListV) else ():
                    walk(y[1] if isinstance(y, Piece) and y[0] == 'I' else y)
        if r is not v and not isinstance(v, Cell):
            walk(r)
        return r

    def mark_twins(self, v):
        """v, which holds copies of elements of other sequences, is stored: from now on neither copy may be modified"""
        if isinstance(v, Frozen):
            for o in v.twin or ():
                if isinstance(o, Cell):
                    o.twinned = True
            self.mark_twins(v.data)
        elif isinstance(v, (tuple, list)):
            for x in v:
                self.mark_twins(x)
        elif isinstance(v, dict):
            for x in v.values():
                self.mark_twins(x)

    def copied(self, lst):
        """content of a list whose elements get a second place"""
        seq = lst.c
        if not seq_frozen(seq):
            return seq
        lst.twinned = True

        def tw(x):
            if isinstance(x, Frozen):
                return Frozen(x.kind, x.data, x.extra, (x.twin or ()) + (lst,))
            if isinstance(x, Piece):
                return I_(*[tw(y) for y in x[1]]) if x[0] == 'I' else Piece(('G', x[1], x[2], tws(x[3]))) if x[0] == 'G' else \
                    Piece(('C', x[1], tws(x[2]), tws(x[3]))) if x[0] == 'C' else x
            if isinstance(x, tuple):
                return tuple(tw(y) for y in x)
            return x

        def tws(s):
            return tuple(tw(p) for p in s)
        return tws(seq)

    def no_twin(self, cell, key=None):
        if cell.twin is None and not (isinstance(cell, ArrV) and cell.__dict__.get('twinned')) and (cell.origin is None or not cell.origin[0].__dict__.get('twinned')):
            return
        if isinstance(cell, ObjV) and cell.d.get(key, MISSING) in (MISSING, None) and self.frames and self.frames[-1].d.get('self') is cell:
            return      # an object filling its own cache: the other copy fills its own with the same value
        raise Unsupported('modification of an object held in two places')

    def mark_origin(self, v, owner, key):
        if isinstance(v, tuple):
            for x in v:
                self.mark_origin(x, owner, key)
        elif isinstance(v, Cell):
            v.origin = (owner, key)
            if isinstance(v, ListV):
                for p in v.c:
                    if p[0] == 'I':
                        self.mark_origin(tuple(p[1]), owner, key)
            elif isinstance(v, (ObjV, DictV)):
                for x in v.d.values():
                    if isinstance(x, Cell) and x.origin is None and not isinstance(x, ClassV):
                        self.mark_origin(x, owner, key)

    def seq_at(self, seq, idx, owner=None):
        """element idx (non-negative, or negative from the end)"""
        idx = P(idx)
        ci = idx.const()
        n = seq_len(seq)
        if ci is not None and ci < 0:
            # from the end
            k = int(-ci)
            for pn in range(len(seq) - 1, -1, -1):
                p = seq[pn]
                if p[0] == 'I':
                    if k <= len(p[1]):
                        return self.item_at(owner, p, len(p[1]) - k)
                    k -= len(p[1])
                elif p[0] == 'G':
                    L = seq_len(p[3]).const()
                    if L is None:
                        raise Unsupported('index into a ragged sequence')
                    L = int(L)
                    if self.decide(c_le(P(-(-k // L)), p[1])):
                        q = (k - 1) // L
                        r = L - 1 - (k - 1) % L
                        return self.gen_at(owner, pn, p, p[1] - 1 - q, r)
                    # fewer elements than needed
                    for c in range(-(-k // L)):
                        if self.decide(c_eq(p[1], c)):
                            k -= c * L
                            break
                    else:
                        raise Unsupported('negative index beyond a generated piece')
                elif p[0] == 'C':
                    if self.decide(p[1]):
                        return self.seq_at(seq[:pn] + p[2], P(-k), owner)
                    return self.seq_at(seq[:pn] + p[3], P(-k), owner)
                else:
                    raise UnknownElem('index into an unknown sequence', p[1])
            raise Raise(PyExc(IndexError, ('list index out of range',)))
        if ci is None and not self.entails(c_le(0, idx)):
            if self.decide(c_lt(idx, 0)):
                idx = n + idx
                if self.decide(c_lt(idx, 0)):
                    raise Raise(PyExc(IndexError, ('list index out of range',)))
        off = ZERO
        for pn, p in enumerate(seq):
            if p[0] == 'I':
                L = len(p[1])
                rel = idx - off
                cr = rel.const()
                if cr is not None:
                    if cr < L:
                        return self.item_at(owner, p, int(cr))
                else:
                    for j in range(L):
                        if self.decide(c_eq(rel, j)):
                            return self.item_at(owner, p, j)
                off = off + L
            elif p[0] == 'G':
                Lb = seq_len(p[3])
                if p[2] in Lb.vars():
                    raise Unsupported('index into a ragged sequence')
                rel = idx - off
                if Lb.const() is None:
                    if self.decide(c_lt(rel, p[1] * Lb)):
                        q = simp_fdiv(rel, Lb, self.pc)
                        return self.seq_at(subst_seq(p[3], {p[2]: q}), rel - q * Lb, None)
                    off = off + p[1] * Lb
                    continue
                L = int(Lb.const())
                if self.decide(c_lt(rel, p[1] * L)):
                    if L == 1:
                        return self.gen_at(owner, pn, p, rel, 0)
                    q = simp_fdiv(rel, P(L), self.pc)
                    r = rel - q * L
                    cr = r.const()
                    if cr is None:
                        for j in range(L):
                            if self.decide(c_eq(r, j)):
                                cr = j
                                break
                    return self.gen_at(owner, pn, p, q, int(cr))
                off = off + p[1] * L
            elif p[0] == 'C':
                if self.decide(p[1]):
                    return self.seq_at(seq[:pn] + p[2] + seq[pn + 1:], idx, None)
                return self.seq_at(seq[:pn] + p[3] + seq[pn + 1:], idx, None)
            else:
                rel = idx - off
                if self.decide(c_lt(rel, p[2])):
                    raise UnknownElem('element of an unknown sequence', p[1])
                off = off + p[2]
        raise Raise(PyExc(IndexError, ('list index out of range',)))

    def item_at(self, owner, p, j):
        v = p[1][j]
        if _has_frozen(v):
            return self.elem_from_template(owner, v, (('I', id(p)), P(j)))
        return v

    def gen_at(self, owner, pn, p, q, r):
        body = p[3]
        items = seq_items(body)
        if items is None:
            b2 = subst_seq(body, {p[2]: q})
            return self.seq_at(b2, P(r), None)
        t = subst_value(items[r], {p[2]: P(q)})
        return self.elem_from_template(owner, t, ((pn, r), P(q)))


def twin_of(v):
    """owners of the other copies of an object, when a copy of it is made"""
    tw = v.twin or ()
    if v.origin is not None:
        tw = tw + (v.origin[0],)
    if isinstance(v, ArrV) and v.base is not None:
        tw = tw + (v.root,)
    return tw or None


def seq_frozen(seq):
    for p in seq:
        if p[0] == 'I':
            if any(_has_frozen(x) for x in p[1]):
                return True
        elif p[0] == 'G':
            if seq_frozen(p[3]):
                return True
        elif p[0] == 'C':
            if seq_frozen(p[2]) or seq_frozen(p[3]):
                return True
    return False


def _has_frozen(v):
    if isinstance(v, Frozen):
        return True
    if isinstance(v, tuple) and not isinstance(v, Piece):
        return any(_has_frozen(x) for x in v)
    return False


# ------------------------------------------------------------------ floor division with bounds
def poly_bounds(p, conds):
    """(lower, upper) polynomials obtained from facts 0<=v and v<=u on single variables; None if unknown"""
    ups = {}
    lows = {}
    for c in conds:
        if isinstance(c, Cond) and c.op == 'le':
            q = c.args[0]
            for m, k in q.t.items():
                if len(m) == 1 and m[0][1] == 1 and m[0][0].sort == 'int' and m[0][0].kind in ('var', 'app', 'el'):
                    a = m[0][0]
                    rest = (q - Poly({m: k})).scale(-1 / k)
                    if any(a in mm_atoms for mm_atoms in [{x for x, e in mm} for mm in rest.t]):
                        continue
                    if k > 0:
                        ups.setdefault(a, []).append(rest)
                    else:
                        lows.setdefault(a, []).append(rest)
    return ups, lows


def simp_fdiv(a, b, conds):
    """floor(a/b) for integer terms, using bounds known from conds"""
    a, b = P(a), P(b)
    r = fdiv(a, b)
    if not any(x.kind == 'app' and x.args[0] == 'fdiv' for x in r.atoms()):
        return r
    # split a = b*q + rest with rest in [0, b)
    if len(b.t) == 1 and entails(conds, c_lt(0, b)):
        (mb, cb), = b.t.items()
        inv = inverse(b)
        q, rest = {}, {}
        for m, c in a.t.items():
            t = Poly({m: c}) * inv
            (mm, cc), = t.t.items()
            if all(e > 0 for _, e in mm) and cc.denominator == 1 and not any(x.kind == 'recip' for x, _ in mm):
                q[mm] = cc
            else:
                rest[m] = c
        qp, rp = Poly(q), Poly(rest)
        for dq in (0, -1, 1):
            rr = rp - b * dq
            if nonneg(rr, conds) and nonneg(b - 1 - rr, conds):
                return qp + dq
        if q:
            return qp + apoly(atom('app', ('fdiv', (rp, b)), 'int'))
    else:
        for dq in (0, -1, 1):
            rr = a - b * dq
            if nonneg(rr, conds) and nonneg(b - 1 - rr, conds):
                return P(dq)
    return r


def nonneg(p, conds):
    """p >= 0 proved: by eliminating upper-bounded variables, then z3"""
    p = P(p)
    c = p.const()
    if c is not None:
        return c >= 0
    ups, lows = poly_bounds(p, conds)

    def rec(q, depth):
        c = q.const()
        if c is not None:
            return c >= 0
        if all(k >= 0 for k in q.t.values()) and all(_atom_nonneg(a, lows) for m in q.t for a, e in m):
            return True
        if depth == 0:
            return False
        # replace one variable with negative coefficients by its upper bound
        for m, k in q.t.items():
            if k < 0:
                for a, e in m:
                    if a in ups and e == 1:
                        # coefficient polynomial of a
                        co = {}
                        rest = {}
                        for m2, k2 in q.t.items():
                            d = dict(m2)
                            if d.get(a, 0) == 1:
                                co[tuple(x for x in m2 if x[0] is not a)] = k2
                            elif a in d:
                                return False
                            else:
                                rest[m2] = k2
                        co = Poly(co)
                        if all(x < 0 for x in co.t.values()) and all(_atom_nonneg(b, lows) for m2 in co.t for b, e2 in m2):
                            for u in ups[a]:
                                if rec(Poly(rest) + co * u, depth - 1):
                                    return True
        # replace a variable with positive coefficients by its lower bound
        for a in list(q.atoms()):
            if a in lows:
                co = {}
                rest = {}
                bad = False
                for m2, k2 in q.t.items():
                    d = dict(m2)
                    if d.get(a, 0) == 1:
                        co[tuple(x for x in m2 if x[0] is not a)] = k2
                    elif a in d:
                        bad = True
                    else:
                        rest[m2] = k2
                co = Poly(co)
                if not bad and all(x > 0 for x in co.t.values()) and all(_atom_nonneg(b, lows) for m2 in co.t for b, e2 in m2):
                    for l in lows[a]:
                        if l.t and rec(Poly(rest) + co * l, depth - 1):
                            return True
        return False
    if rec(p, 6):
        return True
    return entails(conds, c_le(0, p))


def _atom_nonneg(a, lows):
    for l in lows.get(a, []):
        c = l.const()
        if c is not None and c >= 0:
            return True
    return False


def simp_divs(v, conds):
    """simplify floor divisions inside a value with the bounds in conds"""
    def f(a):
        if a.kind == 'app' and a.args[0] == 'fdiv':
            return simp_fdiv(go(a.args[1][0]), go(a.args[1][1]), conds)
        if a.kind in ('var', 'pi', 'sum', 'opq'):
            return None
        return T.rebuild(a, anyv)

    def go(p):
        if not any(x.kind == 'app' and x.args[0] == 'fdiv' for x in all_atoms(p)):
            return p
        return map_poly(p, f)

    def anyv(x):
        if isinstance(x, Poly):
            return go(x)
        if isinstance(x, Cond):
            if x.op in ('eq', 'lt', 'le'):
                return {'eq': c_eq, 'lt': c_lt, 'le': c_le}[x.op](go(x.args[0]))
            return x
        if isinstance(x, tuple) and not isinstance(x, Piece):
            return tuple(anyv(y) for y in x)
        return x
    return anyv(v)
