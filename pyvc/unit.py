"""Verification units: scenarios over the real functions, their obligations, and the runner."""
import os
import sys
import time
import traceback
import multiprocessing as mp
from .terms import *
from . import terms as T
from .values import *
from .interp import *
from .interp import _has_frozen
from . import execx, ops, arrays, prove
from .execx import Exec, NoMerge, OneOf
from .ops import is_num, num
from .prove import *
from .seqs import prove_seq, refute_seq


DETAIL = int(os.environ.get("DETAIL", "200"))


class Stop(Exception):
    pass


class Ob:
    """result of one named obligation over all paths of its scenario"""

    def __init__(self, name):
        self.name = name
        self.proved = 0
        self.refuted = []
        self.undecided = []

    @property
    def status(self):
        if self.refuted:
            return 'refuted'
        if self.undecided:
            return 'undecided'
        return 'proved' if self.proved else 'vacuous'

    def as_dict(self):
        return {'name': self.name, 'status': self.status, 'paths': self.proved + len(self.refuted) + len(self.undecided),
                'refuted': self.refuted[:2], 'undecided': self.undecided[:2]}


class U:
    """one run of a unit"""

    def __init__(self, name, root, dom=None, budget=20, deadline=None):
        self.name = name
        self.root = root
        self.ip = Exec(root)
        self.dom = dom or {}
        self.obs = {}
        self.paths = 0
        self.okpaths = 0
        self.ground = 0
        self.deadline = deadline
        self.budget = budget
        self.inline = False
        self.errors = []
        self.sources = set()
        self.suspect = False
        self.soft = False       # in an over-approximated state a failed obligation is undecided, not refuted

    # ---------------------------------------------------------------- building
    def mod(self, name):
        return self.ip.module(name)

    def get(self, mod, name):
        m = self.ip.module(mod)
        v = self.ip.mod_get(m, name)
        if v is MISSING:
            raise Unsupported('%s has no %s' % (mod, name))
        return v

    def cls(self, name):
        mods = {'OrthotropicMaterial': 'composipy.core.material', 'IsotropicMaterial': 'composipy.core.material',
                'Material': 'composipy.core.material',
                'LaminateProperty': 'composipy.core.property', 'PlateStructure': 'composipy.core.structure',
                'LaminateStrength': 'composipy.core.strength'}
        return self.get(mods[name], name)

    def call(self, f, *args, **kw):
        return self.ip.call(f, list(args), kw)

    def attr(self, o, name):
        return self.ip.getattr(o, name)

    def meth(self, o, name, *args, **kw):
        return self.ip.call(self.ip.getattr(o, name), list(args), kw)

    def assume(self, *cs):
        for c in cs:
            self.ip.assume(c)

    def pre(self, *cs):
        """preconditions, added without a feasibility check"""
        for c in cs:
            if c is not True:
                self.ip.pc.append(c)

    def attempt(self, fn):
        try:
            return ('ok', fn())
        except Raise as r:
            return ('raise', r.exc)

    # ---------------------------------------------------------------- obligations
    def ob(self, name):
        if name not in self.obs:
            self.obs[name] = Ob(name)
        if self.deadline is not None and time.time() > self.deadline:
            raise Stop('time limit')
        return self.obs[name]

    def describe(self, ev):
        out = {}
        for (n, idx), v in list(ev.vals.items())[:60]:
            if n.startswith('\0'):
                continue
            k = n if not idx else '%s%s' % (n, list(idx) if all(isinstance(i, int) for i in idx) else '[..]')
            out[k] = v if isinstance(v, (int, float, bool, str)) else str(v)
        return out

    def zero(self, name, p):
        """p == 0 on this path"""
        o = self.ob(name)
        if not is_num(p) and not isinstance(p, (bool, Cond)):
            o.undecided.append('not a number: %s' % (str(p)[:120],))
            return False
        if isinstance(p, Special):
            return self._refute(o, 'value is %s' % p)
        p = P(ops.topoly(p))
        conds = list(self.ip.pc)
        try:
            ok = prove_zero(p, conds, Budget(self.budget))
        except RecursionError:
            ok = False
        if ok:
            o.proved += 1
            return True
        ev = refute_zero(p, conds, self.dom) if not self.soft else None
        if ev is not None:
            o.refuted.append({'residual': ev.poly(p), 'counterexample': self.describe(ev)})
        else:
            o.undecided.append('residual not decided: %s' % str(p)[:DETAIL])
        return False

    def _refute(self, o, msg):
        ev = find_assignment(list(self.ip.pc), self.dom) if not self.soft else None
        if ev is not None:
            o.refuted.append({'reason': msg, 'counterexample': self.describe(ev)})
        else:
            o.undecided.append(msg + ' (path not shown reachable)')
        return False

    def eq(self, name, a, b):
        """a == b for numbers, case values, strings"""
        if isinstance(a, arrays.CaseV) or isinstance(b, arrays.CaseV) or isinstance(a, Special) or isinstance(b, Special):
            return self.eqx(name, a, b)
        if not (is_num(a) or isinstance(a, (bool, Cond))) or not (is_num(b) or isinstance(b, (bool, Cond))):
            o = self.ob(name)
            if a is b or (isinstance(a, str) and isinstance(b, str) and a == b):
                o.proved += 1
                return True
            try:
                c = ops.truth(self.ip, ops.py_eq(self.ip, a, b))
            except Unsupported as e:
                o.undecided.append(str(e))
                return False
            return self.cond(name, c)
        return self.zero(name, P(ops.topoly(a)) - P(ops.topoly(b)))

    def eqx(self, name, a, b):
        """equality of extended-real values by cases"""
        o = self.ob(name)
        good = True
        npc = len(self.ip.pc)
        for ca, va in arrays.xcases(a):
            for cb, vb in arrays.xcases(b):
                c = c_and(ca, cb)
                if c is False:
                    continue
                cs = [c] if c is not True else []
                if not feasible(self.ip.pc + cs):
                    continue
                self.ip.pc.extend(cs)
                try:
                    if isinstance(va, Special) or isinstance(vb, Special):
                        if va is vb:
                            o.proved += 1
                        else:
                            good = self._refute(o, 'value %s instead of %s' % (str(va)[:80], str(vb)[:80])) and good
                    else:
                        good = self.zero(name, P(va) - P(vb)) and good
                finally:
                    del self.ip.pc[npc:]
        return good

    def cond(self, name, c):
        o = self.ob(name)
        conds = list(self.ip.pc)
        if prove_cond(c, conds, Budget(self.budget)):
            o.proved += 1
            return True
        if c is False:
            return self._refute(o, 'condition is false')
        ev = refute_cond(c, conds, self.dom) if not self.soft else None
        if ev is not None:
            o.refuted.append({'condition': str(c)[:200], 'counterexample': self.describe(ev)})
        else:
            o.undecided.append('condition not decided: %s' % str(c)[:200])
        return False

    def iff(self, name, a, b):
        o = self.ob(name)
        conds = list(self.ip.pc)
        if prove_iff(a, b, conds, Budget(self.budget)):
            o.proved += 1
            return True
        ev = find_assignment(conds, self.dom, test=lambda e: e.cond(a) != e.cond(b)) if not self.soft else None
        if ev is not None:
            o.refuted.append({'condition': '%s  vs  %s' % (str(a)[:150], str(b)[:150]), 'counterexample': self.describe(ev)})
        else:
            o.undecided.append('equivalence not decided')
        return False

    def fact(self, name, ok, detail=''):
        """a concrete fact about this path: true, or the path is a counterexample"""
        o = self.ob(name)
        if ok:
            o.proved += 1
            return True
        return self._refute(o, detail or 'fact is false')

    def unknown(self, name, detail):
        self.ob(name).undecided.append(detail)
        return False

    def seq_eq(self, name, got, want):
        """two sequences of numbers are equal"""
        o = self.ob(name)
        r, why = prove_seq(list(got), list(want), [c for c in self.ip.pc], Budget(self.budget * 6))
        if r:
            o.proved += 1
            return True
        ev = refute_seq(got, want, list(self.ip.pc), self.dom) if not self.soft else None
        if ev is not None:
            o.refuted.append({'sequences': str(ev[1])[:300], 'counterexample': self.describe(ev[0])})
        else:
            o.undecided.append('sequences: %s' % (why,))
        return False

    # ---------------------------------------------------------------- structured comparisons
    def arr(self, name, a, want, shape=None):
        """numpy array equals the given nested list of numbers, entry by entry"""
        want_a = want if isinstance(want, ArrV) else arrays.from_value(self.ip, tolistv(want))
        if not isinstance(a, ArrV):
            if arrays.is_arr(a):
                return self.unknown(name, 'array of symbolic shape')
            return self.fact(name + ' is an array', False, 'not an array: %s' % type(a).__name__)
        if not self.fact(name + ' shape', a.shape == want_a.shape, 'shape %s instead of %s' % (a.shape, want_a.shape)):
            return False
        ok = True
        for pos, (x, y) in enumerate(zip(a.flat, want_a.flat)):
            idx = ','.join(str(i) for i in arrays.unravel(pos, a.shape))
            ok = self.eq('%s[%s]' % (name, idx), x, y) and ok
        return ok


def tolistv(w):
    if isinstance(w, (list, tuple)):
        return ListV((I_(*[tolistv(x) for x in w]),) if w else ())
    return w


# ------------------------------------------------------------------ running a unit
class UnitSpec:
    """name, scenario(u), contracts: {qual: handler}, deps: names of the units that establish the contracts"""

    def __init__(self, name, scenario, contracts=None, dom=None, deps=(), budget=20, limit=300, paths=400, nonempty=1, funcs=(), base=None):
        self.name, self.scenario = name, scenario
        self.contracts = contracts or {}
        self.base = base or {}      # contracts of callees outside the reach of inlining (tables), kept in every mode
        self.dom = dom or {}
        self.deps = tuple(deps)
        self.budget, self.limit, self.paths = budget, limit, paths
        self.nonempty = nonempty
        self.funcs = tuple(funcs)


def run_once(spec, root, inline, deadline):
    nomerge = set()
    note = None
    for attempt in range(12):
        u = U(spec.name, root, spec.dom, spec.budget, deadline)
        u.inline = inline
        u.ip.nomerge = set(nomerge)
        keep = AST_CACHE
        u.ip.contracts = dict(spec.base)
        if not inline:
            u.ip.contracts.update(spec.contracts)

        start = [None, 0]

        def fn():
            # paths are separate: the same names may be used again on each (what modules loaded meanwhile hold is kept apart)
            if start[0] is None or start[1] != len(u.ip.modules):
                start[:] = [T._fresh[0], len(u.ip.modules)]
            else:
                T._fresh[0] = start[0]
            u.paths += 1
            if time.time() > deadline:
                raise Stop('time limit')
            r = spec.scenario(u)
            u.okpaths += 1
            return r
        err = None
        try:
            preload(u)
            res = u.ip.explore(fn, limit=spec.paths, collect=lambda o: collect(u, o))
        except PoisonRead as e:
            loc = e.loc
            if isinstance(loc, tuple) and loc and loc[0] == 'merge' and loc[1] not in nomerge:
                nomerge.add(loc[1])
                continue
            err = 'value undefined on some path: %s' % (loc,)
        except (Unsupported, NoMerge) as e:
            err = 'outside the verified subset: %s' % e
        except Stop as e:
            err = str(e)
        except RecursionError:
            err = 'recursion limit'
        except Exception as e:      # an engine limitation is never an alarm
            err = 'engine: %r at %s' % (e, traceback.format_exc().strip().splitlines()[-3:])
        if err:
            u.errors.append(err)
        return u
    u.errors.append('too many restarts')
    return u


AST_CACHE = {}


def preload(u):
    """module bodies run once, outside any exploration"""
    for m in ('composipy.utils.validators', 'composipy.utils', 'composipy.core.material', 'composipy.core.property',
              'composipy.pre_integrated_component.functions', 'composipy.pre_integrated_component.build_k',
              'composipy.core.structure', 'composipy.core.strength', 'composipy.optimize.utils', 'composipy.optimize',
              'composipy.nastranapi.pcomp_generator', 'composipy.nastranapi', 'composipy'):
        if m in u.ip.modules and u.ip.modules[m].state:
            continue
        try:
            u.ip.run_module(u.ip.module(m))
        except Raise as e:
            if not (isinstance(e.exc.cls, type) and issubclass(e.exc.cls, ModuleNotFoundError)):
                raise Unsupported('module %s raises on import: %r' % (m, e.exc))


def collect(u, out):
    if out[0] == 'raise':
        o = u.ob('no unexpected exception')
        if getattr(out[1], 'implicit', False) and out[1].cls in (TypeError, AttributeError, NameError, UnboundLocalError):
            # may be a value the engine does not know how to treat: no verdict by itself, but the run-time check is deepened
            o.undecided.append('raises %r' % (out[1],))
            u.suspect = True
            return out[0]
        u._refute(o, 'raises %r' % (out[1],))
    return out[0]


def run_unit(spec, root, time_limit=None, only_inline=False):
    t0 = time.time()
    prove.STATS.update({k: 0 for k in prove.STATS})
    limit = min(spec.limit, time_limit or spec.limit)
    res = {'unit': spec.name, 'mode': 'modular' if spec.contracts and not only_inline else 'inline'}
    u = run_once(spec, root, only_inline or not spec.contracts, t0 + limit)
    st = summary(u, spec)
    if st['status'] != 'proved' and spec.contracts and not only_inline:
        u2 = run_once(spec, root, True, time.time() + limit)
        st2 = summary(u2, spec)
        rank = {'proved': 3, 'refuted': 2, 'undecided': 1}
        if rank[st2['status']] >= rank[st['status']]:
            st, res['mode'] = st2, 'inline'
        elif st['status'] == 'refuted':
            # refuted only against the callees' contracts: the code may bypass a callee whose contract names its result, so this is
            # no verdict by itself; its counterexample steers the search for a failing input
            st['note'] = 'refuted against contracts; the inlined run was undecided'
            st['status'] = 'undecided'
            st['suspect'] = True
            st['errors'] = st['errors'] + st2['errors'][:2] + [st['note']]
    res.update(st)
    res['wall'] = round(time.time() - t0, 2)
    res['stats'] = {k: (round(v, 3) if isinstance(v, float) else v) for k, v in prove.STATS.items()}
    return res


def summary(u, spec):
    obs = [o.as_dict() for o in u.obs.values()]
    bad = [o for o in obs if o['status'] != 'proved']
    if any(o['status'] == 'refuted' for o in obs):
        status = 'refuted'
    elif bad or u.errors:
        status = 'undecided'
    elif len(obs) < spec.nonempty or not u.okpaths:
        status = 'undecided'
        u.errors.append('vacuous: %d obligations on %d paths' % (len(obs), u.okpaths))
    else:
        status = 'proved'
    return {'status': status, 'obligations': len(obs), 'discharged': len(obs) - len(bad), 'paths': u.okpaths,
            'names': [o['name'] for o in obs], 'bad': bad[:12], 'errors': u.errors,
            'functions': sorted(u.ip.executed), 'contracts': sorted(u.ip.used_contracts),
            'suspect': u.suspect, 'assumed': sorted(map(str, u.ip.assumed))[:40], 'notes': sorted(map(str, u.ip.notes))[:20]}


def _worker(args):
    i, limit = args
    spec = _SPECS[i]
    try:
        return run_unit(spec, _ROOT, limit)
    except BaseException as e:
        return {'unit': spec.name, 'status': 'undecided', 'obligations': 0, 'discharged': 0, 'paths': 0, 'names': [], 'bad': [],
                'errors': ['engine failure: %r' % e], 'functions': [], 'contracts': [], 'assumed': [], 'notes': [], 'wall': 0,
                'stats': {}, 'mode': 'none'}


_SPECS, _ROOT = [], None


def run_units(specs, root, total=500, jobs=8, hurry=None):
    """all units in parallel processes, within `total` seconds; hurry() true: what is still open 45 s later is left undecided"""
    global _SPECS, _ROOT
    _SPECS, _ROOT = list(specs), root
    sys.setrecursionlimit(20000)
    out = []
    t0 = time.time()
    if jobs == 1 or os.environ.get('PYVC_SERIAL'):
        for i in range(len(_SPECS)):
            out.append(_worker((i, total)))
        return out
    ctx = mp.get_context('fork')
    todo = list(range(len(_SPECS)))
    running = {}
    res = {}
    while todo or running:
        if hurry is not None and hurry():
            total, hurry = min(total, time.time() - t0 + 45), None
        while todo and len(running) < jobs:
            i = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(i, total, b))
            p.start()
            b.close()
            running[i] = (p, a, time.time())
        done = []
        for i, (p, a, ts) in running.items():
            if a.poll(0.02):
                try:
                    res[i] = a.recv()
                except EOFError:
                    res[i] = None
                p.join()
                done.append(i)
            elif not p.is_alive():
                res[i] = None
                done.append(i)
            elif time.time() - t0 > total or time.time() - ts > 2 * _SPECS[i].limit + 20:
                p.terminate()
                p.join()
                res[i] = None
                done.append(i)
        for i in done:
            running.pop(i)
    for i in range(len(_SPECS)):
        r = res.get(i)
        if r is None:
            r = {'unit': _SPECS[i].name, 'status': 'undecided', 'obligations': 0, 'discharged': 0, 'paths': 0, 'names': [],
                 'bad': [], 'errors': ['time limit or crash'], 'functions': [], 'contracts': [], 'assumed': [], 'notes': [],
                 'wall': 0, 'stats': {}, 'mode': 'none'}
        out.append(r)
    return out


def _child(i, total, conn):
    sys.setrecursionlimit(20000)
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    r = _worker((i, total))
    try:
        conn.send(r)
    except Exception as e:
        conn.send({'unit': _SPECS[i].name, 'status': 'undecided', 'obligations': 0, 'discharged': 0, 'paths': 0, 'names': [],
                   'bad': [], 'errors': ['result: %r' % e], 'functions': [], 'contracts': [], 'assumed': [], 'notes': [],
                   'wall': 0, 'stats': {}, 'mode': 'none'})
    conn.close()
