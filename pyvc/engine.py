"""Path explorer, obligations and loop rule.

A unit (one contract) is explored by re-executing its harness once per path.  Every symbolic truth test is a
decision; the list of decisions taken so far (the prefix) names the path.  Loops whose length is symbolic are cut
with an inductive invariant: nothing is unrolled."""
import os
import sys
import time

import z3

from . import sym
from .sym import (CTX, PathEnd, SBits, SBool, SDT, SNum, SStr, STD, Sym, Unsupported, zb)


HERE = os.path.dirname(os.path.abspath(__file__)) + os.sep


class Restart(BaseException):
    """loop information grew: explore the unit again"""


class Budget(BaseException):
    pass


class Obligation:
    __slots__ = ("name", "hyps", "goal", "prefix", "status", "model", "solver", "secs", "havoc", "inputs", "reason",
                 "key")

    def __init__(self, name, hyps, goal, prefix, havoc, inputs):
        self.name, self.hyps, self.goal, self.prefix = name, hyps, goal, prefix
        self.havoc, self.inputs = havoc, inputs
        self.status = self.model = self.solver = self.reason = None
        self.secs = 0.0
        self.key = None


def mentions(e, v):
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(v):
            return True
        todo += [x.body()] if z3.is_quantifier(x) else x.children()
    return False


class LoopInfo:
    def __init__(self):
        self.mods = {}          # location -> kind (None: not representable, poisoned)
        self.phis = {}          # tuple(path) -> list of stable conditions of one fall-through path
        self.rawphis = {}       # the same with all conditions
        self.trans = {}         # location -> {path: [(conds, new value terms)]}
        self.late = set()       # locals first bound inside the loop and read later
        self.dead = set()       # candidate names shown not to be inductive
        self.seen = set()


def has_quant(e, _cache={}):
    k = e.get_id()
    if k in _cache and _cache[k][0].eq(e):
        return _cache[k][1]
    todo, seen, r = [e], set(), False
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x) and not x.is_lambda():
            r = True
            break
        if z3.is_quantifier(x):
            todo.append(x.body())
        else:
            todo.extend(x.children())
    _cache[k] = (e, r)
    return r


_consts = {}


def consts_of(e):
    """names of the uninterpreted constants of a term"""
    k = e.get_id()
    m = _consts.get(k)
    if m is None:
        if len(_consts) > 40000:
            _consts.clear()
        m = _consts[k] = (e, frozenset(_consts_of(e)))     # the term is kept, so its id stays its own
    return m[1]


def _consts_of(e):
    todo, seen, r = [e], set(), set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            r.add(x.decl().name())
        todo.extend(x.children())
    return r


class Ctx:
    def __init__(self, unit, prefix, phase):
        self.unit, self.phase = unit, phase
        self.prefix = list(prefix)
        self.taken = []                    # decisions on this path
        self.pc = []                       # quantifier-free path facts (in order)
        self.facts = []                    # all facts, including quantified ones
        self.solver = z3.SimpleSolver()
        self.solver.set("timeout", unit.feas_ms)
        self.names = {}
        self.created = []
        self.heap = {}                     # (cls, field) -> list of arrays
        self.roots = {}                    # harness roots for access paths
        self.merging = None
        self.gconds = []                   # conditions of the generic elements being evaluated
        self.gvars = []                    # the generic indices themselves
        self.quiet = 0
        self.inputs = {}                   # name -> descriptor used to rebuild concrete inputs from a model
        self.loops = []                    # active symbolic loops
        self.havoced = False
        self.log = []                      # writes: (owner, attr)
        self.spec = 0                      # >0: specification evaluation (no bounds/exception forks)
        self.covered = []

    # ---------------------------------------------------------------- names and facts
    def fresh(self, base, sort):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        nm = base if n == 0 else "%s!%d" % (base, n)
        self.created.append(nm)
        if self.merging is not None and self.gvars:        # depends on the generic element
            return z3.Function(nm + "@of", *([v.sort() for v in self.gvars] + [sort]))(*self.gvars)
        return z3.Const(nm, sort)

    def index(self, base):
        """a generic index (always a constant)"""
        n = self.names[base] = self.names.get(base, 0) + 1
        self.created.append("%s!%d" % (base, n))
        return z3.Int("%s!%d" % (base, n))

    def assume(self, e):
        e = zb(e) if not isinstance(e, z3.BoolRef) else e
        if z3.is_true(e):
            return
        if self.merging is not None:
            cs = list(self.gconds) + list(self.merging.all_conds())
            e = z3.Implies(z3.And(*cs), e) if cs else e
            if self.gvars:
                if not has_quant(e):
                    self.solver.add(e)
                e = z3.ForAll(list(self.gvars), e)
            if any(e.eq(f) for f in self.facts[-200:]):
                return
        self.facts.append(e)
        if not has_quant(e):
            self.pc.append(e)
            self.solver.add(e)

    def sat(self, *es):
        self.unit.feas_calls += 1
        t = time.time()
        r = self.solver.check(*es)
        self.unit.feas_secs += time.time() - t
        if time.time() > self.unit.deadline:
            raise Budget()
        return r

    # ---------------------------------------------------------------- decisions
    def branch(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.merging is not None:
            return self.merging.branch(self, e)
        if self.spec:
            raise Unsupported("truth test on a symbolic value inside a specification: %s" % e)
        i = len(self.taken)
        ne = z3.Not(e)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            t = self.sat(e)
            if t == z3.unsat:
                d = False
            else:
                f = self.sat(ne)
                d = True
                if f != z3.unsat:
                    self.unit.work.append(self.taken + [False])
        self.taken.append(d)
        self.facts.append(e if d else ne)
        self.pc.append(e if d else ne)
        self.solver.add(e if d else ne)
        if len(self.taken) > self.unit.max_depth:
            raise Unsupported("path too long")
        for L in self.loops:
            L.conds.append(e if d else ne)
        return d

    def choose(self, n, what):
        """concrete choice among n alternatives (harness level)"""
        for i in range(n - 1):
            b = z3.Bool("choice:%s:%d" % (what, i))
            if self.branch(b):
                return i
        return n - 1

    def feasible_now(self):
        return self.sat() != z3.unsat

    # ---------------------------------------------------------------- obligations
    def oblige(self, name, goal, hyps=None):
        goal = zb(goal) if not isinstance(goal, z3.BoolRef) else goal
        g = z3.simplify(goal)
        o = Obligation(name, list(self.facts if hyps is None else hyps), g, tuple(self.taken), self.havoced,
                       dict(self.inputs))
        self.unit.add_obligation(o)
        return o

    # ---------------------------------------------------------------- merged evaluation
    def merge(self, thunk, allow_exc=False, empty=False):
        """evaluate thunk without forking the path: returns [(condition, value)] over its internal paths"""
        if self.merging is not None:
            outer = self.merging
        else:
            outer = None
        m = Merge(self, outer)
        out = []
        todo = [[]]
        n = 0
        names0 = dict(self.names)
        most = dict(self.names)
        while todo:
            m.prefix = todo.pop()
            m.taken, m.conds, m.todo = [], [], todo
            self.names = dict(names0)
            self.merging = m
            n += 1
            if n > 400:
                self.merging = outer
                raise Unsupported("merged evaluation has too many paths")
            try:
                v = thunk()
            except PathEnd:
                continue
            except (Unsupported, Restart, Budget):
                raise
            except Exception as ex:
                if not allow_exc:
                    # the exceptional case has to be impossible; otherwise the merge is not meaningful
                    if self.solver.check(*m.all_conds()) != z3.unsat:
                        if self.spec:
                            self.merging = outer
                            raise Unsupported("exception inside merged evaluation: %r" % (ex,))
                        cs = list(self.gconds) + list(m.all_conds())
                        self.merging = outer
                        self.oblige("%s/no %s for any element" % (self.unit.name, type(ex).__name__),
                                    z3.Not(z3.And(*cs)) if cs else z3.BoolVal(False)).reason = repr(ex)
                    continue
                v = ex
            finally:
                self.merging = outer
                for nm, cnt in self.names.items():
                    most[nm] = max(cnt, most.get(nm, 0))
            out.append((z3.And(*m.conds) if m.conds else z3.BoolVal(True), v))
        self.names = most
        if not out and not empty:
            raise PathEnd()
        return out

    def merged_bool(self, thunk):
        out = self.merge(thunk, empty=True)
        if not out:                    # the guard cannot hold: whatever follows from it holds
            return z3.BoolVal(True)
        return z3.simplify(z3.Or(*[z3.And(c, sym.truth(v)) for c, v in out]))


class Merge:
    allow_facts = False

    def __init__(self, c, outer):
        self.c, self.outer = c, outer
        self.prefix, self.taken, self.conds, self.todo = [], [], [], []

    def all_conds(self):
        return (self.outer.all_conds() if self.outer else []) + self.conds

    def branch(self, c, e):
        i = len(self.taken)
        ne = z3.Not(e)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            base = self.all_conds()
            if c.sat(*(base + [e])) == z3.unsat:
                d = False
            else:
                d = True
                if c.sat(*(base + [ne])) != z3.unsat:
                    self.todo.append(self.taken + [False])
        self.taken.append(d)
        self.conds.append(e if d else ne)
        return d


# ---------------------------------------------------------------- access paths to mutable state
class Poison:
    """a loop-carried value the verifier cannot represent; any use is a tool limit"""

    def _no(self, *a, **k):
        raise Unsupported("use of a loop-carried value that has no symbolic kind")
    __getattr__ = lambda s, n: s._no()
    __eq__ = __lt__ = __gt__ = __le__ = __ge__ = __add__ = __radd__ = __sub__ = __rsub__ = __bool__ = _no
    __call__ = __getitem__ = __iter__ = __len__ = __mul__ = __rmul__ = __contains__ = _no
    __hash__ = None


POISON = Poison.__new__(Poison)


def walk_state(roots):
    """id(owner) -> (path, owner) for every mutable owner reachable from the named roots"""
    from .cont import PDict, PList, PSet, is_proxy
    out, todo = {}, []
    for n, v in roots.items():
        todo.append(((n,), v))
    todo.reverse()
    while todo:
        p, v = todo.pop()
        if v is None or isinstance(v, (int, float, str, bool, Sym, type)) or len(p) > 7:
            continue
        if id(v) in out or v is POISON:
            continue
        if isinstance(v, PList):
            out[id(v)] = (p, v)
            if v.items is not None:
                for i, x in enumerate(v.items[:64]):
                    todo.append((p + (("i", i),), x))
        elif isinstance(v, PDict):
            out[id(v)] = (p, v)
            if v.entries is not None:
                for i, (k, x) in enumerate(v.entries[:64]):
                    todo.append((p + (("v", i),), x))
        elif isinstance(v, PSet):
            out[id(v)] = (p, v)
        elif isinstance(v, tuple):
            for i, x in enumerate(v):
                todo.append((p + (("t", i),), x))
        elif is_proxy(v):
            continue
        elif hasattr(v, "__dict__") and not callable(v) and type(v).__module__ not in ("builtins",) \
                and not hasattr(v, "__spec__"):
            mod = type(v).__module__ or ""
            if not mod.startswith(("prosimos", "bpdfr_discovery", "cli", "units")):
                continue
            out[id(v)] = (p, v)
            for a, x in list(vars(v).items()):
                todo.append((p + (("a", a),), x))
    return out


def content(o):
    """own content of a mutable owner (nested containers are owners themselves)"""
    from .cont import PDict, PList, PSet, snapshot
    if isinstance(o, (PList, PDict, PSet)):
        return snapshot(o)
    return dict(vars(o))


class Loop:
    """one execution of a loop statement (created by the instrumented code)"""

    def __init__(self, c, lid, iterable=None, is_for=True, live=()):
        self.live = live                   # names read in a later iteration or after the loop
        self.late = {}
        self.c, self.lid, self.is_for = c, lid, is_for
        self.mode = None                   # 'native' or 'sym'
        self.exhausted = False
        self.restore = None
        self.item = None
        self.conds = []
        self.k = None
        self.started = False
        self.level = 0
        self.frame = sys._getframe(1)
        while self.frame is not None and self.frame.f_code.co_filename.startswith(HERE):
            self.frame = self.frame.f_back
        if is_for:
            from .cont import sym_iter
            self.source = getattr(iterable, "d", iterable)
            s = sym_iter(iterable)
            if s is None:
                self.mode = "native"
                self.it = iter(iterable)
            else:
                self.mode = "sym"
                self.n, self.get = s
                n = sym.znum(self.n)
                if z3.is_int_value(n) or (c is None):
                    self.mode = "native"
                    k = n.as_long()
                    self.it = (self.get(i) for i in range(k))

    # ---- protocol used by the transformed code
    def step(self, lv, test=None):
        """returns True when the body has to run; self.restore is a dict of locals to rebind first (or None)"""
        self.restore = None
        if self.is_for:
            if self.mode == "native":
                try:
                    self.item = next(self.it)
                    return True
                except StopIteration:
                    self.exhausted = True
                    return False
            return self.sym_step(lv, None)
        # while loop
        if self.c is not None and self.c.unit.unit.kw.get("unroll"):
            r = bool(test())                   # every path to its end: finitely many by the unit's stated scope
            self.exhausted = not r
            return r
        if self.mode is None or self.mode == "native":
            c = self.c
            if c is None:
                r = bool(test())
                self.exhausted = not r
                return r
            if not hasattr(self, "taken0"):
                self.taken0 = len(c.taken)
            self.native_count = getattr(self, "native_count", 0) + 1
            try:
                out = c.merge(test)
                vals = [sym.truth(v) for _, v in out]
                conc = len(out) == 1 and (z3.is_true(z3.simplify(vals[0])) or z3.is_false(z3.simplify(vals[0])))
            except PathEnd:
                raise
            if conc or self.native_count > 1 and self.mode == "native" and not getattr(self, "maybe_sym", False):
                self.mode = "native"
                if conc:
                    r = z3.is_true(z3.simplify(vals[0]))
                    if r and out[0][1] is True and len(c.taken) > self.taken0:
                        return self._start_sym_while(lv, test)     # "while True", left by a symbolic condition
                else:
                    # concrete so far, symbolic now: cut here
                    return self._start_sym_while(lv, test)
                self.exhausted = not r
                return r
            return self._start_sym_while(lv, test)
        return self.sym_step(lv, test)

    def _start_sym_while(self, lv, test):
        self.mode = "sym"
        return self.sym_step(lv, test)

    def rebind(self, name):
        return self.restore[name]

    # ---- symbolic loop
    def sym_step(self, lv, test):
        c = self.c
        if not self.started:
            return self.head(lv, test)
        self.fallthrough(lv)
        raise PathEnd()

    def loc_value(self, loc, lv, reach):
        kind = loc[0]
        if kind == "local":
            return lv.get(loc[1], POISON)
        if kind == "heap":
            return self.c.heap[loc[1]]
        path, attr = loc[1], loc[2]
        owner = reach.get(path)
        if owner is None:
            return POISON
        if attr is None:
            return owner
        return getattr(owner, attr, POISON)

    def head(self, lv, test):
        c = self.c
        self.started = True
        if c.merging is not None:
            raise Unsupported("symbolic loop inside a merged evaluation")
        self.key = (self.lid, tuple(c.taken))
        f, frames = sys._getframe(), set()
        while f is not None:
            frames.add(f)
            f = f.f_back
        c.loops = [l for l in c.loops if l.frame in frames]      # the others were left by a return
        self.level = len(c.loops)
        info = c.unit.loopinfo.setdefault(self.key, LoopInfo())
        self.info = info
        roots = dict(c.roots)
        roots.update({k: v for k, v in lv.items() if not k.startswith("pv__")})
        self.walk = walk_state(roots)
        self.bypath = {p: o for p, o in self.walk.values()}
        self.lv0 = {n: v for n, v in lv.items() if v is not POISON}
        self.lost = {n for n, v in lv.items() if v is POISON}      # bound, but its value is not tracked
        from . import cont
        self.entry = {}
        for loc in info.mods:
            self.entry[loc] = cont.freeze(self.loc_value(loc, lv, self.bypath), c)
        if self.is_for:
            self.k = c.fresh("k@%s" % self.lid, z3.IntSort())
        else:
            self.k = c.fresh("it@%s" % self.lid, z3.IntSort())
        self.ghost0 = {}
        # entry obligations: candidate invariants with k = 0 and the entry state
        g0 = {}
        for gk, srt, d in self.ghost_decls(info):
            g0[gk] = z3.IntVal(-1) if srt == z3.IntSort() else z3.K(srt.domain(), z3.IntVal(-1))
        self.candidates(z3.IntVal(0), self.entry, g0, "entry")
        # havoc
        c.havoced = True
        self.restore = {}
        cur = {}
        hv = set()
        self.cut = len(c.facts)
        for loc, kind in info.mods.items():
            v, nm = cont.havoc(self, loc, kind, self.entry[loc], c)
            hv |= nm
            cur[loc] = v
            if loc in info.late:
                self.late[loc] = nm
            if loc[0] == "local":
                self.restore[loc[1]] = v
        self.ghost = {}
        for gk, srt, d in self.ghost_decls(info):
            w = c.fresh("w@%s@%s" % (self.lid, d), srt)
            self.ghost[gk] = w
            hv.add(w.decl().name())
            if srt == z3.IntSort():
                c.assume(z3.And(w >= -1, w < self.k))
        self.hv = hv
        self.cur = {loc: cont.freeze(v, c) for loc, v in cur.items()}
        self.lvh = dict(lv)
        self.lvh.update(self.restore)
        c.assume(self.k >= 0)
        n = None
        if self.is_for:
            n = sym.znum(self.n)
            c.assume(self.k <= n)
        self.candidates(self.k, self.cur, self.ghost, "assume")
        self.curfull = dict(self.cur)
        for loc in self.late:                # bound by an earlier iteration, or not bound yet
            if c.branch(self.ghost[loc] == -1):
                if loc[1] in self.lost:
                    self.restore[loc[1]] = self.lvh[loc[1]] = POISON
                else:
                    self.restore.pop(loc[1])
                    self.lvh.pop(loc[1])
                self.cur[loc] = POISON
        self.heap0 = {k: list(v) for k, v in c.heap.items()}
        self.snap = {i: content(o) for i, (p, o) in self.walk.items()}
        # test
        self.born_at = len(c.created)
        c.log = []
        self.conds = []
        if self.is_for:
            go = c.branch(self.k < n)
        else:
            c.loops.append(self)
            self.go_locals = self.restore
            # the test has to be evaluated after the locals were rebound: ask the transformed code to do so
            return "test"
        return self.after_test(go)

    def after_test(self, go):
        c = self.c
        if self in c.loops:
            c.loops.remove(self)
        if not go:
            self.exhausted = True
            self.iter_conds = None
            return False
        c.loops.append(self)
        if self.is_for:
            self.item = self.get(SNum(self.k))
        return True

    def left(self):
        """break/return out of the generic iteration: path simply continues"""
        if self.c is not None and self in self.c.loops:
            self.c.loops.remove(self)

    def fallthrough(self, lv):
        c, info = self.c, self.info
        from . import cont
        if self in c.loops:
            c.loops.remove(self)
        c.unit.fall[self.key] = c.unit.fall.get(self.key, 0) + 1
        # ---- what did this iteration modify?
        grown = False
        new = {}
        for name, v in lv.items():
            if name.startswith("pv__"):
                continue
            loc = ("local", name)
            base = self.lvh.get(name, None) if name in self.lvh else None
            if loc in info.mods:
                new[loc] = v
                continue
            if name in self.lvh and cont.same(base, v):
                continue
            k0 = cont.kind_of_local(self.lv0[name], c, self) if name in self.lv0 else None
            k1 = cont.kind_of_local(v, c, self)
            if name not in self.lv0 and name in self.live and isinstance(k1, cont.Kind) and not isinstance(
                    k1, (cont.KEmpty, cont.KNone)):
                info.mods[loc] = k1
                info.late.add(loc)
            else:
                info.mods[loc] = cont.unify(k0, k1) if name in self.lv0 else None
            grown = True
        writes = list(c.log)
        for i, (p, o) in self.walk.items():       # writes are detected by comparison, the log only adds heap arrays
            b, a = self.snap[i], content(o)
            if isinstance(b, dict):
                writes += [(o, k) for k in a if k not in b or not cont.same(b[k], a[k])]
            elif not cont.same(b, a):
                writes.append((o, None))
        for hk, arrs in c.heap.items():
            b = self.heap0.get(hk)
            if b is None:
                b = [z3.Const("%s.%s%s" % (hk[0], hk[1], "" if i == 0 else "#%d" % i), a.sort())
                     for i, a in enumerate(arrs)]
            if not cont.same(b, arrs):
                writes.append((("heap", hk), None))
        for owner, attr in writes:
            if isinstance(owner, tuple) and owner[0] == "heap":
                loc = owner
                if loc not in info.mods:
                    info.mods[loc] = "heap"
                    grown = True
                continue
            w = self.walk.get(id(owner))
            if w is None or w[1] is not owner:
                continue
            loc = ("at", w[0], attr)
            if loc in info.mods:
                continue
            if attr is None:
                info.mods[loc] = cont.unify(cont.kind_of(getattr(owner, "pv_entry", owner), c),
                                            cont.kind_of(owner, c))
            else:
                v = getattr(owner, attr, None)
                info.mods[loc] = cont.unify(None if not hasattr(owner, "__dict__") else cont.kind_of(v, c),
                                            cont.kind_of(v, c))
                info.mods[loc] = cont.kind_of(v, c)
            grown = True
        # kinds must be able to hold the new value
        for loc, kind in list(info.mods.items()):
            v = self.loc_value(loc, lv, self.bypath)
            new[loc] = v
            if kind in (None, "heap") or v is POISON:
                continue
            e0 = self.entry.get(loc)
            k = cont.unify(kind, cont.kind_of_local(v, c, self) if loc[0] == "local" else cont.kind_of(v, c))
            if e0 is not None and e0 is not POISON:
                k = cont.unify(k, cont.kind_of_local(e0, c, self) if loc[0] == "local" else cont.kind_of(e0, c))
            if k != kind:
                info.mods[loc] = k
                grown = True
        if grown:
            c.unit.restarts += 1
            if c.unit.restarts > 60:
                raise Unsupported("loop modification set does not stabilise")
            raise Restart()
        self.lv_end = lv
        frozen = {loc: cont.freeze(v, c) for loc, v in new.items()}
        # ---- remember the transition of this path for automatic candidates
        kname = self.k.decl().name()
        unstable = (self.hv - {kname}) | set(c.created[self.born_at:])
        stable = [e for e in self.conds if not (consts_of(e) & unstable)]
        path = tuple(c.taken[len(self.key[1]):])
        ghost1 = {}
        for loc in info.mods:
            same = cont.same(self.cur[loc], frozen[loc])
            ghost1[loc] = self.ghost[loc] if same else self.k
            if (loc, "nw") in self.ghost:
                ghost1[(loc, "nw")] = self.k if same else self.ghost[(loc, "nw")]
            self.ghost_step(loc, info.mods[loc], self.cur[loc], frozen[loc], ghost1)
            if c.phase == "discover":
                info.trans.setdefault(loc, {})[path] = (list(self.conds), frozen[loc], same)
        if c.phase == "discover":
            info.phis[path] = stable
            info.rawphis[path] = list(self.conds)
            info.kname, info.unstable, info.kconst = kname, unstable, self.k
            info.cur, info.allconds = self.curfull, None
        # ---- inductive step
        self.candidates(z3.simplify(self.k + 1), frozen, ghost1, "step")

    # ---- ghost state: which iteration wrote what
    def ghost_decls(self, info):
        from . import auto, cont
        A = z3.ArraySort(z3.IntSort(), z3.IntSort())
        for loc, kind in info.mods.items():
            n = locname(loc)
            yield loc, z3.IntSort(), n
            if isinstance(kind, cont.Kind) and kind in (cont.KInt, cont.KBool, cont.KReal):
                yield (loc, "nw"), z3.IntSort(), n + "@nw"
            if isinstance(kind, cont.KList):
                yield (loc, "src"), A, n + "@src"
                yield (loc, "pos"), A, n + "@pos"
            if kind is None or isinstance(kind, (cont.KEmpty, cont.KNone)):
                continue
            sorts = [a.sort() for a in self.c.heap.get(loc[1], [])] if kind == "heap" else kind.sorts()
            for i, s in enumerate(sorts):
                if isinstance(s, z3.ArraySortRef):
                    yield (loc, "lw", i), z3.ArraySort(s.domain(), z3.IntSort()), n + "@lw%d" % i

    def ghost_step(self, loc, kind, cur, new, out):
        from . import auto, cont
        a, b = auto.arrays_of(loc, kind, cur), auto.arrays_of(loc, kind, new)
        for gk, w in self.ghost.items():
            if gk in out:
                continue
            if not (isinstance(gk, tuple) and len(gk) >= 2 and gk[0] == loc and gk[1] in ("src", "pos", "lw")):
                continue
            out[gk] = w
            if a is None or b is None:
                continue
            if gk[1] == "lw":
                ch = auto.store_chain(b[gk[2]], a[gk[2]])
                for key, _ in ch or []:
                    out[gk] = z3.Store(out[gk], key, self.k)
            elif z3.simplify(b[0] - a[0]).eq(z3.IntVal(1)):
                e0 = auto.arrays_of(loc, kind, self.entry[loc])
                i = z3.simplify(a[0] - e0[0])
                out[gk] = z3.Store(w, i, self.k) if gk[1] == "src" else z3.Store(w, self.k, i)

    # ---- invariants
    def candidates(self, k, state, ghost, role):
        c, info = self.c, self.info
        if c.phase == "discover":
            return
        from . import auto
        for name, f in auto.candidates(self, info, k, state, ghost):
            if name in info.dead:
                continue
            if role == "assume":
                if self.late:                # claims about a local hold where it is bound
                    cs = consts_of(f)
                    un = [self.ghost[l] >= 0 for l, nm in self.late.items() if cs & nm]
                    f = z3.Implies(z3.And(*un), f) if un else f
                c.assume(f)
            else:
                o = c.oblige("%s/loop %s/%s/%s" % (c.unit.name, self.lid, role, name), f)
                o.key = (self.key, name)


def locname(loc):
    if loc[0] == "local":
        return loc[1]
    if loc[0] == "heap":
        return "heap:%s.%s" % loc[1]
    return ".".join(str(x[1]) if isinstance(x, tuple) else str(x) for x in loc[1]) + (
        "" if loc[2] is None else "." + loc[2])
