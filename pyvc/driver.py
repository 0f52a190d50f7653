"""Units (contracts), the three ways they run (PROVE, REPLAY, SEARCH) and the verdict."""
import base64
import copy as _copy
import datetime as _dt
import importlib
import json
import os
import pickle
import random
import select
import signal
import subprocess
import sys
import time
import traceback
from fractions import Fraction

import z3

from . import auto, cont, engine, sym
from .cont import (KBits, KBool, KConst, KDate, KDict, KDT, KInt, KList, KNone, KMaybe, KObj, KOpt, KReal, KRec, KSet, KStr, KTD,
                   KTime, KTuple, KUnion, PDict, PList, PSet, fresh_terms, is_proxy, wf)
from .engine import Obligation, Budget, Ctx, Restart
from .sym import PathEnd, SBits, SBool, SDT, SNum, SStr, STD, Sym, Unsupported, num, zb, znum

UNITS = {}
UTC = _dt.timezone.utc


class Unit:
    def __init__(self, name, fn, targets, inv, bounded, secs, search, kw):
        self.name, self.fn, self.targets, self.inv, self.bounded = name, fn, targets, inv, bounded
        self.secs, self.search, self.kw = secs, search, kw
        self.prop = name.split(".")[0]


def unit(name, targets, inv=None, bounded=False, secs=60, search=6, **kw):
    """declare a contract.  targets: the functions of /repo it is about; bounded: no proof attempted (stand-in)"""
    def deco(fn):
        assert name not in UNITS, "two units named " + name
        UNITS[name] = Unit(name, fn, [targets] if isinstance(targets, str) else list(targets), inv, bounded, secs,
                           search, kw)
        return fn
    return deco


class Reject(BaseException):
    pass


class Violated(BaseException):
    def __init__(self, name, detail=""):
        self.name, self.detail = name, detail


MADE = {}         # objects built by a contract without running their constructor (recent ones)


class Raised:
    def __init__(self, ex):
        self.ex = ex

    def __repr__(self):
        return "raised %s: %s" % (type(self.ex).__name__, self.ex)


PACKAGES = ("prosimos", "bpdfr_discovery", "cli")  # of the repository under verification


def ours(path):
    return any("/%s/" % p in path for p in PACKAGES[:2]) or path.endswith("/cli/diff_res_bpsim.py")


# ================================================================ common API
class Base:
    symbolic = False

    def mod(self, name):
        return importlib.import_module(name if name.split(".")[0] in PACKAGES else "prosimos." + name)

    def obj(self, cls, **fields):
        o = object.__new__(cls)
        for k, v in fields.items():
            object.__setattr__(o, k, v)
        MADE[id(o)] = o
        while len(MADE) > 4000:
            del MADE[next(iter(MADE))]
        self.track(o)
        return o

    def track(self, o, name=None):
        pass

    def raised(self, r, *types):
        return isinstance(r, Raised) and (not types or isinstance(r.ex, types))

    def patch(self, target, attr, val):
        self._undo.append((target, attr, target.__dict__.get(attr, _MISSING) if hasattr(target, "__dict__") else
                           getattr(target, attr)))
        setattr(target, attr, val)

    def undo(self):
        for t, a, v in reversed(self._undo):
            if v is _MISSING:
                try:
                    delattr(t, a)
                except AttributeError:
                    pass
            else:
                setattr(t, a, v)
        self._undo.clear()

    # kinds for harnesses
    Int, Real, Bool, Str, DT, TD, Time, Date, Bits, NoneK = (KInt, KReal, KBool, KStr, KDT, KTD, KTime, KDate, KBits,
                                                             KNone())
    Tuple, Opt, Union, Const, List, Dict, Set, Obj = KTuple, KOpt, KUnion, KConst, KList, KDict, KSet, KObj
    Rec, Maybe = KRec, KMaybe


_MISSING = object()


class SymC(Base):
    symbolic = True

    def __init__(self, run, ctx):
        self.run, self.x = run, ctx
        self._undo = []
        self._n = 0
        run.cur_c = self

    # ---- inputs
    def _in(self, name, kind, facts=True):
        ts = fresh_terms(self.x, kind, name)
        for t in ts:
            pass
        self.x.inputs[name] = (kind, ts)
        if facts:
            for w in wf(kind, ts):
                self.x.assume(w)
        return kind.build(ts) if not isinstance(kind, (KOpt, KUnion, KConst)) else kind.build(ts)

    def _rng(self, v, lo, hi):
        if lo is not None:
            self.assume(v >= lo)
        if hi is not None:
            self.assume(v <= hi)
        return v

    def int(self, name, lo=None, hi=None, g=None):
        return self._rng(self._in(name, KInt), lo, hi)

    def real(self, name, lo=None, hi=None, g=None):
        return self._rng(self._in(name, KReal), lo, hi)

    def bool(self, name):
        return self._in(name, KBool)

    def str(self, name, pool=None, g=None):
        v = self._in(name, KStr)
        return v

    def bits(self, name):
        return self._in(name, KBits)

    def dt(self, name, g=None):
        return self._in(name, KDT)

    def td(self, name, lo=None, g=None):
        v = self._in(name, KTD)
        if lo is not None:
            self.assume(v.e >= lo)
        return v

    def value(self, name, kind, g=None):
        return self._in(name, kind)

    def list(self, name, kind, g=None, lo=0, hi=None):
        l = self._in(name, KList(kind))
        if lo:
            self.x.assume(l.zlen() >= lo)
        if hi is not None:
            self.x.assume(l.zlen() <= hi)
        self.x.roots["in:" + name] = l
        return l

    def dict(self, name, kk, kv, ordered=False, g=None):
        d = self._in(name, KDict(kk, kv, ordered))
        self.x.roots["in:" + name] = d
        return d

    def set(self, name, k, g=None):
        return self._in(name, KSet(k))

    def choice(self, name, vals):
        i = self.x.choose(len(vals), name)
        self.x.inputs["choice:" + name] = ("choice", i)
        return vals[i]

    def mklist(self, items):
        return PList(items=list(items))

    def mkdict(self, pairs):
        return PDict(entries=[tuple(p) for p in (pairs.items() if callable(getattr(pairs, "items", None)) else pairs)])

    def mkset(self, items):
        return PSet(items=list(items))

    def uf(self, name, args, kind):
        """uninterpreted function of the arguments (an arbitrary but fixed behaviour)"""
        ts = [a.e if isinstance(a, Sym) else a.pv_ref if is_proxy(a) else znum(a) if not isinstance(a, str) else
              z3.IntVal(sym.str_code(a)) for a in args]
        fs = [z3.Function("uf:%s:%d" % (name, i), *([t.sort() for t in ts] + [s])) for i, s in enumerate(kind.sorts())]
        return kind.build([f(*ts) for f in fs])

    def track(self, o, name=None):
        self._n += 1
        self.x.roots[name or "obj%d" % self._n] = o

    # ---- flow
    def assume(self, f):
        e = zb(f) if not isinstance(f, bool) else None
        if e is None:
            if not f:
                raise PathEnd()
            return
        self.x.assume(e)

    def contract(self, target, attr, fn):
        """callee under its own contract: its body is not looked at here"""
        self.patch(target, attr, fn)
        self.run.modular.add("%s.%s" % (getattr(target, "__name__", type(target).__name__), attr))

    def fresh(self, name, kind):
        ts = fresh_terms(self.x, kind, name)
        for w in wf(kind, ts):
            self.x.assume(w)
        return kind.build(ts)

    def call(self, fn, *a, raises=(), **k):
        if not self.x.feasible_now():
            raise PathEnd()
        self.run.covered += 1
        try:
            r = fn(*a, **k)
        except (PathEnd, Restart, Budget, Unsupported):
            raise
        except RecursionError:
            raise Unsupported("recursion")
        except Exception as ex:
            if raises and isinstance(ex, raises):
                return Raised(ex)
            tb = traceback.extract_tb(ex.__traceback__)
            where = next((f for f in reversed(tb) if ours(f.filename)), tb[-1])
            o = self.x.oblige("%s/no %s at %s" % (self.run.unit.name, type(ex).__name__, where.name),
                              z3.BoolVal(False))
            o.reason = "%s: %s (line %s of %s)" % (type(ex).__name__, ex, where.lineno, where.filename)
            raise PathEnd()
        return r

    def check(self, name, f):
        self.x.oblige("%s/%s" % (self.run.unit.name, name), zb(self.truth(f)))

    # ---- specification operators
    def truth(self, v):
        return v if isinstance(v, (bool, SBool)) else SBool(sym.truth(v))

    def _b(self, v):
        return sym.truth(v) if not isinstance(v, z3.BoolRef) else v

    def and_(self, *a):
        return sym.mkbool(z3.And(*[self._b(v() if callable(v) else v) for v in a]))

    def or_(self, *a):
        return sym.mkbool(z3.Or(*[self._b(v() if callable(v) else v) for v in a]))

    def not_(self, a):
        return sym.mkbool(z3.Not(self._b(a)))

    def implies(self, a, b):
        a = self._b(a)
        if z3.is_false(a):
            return True
        return sym.mkbool(z3.Implies(a, self._b(b() if callable(b) else b)))

    def iff(self, a, b):
        return sym.mkbool(self._b(a) == self._b(b))

    def ite(self, c, a, b):
        c = self._b(c)
        if z3.is_true(c):
            return a() if callable(a) else a
        if z3.is_false(c):
            return b() if callable(b) else b
        a, b = a() if callable(a) else a, b() if callable(b) else b
        k = cont.unify(cont.kind_of(a, self.x), cont.kind_of(b, self.x))
        return k.build([z3.If(c, p, q) for p, q in zip(k.flat(a), k.flat(b))])

    def eq(self, a, b):
        if a is None or b is None:
            return a is None and b is None
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return self.and_(*[self.eq(x, y) for x, y in zip(a, b)])
        if is_proxy(a) and is_proxy(b):
            return sym.mkbool(a.pv_ref == b.pv_ref)
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return self.iff(a, b)
        return a == b

    def same_obj(self, a, b):
        if is_proxy(a) and is_proxy(b):
            return sym.mkbool(a.pv_ref == b.pv_ref)
        return a is b

    def _q(self, lo, hi, fn, want_any, nm):
        self._n += 1
        j = z3.Int("q!%s%d" % (nm, self._n))
        rng = z3.And(j >= znum(lo), j < znum(hi)) if lo is not None else z3.BoolVal(True)
        self.x.spec += 1
        try:
            self.x.solver.push()
            self.x.solver.add(rng)
            self.x.gconds.append(rng)
            self.x.gvars.append(j)
            f = self.x.merged_bool(lambda: self.truth(fn(SNum(j))))
        finally:
            self.x.gconds.pop()
            self.x.gvars.pop()
            self.x.solver.pop()
            self.x.spec -= 1
        return sym.mkbool(z3.Exists([j], z3.And(rng, f)) if want_any else z3.ForAll([j], z3.Implies(rng, f)))

    def forall(self, lo, hi, fn):
        return self._q(lo, hi, fn, False, "all")

    def exists(self, lo, hi, fn):
        return self._q(lo, hi, fn, True, "ex")

    def forall_int(self, fn, dom=()):
        return self._q(None, None, fn, False, "all")

    def forall_str(self, fn, dom=()):
        return self._q(None, None, lambda n: fn(SStr(n.e)), False, "str")

    def exists_str(self, fn, dom=()):
        return self._q(None, None, lambda n: fn(SStr(n.e)), True, "str")

    def spec(self, fn):
        """evaluate fn as a specification term (merged, no exceptions)"""
        self.x.spec += 1
        try:
            out = self.x.merge(fn)
        finally:
            self.x.spec -= 1
        kind = None
        for _, v in out:
            k = cont.kind_of(v, self.x)
            kind = k if kind is None else cont.unify(kind, k)
        if kind is None:
            if len(out) == 1:
                return out[0][1]
            raise Unsupported("spec value")
        fl = [(c, kind.flat(v)) for c, v in out]
        res = fl[-1][1]
        for c, f in reversed(fl[:-1]):
            res = [z3.If(c, a, b) for a, b in zip(f, res)]
        return kind.build(res)

    def sum(self, n, fn, kind=KReal, key=None):
        """fn(0)+...+fn(n-1)"""
        self._n += 1
        gv, srt = list(self.x.gvars), z3.ArraySort(z3.IntSort(), kind.sort)
        j = z3.Int("q!sum%d" % self._n)
        self.x.spec += 1
        self.x.gvars.append(j)
        self.x.solver.push()
        try:
            v = self.x.merge(lambda: fn(SNum(j)))
        finally:
            self.x.solver.pop()
            self.x.gvars.pop()
            self.x.spec -= 1
        e = kind.flat(v[-1][1])[0]
        for cd, q in reversed(v[:-1]):
            e = z3.If(cd, kind.flat(q)[0], e)
        if key and not any(engine.mentions(e, x) for x in gv):
            gv = []              # the same sum for every generic element
        A = z3.Function("sum:%s@of" % (key or self._n), *([v.sort() for v in gv] + [srt]))(*gv) if gv else \
            z3.Const("sum:%s" % (key or self._n), srt)
        self.x.assume(z3.ForAll([j], A[j] == e, patterns=[A[j]]))
        return num(auto.psum(self.x, A, znum(n)))

    def len(self, x):
        return x.pv_len() if hasattr(x, "pv_len") else len(x)

    def at(self, l, i):
        return l.at(znum(i)) if isinstance(l, PList) else l[i]

    def has(self, d, k):
        if isinstance(d, PDict) and d.entries is None:
            ke = d._key(k)
            return False if ke is None else sym.mkbool(d.has(ke))
        if isinstance(d, PSet) and d.items is None:
            return sym.mkbool(z3.Select(d.cell.get()[0], d.kind.flat(k)[0]))
        items = [q for q, _ in d.entries] if isinstance(d, PDict) else d.items if isinstance(d, (PSet, PList)) else d
        if items is None:
            return self.exists(0, self.len(d), lambda i: self.eq(d.at(znum(i)), k))
        return self.or_(*[self.eq(q, k) for q in items])

    def get(self, d, k):
        """dictionary value at k (meaningful only where has(d,k))"""
        if isinstance(d, PDict) and d.entries is None:
            return d.at(d._key(k))
        r = None
        kind = None
        for q, v in d.entries:
            if type(q) is type(k) and isinstance(k, (str, int)) and q == k:
                return v
        for q, v in d.entries:
            kv = cont.kind_of(v, self.x)
            kind = kv if kind is None else cont.unify(kind, kv)
        for q, v in reversed(d.entries):
            t = kind.flat(v)
            r = t if r is None else [z3.If(self._b(self.eq(q, k)), a, b) for a, b in zip(t, r)]
        return kind.build(r)

    def key_at(self, d, i):
        """i-th key in insertion order"""
        if d.entries is not None:
            return PList(items=[k for k, _ in d.entries]).at(znum(i))
        n, keys, pos = d._ord()
        return d.kk.build([z3.Select(keys, znum(i))])

    def idx(self, d, k):
        """position of a key in insertion order"""
        n, keys, pos = d._ord()
        return num(z3.Select(pos, d._key(k)))

    def bit(self, m, i):
        return sym.mkbool(z3.Select(sym.zbits(m), znum(i)))

    def old(self, v):
        if isinstance(v, (PList, PDict, PSet)):
            return cont.snapshot(v)
        return v

    def heap(self):
        return {k: list(v) for k, v in self.x.heap.items()}

    def min(self, a, b, *more):
        r = num(z3.If(*self._cmp2(a, b)))
        return self.min(r, *more) if more else r

    def max(self, a, b, *more):
        x = self._cmp2(a, b)
        r = num(z3.If(x[0], x[2], x[1]))
        return self.max(r, *more) if more else r

    def _cmp2(self, a, b):
        p, q = sym.coerce(znum(a), znum(b))
        return p <= q, p, q

    def fmt(self, f, *a):
        from . import rt
        return rt.mod(f, a)

    def seconds(self, td):
        return num(sym.ztd(td))

    def div(self, a, b):
        """a/b as a term (meaningful where b is not zero)"""
        return num(z3.ToReal(znum(a)) / sym.coerce(znum(b), z3.RealVal(0))[0]) if znum(a).is_int() else \
            num(znum(a) / sym.coerce(znum(b), z3.RealVal(0))[0])

    def delta(self, secs):
        from .rt import mk_timedelta
        return mk_timedelta(seconds=secs)

    def instant(self, d):
        """seconds since a fixed Monday midnight"""
        return num(sym.zdt(d))

    def floor(self, x):
        return num(sym.floor_int(znum(x)))


# ================================================================ concrete runs (real code, no instrumentation)
class ConcC(Base):
    def __init__(self, rng=None, values=None, hints=None):
        self.rng, self.values = rng, values
        self.log = {}
        self._undo = []
        self.checks = 0

    def _in(self, name, kind, g=None, lo=None, hi=None, pool=None):
        if self.values is not None:
            if name in self.values:
                v = self.values[name]
            else:
                v = default_value(kind)
        elif g is not None:
            v = g(self.rng)
        else:
            v = gen(kind, self.rng, lo, hi, pool)
        self.log[name] = describe(v)
        return v

    def int(self, name, lo=None, hi=None, g=None):
        v = self._in(name, KInt, g, lo, hi)
        if lo is not None and not isinstance(lo, Sym) and v < lo or hi is not None and v > hi:
            raise Reject()
        return v

    def real(self, name, lo=None, hi=None, g=None):
        v = self._in(name, KReal, g, lo, hi)
        if lo is not None and v < lo or hi is not None and v > hi:
            raise Reject()
        return v

    def bool(self, name):
        return self._in(name, KBool)

    def str(self, name, pool=None, g=None):
        return self._in(name, KStr, g, pool=pool)

    def bits(self, name):
        return self._in(name, KBits)

    def dt(self, name, g=None):
        return self._in(name, KDT, g)

    def td(self, name, lo=None, g=None):
        return self._in(name, KTD, g, lo)

    def value(self, name, kind, g=None):
        return self._in(name, kind, g)

    def list(self, name, kind, g=None, lo=0, hi=None):
        v = self._in(name, KList(kind), g, lo, hi)
        if len(v) < lo or hi is not None and len(v) > hi:
            raise Reject()
        return v

    def dict(self, name, kk, kv, ordered=False, g=None):
        return self._in(name, KDict(kk, kv, ordered), g)

    def set(self, name, k, g=None):
        return self._in(name, KSet(k), g)

    def choice(self, name, vals):
        if self.values is not None:
            i = self.values.get("choice:" + name, 0)
        else:
            i = self.rng.randrange(len(vals))
        self.log["choice:" + name] = i
        return vals[i]

    def mklist(self, items):
        return list(items)

    def mkdict(self, pairs):
        return dict(pairs)

    def mkset(self, items):
        return set(items)

    def uf(self, name, args, kind):
        memo = self.__dict__.setdefault("_uf", {})
        key = (name, tuple(id(a) if hasattr(a, "__dict__") else a for a in args))
        if key not in memo:
            r = random.Random(repr((name, tuple(repr(a) for a in args), self.rng.random() if self.rng else 0)))
            memo[key] = gen(kind, r, None, None, None)
        return memo[key]

    def fresh(self, name, kind):
        return gen(kind, self.rng or random.Random(0), None, None, None)

    def assume(self, f):
        if not f:
            raise Reject()

    def contract(self, target, attr, fn):
        pass                      # the real callee runs

    def call(self, fn, *a, raises=(), **k):
        try:
            return fn(*a, **k)
        except Exception as ex:
            if raises and isinstance(ex, raises):
                return Raised(ex)
            tb = traceback.extract_tb(ex.__traceback__)
            if not any(ours(f.filename) for f in tb):
                raise
            raise Violated("no %s" % type(ex).__name__, "%s: %s at %s" % (type(ex).__name__, ex, tb[-1]))

    def check(self, name, f):
        self.checks += 1
        if not f:
            raise Violated(name)

    truth = staticmethod(lambda v: True if v else False)

    def and_(self, *a):
        return all(bool(v() if callable(v) else v) for v in a)

    def or_(self, *a):
        return any(bool(v() if callable(v) else v) for v in a)

    def not_(self, a):
        return not a

    def implies(self, a, b):
        return (not a) or bool(b() if callable(b) else b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        r = a if c else b
        return r() if callable(r) else r

    def eq(self, a, b):
        if isinstance(a, (float, Fraction)) or isinstance(b, (float, Fraction)):
            if isinstance(a, (int, float, Fraction)) and isinstance(b, (int, float, Fraction)):
                return close(a, b)
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            return len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))
        return a == b

    def same_obj(self, a, b):
        return a is b

    def forall(self, lo, hi, fn):
        return all(fn(i) for i in range(lo, hi))

    def exists(self, lo, hi, fn):
        return any(fn(i) for i in range(lo, hi))

    def forall_int(self, fn, dom=()):
        return all(fn(i) for i in dom)

    def forall_str(self, fn, dom=()):
        return all(fn(i) for i in dom)

    def exists_str(self, fn, dom=()):
        return any(fn(i) for i in dom)

    def spec(self, fn):
        return fn()

    def sum(self, n, fn, kind=KReal, key=None):
        return sum(fn(i) for i in range(n))

    def len(self, x):
        return len(x)

    def at(self, l, i):
        return l[i]

    def has(self, d, k):
        return k in d

    def get(self, d, k):
        return d[k]

    def key_at(self, d, i):
        return list(d.keys())[i]

    def idx(self, d, k):
        return list(d.keys()).index(k)

    def bit(self, m, i):
        return (m >> i) & 1 == 1

    def old(self, v):
        return _copy.deepcopy(v) if isinstance(v, (list, dict, set)) else v

    min = staticmethod(min)
    max = staticmethod(max)

    def div(self, a, b):
        return a / b

    def fmt(self, f, *a):
        return f % a

    def seconds(self, td):
        return sym._secs(td)

    def delta(self, secs):
        from .rt import mk_timedelta
        return mk_timedelta(seconds=secs)

    def instant(self, d):
        return sym._secs(d.replace(tzinfo=None) - sym.EPOCH)

    def floor(self, x):
        import math
        return math.floor(x)


def close(a, b):
    if a == b:
        return True
    try:
        return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))
    except (OverflowError, TypeError):
        return False


# ---------------------------------------------------------------- random and default concrete values
def gen(kind, r, lo=None, hi=None, pool=None):
    if kind == KInt:
        a, b = -3 if lo is None else lo, None
        b = (max(a, 0) + (8 if r.random() < .8 else 40)) if hi is None else hi
        return r.randint(a, max(a, b))
    if kind == KReal:
        a = (-3 if lo is None else lo)
        b = max(a, 0) + 10 if hi is None else hi
        x = r.random()
        if x < .5:
            return float(r.randint(int(a), max(int(a), int(b)))) if int(a) >= a else float(a) + r.random() * (b - a)
        if x < .6:
            return float(a) if a != float("-inf") else 0.0
        return a + r.random() * (b - a)
    if kind == KBool:
        return r.random() < .5
    if kind == KStr:
        return r.choice(pool or ["s0", "s1", "s2", "s3", "s4"])
    if kind == KBits:
        return r.getrandbits(r.choice([3, 6, 70]))
    if kind == KDT:
        return gen_dt(r)
    if kind == KTD:
        return _dt.timedelta(seconds=gen(KReal, r, lo if lo is not None else -100, r.choice([50, 5000, 400000])))
    if kind == KTime:
        return _dt.time(r.randint(0, 23), r.randint(0, 59), r.choice([0, r.randint(0, 59)]))
    if kind == KDate:
        return gen_dt(r).date()
    if isinstance(kind, KNone):
        return None
    if isinstance(kind, KOpt):
        return None if r.random() < .3 else gen(kind.k, r, lo, hi, pool)
    if isinstance(kind, KTuple):
        return tuple(gen(k, r) for k in kind.ks)
    if isinstance(kind, KRec):
        return {f: gen(k.k if isinstance(k, KMaybe) else k, r) for f, k in kind.fields.items()
                if not isinstance(k, KMaybe) or r.random() < .6}
    if isinstance(kind, KUnion):
        return gen(r.choice(kind.ks), r)
    if isinstance(kind, KConst):
        return r.choice(kind.vals)
    if isinstance(kind, KList):
        n = r.randint(lo or 0, hi if hi is not None else max(lo or 0, r.choice([2, 4, 6])))
        return [gen(kind.k, r) for _ in range(n)]
    if isinstance(kind, KDict):
        d = {}
        for _ in range(r.randint(0, 5)):
            d[gen(kind.kk, r)] = gen(kind.kv, r)
        return d
    if isinstance(kind, KSet):
        return {gen(kind.k, r) for _ in range(r.randint(0, 4))}
    if isinstance(kind, KObj):
        return conc_obj(kind, {f: gen(k, r) for f, k in kind.fields.items()})
    raise Unsupported("no generator for %r" % (kind,))


def gen_dt(r):
    base = _dt.datetime(2024, 1, 1, tzinfo=UTC) + _dt.timedelta(days=r.randint(-3, 20))
    x = r.random()
    if x < .15:
        return base
    if x < .4:
        return base + _dt.timedelta(hours=r.randint(0, 23))
    if x < .8:
        return base + _dt.timedelta(seconds=r.randint(0, 86399))
    return base + _dt.timedelta(seconds=r.randint(0, 86399), microseconds=r.randint(0, 999999))


def conc_obj(kind, vals):
    cls = kind.cls
    if kind.methods:
        cls = type("Stub" + kind.tag, (kind.cls,), dict(kind.methods))
    o = object.__new__(cls)
    for f, v in vals.items():
        object.__setattr__(o, f, v)
    return o


def default_value(kind):
    return gen(kind, random.Random(0))


def describe(v, depth=0):
    if depth > 5:
        return "..."
    if isinstance(v, (list, tuple)):
        return [describe(x, depth + 1) for x in v]
    if isinstance(v, dict):
        return {str(k): describe(x, depth + 1) for k, x in v.items()}
    if isinstance(v, (int, float, str, bool)) or v is None:
        return v
    if hasattr(v, "__dict__") and type(v).__module__.startswith(PACKAGES + ("pyvc", "abc")):
        return {"<%s>" % type(v).__name__: {k: describe(x, depth + 1) for k, x in vars(v).items()}}
    return repr(v)


# ---------------------------------------------------------------- model -> concrete values
class Decoder:
    def __init__(self, model, inputs):
        self.m, self.objs = model, {}
        self.inputs = inputs
        self.interesting = set()

    def ev(self, t):
        return self.m.eval(t, model_completion=True)

    def val(self, kind, ts):
        if kind == KInt:
            return self.ev(ts[0]).as_long()
        if kind == KReal:
            v = self.ev(ts[0])
            if z3.is_algebraic_value(v):
                v = v.approx(20)
            f = Fraction(v.numerator_as_long(), v.denominator_as_long())
            return int(f) * 1.0 if f.denominator == 1 and abs(f) < 2 ** 53 else float(f)
        if kind == KBool:
            return z3.is_true(self.ev(ts[0]))
        if kind == KStr:
            return sym.str_of_code(self.ev(ts[0]).as_long())
        if kind in (KDT, KTD, KTime):
            s = self.val(KReal, ts)
            if kind == KDT:
                return _dt.datetime(2024, 1, 1, tzinfo=UTC) + _dt.timedelta(seconds=s)
            if kind == KTD:
                return _dt.timedelta(seconds=s)
            return (_dt.datetime(2024, 1, 1) + _dt.timedelta(seconds=s)).time()
        if kind == KDate:
            return sym.EPOCH.date() + _dt.timedelta(days=self.ev(ts[0]).as_long())
        if kind == KBits:
            return sum(1 << i for i in range(0, 64) if z3.is_true(self.ev(z3.Select(ts[0], i))))
        if isinstance(kind, KNone):
            return None
        if isinstance(kind, KOpt):
            return None if z3.is_true(self.ev(ts[0])) else self.val(kind.k, ts[1:])
        if isinstance(kind, KRec):
            out = {}
            for f, k in kind.fields.items():
                a, b = kind.off[f]
                if isinstance(k, KMaybe):
                    if not z3.is_true(self.ev(ts[a])):
                        continue
                    k, a = k.k, a + 1
                out[f] = self.val(k, ts[a:b])
            return out
        if isinstance(kind, KTuple):
            out, i = [], 0
            for k in kind.ks:
                n = len(k.sorts())
                out.append(self.val(k, ts[i:i + n]))
                i += n
            return tuple(out)
        if isinstance(kind, KUnion):
            tag, pos = self.ev(ts[0]).as_long(), 1
            for i, k in enumerate(kind.ks):
                n = len(k.sorts())
                if i == tag or i == len(kind.ks) - 1:
                    return self.val(k, ts[pos:pos + n])
                pos += n
        if isinstance(kind, KConst):
            i = self.ev(ts[0]).as_long()
            return kind.vals[min(max(i, 0), len(kind.vals) - 1)]
        if isinstance(kind, KList):
            n = self.ev(ts[0]).as_long()
            if n > 60:
                raise Unsupported("model with a list of length %d" % n)
            return [self.val(kind.k, [z3.Select(a, i) for a in ts[1:]]) for i in range(max(n, 0))]
        if isinstance(kind, KDict):
            keys = []
            nv = len(kind.kv.sorts())
            if kind.ordered:
                n = self.ev(ts[1 + nv]).as_long()
                if n > 60:
                    raise Unsupported("model with a dict of size %d" % n)
                keys = [self.ev(z3.Select(ts[2 + nv], i)) for i in range(max(n, 0))]
            else:
                keys = [k for k in self.keys(ts[0]) if z3.is_true(self.ev(z3.Select(ts[0], k)))]
            d = {}
            for k in keys:
                d[self.val(kind.kk, [k])] = self.val(kind.kv, [z3.Select(a, k) for a in ts[1:1 + nv]])
            return d
        if isinstance(kind, KSet):
            return {self.val(kind.k, [k]) for k in self.keys(ts[0]) if z3.is_true(self.ev(z3.Select(ts[0], k)))}
        if isinstance(kind, KObj):
            r = self.ev(ts[0]).as_long()
            if (kind.tag, r) in self.objs:
                return self.objs[(kind.tag, r)]
            o = conc_obj(kind, {})
            self.objs[(kind.tag, r)] = o
            for f, k in kind.fields.items():
                hs = [z3.Select(z3.Const("%s.%s%s" % (kind.tag, f, "" if i == 0 else "#%d" % i),
                                         z3.ArraySort(z3.IntSort(), s)), z3.IntVal(r)) for i, s in enumerate(k.sorts())]
                object.__setattr__(o, f, self.val(k, hs))
            return o
        raise Unsupported("cannot decode %r" % (kind,))

    def keys(self, dom):
        """candidate keys: those mentioned anywhere in the model"""
        out = {}

        def add(e):
            if e.sort() == dom.sort().domain() and (z3.is_int_value(e) or z3.is_rational_value(e)):
                out[str(e)] = e
        todo = [self.ev(dom)]
        seen = set()
        for d in self.m.decls():
            v = self.m[d]
            if isinstance(v, z3.FuncInterp):
                for i in range(v.num_entries()):
                    e = v.entry(i)
                    for j in range(e.num_args()):
                        add(e.arg_value(j))
            elif isinstance(v, z3.ExprRef):
                todo.append(v)
        while todo:
            e = todo.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            add(e)
            if not z3.is_quantifier(e):
                todo.extend(e.children())
        return list(out.values())[:80]


# ================================================================ PROVE
class Run:
    def __init__(self, unit, tier):
        self.unit, self.tier, self.name, self.inv = unit, tier, unit.name, unit.inv
        self.loopinfo, self.work, self.fall = {}, [], {}
        self.obls, self.okeys = [], set()
        self.feas_calls, self.feas_secs, self.feas_ms = 0, 0.0, 400
        self.restarts = 0
        self.max_depth = unit.kw.get("max_depth", 400)
        self.deadline = time.time() + unit.secs * (1 if tier == "quick" else 4)
        self.paths = self.covered = 0
        self.limits = []
        self.modular = set()
        self.cur_c = None
        self.solver_secs = 0.0
        self.no_auto = unit.kw.get("no_auto", False)
        self.tmo = unit.kw.get("timeout_ms", 4000)

    def add_obligation(self, o):
        k = (o.name, o.goal.get_id(), tuple(h.get_id() for h in o.hyps))
        if k in self.okeys:
            return
        self.okeys.add(k)
        self.obls.append(o)

    def explore(self, phase):
        while True:
            self.work, self.obls, self.okeys, self.limits = [[]], [], set(), []
            self.paths = self.covered = 0
            try:
                while self.work:
                    if time.time() > self.deadline:
                        raise Budget()
                    prefix = self.work.pop()
                    self.one(prefix, phase)
                return
            except Restart:
                continue

    def one(self, prefix, phase):
        self.paths += 1
        if self.paths > self.unit.kw.get("max_paths", 3000):
            raise Unsupported("too many paths")
        x = Ctx(self, prefix, phase)
        sym.CTX[0] = x
        c = SymC(self, x)
        try:
            self.unit.fn(c)
        except PathEnd:
            pass
        except Unsupported as u:
            tb = traceback.extract_tb(u.__traceback__)
            wh = next((f for f in reversed(tb) if ours(f.filename)), None)
            self.limits.append(("%s%s" % (u, " [%s:%s]" % (os.path.basename(wh.filename), wh.lineno) if wh else ""),
                                list(x.facts)))
            if os.environ.get("PV_TRACE"):
                traceback.print_exc()
        except Reject:
            pass
        finally:
            c.undo()
            sym.CTX[0] = None

    # ---- discharge
    def solve(self, o, ms):
        t = time.time()
        if z3.is_true(o.goal):
            o.status, o.solver = "proved", "simplifier"
            return
        # z3 briefly, then cvc5, then z3 for the whole time limit; candidate invariants get one try
        quick = min(ms, 1000) if o.key is None else ms
        for attempt in (0, 1, 2):
            stated = o.key is not None and o.key[1].startswith("spec:")       # an invariant of the unit itself
            if attempt and (o.status != "unknown" or o.key is not None and not (stated and attempt == 1)):
                break
            if attempt == 1:
                if self.cvc5(o, 2 * ms if stated else ms) == "unsat":
                    o.status, o.solver = "proved", "cvc5"
            elif attempt == 0 or ms > quick:
                s = z3.Solver()
                s.set("timeout", ms if attempt else quick)
                s.add(*o.hyps)
                s.add(z3.Not(o.goal))
                r = s.check()
                if r == z3.unsat:
                    o.status, o.solver = "proved", "z3"
                elif r == z3.sat:
                    o.status, o.solver = "refuted", "z3"
                    o.model = s.model()
                else:
                    o.status, o.solver, o.reason = "unknown", "z3", (o.reason or "") + s.reason_unknown()
            o.secs = time.time() - t
        self.solver_secs += o.secs

    def impossible(self, facts):
        o = Obligation(self.name + "/path outside the subset", facts, z3.BoolVal(False), (), False, {})
        self.solve(o, 3000)
        return o.status == "proved"

    def cvc5(self, o, ms):
        s = z3.Solver()
        s.add(*o.hyps)
        s.add(z3.Not(o.goal))
        txt = "(set-logic ALL)\n" + s.to_smt2().replace("(set-info :status unknown)", "")
        try:
            p = subprocess.run(["cvc5", "--lang=smt2", "--enum-inst", "--tlimit=%d" % ms, "-q"], input=txt, capture_output=True, text=True,
                               timeout=ms / 1000 + 5)
            return p.stdout.strip().split("\n")[0] if p.stdout else "error"
        except Exception:
            return "error"

    def prove(self):
        """returns dict result"""
        sys.setrecursionlimit(5000)
        res = {"unit": self.name, "status": "undecided", "limits": []}
        t0 = time.time()
        try:
            self.explore("discover")
            n = 0
            while True:
                n += 1
                self.explore("prove")
                dropped = False
                for o in self.obls:
                    if o.key is None:
                        continue
                    lk, nm = o.key
                    info = self.loopinfo[lk]
                    if nm in info.dead:
                        continue
                    self.solve(o, 700 if self.tier == "quick" else 2500)
                    if o.status != "proved":
                        info.dead.add(nm)
                        dropped = True
                    if time.time() > self.deadline:
                        raise Budget()
                if not dropped:
                    break
                if n > 12:
                    raise Unsupported("invariant inference does not converge")
            for o in self.obls:
                if o.key is None:
                    self.solve(o, self.tmo if self.tier == "quick" else 4 * self.tmo)
                if time.time() > self.deadline + 30:
                    raise Budget()
            ob = self.obls
            # a path outside the subset does not matter if it cannot be taken
            for what, facts in self.limits:
                if what not in res["limits"] and not self.impossible(facts):
                    res["limits"].append(what)
            if not self.covered or not [o for o in ob if o.key is None]:
                res["limits"].append("no obligation generated (vacuous)")
            bad = [o for o in ob if o.status == "refuted" and o.key is None]
            unk = [o for o in ob if o.status == "unknown" and o.key is None]
            res["status"] = "refuted" if bad else "undecided" if unk or res["limits"] else "proved"
            res["bad"] = [self.export(o) for o in bad[:6]]
            res["unk"] = [(o.name, o.reason) for o in unk[:10]]
        except Budget:
            res["limits"].append("time budget")
        except Unsupported as u:
            res["limits"].append(str(u))
        except Exception as e:
            res["limits"].append("engine: " + "".join(traceback.format_exception_only(type(e), e)).strip())
            if os.environ.get("PV_TRACE"):
                traceback.print_exc()
        names = {}
        for o in self.obls:
            names.setdefault(o.name, []).append(o)
        res.update(paths=self.paths, covered=self.covered, feas=self.feas_calls, secs=round(time.time() - t0, 2),
                   solver_secs=round(self.solver_secs + self.feas_secs, 2), modular=sorted(self.modular),
                   obligations=len(self.obls), discharged=sum(1 for o in self.obls if o.status == "proved"),
                   by={s: sum(1 for o in self.obls if o.status == "proved" and o.solver == s)
                       for s in ("z3", "cvc5", "simplifier")},
                   names={k: "%d/%d" % (sum(1 for o in v if o.status == "proved"), len(v)) for k, v in names.items()},
                   loops=len(self.loopinfo))
        return res

    def export(self, o):
        d = Decoder(o.model, o.inputs)
        vals, err = {}, None
        try:
            for n, (kind, ts) in o.inputs.items():
                vals[n] = ts if kind == "choice" else d.val(kind, ts)
        except Exception as e:
            err = repr(e)
        try:
            blob = base64.b64encode(pickle.dumps(PickleVals(vals))).decode() if err is None else None
        except Exception as e:
            blob, err = None, "model values not transferable: %r" % (e,)
        return {"obligation": o.name, "reason": o.reason, "havoc": o.havoc, "blob": blob, "err": err,
                "model": str(o.model)[:3000], "goal": str(o.goal)[:1500], "path": str(list(o.prefix))[:300],
                "vals": describe(vals) if err is None else None}


class PickleVals:
    """model values crossing from the symbolic to the native process: objects travel as (module, class, fields)"""

    def __init__(self, vals):
        self.v = vals

    def __reduce__(self):
        return (_load, (enc(self.v, {}),))


def enc(v, memo):
    if isinstance(v, (int, float, str, bool, _dt.datetime, _dt.timedelta, _dt.time, _dt.date)) or v is None:
        return ("c", v)
    if isinstance(v, list):
        return ("l", [enc(x, memo) for x in v])
    if isinstance(v, tuple):
        return ("t", [enc(x, memo) for x in v])
    if isinstance(v, (set, frozenset)):
        return ("s", [enc(x, memo) for x in v])
    if isinstance(v, dict):
        return ("d", [(enc(k, memo), enc(x, memo)) for k, x in v.items()])
    import enum
    if isinstance(v, enum.Enum):
        return ("e", type(v).__module__, type(v).__name__, v.name)
    if isinstance(v, type):
        return ("k", v.__module__, v.__name__)
    if id(v) in memo:
        return ("r", memo[id(v)])
    memo[id(v)] = len(memo)
    cls = next(k for k in type(v).__mro__ if k.__module__.startswith(PACKAGES))
    return ("o", memo[id(v)], cls.__module__, cls.__name__, [(a, enc(x, memo)) for a, x in vars(v).items()])


def _load(e):
    memo = {}

    def dec(e):
        t = e[0]
        if t == "c":
            return e[1]
        if t == "l":
            return [dec(x) for x in e[1]]
        if t == "t":
            return tuple(dec(x) for x in e[1])
        if t == "s":
            return {dec(x) for x in e[1]}
        if t == "d":
            return {dec(k): dec(x) for k, x in e[1]}
        if t == "e":
            return getattr(getattr(importlib.import_module(e[1]), e[2]), e[3])
        if t == "k":
            return getattr(importlib.import_module(e[1]), e[2])
        if t == "r":
            return memo[e[1]]
        cls = getattr(importlib.import_module(e[2]), e[3])
        o = object.__new__(cls)
        memo[e[1]] = o
        for a, x in e[4]:
            object.__setattr__(o, a, dec(x))
        return o
    return dec(e)


# ================================================================ SEARCH / REPLAY
def run_concrete(unit, c):
    """(status, detail): ok / reject / violated"""
    try:
        unit.fn(c)
        return "ok", None
    except Reject:
        return "reject", None
    except Violated as v:
        return "violated", {"obligation": "%s/%s" % (unit.name, v.name), "detail": v.detail, "inputs": c.log}
    finally:
        c.undo()


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def guarded(fn, secs, unit):
    """run fn with a wall-clock limit; a hang of the code under test is reported by the caller"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, secs)
    try:
        return fn()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def stale_stub(ex):
    """the code under test asks an object built by the contract for something that only its real construction provides
    (a new attribute, a new parameter of a replaced callee): the contract is out of date, nothing is decided by it"""
    import inspect
    import re
    if isinstance(ex, TypeError):
        m = str(ex)
        return ("<lambda>" in m or "<locals>" in m) and ("argument" in m)
    if not isinstance(ex, AttributeError) or getattr(ex, "name", None) is None:
        return False
    o, nm = ex.obj, re.escape(ex.name)
    cls = o if isinstance(o, type) else type(o)
    if cls.__module__.startswith(("units.", "pyvc.")):
        pat = r"(\.%s\s*(:[^=\n]+)?=[^=])|(def %s\()|(^\s+%s\s*[:=])" % (nm, nm, nm)
        for m in list(sys.modules.values()):
            f = getattr(m, "__file__", None) or ""
            if m.__name__.startswith(PACKAGES) and f.endswith(".py") and re.search(pat, open(f).read(), re.M):
                return True
        return False
    if id(o) in MADE and not isinstance(o, type):
        for k in cls.__mro__[:-1]:
            try:
                src = inspect.getsource(k)
            except (OSError, TypeError):
                continue
            if re.search(r"(self\.%s\s*(:[^=\n]+)?=[^=])|(^\s+%s\s*[:=])" % (nm, nm), src, re.M):
                return True
    return False


def absent(ex):
    """the contract asks for an element of the result that is not there (a sequence that is too short, nothing returned)"""
    if isinstance(ex, IndexError):
        return "index out of range" in str(ex)
    return isinstance(ex, (TypeError, AttributeError)) and "'NoneType' object" in str(ex)


def search(unit, seed, secs, start=0, absent_counts=False):
    """inputs for which the contract asks for a part of the result that is not there count as violations
    if the contract fits other inputs: a contract that fits none does not fit the interface of the code"""
    t0, n, ok, checks, i = time.time(), 0, 0, 0, start
    err, gone = None, None
    maxn = unit.kw.get("max_iter", 10 ** 9)
    while time.time() - t0 < secs and n < maxn:
        rng = random.Random("%s/%s/%d" % (unit.name, seed, i))
        random.seed(rng.random())
        try:
            import numpy
            numpy.random.seed(rng.randrange(2 ** 31))
        except ImportError:
            pass
        c = ConcC(rng=rng)
        try:
            st, d = guarded(lambda: run_concrete(unit, c), unit.kw.get("hang", 20), unit)
        except Timeout:
            c.undo()
            st, d = "violated", {"obligation": unit.name + "/terminates", "detail": "no result after the time limit",
                                 "inputs": c.log}
        except Exception as ex:
            tb = traceback.extract_tb(ex.__traceback__)
            if stale_stub(ex) or (not ours(tb[-1].filename) and
                                  not any(ours(f.filename) for f in tb)):
                # the contract no longer fits the interface of the code: nothing is decided by it
                if absent(ex):
                    n += 1
                    i += 1
                    gone = gone or (i - 1, {
                        "obligation": "%s/the result has the parts it should have" % unit.name, "inputs": c.log,
                        "detail": "%s: %s at %s" % (type(ex).__name__, ex, tb[-1])}, "".join(
                            traceback.format_exception(type(ex), ex, ex.__traceback__))[-700:])
                    if ok or absent_counts or (n >= 50 and time.time() - t0 > 1):
                        break
                    continue
                return {"unit": unit.name, "status": "unfit", "n": n, "ok": ok, "checks": checks,
                        "error": "".join(traceback.format_exception(type(ex), ex, ex.__traceback__))[-700:]}
            st, d = "violated", {"obligation": "%s/no %s" % (unit.name, type(ex).__name__), "inputs": c.log,
                                 "detail": "%s: %s at %s" % (type(ex).__name__, ex, tb[-1])}
        n += 1
        checks += c.checks
        if st == "ok":
            ok += 1
        elif st == "violated":
            d.update(unit=unit.name, mode="search", seed=seed, iteration=i)
            return {"unit": unit.name, "status": "violated", "witness": d, "n": n, "ok": ok, "checks": checks,
                    "secs": round(time.time() - t0, 2)}
        i += 1
        if gone and ok:
            break
    if gone:
        i, d, e = gone
        if ok or absent_counts:
            d.update(unit=unit.name, mode="search", seed=seed, iteration=i, absent=True)
            return {"unit": unit.name, "status": "violated", "witness": d, "n": n, "ok": ok, "checks": checks,
                    "secs": round(time.time() - t0, 2)}
        return {"unit": unit.name, "status": "unfit", "n": n, "ok": ok, "checks": checks, "error": e}
    return {"unit": unit.name, "status": "clean" if ok else "vacuous", "n": n, "ok": ok, "checks": checks,
            "secs": round(time.time() - t0, 2), "err": err}


def replay_model(unit, blob):
    vals = pickle.loads(base64.b64decode(blob))
    for n, (kind) in list(vals.items()):
        pass
    c = ConcC(rng=random.Random(0), values=vals)
    try:
        return guarded(lambda: run_concrete(unit, c), 20, unit)
    except Timeout:
        c.undo()
        return "violated", {"obligation": unit.name + "/terminates", "detail": "no result after 20 s", "inputs": c.log}
