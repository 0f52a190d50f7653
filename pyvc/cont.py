"""Kinds (how a Python value is flattened to z3 terms) and containers.

Containers work in two modes: concrete (a Python list of items) and symbolic (z3 arrays + length / domain).
Symbolic containers nested in other containers are views: they read from and write back to their parent."""
import datetime as _dt

import z3

from . import sym
from .sym import (SBits, SBool, SDate, SDT, SNum, SStr, STD, STime, Sym, Unsupported, ctx, mkbool, num, str_code,
                  to_real, zb, znum)

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


# ================================================================ kinds
class Kind:
    name = "?"

    def __eq__(self, o):
        return type(self) is type(o) and self.args() == o.args()

    def __hash__(self):
        return hash((type(self).__name__, str(self)))

    def args(self):
        return ()

    def __repr__(self):
        return self.name + (str(self.args()) if self.args() else "")


class _Scalar(Kind):
    def __init__(self, name, sort, build, flat):
        self.name, self.sort, self._b, self._f = name, sort, build, flat

    def args(self):
        return (self.name,)

    def sorts(self):
        return [self.sort]

    def build(self, ts):
        return self._b(ts[0])

    def flat(self, v):
        r = self._f(v)
        if r is None:
            raise Unsupported("value %r does not fit kind %s" % (v, self.name))
        return [r]


def _fi(v):
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, SBool):
        return v._n().e
    e = znum(v) if not isinstance(v, (str,)) else None
    return e if e is not None and z3.is_int(e) else None


def _fr(v):
    e = znum(v)
    return None if e is None else to_real(e)


def _fb(v):
    return v.e if isinstance(v, SBool) else z3.BoolVal(v) if isinstance(v, bool) else None


def _fs(v):
    return v.e if isinstance(v, SStr) else z3.IntVal(str_code(v)) if isinstance(v, str) else None


def _bs(t):
    t = z3.simplify(t)
    if z3.is_int_value(t) and t.as_long() in sym._lit_rev:
        return sym._lit_rev[t.as_long()]
    return SStr(t)


KInt = _Scalar("int", I, num, _fi)
KReal = _Scalar("real", R, num, _fr)
KBool = _Scalar("bool", B, mkbool, _fb)
KStr = _Scalar("str", I, _bs, _fs)
KDT = _Scalar("dt", R, SDT, sym.zdt)
KTD = _Scalar("td", R, STD, sym.ztd)
KTime = _Scalar("time", R, STime, sym.ztime)
KDate = _Scalar("date", I, SDate, sym.zdate)
KBits = _Scalar("bits", z3.ArraySort(I, B), SBits,
                lambda v: sym.zbits(v) if isinstance(v, (int, SBits)) else None)


class KNone(Kind):
    name = "none"

    def sorts(self):
        return []

    def build(self, ts):
        return None

    def flat(self, v):
        if v is not None:
            raise Unsupported("None expected")
        return []


class KTuple(Kind):
    name = "tuple"

    def __init__(self, *ks):
        self.ks = tuple(ks)

    def args(self):
        return self.ks

    def sorts(self):
        return [s for k in self.ks for s in k.sorts()]

    def build(self, ts):
        out, i = [], 0
        for k in self.ks:
            n = len(k.sorts())
            out.append(k.build(ts[i:i + n]))
            i += n
        return tuple(out)

    def flat(self, v):
        if isinstance(v, PList) and v.items is not None:
            v = tuple(v.items)
        if not isinstance(v, tuple) or len(v) != len(self.ks):
            raise Unsupported("tuple of %d expected" % len(self.ks))
        return [t for k, x in zip(self.ks, v) for t in k.flat(x)]


class KMaybe(Kind):
    """entry of a record that may be missing"""
    name = "maybe"

    def __init__(self, k):
        self.k = k

    def args(self):
        return (self.k,)

    def sorts(self):
        return [B] + self.k.sorts()


class KRec(Kind):
    """dictionary with a fixed set of string keys, each with its own kind"""
    name = "rec"

    def __init__(self, **fields):
        self.fields = fields
        self.off, n = {}, 0
        for f, k in fields.items():
            m = len(k.sorts())
            self.off[f] = (n, n + m)
            n += m

    def args(self):
        return tuple(self.fields.items())

    def sorts(self):
        return [s for k in self.fields.values() for s in k.sorts()]

    def build(self, ts):
        return PRec(self, OwnCell(ts))

    def view(self, cell):
        return PRec(self, cell)

    def flat(self, v):
        if isinstance(v, dict):
            v = PDict(entries=list(v.items()))
        if isinstance(v, PRec) and v.kind == self:
            return list(v.cell.get())
        if isinstance(v, PDict) and v.entries is not None and all(isinstance(k, str) for k, _ in v.entries):
            d = dict(v.entries)
            must = {f for f, k in self.fields.items() if not isinstance(k, KMaybe)}
            if must <= set(d) <= set(self.fields):
                out = []
                for f, k in self.fields.items():
                    if not isinstance(k, KMaybe):
                        out += k.flat(d[f])
                    elif f in d:
                        out += [z3.BoolVal(True)] + k.k.flat(d[f])
                    else:
                        out += [z3.BoolVal(False)] + [default(q) for q in k.k.sorts()]
                return out
        raise Unsupported("record with the keys %s expected" % sorted(self.fields))


class KOpt(Kind):
    name = "opt"

    def __init__(self, k):
        self.k = k

    def args(self):
        return (self.k,)

    def sorts(self):
        return [B] + self.k.sorts()

    def build(self, ts):
        t = z3.simplify(ts[0])
        if z3.is_true(t):
            return None
        if z3.is_false(t):
            return self.k.build(ts[1:])
        if ctx().branch(t):
            return None
        return self.k.build(ts[1:])

    def flat(self, v):
        if v is None:
            return [z3.BoolVal(True)] + [default(s) for s in self.k.sorts()]
        return [z3.BoolVal(False)] + self.k.flat(v)


class KUnion(Kind):
    """a value of one of several kinds (tag + components of each)"""
    name = "union"

    def __init__(self, *ks):
        self.ks = tuple(ks)

    def args(self):
        return self.ks

    def sorts(self):
        return [I] + [s for k in self.ks for s in k.sorts()]

    def build(self, ts):
        pos = 1
        for i, k in enumerate(self.ks):
            n = len(k.sorts())
            if i == len(self.ks) - 1 or ctx().branch(ts[0] == i):
                return k.build(ts[pos:pos + n])
            pos += n

    def flat(self, v):
        out, tag = [], None
        for i, k in enumerate(self.ks):
            f = None
            if tag is None:
                try:
                    f = k.flat(v)
                    tag = i
                except Unsupported:
                    f = None
            out += f if f is not None else [default(s) for s in k.sorts()]
        if tag is None:
            raise Unsupported("value %r fits no alternative of %r" % (v, self))
        return [z3.IntVal(tag)] + out


class KConst(Kind):
    """one of a fixed set of Python objects (enum members, classes...)"""
    name = "const"

    def __init__(self, *vals):
        self.vals = tuple(vals)

    def args(self):
        return tuple(map(id, self.vals))

    def sorts(self):
        return [I]

    def build(self, ts):
        t = z3.simplify(ts[0])
        for i, v in enumerate(self.vals[:-1]):
            if ctx().branch(t == i):
                return v
        return self.vals[-1]

    def flat(self, v):
        for i, x in enumerate(self.vals):
            if x is v:
                return [z3.IntVal(i)]
        for i, x in enumerate(self.vals):
            if type(x) is type(v) and x == v:
                return [z3.IntVal(i)]
        raise Unsupported("value %r is not one of the declared constants" % (v,))


class KList(Kind):
    name = "list"

    def __init__(self, k):
        self.k = k

    def args(self):
        return (self.k,)

    def sorts(self):
        return [I] + [z3.ArraySort(I, s) for s in self.k.sorts()]

    def build(self, ts):
        return PList(kind=self.k, cell=OwnCell(ts))

    def view(self, cell):
        return PList(kind=self.k, cell=cell)

    def flat(self, v):
        if isinstance(v, (list, tuple)):
            v = PList(items=list(v))
        if not isinstance(v, PList):
            raise Unsupported("list expected, got %r" % (type(v),))
        return v.flat_as(self.k)


class KDict(Kind):
    """ordered: insertion order is represented (needed to iterate or measure)"""
    name = "dict"

    def __init__(self, kk, kv, ordered=False):
        self.kk, self.kv, self.ordered = kk, kv, ordered
        if len(kk.sorts()) != 1:
            raise Unsupported("dictionary keys with several components")

    def args(self):
        return (self.kk, self.kv, self.ordered)

    def sorts(self):
        ks = self.kk.sorts()[0]
        r = [z3.ArraySort(ks, B)] + [z3.ArraySort(ks, s) for s in self.kv.sorts()]
        if self.ordered:
            r += [I, z3.ArraySort(I, ks), z3.ArraySort(ks, I)]
        return r

    def build(self, ts):
        return PDict(kind=self, cell=OwnCell(ts))

    def view(self, cell):
        return PDict(kind=self, cell=cell)

    def flat(self, v):
        if isinstance(v, dict):
            v = PDict(entries=list(v.items()))
        if not isinstance(v, PDict):
            raise Unsupported("dict expected, got %r" % (type(v),))
        return v.flat_as(self)


class KSet(Kind):
    name = "set"

    def __init__(self, k):
        self.k = k

    def args(self):
        return (self.k,)

    def sorts(self):
        return [z3.ArraySort(self.k.sorts()[0], B)]

    def build(self, ts):
        return PSet(kind=self.k, cell=OwnCell(ts))

    def view(self, cell):
        return PSet(kind=self.k, cell=cell)

    def flat(self, v):
        if isinstance(v, (set, frozenset)):
            v = PSet(items=list(v))
        return v.flat_as(self.k)


class KObj(Kind):
    """reference to a heap object of a repository class; its declared fields live in heap arrays"""
    name = "obj"

    def __init__(self, cls, fields, methods=None, tag=None, eq_ref=True):
        self.cls, self.fields, self.methods = cls, dict(fields), dict(methods or {})
        self.tag = tag or cls.__name__
        self.eq_ref = eq_ref
        self._proxy = None

    def args(self):
        return (self.tag,)

    def sorts(self):
        return [I]

    def proxy(self):
        if self._proxy is None:
            ns = {"__slots__": ("pv_ref",), "pv_kind": self}
            for f, k in self.fields.items():
                ns[f] = _prop(self, f, k)
            for m, f in self.methods.items():
                ns[m] = f
            if self.eq_ref:
                def eq(a, b):
                    if is_proxy(b) and b.pv_kind.tag == a.pv_kind.tag:
                        return mkbool(a.pv_ref == b.pv_ref)
                    return False
                ns["__eq__"] = eq
                ns["__ne__"] = lambda a, b: sym.snot(eq(a, b))
                ns["__hash__"] = None
            ns["__copy__"] = lambda s: s
            ns["__deepcopy__"] = lambda s, m: s
            if "__bool__" not in ns and not hasattr(self.cls, "__bool__") and not hasattr(self.cls, "__len__"):
                ns["__bool__"] = lambda s: True
            self._proxy = type("Sym" + self.tag, (self.cls,), ns)
        return self._proxy

    def build(self, ts):
        o = object.__new__(self.proxy())
        object.__setattr__(o, "pv_ref", z3.simplify(ts[0]))
        return o

    def flat(self, v):
        if is_proxy(v) and v.pv_kind.tag == self.tag:
            return [v.pv_ref]
        raise Unsupported("reference to %s expected, got %r" % (self.tag, type(v)))


class KSnap(Kind):
    """an object created by an iteration and left in a local: a copy of its fields (those that have a kind)"""
    name = "snap"

    def __init__(self, cls, fields):
        self.cls, self.fields = cls, dict(sorted(fields.items()))

    def args(self):
        return (self.cls.__name__,) + tuple(self.fields.items())

    def sorts(self):
        return [s for k in self.fields.values() for s in k.sorts()]

    def build(self, ts):
        o, i = object.__new__(self.cls), 0
        for f, k in self.fields.items():
            n = len(k.sorts())
            o.__dict__[f] = k.build(ts[i:i + n])
            i += n
        return o

    def flat(self, v):
        if type(v) is not self.cls or any(f not in v.__dict__ for f in self.fields):
            raise Unsupported("object of class %s expected" % self.cls.__name__)
        return [t for f, k in self.fields.items() for t in k.flat(v.__dict__[f])]


def kind_of_local(v, c, loop):
    k = kind_of(v, c)
    if k is None and type(v).__module__.startswith(("prosimos", "bpdfr_discovery")) and type(getattr(v, "__dict__", None)) is dict \
            and type(v).__class__ is type and id(v) not in loop.walk and not is_proxy(v):
        fs = {}
        for f, x in v.__dict__.items():
            try:
                kx = kind_of(x, c)
                if isinstance(kx, Kind) and not isinstance(kx, (KEmpty, KNone)) and kx.flat(x) is not None:
                    fs[f] = kx
            except Unsupported:
                pass
        return KSnap(type(v), fs) if fs else None
    return k


def is_proxy(v):
    return getattr(type(v), "pv_kind", None) is not None and hasattr(v, "pv_ref")


def heap_of(c, okind, f):
    key = (okind.tag, f)
    if key not in c.heap:
        c.heap[key] = [z3.Const("%s.%s%s" % (okind.tag, f, "" if i == 0 else "#%d" % i), z3.ArraySort(I, s))
                       for i, s in enumerate(okind.fields[f].sorts())]
        fz = getattr(c.unit, "field_axioms", {}).get(key)
        if fz:
            fz(c, c.heap[key])
    return c.heap[key]


def _prop(okind, f, k):
    def get(self):
        c = ctx()
        cell = HeapCell(c, okind, f, self.pv_ref)
        if hasattr(k, "view"):
            nested_wf(k, cell)
            return k.view(cell)
        return k.build(cell.get())

    def set_(self, v):
        c = ctx()
        HeapCell(c, okind, f, self.pv_ref).set(k.flat(v))
    return property(get, set_)


def default(s):
    if s == I:
        return z3.IntVal(0)
    if s == R:
        return z3.RealVal(0)
    if s == B:
        return z3.BoolVal(False)
    if z3.is_array_sort(s) if hasattr(z3, "is_array_sort") else isinstance(s, z3.ArraySortRef):
        return z3.K(s.domain(), default(s.range()))
    raise Unsupported("no default for %s" % s)


# ---------------------------------------------------------------- cells
class OwnCell:
    __slots__ = ("ts",)

    def __init__(self, ts):
        self.ts = list(ts)

    def get(self):
        return self.ts

    def set(self, ts, owner=None):
        self.ts = [z3.simplify(t) for t in ts]
        log(owner)


class ElemCell:
    """component slice [lo:hi) of a parent container at one key"""

    def __init__(self, parent, lo, hi, key):
        self.parent, self.lo, self.hi, self.key = parent, lo, hi, key

    def get(self):
        return [z3.simplify(z3.Select(t, self.key)) for t in self.parent.cell.get()[self.lo:self.hi]]

    def set(self, ts, owner=None):
        p = list(self.parent.cell.get())
        for i, t in enumerate(ts):
            p[self.lo + i] = z3.Store(p[self.lo + i], self.key, t)
        self.parent.cell.set(p, self.parent)


class FieldCell:
    """components [lo:hi) of a record"""

    def __init__(self, parent, lo, hi):
        self.parent, self.lo, self.hi = parent, lo, hi

    def get(self):
        return list(self.parent.cell.get()[self.lo:self.hi])

    def set(self, ts, owner=None):
        p = list(self.parent.cell.get())
        p[self.lo:self.hi] = ts
        self.parent.cell.set(p, self.parent)


class HeapCell:
    def __init__(self, c, okind, f, ref):
        self.c, self.okind, self.f, self.ref = c, okind, f, ref

    def get(self):
        return [z3.simplify(z3.Select(t, self.ref)) for t in heap_of(self.c, self.okind, self.f)]

    def set(self, ts, owner=None):
        if self.c.merging is not None:
            raise Unsupported("heap write inside a merged evaluation")
        h = heap_of(self.c, self.okind, self.f)
        self.c.heap[(self.okind.tag, self.f)] = [z3.simplify(z3.Store(a, self.ref, t)) for a, t in zip(h, ts)]
        self.c.log.append((("heap", (self.okind.tag, self.f)), None))


def log(owner):
    c = sym.CTX[0]
    if c is not None:
        if c.merging is not None:
            born = getattr(owner, "born", None)
            if born is not c.merging:
                raise Unsupported("write to outer state inside a merged evaluation")
            return
        c.log.append((owner, None))


def _born():
    c = sym.CTX[0]
    return None if c is None else c.merging


def elem(kind, parent, lo, key):
    n = len(kind.sorts())
    cell = ElemCell(parent, lo, lo + n, key)
    if hasattr(kind, "view"):
        nested_wf(kind, cell, parent.has(key) if isinstance(parent, PDict) else None)
        return kind.view(cell)
    return kind.build(cell.get())


def nested_wf(kind, cell, guard=None):
    """a list or dictionary stored in another container is a well-formed one"""
    if not (isinstance(kind, KList) or isinstance(kind, KDict) and kind.ordered):
        return
    c, ts = ctx(), cell.get()
    seen = c.__dict__.setdefault("wf_seen", {})
    key = (kind, tuple(t.get_id() for t in ts))
    if not c.gvars and key in seen:
        return
    for w in wf(kind, ts):
        c.assume(w if guard is None else z3.Implies(guard, w))
    if not c.gvars and c.merging is None:
        seen[key] = ts


# ================================================================ list
def zidx(i):
    e = znum(i)
    if e is None or not z3.is_int(e):
        raise TypeError("list indices must be integers, not %r" % type(i).__name__)
    return e


class PList:
    def __init__(self, items=None, kind=None, cell=None):
        self.items, self.kind, self.cell = items, kind, cell
        self.born = _born()

    # -- internals
    @property
    def sym(self):
        return self.items is None

    def zlen(self):
        return z3.IntVal(len(self.items)) if self.items is not None else z3.simplify(self.cell.get()[0])

    def pv_len(self):
        return len(self.items) if self.items is not None else num(self.zlen())

    def pv_truth(self):
        return z3.BoolVal(bool(self.items)) if self.items is not None else self.zlen() != 0

    def at(self, i):
        """element at a z3 index, no bounds check"""
        i = i if isinstance(i, z3.ExprRef) else zidx(i)
        if self.items is not None:
            i = z3.simplify(i)
            if z3.is_int_value(i):
                return self.items[i.as_long()]
            c = ctx()
            for j in range(len(self.items) - 1):
                if c.branch(i == j):
                    return self.items[j]
            return self.items[-1]
        return elem(self.kind, self, 1, i)

    def raw(self, i):
        return [z3.Select(t, i) for t in self.cell.get()[1:]]

    def flat_as(self, k):
        if self.items is not None:
            cols = [z3.K(I, default(s)) for s in k.sorts()]
            for i, x in enumerate(self.items):
                for j, t in enumerate(k.flat(x)):
                    cols[j] = z3.Store(cols[j], z3.IntVal(i), t)
            return [z3.IntVal(len(self.items))] + cols
        if k == self.kind:
            return list(self.cell.get())
        if self.kind == KInt and k == KReal:
            a = self.cell.get()
            f = ctx().fresh("toreal", z3.ArraySort(I, R))
            j = z3.Int("j!tr")
            ctx().assume(z3.ForAll([j], f[j] == z3.ToReal(a[1][j])))
            return [a[0], f]
        raise Unsupported("list of %r used as list of %r" % (self.kind, k))

    def make_symbolic(self, k):
        self.cell = OwnCell(self.flat_as(k))
        self.kind, self.items = k, None

    def _w(self):
        log(self)

    def _set(self, n, cols):
        self.cell.set([n] + list(cols), self)

    # -- python protocol
    def __iter__(self):
        if self.items is not None:
            i = 0
            while i < len(self.items):
                yield self.items[i]
                i += 1
            return
        n = self.zlen()
        if z3.is_int_value(n):
            for i in range(n.as_long()):
                yield self.at(z3.IntVal(i))
            return
        raise Unsupported("native iteration over a list of symbolic length")

    def __len__(self):
        n = self.pv_len()
        if isinstance(n, int):
            return n
        raise Unsupported("native len() of a list of symbolic length")

    def __bool__(self):
        if self.items is not None:
            return bool(self.items)
        return ctx().branch(self.zlen() != 0)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self.slice(i)
        if self.items is not None and isinstance(i, int):
            return self.items[i]
        n = self.zlen()
        e = zidx(i)
        c = ctx()
        if c.spec:
            return self.at(e)
        if z3.is_int_value(e):
            if e.as_long() < 0:
                e = z3.simplify(n + e)
        elif c.sat(e < 0) != z3.unsat and c.branch(e < 0):
            e = z3.simplify(n + e)
        if not c.branch(z3.And(e >= 0, e < n)):
            raise IndexError("list index out of range")
        return self.at(e)

    def __setitem__(self, i, v):
        if self.items is not None and isinstance(i, int):
            self._w()
            self.items[i] = v
            return
        if isinstance(i, slice):
            raise Unsupported("slice assignment")
        n, e, c = self.zlen(), zidx(i), ctx()
        if not c.branch(z3.And(e >= 0, e < n)):
            raise IndexError("list assignment index out of range")
        if self.items is not None:
            self.make_symbolic(kind_of_items(self.items + [v], c))
        self._store(e, v)

    def _store(self, e, v):
        ts = self.cell.get()
        self._set(ts[0], [z3.Store(a, e, t) for a, t in zip(ts[1:], self.kind.flat(v))])

    def append(self, v):
        if self.items is not None:
            self._w()
            self.items.append(v)
            return
        self._fit(v)
        ts = self.cell.get()
        self._set(ts[0] + 1, [z3.Store(a, ts[0], t) for a, t in zip(ts[1:], self.kind.flat(v))])

    def _fit(self, v):
        k = unify(self.kind, kind_of(v, ctx()))
        if k is None:
            raise Unsupported("appending %r to a list of %r" % (v, self.kind))
        if k != self.kind:
            self.cell = OwnCell(self.flat_as(k))
            self.kind = k

    def extend(self, o):
        if self.items is not None and (not isinstance(o, PList) or o.items is not None):
            self._w()
            self.items.extend(list(o))
            return
        r = self + (o if isinstance(o, PList) else PList(items=list(o)))
        self._w()
        if r.items is not None:
            self.items = r.items
        elif self.items is not None:
            self.items, self.kind, self.cell = None, r.kind, OwnCell(r.cell.get())
        else:
            self.cell.set(r.flat_as(self.kind), self)

    __hash__ = None

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        if isinstance(o, (list, tuple)):
            o = PList(items=list(o))
        if not isinstance(o, PList):
            return NotImplemented
        if self.items is not None and o.items is not None:
            return PList(items=self.items + o.items)
        c = ctx()
        if o.items is not None:
            r = self.copy()
            for x in o.items:
                r.append(x)
            return r
        k = o.kind if self.items is not None else self.kind
        a, b = self.flat_as(k), o.flat_as(k)
        cols = [c.fresh("cat", s.sort()) for s in a[1:]]
        j = z3.Int("j!cat")
        for x, y, z in zip(a[1:], b[1:], cols):
            c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < a[0]), z[j] == x[j])))
            c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= a[0], j < a[0] + b[0]), z[j] == y[j - a[0]])))
        return PList(kind=k, cell=OwnCell([a[0] + b[0]] + cols))

    def __radd__(self, o):
        return PList(items=list(o)) + self

    def __mul__(self, n):
        if self.items is not None and isinstance(n, int):
            return PList(items=self.items * n)
        if self.items is not None and len(self.items) == 1:
            k = kind_of(self.items[0], ctx())
            e = znum(n)
            return PList(kind=k, cell=OwnCell([z3.If(e > 0, e, z3.IntVal(0))] +
                                              [z3.K(I, t) for t in k.flat(self.items[0])]))
        raise Unsupported("list repetition")

    __rmul__ = __mul__

    def copy(self):
        if self.items is not None:
            return PList(items=list(self.items))
        return PList(kind=self.kind, cell=OwnCell(self.cell.get()))

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        if self.items is not None:
            return PList(items=[copy.deepcopy(x, memo) for x in self.items])
        return self.copy()

    def slice(self, s):
        if s.step is not None and s.step not in (1, -1):
            raise Unsupported("slice step")
        lo, hi = s.start, s.stop
        if self.items is not None and not any(isinstance(x, Sym) for x in (lo, hi)):
            return PList(items=self.items[s])
        if s.step == -1:
            if lo is None and hi is None:
                return rev(self)
            raise Unsupported("slice step")
        c, n = ctx(), self.zlen()

        def clip(x, d):
            if x is None:
                return d
            e = zidx(x)
            e = z3.If(e < 0, z3.If(e + n < 0, z3.IntVal(0), e + n), z3.If(e > n, n, e))
            return z3.simplify(e)
        lo, hi = clip(lo, z3.IntVal(0)), clip(hi, n)
        if self.items is not None:
            self = PList(kind=kind_of_items(self.items, c), cell=OwnCell(self.flat_as(kind_of_items(self.items, c))))
        m = z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
        if z3.is_int_value(lo) and lo.as_long() == 0:
            return PList(kind=self.kind, cell=OwnCell([m] + list(self.cell.get()[1:])))
        cols = [c.fresh("slice", a.sort()) for a in self.cell.get()[1:]]
        j = z3.Int("j!sl")
        for x, z in zip(self.cell.get()[1:], cols):
            c.assume(z3.ForAll([j], z[j] == x[j + lo]))
        return PList(kind=self.kind, cell=OwnCell([m] + cols))

    def __contains__(self, v):
        if self.items is not None:
            for x in self.items:
                if x is v or x == v:
                    return True
            return False
        c = ctx()
        b = c.fresh("in", B)
        w = c.fresh("at", I)
        n = self.zlen()
        j = z3.Int("j!in")
        eqj = lambda i: zeq(self.kind, self.raw(i), v)
        c.assume(z3.Implies(b, z3.And(w >= 0, w < n, eqj(w))))
        c.assume(z3.Implies(z3.Not(b), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Not(eqj(j))))))
        return c.branch(b)

    def index(self, v):
        if self.items is not None:
            for i, x in enumerate(self.items):
                if x == v:
                    return i
            raise ValueError("not in list")
        if not (v in self):
            raise ValueError("not in list")
        c = ctx()
        w, n, j = c.fresh("idx", I), self.zlen(), z3.Int("j!ix")
        c.assume(z3.And(w >= 0, w < n, zeq(self.kind, self.raw(w), v)))
        c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < w), z3.Not(zeq(self.kind, self.raw(j), v)))))
        return num(w)

    def count(self, v):
        if self.items is not None:
            return sum(1 for x in self.items if x == v)
        raise Unsupported("count on a symbolic list")

    def pop(self, i=-1):
        if self.items is not None and isinstance(i, int):
            self._w()
            return self.items.pop(i)
        n, c = self.zlen(), ctx()
        if not c.branch(n > 0):
            raise IndexError("pop from empty list")
        if isinstance(i, int) and i == -1:
            v = self.at(z3.simplify(n - 1))
            self._set(n - 1, self.cell.get()[1:])
            return v
        if isinstance(i, int) and i == 0:
            v = self.at(z3.IntVal(0))
            r = self.slice(slice(1, None))
            self._set(n - 1, r.cell.get()[1:])
            return v
        raise Unsupported("pop(%r) on a symbolic list" % (i,))

    def insert(self, i, v):
        if self.items is not None and isinstance(i, int):
            self._w()
            self.items.insert(i, v)
            return
        if isinstance(i, int) and i == 0:
            r = PList(items=[v]) + self
            self.cell.set(r.flat_as(self.kind), self)
            return
        raise Unsupported("insert on a symbolic list")

    def remove(self, v):
        if self.items is not None:
            for i, x in enumerate(self.items):
                if x == v:
                    self._w()
                    del self.items[i]
                    return
            raise ValueError("list.remove(x): x not in list")
        raise Unsupported("remove on a symbolic list")

    def clear(self):
        if self.items is not None:
            self._w()
            self.items.clear()
        else:
            self._set(z3.IntVal(0), self.cell.get()[1:])

    def sort(self, key=None, reverse=False):
        from . import rt
        r = rt.p_sorted(self, key=key, reverse=reverse)
        self._w()
        if self.items is not None and r.items is not None:
            self.items[:] = r.items
        else:
            self.items, self.kind, self.cell = None, r.kind, OwnCell(r.cell.get())

    def reverse(self):
        if self.items is not None:
            self._w()
            self.items.reverse()
            return
        raise Unsupported("reverse")

    def __delitem__(self, i):
        if self.items is not None and isinstance(i, (int, slice)):
            self._w()
            del self.items[i]
            return
        if isinstance(i, slice) and i.start is None and i.step is None:
            r = self.slice(slice(i.stop, None))
            self.cell.set(r.cell.get(), self)
            return
        raise Unsupported("del on a symbolic list")

    def __eq__(self, o):
        if isinstance(o, (list,)):
            o = PList(items=o)
        if not isinstance(o, PList):
            return False
        if self.items is not None and o.items is not None:
            if len(self.items) != len(o.items):
                return False
            r = z3.BoolVal(True)
            for a, b in zip(self.items, o.items):
                r = z3.And(r, sym.truth(a == b))
            return mkbool(r)
        if self.items is not None:
            return o == self
        return mkbool(list_eq(self, o))

    def __ne__(self, o):
        return sym.snot(self == o)

    def __repr__(self):
        return repr(self.items) if self.items is not None else "<symbolic list of %r>" % (self.kind,)


def list_eq(a, b):
    """z3 formula: same length and same elements"""
    k = a.kind
    x, y = a.cell.get(), b.flat_as(k)
    j = z3.Int("j!leq")
    return z3.And(x[0] == y[0], z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < x[0]), z3.And(
        *[p[j] == q[j] for p, q in zip(x[1:], y[1:])]))))


def zeq(kind, ts, v):
    try:
        return z3.And(*[a == b for a, b in zip(ts, kind.flat(v))])
    except Unsupported:
        if kind in (KInt, KStr) or isinstance(v, (str, int, SStr, SNum)) or v is None:
            if isinstance(v, (SNum, int, float)) and kind in (KInt, KReal):
                return to_real(ts[0]) == to_real(znum(v))
            return z3.BoolVal(False)
        raise


def rev(lst):
    if lst.items is not None:
        return PList(items=lst.items[::-1])
    c = ctx()
    n = lst.zlen()
    cols = [c.fresh("rev", a.sort()) for a in lst.cell.get()[1:]]
    j = z3.Int("j!rev")
    for x, z in zip(lst.cell.get()[1:], cols):
        c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z[j] == x[n - 1 - j])))
    return PList(kind=lst.kind, cell=OwnCell([n] + cols))


# ================================================================ dict
class PDict:
    def __init__(self, entries=None, kind=None, cell=None):
        self.entries, self.kind, self.cell = entries, kind, cell
        self.born = _born()

    @property
    def kk(self):
        return self.kind.kk

    @property
    def kv(self):
        return self.kind.kv

    # -- symbolic internals
    def _nv(self):
        return len(self.kv.sorts())

    def dom(self):
        return self.cell.get()[0]

    def _key(self, k):
        from .engine import POISON
        if k is POISON:
            raise Unsupported("use of a loop-carried value that has no symbolic kind")
        try:
            return self.kk.flat(k)[0]
        except Unsupported:
            return None

    def has(self, ke):
        return z3.simplify(z3.Select(self.dom(), ke))

    def at(self, ke):
        return elem(self.kv, self, 1, ke)

    def flat_as(self, kind):
        if self.entries is not None:
            ks = kind.kk.sorts()[0]
            dom = z3.K(ks, z3.BoolVal(False))
            cols = [z3.K(ks, default(s)) for s in kind.kv.sorts()]
            keys, pos = z3.K(I, default(ks)), z3.K(ks, z3.IntVal(0))
            for i, (k, v) in enumerate(self.entries):
                ke = kind.kk.flat(k)[0]
                dom = z3.Store(dom, ke, z3.BoolVal(True))
                for j, t in enumerate(kind.kv.flat(v)):
                    cols[j] = z3.Store(cols[j], ke, t)
                keys, pos = z3.Store(keys, z3.IntVal(i), ke), z3.Store(pos, ke, z3.IntVal(i))
            r = [dom] + cols
            if kind.ordered:
                r += [z3.IntVal(len(self.entries)), keys, pos]
            return r
        if kind == self.kind:
            return list(self.cell.get())
        if kind.kk == self.kk and kind.kv == self.kv and self.kind.ordered and not kind.ordered:
            return list(self.cell.get())[:1 + self._nv()]
        raise Unsupported("dict of %r used as %r" % (self.kind, kind))

    def make_symbolic(self, kind):
        self.cell = OwnCell(self.flat_as(kind))
        self.kind, self.entries = kind, None

    def _find(self, k):
        """index of k among concrete entries (may fork), or None"""
        for i, (q, _) in enumerate(self.entries):
            if q is k:
                return i
        for i, (q, _) in enumerate(self.entries):
            if type(q) is type(k) or isinstance(q, Sym) or isinstance(k, Sym) or \
                    (isinstance(q, (int, float)) and isinstance(k, (int, float))) or isinstance(q, str) and isinstance(k, str):
                if q == k:
                    return i
        return None

    # -- python protocol
    def __contains__(self, k):
        if self.entries is not None:
            return self._find(k) is not None
        ke = self._key(k)
        if ke is None:
            return False
        return ctx().branch(self.has(ke))

    def __getitem__(self, k):
        if self.entries is not None:
            i = self._find(k)
            if i is None:
                return self.__missing__(k)
            return self.entries[i][1]
        ke = self._key(k)
        c = ctx()
        if ke is None:
            raise KeyError(k)
        if not c.spec and not c.branch(self.has(ke)):
            raise KeyError(k)
        return self.at(ke)

    def __missing__(self, k):
        raise KeyError(k)

    def get(self, k, d=None):
        return self[k] if k in self else d

    def __setitem__(self, k, v):
        if self.entries is not None:
            i = self._find(k)
            log(self)
            if i is None:
                self.entries.append((k, v))
            else:
                self.entries[i] = (self.entries[i][0], v)
            return
        ke = self._key(k)
        if ke is None:
            raise Unsupported("dict key of another kind")
        fv = unify(self.kv, kind_of(v, ctx()))
        if fv is not None and fv != self.kv and fv == KReal:
            raise Unsupported("dict value kind changes")
        self._store(ke, self.kv.flat(v))

    def _store(self, ke, vals):
        ts = list(self.cell.get())
        nv = self._nv()
        if self.kind.ordered:
            n, keys, pos = ts[1 + nv:]
            isin = z3.Select(ts[0], ke)
            ts[1 + nv] = z3.If(isin, n, n + 1)
            ts[2 + nv] = z3.If(isin, keys, z3.Store(keys, n, ke))
            ts[3 + nv] = z3.If(isin, pos, z3.Store(pos, ke, n))
        ts[0] = z3.Store(ts[0], ke, z3.BoolVal(True))
        for i, t in enumerate(vals):
            ts[1 + i] = z3.Store(ts[1 + i], ke, t)
        self.cell.set(ts, self)

    def __delitem__(self, k):
        if self.entries is not None:
            i = self._find(k)
            if i is None:
                raise KeyError(k)
            log(self)
            del self.entries[i]
            return
        ke = self._key(k)
        c = ctx()
        if ke is None or not c.branch(self.has(ke)):
            raise KeyError(k)
        ts = list(self.cell.get())
        if self.kind.ordered:
            nv = self._nv()
            n, keys, pos = ts[1 + nv:]
            # order bookkeeping is abstracted: a fresh order of the remaining keys that keeps relative positions
            nk, np_ = c.fresh("keys", keys.sort()), c.fresh("pos", pos.sort())
            p = z3.Select(pos, ke)
            j, x = z3.Int("j!dk"), z3.Const("x!dk", pos.sort().domain())
            c.assume(z3.ForAll([j], nk[j] == z3.If(j < p, keys[j], keys[j + 1])))
            c.assume(z3.ForAll([x], np_[x] == z3.If(pos[x] < p, pos[x], pos[x] - 1)))
            ts[1 + nv:] = [n - 1, nk, np_]
        ts[0] = z3.Store(ts[0], ke, z3.BoolVal(False))
        self.cell.set(ts, self)

    def pop(self, k, *d):
        if k in self:
            if self.entries is not None:
                i = self._find(k)
                v = self.entries[i][1]
                log(self)
                del self.entries[i]
                return v
            v = self.at(self._key(k))
            if isinstance(v, (PList, PDict, PSet)):
                v = snapshot(v)
            del self[k]
            return v
        if d:
            return d[0]
        raise KeyError(k)

    def setdefault(self, k, d=None):
        if k not in self:
            self[k] = d
        return self[k]

    def clear(self):
        if self.entries is not None:
            log(self)
            self.entries.clear()
            return
        ts = list(self.cell.get())
        ts[0] = z3.K(self.kk.sorts()[0], z3.BoolVal(False))
        if self.kind.ordered:
            ts[1 + self._nv()] = z3.IntVal(0)
        self.cell.set(ts, self)

    # -- iteration
    def _ord(self):
        if not self.kind.ordered:
            raise Unsupported("iteration over a dict whose order is not represented")
        return self.cell.get()[1 + self._nv():]

    def pv_len(self):
        if self.entries is not None:
            return len(self.entries)
        return num(self._ord()[0])

    def pv_truth(self):
        if self.entries is not None:
            return z3.BoolVal(bool(self.entries))
        if self.kind.ordered:
            return self._ord()[0] != 0
        return z3.Not(self.dom() == z3.K(self.kk.sorts()[0], z3.BoolVal(False)))

    def __bool__(self):
        if self.entries is not None:
            return bool(self.entries)
        return ctx().branch(self.pv_truth())

    def __len__(self):
        n = self.pv_len()
        if isinstance(n, int):
            return n
        raise Unsupported("native len() of a dict of symbolic size")

    def keys(self):
        return DView(self, "k")

    def values(self):
        return DView(self, "v")

    def items(self):
        return DView(self, "i")

    def __iter__(self):
        return iter(self.keys())

    def copy(self):
        if self.entries is not None:
            return PDict(entries=list(self.entries))
        return PDict(kind=self.kind, cell=OwnCell(self.cell.get()))

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        if self.entries is not None:
            return PDict(entries=[(k, copy.deepcopy(v, memo)) for k, v in self.entries])
        return self.copy()

    def update(self, *o, **kw):
        for d in o:
            if isinstance(d, PDict) and d.entries is None:
                self._update_sym(d)
                continue
            for k, v in (d.items() if callable(getattr(d, "items", None)) else d):
                self[k] = v
        for k, v in kw.items():
            self[k] = v

    def _update_sym(self, d):
        """self.update(d) for a symbolic d: pointwise override (order abstracted away)"""
        c = ctx()
        if self.entries is not None:
            if not self.entries:
                log(self)
                self.cell, self.kind, self.entries = OwnCell(d.cell.get()), d.kind, None
                return
            k = KDict(d.kk, d.kv)
            self.make_symbolic(k)
        a, b = self.cell.get(), d.cell.get()
        nv = self._nv()
        if self.kv != d.kv or self.kk != d.kk:
            raise Unsupported("update with a dict of another kind")
        x = z3.Const("x!upd", self.kk.sorts()[0])
        dom = z3.SetUnion(a[0], b[0])
        cols = []
        for i in range(nv):
            f = c.fresh("upd", a[1 + i].sort())
            c.assume(z3.ForAll([x], f[x] == z3.If(b[0][x], b[1 + i][x], a[1 + i][x])))
            cols.append(f)
        if self.kind.ordered:
            self.kind = KDict(self.kk, self.kv)
            if not isinstance(self.cell, OwnCell):
                raise Unsupported("update of a nested ordered dict")
        self.cell.set([dom] + cols, self)

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def __eq__(self, o):
        if isinstance(o, dict):
            o = PDict(entries=list(o.items()))
        if not isinstance(o, PDict):
            return False
        if self.entries is not None and o.entries is not None:
            if len(self.entries) != len(o.entries):
                return False
            r = z3.BoolVal(True)
            for k, v in self.entries:
                i = o._find(k)
                if i is None:
                    return False
                r = z3.And(r, sym.truth(v == o.entries[i][1]))
            return mkbool(r)
        if self.entries is not None:
            return o == self
        return mkbool(dict_eq(self, o))

    def __ne__(self, o):
        return sym.snot(self == o)

    __hash__ = None

    def __repr__(self):
        return "{%s}" % ", ".join("%r: %r" % e for e in self.entries) if self.entries is not None \
            else "<symbolic dict %r>" % (self.kind,)


def dict_eq(a, b):
    kind = KDict(a.kk, a.kv)
    x, y = a.cell.get(), b.flat_as(kind) if b.entries is not None else b.cell.get()
    q = z3.Const("x!deq", a.kk.sorts()[0])
    return z3.And(x[0] == y[0], z3.ForAll([q], z3.Implies(x[0][q], z3.And(
        *[x[1 + i][q] == y[1 + i][q] for i in range(a._nv())]))))


class PDefaultDict(PDict):
    def __init__(self, factory=None, *a, **k):
        super().__init__(entries=[])
        self.factory = factory

    def __missing__(self, k):
        self[k] = self.factory()
        return self[k]


class DView:
    def __init__(self, d, what):
        self.d, self.what = d, what

    def _pick(self, k, v):
        return k if self.what == "k" else v if self.what == "v" else (k, v)

    def pv_iter(self):
        d = self.d
        if d.entries is not None:
            return None
        n, keys, _ = d._ord()

        def get(i):
            ke = z3.simplify(z3.Select(keys, znum(i)))
            return self._pick(d.kk.build([ke]), d.at(ke) if self.what != "k" else None)
        return num(n), get

    def __iter__(self):
        if self.d.entries is not None:
            for k, v in list(self.d.entries):
                yield self._pick(k, v)
            return
        raise Unsupported("native iteration over a dict of symbolic size")

    def __contains__(self, x):
        if self.what == "k":
            return x in self.d
        if self.d.entries is not None:
            return any(x == self._pick(k, v) for k, v in self.d.entries)
        raise Unsupported("membership in dict values")

    def pv_len(self):
        return self.d.pv_len()

    def __len__(self):
        return len(self.d)

    def pv_list(self):
        if self.d.entries is not None:
            return PList(items=list(self))
        n, keys, _ = self.d._ord()
        if self.what == "k":
            return PList(kind=self.d.kk, cell=OwnCell([n, keys]))
        c = ctx()
        nv = self.d._nv()
        cols = []
        j = z3.Int("j!dv")
        for a in self.d.cell.get()[1:1 + nv]:
            f = c.fresh("vals", z3.ArraySort(I, a.sort().range()))
            c.assume(z3.ForAll([j], f[j] == a[keys[j]], patterns=[f[j]]))
            cols.append(f)
        if self.what == "v":
            return PList(kind=self.d.kv, cell=OwnCell([n] + cols))
        return PList(kind=KTuple(self.d.kk, self.d.kv), cell=OwnCell([n, keys] + cols))

    def __eq__(self, o):
        if o is None:
            return False
        raise Unsupported("comparison of dict views")

    def __ne__(self, o):
        return not self.__eq__(o)

    def __repr__(self):
        return "<view of %r>" % (self.d,)


# ================================================================ set
class PSet:
    def __init__(self, items=None, kind=None, cell=None):
        self.items, self.kind, self.cell = None, kind, cell
        self.born = _born()
        if cell is None:
            self.items = []
            for x in (items or []):
                self._add(x)

    def _add(self, x):
        for y in self.items:
            if x is y or x == y:
                return
        self.items.append(x)

    def flat_as(self, k):
        if self.items is not None:
            a = z3.K(k.sorts()[0], z3.BoolVal(False))
            for x in self.items:
                a = z3.Store(a, k.flat(x)[0], z3.BoolVal(True))
            return [a]
        if k == self.kind:
            return list(self.cell.get())
        raise Unsupported("set of another kind")

    def make_symbolic(self, k):
        self.cell = OwnCell(self.flat_as(k))
        self.kind, self.items = k, None

    def add(self, x):
        if self.items is not None:
            log(self)
            self._add(x)
            return
        self.cell.set([z3.Store(self.cell.get()[0], self.kind.flat(x)[0], z3.BoolVal(True))], self)

    def discard(self, x):
        if self.items is not None:
            log(self)
            for i, y in enumerate(self.items):
                if x == y:
                    del self.items[i]
                    return
            return
        self.cell.set([z3.Store(self.cell.get()[0], self.kind.flat(x)[0], z3.BoolVal(False))], self)

    def remove(self, x):
        if x not in self:
            raise KeyError(x)
        self.discard(x)

    def __contains__(self, x):
        if self.items is not None:
            for y in self.items:
                if x is y or x == y:
                    return True
            return False
        try:
            e = self.kind.flat(x)[0]
        except Unsupported:
            return False
        return ctx().branch(z3.Select(self.cell.get()[0], e))

    def pv_len(self):
        if self.items is not None:
            return len(self.items)
        raise Unsupported("size of a symbolic set")

    def __len__(self):
        return self.pv_len()

    def pv_truth(self):
        if self.items is not None:
            return z3.BoolVal(bool(self.items))
        return z3.Not(self.cell.get()[0] == z3.K(self.kind.sorts()[0], z3.BoolVal(False)))

    def __bool__(self):
        if self.items is not None:
            return bool(self.items)
        return ctx().branch(self.pv_truth())

    def __iter__(self):
        if self.items is not None:
            return iter(list(self.items))
        raise Unsupported("iteration over a symbolic set")

    def copy(self):
        if self.items is not None:
            return PSet(items=list(self.items))
        return PSet(kind=self.kind, cell=OwnCell(self.cell.get()))

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def _bin(self, o, f):
        if not isinstance(o, PSet):
            o = PSet(items=list(o))
        if self.items is not None and o.items is not None:
            return None, o
        k = self.kind or o.kind
        return PSet(kind=k, cell=OwnCell([f(self.flat_as(k)[0], o.flat_as(k)[0])])), o

    def union(self, *os):
        r = self
        for o in os:
            q, o = r._bin(o, z3.SetUnion)
            if q is None:
                q = PSet(items=list(r.items) + list(o.items))
            r = q
        return r if os else self.copy()

    __or__ = union

    def difference(self, o):
        q, o = self._bin(o, z3.SetDifference)
        return q if q is not None else PSet(items=[x for x in self.items if x not in o])

    __sub__ = difference

    def intersection(self, o):
        q, o = self._bin(o, z3.SetIntersect)
        return q if q is not None else PSet(items=[x for x in self.items if x in o])

    __and__ = intersection

    def update(self, *os):
        for o in os:
            if self.items is not None and (not isinstance(o, PSet) or o.items is not None):
                log(self)
                for x in o:
                    self._add(x)
            else:
                r = self.union(o)
                log(self)
                self.items, self.kind = None, r.kind
                self.cell = r.cell

    def __eq__(self, o):
        if isinstance(o, (set, frozenset)):
            o = PSet(items=list(o))
        if not isinstance(o, PSet):
            return False
        if self.items is not None and o.items is not None:
            return len(self.items) == len(o.items) and all(x in o for x in self.items)
        k = self.kind or o.kind
        return mkbool(self.flat_as(k)[0] == o.flat_as(k)[0])

    __hash__ = None

    def __repr__(self):
        return "{%r}" % (self.items,) if self.items is not None else "<symbolic set>"


# ================================================================ helpers for the loop rule
class PRec(PDict):
    """record: a dictionary whose keys are known"""

    def __init__(self, kind, cell):
        super().__init__(kind=kind, cell=cell)

    def _field(self, k):
        if isinstance(k, Sym):
            for f in self.kind.fields:
                if k == f:
                    return f
            return None
        return k if isinstance(k, str) and k in self.kind.fields else None

    def _key(self, k):
        return self._field(k)

    def has(self, f):
        if f is not None and isinstance(self.kind.fields[f], KMaybe):
            return self.cell.get()[self.kind.off[f][0]]
        return z3.BoolVal(f is not None)

    def at(self, f):
        k, (lo, hi) = self.kind.fields[f], self.kind.off[f]
        if isinstance(k, KMaybe):
            k, lo = k.k, lo + 1
        cell = FieldCell(self, lo, hi)
        if hasattr(k, "view"):
            nested_wf(k, cell)
            return k.view(cell)
        return k.build(cell.get())

    def flat_as(self, kind):
        if kind == self.kind:
            return list(self.cell.get())
        raise Unsupported("record used as %r" % (kind,))

    def make_symbolic(self, kind):
        pass

    def __contains__(self, k):
        f = self._field(k)
        return f is not None and ctx().branch(self.has(f))

    def __getitem__(self, k):
        f = self._field(k)
        if f is None or not ctx().branch(self.has(f)):
            raise KeyError(k)
        return self.at(f)

    def get(self, k, d=None):
        return self[k] if k in self else d

    def __setitem__(self, k, v):
        f = self._field(k)
        if f is None:
            raise Unsupported("new key in a record")
        fk = self.kind.fields[f]
        ts = [z3.BoolVal(True)] + fk.k.flat(v) if isinstance(fk, KMaybe) else fk.flat(v)
        FieldCell(self, *self.kind.off[f]).set(ts)

    def __delitem__(self, k):
        f = self._field(k)
        if f is None or not ctx().branch(self.has(f)):
            raise KeyError(k)
        if not isinstance(self.kind.fields[f], KMaybe):
            raise Unsupported("key removed from a record")
        lo, hi = self.kind.off[f]
        FieldCell(self, lo, lo + 1).set([z3.BoolVal(False)])

    def clear(self):
        raise Unsupported("record cleared")

    def plain(self):
        return PDict(entries=[(f, self.at(f)) for f in self.kind.fields if ctx().branch(self.has(f))])

    def pv_len(self):
        return len(self.plain().entries)

    def pv_truth(self):
        return z3.Or(*[self.has(f) for f in self.kind.fields])

    def __bool__(self):
        return ctx().branch(self.pv_truth())

    def __len__(self):
        return self.pv_len()

    def keys(self):
        return DView(self.plain(), "k")

    def values(self):
        return DView(self.plain(), "v")

    def items(self):
        return DView(self.plain(), "i")

    def copy(self):
        return PRec(self.kind, OwnCell(self.cell.get()))

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def update(self, *o, **kw):
        for d in o:
            for k, v in (d.items() if callable(getattr(d, "items", None)) else d):
                self[k] = v
        for k, v in kw.items():
            self[k] = v

    def __eq__(self, o):
        try:
            return mkbool(z3.And(*[a == b for a, b in zip(self.cell.get(), self.kind.flat(o))]))
        except Unsupported:
            raise Unsupported("comparison of records")

    __hash__ = None

    def __repr__(self):
        return "<record %s>" % ",".join(self.kind.fields)


def snapshot(v):
    if isinstance(v, PRec):
        return v.copy()
    if isinstance(v, PList) and v.items is None:
        return PList(kind=v.kind, cell=OwnCell(v.cell.get()))
    if isinstance(v, PDict) and v.entries is None:
        return PDict(kind=v.kind, cell=OwnCell(v.cell.get()))
    if isinstance(v, PSet) and v.items is None:
        return PSet(kind=v.kind, cell=OwnCell(v.cell.get()))
    if isinstance(v, PList):
        return PList(items=list(v.items))
    if isinstance(v, PDict):
        return PDict(entries=list(v.entries))
    if isinstance(v, PSet):
        return PSet(items=list(v.items))
    return v


def freeze(v, c):
    """value of a location now (containers are copied so that later writes do not show)"""
    if isinstance(v, list):           # heap arrays
        return list(v)
    return snapshot(v)


def kind_of_items(items, c):
    k = "none yet"
    for x in items:
        kx = kind_of(x, c)
        k = kx if k == "none yet" else unify(k, kx)
        if k is None:
            raise Unsupported("list with elements of several kinds")
    return None if k == "none yet" else k


class KEmpty(Kind):
    """list/dict/set literal without elements: element kind not known yet"""
    def __init__(self, what):
        self.what = what
        self.name = "empty" + what

    def args(self):
        return (self.what,)

    def sorts(self):
        raise Unsupported("container without element kind")


def kind_of(v, c):
    """kind able to hold v, or None"""
    if v is None:
        return KNone()
    if isinstance(v, (bool, SBool)):
        return KBool
    if isinstance(v, int):
        return KInt
    if isinstance(v, float):
        return KReal if v == v and abs(v) != float("inf") else None
    if isinstance(v, SNum):
        return KInt if z3.is_int(v.e) else KReal
    if isinstance(v, (str, SStr)):
        return KStr
    if isinstance(v, (_dt.datetime, SDT)):
        return KDT
    if isinstance(v, (_dt.timedelta, STD)):
        return KTD
    if isinstance(v, (_dt.time, STime)):
        return KTime
    if isinstance(v, (_dt.date, SDate)):
        return KDate
    if isinstance(v, SBits):
        return KBits
    if isinstance(v, tuple):
        ks = [kind_of(x, c) for x in v]
        return None if any(k is None for k in ks) else KTuple(*ks)
    if isinstance(v, PList):
        if v.items is None:
            return KList(v.kind)
        if not v.items:
            return KEmpty("list")
        try:
            k = kind_of_items(v.items, c)
        except Unsupported:
            return None
        return None if k is None or isinstance(k, KEmpty) else KList(k)
    if isinstance(v, PDict):
        if v.entries is None:
            return v.kind
        if not v.entries:
            return KEmpty("dict")
        try:
            kk = kind_of_items([k for k, _ in v.entries], c)
            kv = kind_of_items([x for _, x in v.entries], c)
            return None if kk is None or kv is None else KDict(kk, kv, True)
        except Unsupported:
            return None
    if isinstance(v, PSet):
        if v.items is None:
            return KSet(v.kind)
        if not v.items:
            return KEmpty("set")
        try:
            k = kind_of_items(v.items, c)
            return None if k is None or len(k.sorts()) != 1 else KSet(k)
        except Unsupported:
            return None
    if is_proxy(v):
        return v.pv_kind
    import enum
    if isinstance(v, enum.Enum):
        return KConst(*type(v))
    return None


def unify(a, b):
    if a is None or b is None:
        return None
    if a == b:
        return a
    if {a, b} == {KInt, KReal}:
        return KReal
    if {a, b} == {KInt, KBits}:
        return KBits
    if isinstance(a, KNone):
        return b if isinstance(b, KOpt) else KOpt(b)
    if isinstance(b, KNone):
        return unify(b, a)
    if isinstance(a, KOpt) or isinstance(b, KOpt):
        x, y = a.k if isinstance(a, KOpt) else a, b.k if isinstance(b, KOpt) else b
        u = unify(x, y)
        return None if u is None else KOpt(u)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, KEmpty):
            if x.what == "list" and isinstance(y, KList) or x.what == "dict" and isinstance(y, KDict) or \
                    x.what == "set" and isinstance(y, KSet):
                return y
    if isinstance(a, KSnap) and isinstance(b, KSnap) and a.cls is b.cls:
        ks = {f: unify(k, b.fields[f]) for f, k in a.fields.items() if f in b.fields}
        return KSnap(a.cls, {f: k for f, k in ks.items() if k is not None})
    if isinstance(a, KTuple) and isinstance(b, KTuple) and len(a.ks) == len(b.ks):
        ks = [unify(x, y) for x, y in zip(a.ks, b.ks)]
        return None if any(k is None for k in ks) else KTuple(*ks)
    if isinstance(a, KList) and isinstance(b, KList):
        k = unify(a.k, b.k)
        return None if k is None else KList(k)
    if isinstance(a, KDict) and isinstance(b, KDict):
        kk, kv = unify(a.kk, b.kk), unify(a.kv, b.kv)
        return None if kk is None or kv is None else KDict(kk, kv, a.ordered and b.ordered)
    return None


def same(a, b):
    """syntactically the same value"""
    if a is b:
        return True
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(x.eq(y) for x, y in zip(a, b))
    if type(a) is not type(b):
        return False
    if isinstance(a, Sym):
        return a.e.eq(b.e) or z3.simplify(a.e).eq(z3.simplify(b.e))
    if isinstance(a, (bool, int, float, str)):
        return a == b
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, PList):
        if a.items is not None and b.items is not None:
            return len(a.items) == len(b.items) and all(same(x, y) for x, y in zip(a.items, b.items))
        return a.items is None and b.items is None and all(x.eq(y) for x, y in zip(a.cell.get(), b.cell.get()))
    if isinstance(a, PDict):
        if a.entries is not None and b.entries is not None:
            return len(a.entries) == len(b.entries) and all(
                same(x, y) for e, f in zip(a.entries, b.entries) for x, y in zip(e, f))
        return a.entries is None and b.entries is None and all(x.eq(y) for x, y in zip(a.cell.get(), b.cell.get()))
    if isinstance(a, PSet):
        if a.items is not None and b.items is not None:
            return len(a.items) == len(b.items) and all(same(x, y) for x, y in zip(a.items, b.items))
        return a.items is None and b.items is None and all(x.eq(y) for x, y in zip(a.cell.get(), b.cell.get()))
    if is_proxy(a):
        return a.pv_ref.eq(b.pv_ref)
    return False


def fresh_terms(c, kind, name):
    out = []
    for i, s in enumerate(kind.sorts()):
        out.append(c.fresh(name if i == 0 else "%s#%d" % (name, i), s))
    return out


def all_(vs, body, patterns):
    try:
        return z3.ForAll(vs, body, patterns=patterns)
    except z3.Z3Exception:          # the term is no pattern (it contains a case distinction)
        return z3.ForAll(vs, body)


def wf(kind, ts):
    """well-formedness facts of a fresh symbolic value of this kind"""
    out = []
    if isinstance(kind, KList):
        out.append(ts[0] >= 0)
        if isinstance(kind.k, KList):
            j = z3.Int("j!wf")
            out.append(z3.ForAll([j], z3.Select(ts[1], j) >= 0))
    elif isinstance(kind, KOpt):
        out += [z3.Implies(z3.Not(ts[0]), w) for w in wf(kind.k, ts[1:])]
    elif isinstance(kind, KTuple):
        i = 0
        for k in kind.ks:
            n = len(k.sorts())
            out += wf(k, ts[i:i + n])
            i += n
    elif isinstance(kind, KRec):
        for f, k in kind.fields.items():
            a, b = kind.off[f]
            if isinstance(k, KMaybe):
                k, a = k.k, a + 1
            out += wf(k, ts[a:b])
    elif isinstance(kind, KUnion):
        out.append(z3.And(ts[0] >= 0, ts[0] < len(kind.ks)))
    elif isinstance(kind, KConst):
        out.append(z3.And(ts[0] >= 0, ts[0] < len(kind.vals)))
    elif isinstance(kind, KDict) and kind.ordered:
        nv = len(kind.kv.sorts())
        n, keys, pos = ts[1 + nv:]
        j, x = z3.Int("j!wf"), z3.Const("x!wf", keys.sort().range())
        out.append(n >= 0)
        out.append(all_([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(ts[0][keys[j]], pos[keys[j]] == j)),
                             patterns=[keys[j]]))
        out.append(all_([x], z3.Implies(ts[0][x], z3.And(pos[x] >= 0, pos[x] < n, keys[pos[x]] == x)),
                             patterns=[pos[x]]))
        out.append(all_([x], z3.Implies(ts[0][x], z3.And(pos[x] >= 0, pos[x] < n, keys[pos[x]] == x)),
                             patterns=[ts[0][x]]))
    return out


def fresh_value(c, kind, name):
    ts = fresh_terms(c, kind, name)
    for w in wf(kind, ts):
        c.assume(w)
    return kind.build(ts), ts


def havoc(loop, loc, kind, entry, c):
    """replace the content of a location by a fresh value; returns (new value, names of its constants)"""
    from .engine import POISON, locname
    nm = "h@%s@%s" % (loop.lid, locname(loc))
    if kind == "heap":
        key = loc[1]
        c.heap[key] = [c.fresh(nm + "#%d" % i, a.sort()) for i, a in enumerate(c.heap[key])]
        return c.heap[key], {a.decl().name() for a in c.heap[key]}
    if kind is None or isinstance(kind, (KEmpty, KNone)):
        if isinstance(kind, KNone):
            return None, set()
        if kind is None and loc[0] == "at":
            path, attr = loc[1], loc[2]
            owner = loop.bypath.get(path)
            if attr is None or owner is None:
                raise Unsupported("container modified in a loop has no symbolic kind: %s" % (locname(loc),))
            setattr(owner, attr, POISON)
        if isinstance(kind, KEmpty):
            return entry, set()
        return POISON, set()
    ts = fresh_terms(c, kind, nm)
    for w in wf(kind, ts):
        c.assume(w)
    names = {t.decl().name() for t in ts}
    if loc[0] == "local":
        return kind.build(ts), names
    path, attr = loc[1], loc[2]
    owner = loop.bypath[path]
    if attr is not None:
        v = kind.build(ts)
        setattr(owner, attr, v)
        return v, names
    if isinstance(owner, PList):
        if owner.items is not None:
            owner.items, owner.kind, owner.cell = None, kind.k, OwnCell(ts)
        elif owner.kind == kind.k:
            owner.cell.set(ts, owner)
        else:
            owner.kind, owner.cell = kind.k, OwnCell(ts)
    elif isinstance(owner, PDict):
        if owner.entries is not None:
            owner.entries, owner.kind, owner.cell = None, kind, OwnCell(ts)
        else:
            owner.cell.set(ts, owner)
    elif isinstance(owner, PSet):
        if owner.items is not None:
            owner.items, owner.kind, owner.cell = None, kind.k, OwnCell(ts)
        else:
            owner.cell.set(ts, owner)
    return owner, names


def terms(kind, v):
    if kind == "heap":
        return v
    return kind.flat(v)


# ================================================================ symbolic iteration
def sym_iter(it):
    """(length, get) for iterables of symbolic length; None for native ones"""
    if hasattr(it, "pv_iter"):
        return it.pv_iter()
    if isinstance(it, PList) and it.items is None:
        return it.pv_len(), lambda i: it.at(znum(i))
    if isinstance(it, PDict) and it.entries is None:
        return it.keys().pv_iter()
    if isinstance(it, PSet) and it.items is None:
        # arbitrary enumeration of the members
        raise Unsupported("iteration over a symbolic set")
    return None
