"""Run-time support called by the transformed source of /repo (as `pv__`), and the symbolic versions of builtins."""
import builtins
import datetime as _dt
import sys

import z3

from . import auto, cont, sym
from .cont import (KBool, KInt, KList, KReal, KStr, KTuple, OwnCell, PDefaultDict, PDict, PList, PSet, DView, kind_of,
                   sym_iter, unify)
from .engine import Loop as _Loop
from .sym import SBool, SDate, SDT, SNum, SStr, STD, STime, Sym, Unsupported, ctx, mkbool, num, znum

I, B = z3.IntSort(), z3.BoolSort()


def Loop(lid, it, live=()):
    return _Loop(sym.CTX[0], lid, it, True, live)


def WLoop(lid, live=()):
    return _Loop(sym.CTX[0], lid, None, False, live)


# ---------------------------------------------------------------- displays
def mklist(items):
    return PList(items=list(items))


def mkdict(pairs):
    d = PDict(entries=[])
    for k, v in pairs:
        if k is STAR:
            d.update(v)
        else:
            d[k] = v
    return d


def mkset(items):
    return PSet(items=list(items))


class _Star:
    pass


STAR = _Star()


def set_attr(o, a, v):
    c = sym.CTX[0]
    setattr(o, a, v)
    if c is not None and not cont.is_proxy(o):
        if c.merging is not None:
            raise Unsupported("attribute write inside a merged evaluation")
        c.log.append((o, a))


def aug_attr(o, a, f):
    set_attr(o, a, f(getattr(o, a)))


# ---------------------------------------------------------------- formatting
def fmt(*parts):
    """text built from parts: concrete if all parts are, else an uninterpreted function of the parts"""
    if not builtins.any(isinstance(p, Sym) or hasattr(p, "pv_ref") for p in parts):
        return "".join(builtins.str(p) for p in parts)
    args, shape = [], []
    for p in parts:
        if isinstance(p, (SStr, SNum)):
            args.append(p.e)
            shape.append("%" + p.e.sort().name())
        elif isinstance(p, (SDT, STD, STime, SDate)):
            args.append(p.e)
            shape.append("%" + type(p).__name__)
        elif isinstance(p, SBool):
            args.append(z3.If(p.e, z3.IntVal(1), z3.IntVal(0)))
            shape.append("%b")
        elif isinstance(p, Sym) or hasattr(p, "pv_ref"):
            args.append(p.pv_ref if hasattr(p, "pv_ref") else z3.IntVal(0))
            shape.append("%o")
        else:
            shape.append(builtins.str(p))
    f = z3.Function("fmt:" + "".join(shape), *([a.sort() for a in args] + [I]))
    return SStr(f(*args))


def join(sep, it):
    """sep.join(it): text of the parts; over a sequence of symbolic length, some unknown text"""
    if not isinstance(sep, (builtins.str, SStr)):
        return sep.join(it)
    s = sym_iter(it.pv_list() if isinstance(it, PGen) else it)
    if s is None:
        parts = list(it)
    else:
        n = znum(s[0])
        if not z3.is_int_value(n):
            return SStr(sym.CTX[0].fresh("joined", I))
        parts = [s[1](i) for i in range(n.as_long())]
    out = []
    for x in parts:
        if not isinstance(x, (builtins.str, SStr)):
            raise TypeError("sequence item: expected str instance, %s found" % type(x).__name__)
        out += [sep, x]
    return fmt(*out[1:])


def mod(a, b):
    """a % b where a is a text literal"""
    if not isinstance(a, builtins.str):
        return a % b
    args = b if isinstance(b, tuple) else (b,)
    import re
    bits = re.split(r"(%[-+0-9.]*[a-z])", a)
    out, i = [], 0
    for x in bits:
        if re.fullmatch(r"%[-+0-9.]*[a-z]", x):
            v = args[i]
            i += 1
            out.append(v if isinstance(v, Sym) or hasattr(v, "pv_ref") else x % v)
        else:
            out.append(x.replace("%%", "%"))
    return fmt(*out)


# ---------------------------------------------------------------- generator expressions and comprehensions
class PGen:
    def __init__(self, it, fn, cond):
        self.it, self.fn, self.cond = it, fn, cond
        self.s = sym_iter(it)

    def __iter__(self):
        if self.s is not None:
            n = znum(self.s[0])
            if z3.is_int_value(n):
                for i in range(n.as_long()):
                    x = self.s[1](i)
                    if self.cond is None or self.cond(x):
                        yield self.fn(x)
                return
            raise Unsupported("native iteration over a generator of symbolic length")
        for x in self.it:
            if self.cond is None or self.cond(x):
                yield self.fn(x)

    def pv_list(self):
        return comp("list", self.it, self.fn, self.cond)

    def __next__(self):
        raise Unsupported("next() protocol")


def gen(it, fn, cond=None):
    return PGen(it, fn, cond)


def _symbolic(it):
    s = sym_iter(it)
    if s is None or z3.is_int_value(znum(s[0])):
        return None
    return s


def comp(what, it, fn, cond=None):
    s = _symbolic(it)
    if s is None:
        src = it
        s2 = sym_iter(it)
        if s2 is not None:
            src = (s2[1](i) for i in range(znum(s2[0]).as_long()))
        vals = []
        for x in src:
            if cond is None or cond(x):
                vals.append(fn(x))
        return mklist(vals) if what == "list" else mkset(vals) if what == "set" else mkdict(vals)
    c = ctx()
    n, get = znum(s[0]), s[1]
    if what == "set":
        raise Unsupported("set comprehension over a symbolic sequence")
    j = c.index("j@c")
    rng = z3.And(j >= 0, j < n)
    if cond is None:
        rows = generic(c, lambda: fn(get(SNum(j))), j, rng)
        kind, cols = columns(c, rows, j, rng, "comp")
        if what == "list":
            return PList(kind=kind, cell=OwnCell([n] + cols))
        if not isinstance(kind, KTuple) or len(kind.ks) != 2 or len(kind.ks[0].sorts()) != 1:
            raise Unsupported("dict comprehension")
        # dict: defined for distinct keys; otherwise last wins (only the distinct case is supported, as an obligation)
        ks = kind.ks[0].sorts()[0]
        p, q = z3.Int("p!dc"), z3.Int("q!dc")
        c.oblige(c.unit.name + "/dict comprehension keys distinct", z3.ForAll([p, q], z3.Implies(
            z3.And(p >= 0, p < q, q < n), cols[0][p] != cols[0][q])))
        d = cont.KDict(kind.ks[0], kind.ks[1], True)
        v, ts = cont.fresh_value(c, d, "dcomp")
        nv = len(kind.ks[1].sorts())
        c.assume(ts[1 + nv] == n)
        c.assume(z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < n), z3.And(
            ts[2 + nv][p] == cols[0][p], *[ts[1 + i][cols[0][p]] == cols[1 + i][p] for i in range(nv)])),
            patterns=[ts[2 + nv][p]]))
        c.assume(z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < n), z3.And(ts[0][cols[0][p]], ts[3 + nv][cols[0][p]] == p)),
                           patterns=[cols[0][p]]))
        return v
    if what != "list":
        raise Unsupported("filtered dict comprehension over a symbolic sequence")
    # filtered list: strictly increasing selection
    keep = generic_bool(c, lambda: cond(get(SNum(j))), j, rng)
    rows = generic(c, lambda: fn(get(SNum(j))), j, z3.And(rng, keep))
    kind, cols = columns(c, rows, j, z3.And(rng, keep), "fcomp")
    m = c.fresh("flen", I)
    src, pos = c.fresh("fsrc", z3.ArraySort(I, I)), c.fresh("fpos", z3.ArraySort(I, I))
    i, i2, q = z3.Int("i!fc"), z3.Int("i2!fc"), z3.Int("q!fc")
    K = lambda t: z3.substitute(keep, (j, t))
    c.assume(z3.And(m >= 0, z3.Or(n < 0, m <= n)))
    c.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < m), z3.And(
        src[i] >= 0, src[i] < n, K(src[i]), pos[src[i]] == i)), patterns=[src[i]]))
    c.assume(z3.ForAll([i, i2], z3.Implies(z3.And(i >= 0, i < i2, i2 < m), src[i] < src[i2])))
    c.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n, K(q)), z3.And(pos[q] >= 0, pos[q] < m, src[pos[q]] == q)),
                       patterns=[pos[q]]))
    # the selection is empty iff nothing is kept
    w = c.fresh("fwit", I)
    c.assume(z3.Implies(m == 0, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), z3.Not(K(q))))))
    c.assume(z3.Implies(m > 0, z3.And(w >= 0, w < n, K(w), pos[w] == 0, src[0] == w)))
    out = []
    for a in cols:
        f = c.fresh("fcol", a.sort())
        c.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < m), f[i] == a[src[i]]), patterns=[f[i]]))
        out.append(f)
    r = PList(kind=kind, cell=OwnCell([m] + out))
    r.pv_src = (src, pos)
    return r


def generic(c, thunk, js, *conds):
    """merged evaluation at generic indices js: conds hold"""
    js = js if isinstance(js, tuple) else (js,)
    c.solver.push()
    c.solver.add(*conds)
    c.gconds.extend(conds)
    c.gvars.extend(js)
    try:
        return c.merge(thunk)
    finally:
        del c.gvars[builtins.len(c.gvars) - builtins.len(js):]
        del c.gconds[builtins.len(c.gconds) - builtins.len(conds):]
        c.solver.pop()


def generic_bool(c, thunk, js, *conds):
    out = generic(c, thunk, js, *conds)
    return z3.simplify(z3.Or(*[z3.And(cd, sym.truth(v)) for cd, v in out]))


def columns(c, rows, j, rng, nm):
    """rows (cond, value) at index j -> kind and arrays defined pointwise"""
    kind = "?"
    for _, v in rows:
        k = kind_of(v, c)
        kind = k if kind == "?" else unify(kind, k)
    if kind is None:
        raise Unsupported("comprehension element of unsupported kind")
    flats = [(cd, kind.flat(v)) for cd, v in rows]
    cols = []
    for i, s in enumerate(kind.sorts()):
        e = flats[-1][1][i]
        for cd, f in reversed(flats[:-1]):
            e = z3.If(cd, f[i], e)
        # direct projection A[j] needs no new array
        if z3.is_select(e) and e.arg(1).eq(j) and j.decl().name() not in names_of(e.arg(0)):
            cols.append(e.arg(0))
            continue
        a = c.fresh(nm, z3.ArraySort(I, s))
        q = z3.Int("q!col")
        c.assume(z3.ForAll([q], z3.Implies(z3.substitute(rng, (j, q)), a[q] == z3.substitute(e, (j, q))),
                           patterns=[a[q]]))
        cols.append(a)
    return kind, cols


def names_of(e):
    from .engine import consts_of
    return consts_of(e)


def quant(it, fn, cond, want_any):
    s = _symbolic(it)
    c = ctx()
    n, get = znum(s[0]), s[1]
    j = c.index("j@q")
    rng = z3.And(j >= 0, j < n)
    keep = z3.BoolVal(True) if cond is None else generic_bool(c, lambda: cond(get(SNum(j))), j, rng)
    p = generic_bool(c, lambda: fn(get(SNum(j))), j, rng, keep)
    if c.spec:
        f = z3.And(rng, keep, p) if want_any else z3.Implies(z3.And(rng, keep), p)
        q = z3.Int("q!%d" % c.spec)
        f = z3.substitute(f, (j, q))
        return mkbool(z3.Exists([q], f) if want_any else z3.ForAll([q], f))
    b, w = c.fresh("b@q", B), c.fresh("w@q", I)
    q = z3.Int("q!q")
    at = lambda e, t: z3.substitute(e, (j, t))
    full = z3.And(rng, keep, p) if want_any else z3.And(rng, keep, z3.Not(p))
    pos, neg = (b, z3.Not(b)) if want_any else (z3.Not(b), b)
    c.assume(z3.Implies(pos, at(full, w)))
    c.assume(z3.Implies(neg, z3.ForAll([q], z3.Not(at(full, q)))))
    return SBool(b)


# ---------------------------------------------------------------- builtins
def aslist(x):
    if isinstance(x, PList):
        return x
    if hasattr(x, "pv_list"):
        return x.pv_list()
    if isinstance(x, PDict):
        return x.keys().pv_list()
    s = sym_iter(x)
    if s is None:
        return PList(items=list(x))
    return comp("list", x, lambda v: v)


def p_len(x):
    if hasattr(x, "pv_len"):
        return x.pv_len()
    return builtins.len(x)


def p_any(x):
    if isinstance(x, PGen) and _symbolic(x.it):
        return quant(x.it, x.fn, x.cond, True)
    if not isinstance(x, PGen) and _symbolic(x):
        return quant(x, lambda v: v, None, True)
    return builtins.any(x)


def p_all(x):
    if isinstance(x, PGen) and _symbolic(x.it):
        return quant(x.it, x.fn, x.cond, False)
    if not isinstance(x, PGen) and _symbolic(x):
        return quant(x, lambda v: v, None, False)
    return builtins.all(x)


def is_sym_seq(x):
    if isinstance(x, PGen):
        return _symbolic(x.it) is not None
    return _symbolic(x) is not None


def p_sum(x, start=0):
    if is_sym_seq(x):
        if isinstance(x, PGen) and x.cond is not None:
            cond, fn = x.cond, x.fn
            l = comp("list", x.it, lambda v: fn(v) if cond(v) else 0)
        else:
            l = aslist(x)
        if l.kind not in (KInt, KReal):
            raise Unsupported("sum of %r" % (l.kind,))
        return num(auto.psum(ctx(), l.cell.get()[1], l.zlen())) + start
    r = start
    for v in x:
        r = r + v
    return r


def _extreme(args, key, default, less):
    if builtins.len(args) > 1:
        x = PList(items=list(args))
    else:
        x = args[0]
    if not is_sym_seq(x):
        best, first = None, True
        if key is None and builtins.len(args) > (1 if ctx().unit.unit.kw.get("merge_max") else 2) and all(isinstance(v, (SNum, int, float)) and not isinstance(v, bool)
                                                          for v in args) and any(isinstance(v, SNum) for v in args):
            best = args[0]                       # several numbers: one term instead of a path per winner
            for v in args[1:]:
                c1, p, q = sym.zb(less(v, best)), *sym.coerce(znum(v), znum(best))
                best = num(z3.If(c1, p, q))
            return best
        for v in x:
            kv = key(v) if key else v
            if first or (less(kv, bk)):
                best, bk, first = v, kv, False
        if first:
            if default is not _NO:
                return default
            raise ValueError("min()/max() arg is an empty sequence")
        return best
    c = ctx()
    l = aslist(x)
    n = l.zlen()
    if not c.branch(n > 0):
        if default is not _NO:
            return default
        raise ValueError("min()/max() arg is an empty sequence")
    w = c.fresh("best", I)
    c.assume(z3.And(w >= 0, w < n))
    j = c.index("j@m")
    rng = z3.And(j >= 0, j < n)
    kf = key or (lambda v: v)
    better = generic_bool(c, lambda: less(kf(l.at(j)), kf(l.at(w))), j, rng)        # j strictly better than w
    worse = generic_bool(c, lambda: less(kf(l.at(w)), kf(l.at(j))), j, rng)         # w strictly better than j
    q = z3.Int("q!m")
    c.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), z3.Not(z3.substitute(better, (j, q))))))
    c.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < w), z3.substitute(worse, (j, q)))))
    return l.at(w)


_NO = object()


def p_min(*a, key=None, default=_NO):
    return _extreme(a, key, default, lambda x, y: x < y)


def p_max(*a, key=None, default=_NO):
    return _extreme(a, key, default, lambda x, y: x > y)


def p_sorted(x, key=None, reverse=False):
    if not is_sym_seq(x):
        items = list(x)
        # insertion sort: stable, works with forking comparisons
        out = []
        for v in items:
            kv = key(v) if key else v
            pos = builtins.len(out)
            while pos > 0 and ((kv < out[pos - 1][0]) if not reverse else (kv > out[pos - 1][0])):
                pos -= 1
            out.insert(pos, (kv, v))
        return PList(items=[v for _, v in out])
    c = ctx()
    l = aslist(x)
    n = l.zlen()
    perm, inv = c.fresh("perm", z3.ArraySort(I, I)), c.fresh("pinv", z3.ArraySort(I, I))
    q, r = z3.Int("q!s"), z3.Int("r!s")
    c.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), z3.And(perm[q] >= 0, perm[q] < n, inv[perm[q]] == q)),
                       patterns=[perm[q]]))
    c.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), z3.And(inv[q] >= 0, inv[q] < n, perm[inv[q]] == q)),
                       patterns=[inv[q]]))
    a, b = c.index("a@s"), c.index("b@s")
    rng = z3.And(a >= 0, a < n, b >= 0, b < n)
    kf = key or (lambda v: v)
    lt = generic_bool(c, (lambda: kf(l.at(a)) > kf(l.at(b))) if reverse else (lambda: kf(l.at(a)) < kf(l.at(b))), (a, b), rng)
    LT = lambda s, t: z3.substitute(lt, (a, s), (b, t))
    c.assume(z3.ForAll([q, r], z3.Implies(z3.And(q >= 0, q < r, r < n), z3.And(
        z3.Not(LT(perm[r], perm[q])), z3.Or(LT(perm[q], perm[r]), perm[q] < perm[r]))),
        patterns=[z3.MultiPattern(perm[q], perm[r])]))
    cols = []
    for col in l.cell.get()[1:]:
        f = c.fresh("sorted", col.sort())
        c.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), f[q] == col[perm[q]]), patterns=[f[q]]))
        c.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), f[inv[q]] == col[q]), patterns=[inv[q]]))
        cols.append(f)
    out = PList(kind=l.kind, cell=OwnCell([n] + cols))
    out.pv_perm = (perm, inv)
    return out


class PRange:
    def __init__(self, lo, hi, st):
        self.lo, self.hi, self.st = lo, hi, st

    def pv_iter(self):
        lo, hi, st = self.lo, self.hi, self.st
        d = znum(hi) - znum(lo)
        if st == 1:
            n = z3.If(d > 0, d, z3.IntVal(0))
        elif st == -1:
            n = z3.If(d < 0, -d, z3.IntVal(0))
        elif isinstance(st, int) and st > 1:
            n = z3.If(d > 0, (d + st - 1) / st, z3.IntVal(0))
        else:
            raise Unsupported("range step")
        return num(n), lambda i: lo + i * st

    def pv_len(self):
        return self.pv_iter()[0]

    def __contains__(self, x):
        return bool(self.lo <= x) and bool(x < self.hi)

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic range")


def p_range(*a):
    if builtins.all(isinstance(x, int) for x in a):
        return builtins.range(*a)
    lo, hi, st = (0, a[0], 1) if builtins.len(a) == 1 else (a[0], a[1], 1) if builtins.len(a) == 2 else a
    return PRange(lo, hi, st)


class PEnum:
    def __init__(self, it, start):
        self.it, self.start = it, start

    def pv_iter(self):
        s = sym_iter(self.it)
        if s is None:
            return None
        return s[0], lambda i: (i + self.start, s[1](i))

    def __iter__(self):
        i = self.start
        for x in self.it:
            yield i, x
            i += 1


def p_enumerate(it, start=0):
    return PEnum(it, start)


class PZip:
    def __init__(self, its):
        self.its = its

    def pv_iter(self):
        ss = [sym_iter(i) for i in self.its]
        if builtins.all(s is None for s in ss):
            return None
        ss = [s if s is not None else sym_iter_concrete(i) for s, i in zip(ss, self.its)]
        n = znum(ss[0][0])
        for s in ss[1:]:
            m = znum(s[0])
            n = z3.If(n < m, n, m)
        return num(n), lambda i: tuple(s[1](i) for s in ss)

    def __iter__(self):
        return builtins.zip(*self.its)


def sym_iter_concrete(it):
    l = PList(items=list(it))
    return l.pv_len(), lambda i: l.at(znum(i))


def p_zip(*its):
    return PZip(its)


def p_reversed(x):
    if isinstance(x, PList):
        return cont.rev(x)
    if isinstance(x, PRange):
        n, get = x.pv_iter()
        r = PRange(0, n, 1)
        return comp("list", r, lambda i: get(n - 1 - i))
    return builtins.reversed(x)


def p_map(f, *its):
    if builtins.len(its) == 1:
        return PGen(its[0], f, None)
    return PGen(PZip(its), lambda t: f(*t), None)


def p_filter(f, it):
    return PGen(it, lambda x: x, f or (lambda v: v))


def p_next(it, d=_NO):
    if isinstance(it, PGen):
        if _symbolic(it.it):
            l = it.pv_list()
            c = ctx()
            if c.branch(l.zlen() > 0):
                return l.at(z3.IntVal(0))
        else:
            for x in it:
                return x
        if d is _NO:
            raise StopIteration()
        return d
    return builtins.next(it) if d is _NO else builtins.next(it, d)


def p_iter(x):
    return builtins.iter(x)


class _Meta(type):
    def __instancecheck__(cls, x):
        return cls.pv_isinst(x)

    def __subclasscheck__(cls, s):
        return builtins.issubclass(s, cls.pv_native) if isinstance(s, builtins.type) else False

    def __eq__(cls, o):
        return o is cls or o is cls.pv_native

    def __hash__(cls):
        return hash(cls.pv_native)

    def __or__(cls, o):
        return (cls, o)

    def __getattr__(cls, n):
        return getattr(cls.pv_native, n)


def _shadow(name, native, isinst, make):
    def new(cls, *a, **k):
        return make(*a, **k)
    return _Meta(name, (), {"pv_native": native, "pv_isinst": staticmethod(isinst), "__new__": new,
                            "__class_getitem__": classmethod(lambda cls, x: cls)})


def mk_int(x=0, *a):
    if isinstance(x, SNum):
        if z3.is_int(x.e):
            return x
        return num(z3.If(x.e >= 0, z3.ToInt(x.e), -z3.ToInt(-x.e)))
    if isinstance(x, SBool):
        return num(x._n().e)
    if isinstance(x, SStr):
        return text_number(x, True)
    return builtins.int(x, *a)


def text_number(x, integral=False):
    """value of a text that denotes a number (declared by the harness through the theory function num_of)"""
    c = ctx()
    isn = z3.Function("txt_isint" if integral else "txt_isnum", I, B)
    if not c.branch(isn(x.e)):
        raise ValueError("could not convert string to number")
    return num(z3.Function("txt_int" if integral else "txt_num", I, I if integral else z3.RealSort())(x.e))


def mk_float(x=0.0):
    if isinstance(x, SNum):
        return num(sym.to_real(x.e))
    if isinstance(x, SBool):
        return num(sym.to_real(x._n().e))
    if isinstance(x, SStr):
        return text_number(x)
    if x is None:
        raise TypeError("float() argument must be a string or a real number, not 'NoneType'")
    return builtins.float(x)


def mk_str(x="", *a):
    if isinstance(x, SStr):
        return x
    if isinstance(x, Sym) or hasattr(x, "pv_ref"):
        return fmt(x)
    return builtins.str(x, *a)


def mk_bool(x=False):
    t = z3.simplify(sym.truth(x)) if isinstance(x, Sym) or hasattr(x, "pv_truth") else None
    return builtins.bool(x) if t is None else mkbool(t)


def mk_list(x=()):
    if isinstance(x, PList):
        return x.copy()
    return aslist(x) if is_sym_seq(x) or hasattr(x, "pv_list") else PList(items=list(x))


def mk_tuple(x=()):
    if is_sym_seq(x):
        return aslist(x)
    return builtins.tuple(x)


def mk_dict(*a, **k):
    d = PDict(entries=[])
    for x in a:
        if isinstance(x, PDict):
            d = x.copy() if not d.entries else d
            if d is not x and d.entries is not None and not d.entries:
                d.update(x)
        elif is_sym_seq(x):
            if isinstance(x, PGen):
                d = comp("dict", x.it, x.fn, x.cond)
            else:
                d = comp("dict", x, lambda t: t)
        else:
            for q, v in (x.items() if callable(getattr(x, "items", None)) else x):
                d[q] = v
    for q, v in k.items():
        d[q] = v
    return d


def mk_set(x=()):
    if isinstance(x, PSet):
        return x.copy()
    if is_sym_seq(x):
        l = aslist(x)
        c = ctx()
        if len(l.kind.sorts()) != 1:
            raise Unsupported("set of tuples")
        s = c.fresh("setof", z3.ArraySort(l.kind.sorts()[0], B))
        a = l.cell.get()[1]
        wit = c.fresh("setwit", z3.ArraySort(l.kind.sorts()[0], I))
        q, v = z3.Int("q!so"), z3.Const("v!so", l.kind.sorts()[0])
        c.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < l.zlen()), s[a[q]]), patterns=[a[q]]))
        c.assume(z3.ForAll([v], z3.Implies(s[v], z3.And(wit[v] >= 0, wit[v] < l.zlen(), a[wit[v]] == v)),
                           patterns=[s[v]]))
        return PSet(kind=l.kind, cell=OwnCell([s]))
    return PSet(items=list(x))


S_int = _shadow("int", int, lambda x: isinstance(x, (builtins.int, SBool)) or isinstance(x, SNum) and z3.is_int(x.e),
                mk_int)
S_float = _shadow("float", float, lambda x: isinstance(x, builtins.float) or isinstance(x, SNum) and z3.is_real(x.e),
                  mk_float)
S_str = _shadow("str", str, lambda x: isinstance(x, (builtins.str, SStr)), mk_str)
S_bool = _shadow("bool", bool, lambda x: isinstance(x, (builtins.bool, SBool)), mk_bool)
S_list = _shadow("list", list, lambda x: isinstance(x, (builtins.list, PList)), mk_list)
S_tuple = _shadow("tuple", tuple, lambda x: isinstance(x, builtins.tuple), mk_tuple)
S_dict = _shadow("dict", dict, lambda x: isinstance(x, (builtins.dict, PDict)), mk_dict)
S_set = _shadow("set", set, lambda x: isinstance(x, (builtins.set, PSet)), mk_set)


def p_isinstance(x, t):
    if isinstance(t, tuple):
        return builtins.any(p_isinstance(x, q) for q in t)
    m = NATIVE2SHADOW.get(t)
    return builtins.isinstance(x, m or t)


def p_round(x, nd=None):
    if isinstance(x, Sym):
        return x
    return builtins.round(x, nd) if nd is not None else builtins.round(x)


def p_abs(x):
    return abs(x)


def p_print(*a, **k):
    return None


def p_hash(x):
    return builtins.hash(x)


def p_type(x, *a):
    if a:
        return builtins.type(x, *a)
    for S in (S_bool, S_int, S_float, S_str, S_list, S_dict, S_set):
        if (isinstance(x, Sym) or isinstance(x, (PList, PDict, PSet))) and S.pv_isinst(x):
            return S
    if isinstance(x, SDT):
        return S_datetime
    if cont.is_proxy(x):
        return builtins.type(x).__mro__[1]
    return NATIVE2SHADOW.get(builtins.type(x), builtins.type(x))


# ---------------------------------------------------------------- datetime
def _ymd(y, m, d):
    if isinstance(y, sym._YMD) and isinstance(m, sym._YMD) and isinstance(d, sym._YMD) and y.dt is m.dt is d.dt \
            and (y.part, m.part, d.part) == ("y", "m", "d"):
        return y.dt
    if isinstance(y, sym._YMD) and isinstance(m, sym._YMD) and isinstance(d, sym._YMD):
        e = [q.dt.e for q in (y, m, d)]
        if e[0].eq(e[1]) and e[1].eq(e[2]) and (y.part, m.part, d.part) == ("y", "m", "d"):
            return y.dt
    return None


def mk_datetime(year, month, day, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, **k):
    base = _ymd(year, month, day)
    if base is None:
        if any_sym(year, month, day, hour, minute, second, microsecond):
            if any_sym(year, month, day):
                raise Unsupported("datetime from symbolic calendar parts")
            b = SDT(sym.zdt(_dt.datetime(year, month, day)))
            base = b
        else:
            return _dt.datetime(year, month, day, hour, minute, second, microsecond, tzinfo)
    s = z3.ToReal(znum(hour) * 3600 + znum(minute) * 60) + sym.to_real(znum(second)) + \
        sym.to_real(znum(microsecond)) / 1000000
    return SDT(z3.simplify(z3.ToReal(base._day()) * sym.DAY + s))


def any_sym(*a):
    return builtins.any(isinstance(x, (Sym, sym._YMD)) for x in a)


def mk_timedelta(days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
    a = (days, seconds, microseconds, milliseconds, minutes, hours, weeks)
    if not any_sym(*a):
        return _dt.timedelta(*a)
    f = (86400, 1, None, None, 60, 3600, 604800)
    e = z3.RealVal(0)
    for x, m in zip(a, f):
        r = sym.to_real(znum(x))
        e = e + (r * m if m else r / (1000000 if x is microseconds else 1000))
    return STD(z3.simplify(e))


def mk_time(hour=0, minute=0, second=0, microsecond=0, **k):
    if not any_sym(hour, minute, second, microsecond):
        return _dt.time(hour, minute, second, microsecond, **k)
    return STime(z3.simplify(z3.ToReal(znum(hour) * 3600 + znum(minute) * 60 + znum(second)) +
                             sym.to_real(znum(microsecond)) / 1000000))


def mk_date(*a):
    return _dt.date(*a)


S_datetime = _shadow("datetime", _dt.datetime, lambda x: isinstance(x, (_dt.datetime, SDT)), mk_datetime)
S_timedelta = _shadow("timedelta", _dt.timedelta, lambda x: isinstance(x, (_dt.timedelta, STD)), mk_timedelta)
S_time = _shadow("time", _dt.time, lambda x: isinstance(x, (_dt.time, STime)), mk_time)
S_date = _shadow("date", _dt.date, lambda x: isinstance(x, (_dt.date, SDate, SDT)), mk_date)


def _combine(d, t, tzinfo=None):
    if isinstance(d, (SDate, SDT)) or isinstance(t, STime):
        day = d._day() if isinstance(d, SDT) else sym.zdate(d)
        if day is None:
            day = sym.zdate(d.date())
        return SDT(z3.simplify(z3.ToReal(day) * sym.DAY + sym.ztime(t)))
    return _dt.datetime.combine(d, t) if tzinfo is None else _dt.datetime.combine(d, t, tzinfo)


S_datetime.combine = staticmethod(_combine)


class _DTModule:
    datetime, timedelta, time, date = S_datetime, S_timedelta, S_time, S_date

    def __getattr__(self, n):
        return getattr(_dt, n)


DTModule = _DTModule()


class _Copy:
    @staticmethod
    def deepcopy(x, memo=None):
        import copy
        return copy.deepcopy(x)

    @staticmethod
    def copy(x):
        import copy
        return copy.copy(x)


class _Math:
    inf = float("inf")

    def __getattr__(self, n):
        import math
        f = getattr(math, n)
        if not callable(f):
            return f

        def g(*a):
            if any_sym(*a):
                if n == "ceil":
                    x = a[0]
                    return x if z3.is_int(x.e) else num(-z3.ToInt(-x.e))
                if n == "floor":
                    x = a[0]
                    return x if z3.is_int(x.e) else num(z3.ToInt(x.e))
                if n in ("isclose", "isnan", "isinf"):
                    if n != "isclose":
                        return False
                raise Unsupported("math.%s on a symbolic value" % n)
            return f(*a)
        return g


Math = _Math()


class _Random:
    """library contract of random/secrets: any value the documentation allows"""

    def __getattr__(self, n):
        import random
        return getattr(random, n)

    @staticmethod
    def shuffle(l):
        c = ctx()
        if isinstance(l, PList) and l.items is not None:
            rest, out = list(l.items), []
            if builtins.len(rest) > 4:
                raise Unsupported("shuffle of a long concrete list")
            while rest:
                out.append(rest.pop(c.choose(builtins.len(rest), "shuffle%d" % builtins.len(c.taken))))
            l.items[:] = out
            cont.log(l)
            return
        n = l.zlen()
        perm, inv = c.fresh("shuf", z3.ArraySort(I, I)), c.fresh("shufinv", z3.ArraySort(I, I))
        q = z3.Int("q!sh")
        rng = z3.And(q >= 0, q < n)
        c.assume(z3.ForAll([q], z3.Implies(rng, z3.And(perm[q] >= 0, perm[q] < n, inv[perm[q]] == q)),
                           patterns=[perm[q]]))
        c.assume(z3.ForAll([q], z3.Implies(rng, z3.And(inv[q] >= 0, inv[q] < n, perm[inv[q]] == q)),
                           patterns=[inv[q]]))
        cols = []
        for col in l.cell.get()[1:]:
            f = c.fresh("shuffled", col.sort())
            c.assume(z3.ForAll([q], z3.Implies(rng, f[q] == col[perm[q]]), patterns=[f[q]]))
            c.assume(z3.ForAll([q], z3.Implies(rng, f[inv[q]] == col[q]), patterns=[inv[q]]))
            cols.append(f)
        l.cell.set([n] + cols, l)

    @staticmethod
    def choice(l):
        c = ctx()
        if not is_sym_seq(l):
            l = list(l)
            if not l:
                raise IndexError("cannot choose from an empty sequence")
            return l[c.choose(builtins.len(l), "pick%d" % builtins.len(c.taken))]
        l = aslist(l)
        if mkbool(l.zlen() <= 0):
            raise IndexError("cannot choose from an empty sequence")
        i = c.fresh("pick", I)
        c.assume(z3.And(i >= 0, i < l.zlen()))
        return l.at(i)

    @staticmethod
    def randint(a, b):
        c = ctx()
        if SBool(znum(a) > znum(b)):
            raise ValueError("empty range for randrange()")
        i = c.fresh("randint", I)
        c.assume(z3.And(i >= znum(a), i <= znum(b)))
        return SNum(i)

    @staticmethod
    def random():
        c = ctx()
        r = c.fresh("random", sym.R if hasattr(sym, "R") else z3.RealSort())
        c.assume(z3.And(r >= 0, r < 1))
        return SNum(r)


Random = _Random()

SHADOWS = {
    "len": p_len, "any": p_any, "all": p_all, "sum": p_sum, "min": p_min, "max": p_max, "sorted": p_sorted,
    "range": p_range, "enumerate": p_enumerate, "zip": p_zip, "reversed": p_reversed, "map": p_map,
    "filter": p_filter, "next": p_next, "isinstance": p_isinstance, "round": p_round, "print": p_print, "type": p_type,
    "int": S_int, "float": S_float, "str": S_str, "bool": S_bool, "list": S_list, "dict": S_dict, "set": S_set,
    "tuple": S_tuple,
}
NATIVE2SHADOW = {int: S_int, float: S_float, str: S_str, bool: S_bool, list: S_list, dict: S_dict, set: S_set,
                 tuple: S_tuple, _dt.datetime: S_datetime, _dt.timedelta: S_timedelta, _dt.time: S_time,
                 _dt.date: S_date}
import collections as _coll
import math as _math
import random as _random
import secrets as _secrets
VALUE_SHADOWS = [(_dt.datetime, S_datetime), (_dt.timedelta, S_timedelta), (_dt.time, S_time), (_dt.date, S_date),
                 (_dt, DTModule), (_math, Math), (_coll.defaultdict, PDefaultDict), (_coll.OrderedDict, S_dict), (_random, Random),
                 (_secrets, Random)]


def truth(x):
    return True if x else False


def iadd(a, b):
    import operator
    return operator.iadd(a, b)
