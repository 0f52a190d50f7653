"""Automatic loop-invariant candidates.  They are derived from the transitions observed on the generic iteration and
are only used when the verifier shows them inductive (Houdini): a wrong candidate is dropped, never assumed."""
import z3

from . import cont, sym
from .engine import POISON, consts_of, locname

I = z3.IntSort()


def subst(e, old, new):
    return z3.substitute(e, (old, new))


def arrays_of(loc, kind, v):
    """z3 terms of a location's value, or None"""
    try:
        if kind == "heap":
            return list(v)
        if kind is None or v is POISON or isinstance(kind, (cont.KEmpty, cont.KNone)):
            return None
        return kind.flat(v)
    except sym.Unsupported:
        return None


def store_chain(new, cur):
    """new == Store(...Store(cur, k1, v1)..., kn, vn) -> [(k1,v1)..] ; None if not of that shape"""
    out, t = [], new
    for _ in range(8):
        if t.eq(cur):
            return out[::-1]
        if z3.is_app_of(t, z3.Z3_OP_STORE):
            out.append((t.arg(1), t.arg(2)))
            t = t.arg(0)
            continue
        return None
    return None


def counters(loop, info):
    """pairs (constant of a local counted up or down by one constant per iteration, its value in terms of the iteration)"""
    size = sum(len(p) for p in info.trans.values())
    hit = getattr(info, "_counters", None)
    if hit is not None and hit[0] == size and hit[1] is info.unstable:
        return hit[2]
    pairs = []
    if not loop.is_for:
        for loc, kind in info.mods.items():
            if kind != cont.KInt or loc in info.late:
                continue
            ct, et = arrays_of(loc, kind, info.cur.get(loc)), arrays_of(loc, kind, loop.entry.get(loc))
            per = info.trans.get(loc)
            if not per or ct is None or et is None or not (z3.is_const(ct[0]) and ct[0].decl().kind() == z3.Z3_OP_UNINTERPRETED):
                continue
            ds = set()
            for conds, val, same in per.values():
                t = None if val is POISON else arrays_of(loc, kind, val)
                d = None if t is None else z3.simplify(t[0] - ct[0])
                ds.add(d.as_long() if d is not None and z3.is_int_value(d) else None)
            if len(ds) == 1 and None not in ds and 0 not in ds:
                pairs.append((ct[0], z3.simplify(et[0] + ds.pop() * info.kconst)))
    info._counters = (size, info.unstable, pairs)
    return pairs


def counted(loop, info, e):
    ps = counters(loop, info)
    return z3.substitute(e, *ps) if ps else e


def transitions(info, loop):
    """loc -> list of (path, stable conds, complete?, all conds, new value, same)"""
    size = (sum(len(p) for p in info.trans.values()), len(info.unstable))
    hit = getattr(info, "_transitions", None)
    if hit is not None and hit[0] == size and hit[2] is info.unstable:
        return hit[1]
    out = {}
    for loc, per in info.trans.items():
        rows = []
        for path, (conds, val, same) in sorted(per.items(), key=lambda x: str(x[0])):
            if val is POISON and same:
                continue               # not bound yet on this path
            if not loop.is_for:
                conds = [counted(loop, info, e) for e in conds]
            st = [e for e in conds if not (consts_of(e) & info.unstable)]
            rows.append((st, len(st) == len(conds), conds, val, same))
        out[loc] = rows
    info._transitions = (size, out, info.unstable)
    return out


def conj(l):
    return z3.And(*l) if l else z3.BoolVal(True)


def disj(l):
    return z3.Or(*l) if l else z3.BoolVal(False)


def spec_candidates(loop, info, k, state):
    f = loop.c.unit.inv
    if f is None:
        return
    V = LoopView(loop, info, k, state)
    c = loop.c
    c.spec += 1
    try:
        res = []
        try:
            for nm, val in f(V):
                if callable(val):              # proposed lazily: left out where it does not even make sense
                    try:
                        val = val()
                    except (sym.Unsupported, TypeError, AttributeError, AssertionError):
                        continue
                res.append((nm, val))
        except sym.Unsupported:
            pass
    finally:
        c.spec -= 1
    for name, val in res:
        try:
            yield "spec:" + name, sym.zb(val)
        except sym.Unsupported:
            continue


class LoopView:
    """what a contract sees of a loop when it proposes invariants: no dependence on local names is needed"""

    def __init__(self, loop, info, k, state):
        self.loop, self.info, self.state = loop, info, state
        self.k = sym.num(k)
        self.is_for = loop.is_for
        self.lid = loop.lid
        self.c = loop.c.unit.cur_c
        self.n = loop.n if loop.is_for else None
        self.depth = loop.level       # symbolic loops around this one

    def elem(self, j):
        """j-th element of the sequence a for loop goes through"""
        return self.loop.get(sym.znum(j))

    def locs(self, *kinds):
        for loc, kind in sorted(self.info.mods.items(), key=lambda x: str(x[0])):
            if kind is None or kind == "heap":
                continue
            if any(kind == q or (isinstance(q, type) and isinstance(kind, q)) for q in kinds):
                v = self.state.get(loc)
                if v is POISON or v is None and not isinstance(kind, cont.KOpt):
                    continue
                yield locname(loc), v, self.loop.entry.get(loc)

    def nums(self):
        return self.locs(cont.KInt, cont.KReal)

    def ints(self):
        return self.locs(cont.KInt)

    def bools(self):
        return self.locs(cont.KBool)

    def dts(self):
        return self.locs(cont.KDT)

    def lists(self):
        return self.locs(cont.KList)

    def dicts(self):
        return self.locs(cont.KDict)

    def bits(self):
        return self.locs(cont.KBits)

    def strs(self):
        return self.locs(cont.KStr)

    def fixed(self):
        """numbers bound before the loop"""
        for nm, v in sorted(self.loop.lv0.items()):
            if isinstance(v, (sym.SNum, int)) and not isinstance(v, bool):
                yield nm, v

    def heap(self, tag, field):
        a = self.state.get(("heap", (tag, field)))
        return a


def candidates(loop, info, k, state, ghost):
    yield from spec_candidates(loop, info, k, state)
    if getattr(loop.c.unit, "no_auto", False):
        return
    kc = getattr(info, "kconst", None)
    if kc is None:
        return
    j = z3.Int("j!inv")
    rng = z3.And(j >= 0, j < k)
    # 1. search loops
    phis = info.phis
    if not loop.is_for and counters(loop, info):
        phis = {p: [e for e in (counted(loop, info, e) for e in cs) if not (consts_of(e) & info.unstable)] for p, cs in info.rawphis.items()}
    if phis and all(phis.values()):
        f = disj([conj(p) for p in phis.values()])
        f = z3.simplify(f)
        if not z3.is_true(f) and not z3.is_false(f):
            yield "search", z3.ForAll([j], z3.Implies(rng, subst(f, kc, j)))
    # while-loop test atoms, weakened
    if not loop.is_for:
        seen = set()
        for path, st in list(info.trans.items())[:1]:
            for p, (conds, _, _) in st.items():
                for a in conds[:2]:
                    for nm, w in weaken(a):
                        g = at_state(w, info, state)
                        if g is not None and str(g) not in seen:
                            seen.add(str(g))
                            yield "test:%s:%s" % (nm, str(w)[:60]), g
    tr = transitions(info, loop)
    # which iterations write: all of them, or the same ones as for another location
    groups = {}
    for loc, per in sorted(info.trans.items(), key=lambda x: str(x[0])):
        w = ghost.get(loc)
        if w is None:
            continue
        pat = tuple(sorted((str(p), same) for p, (_, _, same) in per.items()))
        if all(not same for _, same in pat):
            yield "every:" + locname(loc), w == k - 1
        elif any(not same for _, same in pat):
            if pat in groups:
                yield "with:" + locname(loc), w == groups[pat]
            else:
                groups[pat] = w
    for loc, kind in sorted(info.mods.items(), key=lambda x: str(x[0])):
        nm = locname(loc)
        v, e = state.get(loc), loop.entry.get(loc)
        cur = info.cur.get(loc)
        rows = tr.get(loc, [])
        vt, et, ct = arrays_of(loc, kind, v), arrays_of(loc, kind, e), arrays_of(loc, kind, cur)
        late = loc in info.late
        if late and vt is not None and ct is not None:
            et = vt
        if vt is None or et is None or ct is None:
            continue
        new = [arrays_of(loc, kind, r[3]) for r in rows]
        if any(x is None for x in new):
            continue
        if not loop.is_for and counters(loop, info) and not any(ct[0].eq(p) for p, _ in counters(loop, info)):
            new = [[counted(loop, info, t) for t in x] for x in new]
        w = ghost.get(loc)
        # 2. numeric facts
        if kind in (cont.KInt, cont.KReal) and not late:
            x, y = vt[0], et[0]
            zero = z3.IntVal(0) if kind == cont.KInt else z3.RealVal(0)
            yield "ge0:" + nm, x >= zero
            yield "mono+:" + nm, x >= y
            yield "mono-:" + nm, x <= y
            kk = k if kind == cont.KInt else z3.ToReal(k)
            yield "counter:" + nm, x == y + kk
            yield "atmost:" + nm, x <= y + kk
            # accumulation
            ds, ok = [], bool(rows)
            for r, t in zip(rows, new):
                d = z3.simplify(t[0] - ct[0])
                if consts_of(d) & info.unstable or not r[1]:
                    ok = False
                ds.append((r[0], d))
            if ok:
                A = z3.Const("acc@%s@%s" % (loop.lid, nm), z3.ArraySort(I, x.sort()))
                val = zero
                for cs, d in ds:
                    val = z3.If(conj(cs), d, val)
                loop.c.assume(z3.ForAll([j], A[j] == subst(val, kc, j), patterns=[A[j]]))
                yield "sum:" + nm, x == y + psum(loop.c, A, k)
        # 3. last write wins (scalars only)
        scalar = all(not z3.is_array(t) for t in vt)
        wr = [(r, t) for r, t in zip(rows, new) if not r[4]]
        if scalar and wr and w is not None and len(rows) <= 64:
            if not late:
                yield "unwritten:" + nm, z3.Implies(w == -1, conj([a == b for a, b in zip(vt, et)]))
            alts = []
            for r, t in wr:
                c1 = [subst(q, kc, w) for q in r[0]]
                c1 += [subst(q, kc, w) == a for q, a in zip(t, vt) if not (consts_of(q) & info.unstable)]
                alts.append(conj(c1))
            yield "written:" + nm, z3.Implies(w >= 0, disj(alts))
            comp = [conj(r[0]) for r, _ in wr if r[1]]
            if comp and len(comp) == len(wr):
                yield "since:" + nm, z3.ForAll([j], z3.Implies(z3.And(j > w, rng), z3.Not(subst(disj(comp), kc, j))))
            nw = ghost.get((loc, "nw"))
            idle = [r for r in rows if r[4]]
            if nw is not None and idle:
                if comp and len(comp) == len(wr):
                    yield "always:" + nm, z3.ForAll([j], z3.Implies(z3.And(nw == -1, rng), subst(disj(comp), kc, j)))
                yield "skipped:" + nm, z3.Implies(nw >= 0, disj([conj([subst(q, kc, nw) for q in r[0]]) for r in idle]))
                if kind == cont.KInt and not late:
                    yield "full:" + nm, z3.If(nw == -1, vt[0] == et[0] + k, vt[0] < et[0] + k)
            if kind in (cont.KInt, cont.KReal) and not late:
                yield "moved+:" + nm, z3.If(w == -1, vt[0] == et[0], vt[0] > et[0])
                yield "moved-:" + nm, z3.If(w == -1, vt[0] == et[0], vt[0] < et[0])
            # one-way flags: no earlier iteration wrote
            if comp:
                for i, (r, _) in enumerate(wr):
                    if r[1]:
                        yield "first:%d:%s" % (i, nm), z3.ForAll(
                            [j], z3.Implies(z3.And(j < w, j >= 0), z3.Not(subst(conj(r[0]), kc, j))))
        # 4. comparisons of elements with the carried value (minimum / maximum searches)
        if scalar and sum(len(r[2]) for r in rows) <= 100:       # many paths: not a search loop
            seen = set()
            for r in rows:
                for a in r[2]:
                    cs = consts_of(a)
                    if not (cs & info.unstable):
                        continue
                    b = a.arg(0) if z3.is_not(a) else a
                    for sgn in (0, 1):
                        g = at_state(b, info, state)
                        if g is None or kc.decl().name() not in consts_of(g):
                            continue
                        q = z3.Not(g) if sgn else g
                        f = z3.ForAll([j], z3.Implies(rng, subst(z3.Implies(conj(r[0]), q), kc, j)))
                        key = f.sexpr()
                        if key not in seen:
                            seen.add(key)
                            yield "cmp:%d:%s:%s" % (sgn, nm, hash_(b, r[0])), f
        if late:
            continue
        # 5. lists: appends
        if isinstance(kind, cont.KList) and rows:
            yield from list_cands(loop, info, kind, nm, k, kc, vt, et, ct, rows, new, j, rng, ghost, loc)
        # 6. stores into dicts, lists and heap arrays
        if kind == "heap" or isinstance(kind, (cont.KDict, cont.KSet, cont.KList)) or kind == cont.KBits:
            yield from store_cands(loop, info, kind, nm, k, kc, vt, et, ct, rows, new, j, rng, ghost, loc)


def hash_(b, cs):
    import hashlib
    return hashlib.md5((b.sexpr() + "|" + "|".join(c.sexpr() for c in cs)).encode()).hexdigest()[:6]


def weaken(a):
    neg = z3.is_not(a)
    b = a.arg(0) if neg else a
    if z3.is_app(b) and b.num_args() == 2 and b.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
        x, y = b.arg(0), b.arg(1)
        less = b.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_LT)
        if neg:
            less = not less
        one = 1
        yield "weak", (x <= y if less else x >= y)
        if z3.is_int(x):
            yield "weak1", (x <= y + one if less else x >= y - one)


def state_pairs(info, state):
    pairs = []
    for loc, kind in info.mods.items():
        c = arrays_of(loc, kind, info.cur.get(loc))
        s = arrays_of(loc, kind, state.get(loc))
        if c is None or s is None or len(c) != len(s):
            continue
        for a, b in zip(c, s):
            if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if a.sort() != b.sort():
                    return True, [], set()
                pairs.append((a, b))
    return False, pairs, {p[0].decl().name() for p in pairs}


def at_state(e, info, state):
    """the formula e over the havocked constants, evaluated at another state"""
    hit = getattr(info, "_pairs", None)
    if hit is None or hit[0] is not state or hit[1] is not info.cur:
        hit = info._pairs = (state, info.cur) + state_pairs(info, state)
    bad, pairs, left = hit[2:]
    if bad:
        return None
    un = (consts_of(e) & info.unstable) - left
    if un:
        return None
    return z3.substitute(e, *pairs) if pairs else e


def list_cands(loop, info, kind, nm, k, kc, vt, et, ct, rows, new, j, rng, ghost, loc):
    apps = []
    for r, t in zip(rows, new):
        d = z3.simplify(t[0] - ct[0])
        if z3.is_int_value(d) and d.as_long() == 0:
            if not all(a.eq(b) for a, b in zip(t[1:], ct[1:])):
                return
            apps.append(None)
            continue
        if not (z3.is_int_value(d) and d.as_long() == 1):
            return
        vals = []
        for a, b in zip(t[1:], ct[1:]):
            ch = store_chain(a, b)
            if ch is None or len(ch) != 1 or not z3.simplify(ch[0][0] == ct[0]).eq(z3.BoolVal(True)):
                return
            vals.append(ch[0][1])
        apps.append(vals)
    n0 = et[0]
    i = z3.Int("i!inv")
    yield "prefix:" + nm, z3.And(vt[0] >= n0, z3.ForAll([i], z3.Implies(
        z3.And(i >= 0, i < n0), conj([a[i] == b[i] for a, b in zip(vt[1:], et[1:])]))))
    if not any(a is not None for a in apps):
        return
    if all(a is not None for a in apps):
        yield "len:" + nm, vt[0] == n0 + k
        body = []
        for r, vals in zip(rows, apps):
            body.append(z3.Implies(conj(r[0]), conj([a[n0 + kc] == q for a, q in zip(vt[1:], vals)
                                                     if not (consts_of(q) & info.unstable)])))
        f = conj(body) if all(r[1] for r in rows) else (body[0] if len(body) == 1 else None)
        if f is not None:
            yield "map:" + nm, z3.ForAll([j], z3.Implies(rng, subst(f, kc, j)))
        return
    src, pos = ghost.get((loc, "src")), ghost.get((loc, "pos"))
    if src is None:
        return
    yield "len<=:" + nm, vt[0] <= n0 + k
    alts = []
    for r, vals in zip(rows, apps):
        if vals is not None:
            alts.append(conj([subst(q, kc, src[i]) for q in r[0]] +
                             [a[n0 + i] == subst(q, kc, src[i]) for a, q in zip(vt[1:], vals)
                              if not (consts_of(q) & info.unstable)]))
    yield "src:" + nm, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < vt[0] - n0), z3.And(
        src[i] >= 0, src[i] < k, pos[src[i]] == i, disj(alts))), patterns=[src[i]])
    i2 = z3.Int("i2!inv")
    yield "srcmono:" + nm, z3.ForAll([i, i2], z3.Implies(z3.And(i >= 0, i < i2, i2 < vt[0] - n0), src[i] < src[i2]))
    comp = [conj(r[0]) for r, v in zip(rows, apps) if v is not None and r[1]]
    if comp:
        yield "pos:" + nm, z3.ForAll([j], z3.Implies(z3.And(rng, subst(disj(comp), kc, j)), z3.And(
            pos[j] >= 0, pos[j] < vt[0] - n0, src[pos[j]] == j)), patterns=[pos[j]])


def store_cands(loop, info, kind, nm, k, kc, vt, et, ct, rows, new, j, rng, ghost, loc):
    for ci, (v, e, cu) in enumerate(zip(vt, et, ct)):
        if not z3.is_array(v):
            continue
        lw = ghost.get((loc, "lw", ci))
        if lw is None:
            continue
        x = z3.Const("x!inv", v.sort().domain())
        chains = [store_chain(t[ci], cu) for t in new]
        if any(c is None for c in chains) or not any(chains):
            continue
        yield "frame:%s:%d" % (nm, ci), z3.ForAll([x], z3.Implies(lw[x] == -1, v[x] == e[x]))
        alts = []
        for r, ch in zip(rows, chains):
            for key, val in ch:
                if consts_of(key) & info.unstable:
                    continue
                c1 = [subst(q, kc, lw[x]) for q in r[0]] + [subst(key, kc, lw[x]) == x]
                if not (consts_of(val) & info.unstable):
                    c1.append(v[x] == subst(val, kc, lw[x]))
                else:
                    # read-modify-write of an entry that was not written before: value relative to the entry state
                    g = at_entry(val, info, loop)
                    if g is not None:
                        c1.append(v[x] == subst(g, kc, lw[x]))
                alts.append(conj(c1))
        yield "writer:%s:%d" % (nm, ci), z3.ForAll([x], z3.Implies(lw[x] != -1, z3.And(
            lw[x] >= 0, lw[x] < k, disj(alts))))
        yield "range:%s:%d" % (nm, ci), z3.ForAll([x], z3.And(lw[x] >= -1, lw[x] < k))
        ent = [[at_entry(q, info, loop) for q in r[2]] for r in rows]
        ent = [None if any(q is None for q in cs) else cs for cs in ent]
        if any(not r[1] for r in rows) and all(e_ is not None or not ch for e_, ch in zip(ent, chains)):
            alts = []
            for r, ch, cs in zip(rows, chains, ent):
                for key, val in ch:
                    g = val if not (consts_of(val) & info.unstable) else at_entry(val, info, loop)
                    if consts_of(key) & info.unstable or g is None:
                        continue
                    alts.append(conj([subst(q, kc, lw[x]) for q in cs] + [subst(key, kc, lw[x]) == x,
                                                                          v[x] == subst(g, kc, lw[x])]))
            yield "writer0:%s:%d" % (nm, ci), z3.ForAll([x], z3.Implies(lw[x] != -1, z3.And(
                lw[x] >= 0, lw[x] < k, disj(alts))))
        for i, (r, ch, cs) in enumerate(zip(rows, chains, ent)):
            if not ch or any(consts_of(key) & info.unstable for key, _ in ch):
                continue
            if r[1]:
                yield "wrote:%s:%d:%d" % (nm, ci, i), z3.ForAll([j], z3.Implies(
                    z3.And(rng, subst(conj(r[0]), kc, j)), conj([lw[subst(key, kc, j)] >= j for key, _ in ch])))
            elif cs is not None:
                yield "wrote0:%s:%d:%d" % (nm, ci, i), z3.ForAll([j], z3.Implies(
                    z3.And(rng, subst(conj(cs), kc, j)), conj([lw[subst(key, kc, j)] == j for key, _ in ch])))


def at_entry(e, info, loop):
    return at_state(e, info, loop.entry)


# ---------------------------------------------------------------- sums
_psum = {}


def psum_fn(sort):
    s = str(sort)
    if s not in _psum:
        _psum[s] = z3.Function("psum_" + s, z3.ArraySort(I, sort), I, sort)
    return _psum[s]


def psum(c, A, k):
    """sum of A[0..k-1]; the defining equations are instantiated where a term is created"""
    f = psum_fn(A.sort().range())
    k = z3.simplify(k if isinstance(k, z3.ExprRef) else z3.IntVal(k))
    t = f(A, k)
    reg = c.__dict__.setdefault("psums", {})
    key = (A.get_id(), k.get_id())
    if not c.gvars and key in reg:
        return t
    zero = z3.IntVal(0) if A.sort().range() == I else z3.RealVal(0)
    c.assume(z3.Implies(k <= 0, t == zero))
    km = z3.simplify(k - 1)
    c.assume(z3.Implies(k > 0, t == f(A, km) + A[km]))
    c.assume(f(A, z3.IntVal(0)) == zero)
    if c.gvars:              # one sum per generic element: the defining equations only
        return t
    d = c.fresh("dneg", I)
    c.assume(z3.Or(z3.And(d >= 0, d < k, A[d] < 0), t >= zero))
    if c.unit.unit.kw.get("sum_parts"):      # no part exceeds the sum when none is negative
        j = z3.Int("j!part")
        c.assume(z3.Or(z3.And(d >= 0, d < k, A[d] < 0), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), A[j] <= t), patterns=[A[j]])))
    for B, q, u in list(reg.values()):
        if B.sort() == A.sort():
            d = c.fresh("ddiff", I)
            c.assume(z3.Or(k != q, z3.And(d >= 0, d < k, A[d] != B[d]), t == u))
            if A.eq(B):      # monotone when the entries in between are not negative
                d2 = c.fresh("dmono", I)
                c.assume(z3.Implies(q <= k, z3.Or(z3.And(d2 >= q, d2 < k, A[d2] < 0), u <= t)))
                d3 = c.fresh("dmono", I)
                c.assume(z3.Implies(k <= q, z3.Or(z3.And(d3 >= k, d3 < q, A[d3] < 0), t <= u)))
    reg[key] = (A, k, t)
    return t
