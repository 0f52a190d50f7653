#!/opt/venv/bin/python
"""Checks of the verifier itself (not of /repo): small correct functions it must prove and broken ones it must refute, and, with
--suite, the repository's own tests run through the transformation in a scratch copy.

usage: tools/selftest.py [--suite]
"""
import os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOY = '''
import datetime
def total(xs):
    s = 0
    for x in xs:
        s += x
    return s
def total_bad(xs):
    s = 0
    for x in xs[1:]:
        s += x
    return s
def largest(xs):
    best = xs[0]
    for x in xs:
        if x > best:
            best = x
    return best
def largest_bad(xs):
    best = 0
    for x in xs:
        if x > best:
            best = x
    return best
def find(xs, v):
    i = 0
    while i < len(xs):
        if xs[i] == v:
            return i
        i += 1
    return -1
def find_bad(xs, v):
    i = 0
    while i < len(xs) - 1:
        if xs[i] == v:
            return i
        i += 1
    return -1
def put(d, k, v):
    d = dict(d)
    d[k] = v
    return d
def put_bad(d, k, v):
    d[k] = v
    return d
def positive(xs):
    return [x for x in xs if x > 0]
def positive_bad(xs):
    return [x for x in xs if x >= 0]
def clip(a, lo, hi):
    return min(max(a, lo), hi)
def clip_bad(a, lo, hi):
    return max(min(a, lo), hi)
def days(t):
    return (t - datetime.timedelta(hours=t.hour)).hour
def days_bad(t):
    return (t + datetime.timedelta(hours=t.hour)).hour
def guarded(xs, i):
    return xs[i] if 0 <= i < len(xs) else None
def guarded_bad(xs, i):
    return xs[i] if 0 <= i <= len(xs) else None
def shared(xs):
    a = list(xs)
    b = list(a)
    a.append(1)
    return b
def shared_bad(xs):
    a = list(xs)
    b = a
    a.append(1)
    return b
def evens(n):
    s, i = 0, 0
    while i < n:
        s += 2
        i += 1
    return s
def evens_bad(n):
    s, i = 0, 0
    while i <= n:
        s += 2
        i += 1
    return s
def tally(xs):
    d = {}
    for x in xs:
        d[x] = d.get(x, 0) + 1
    return d
def tally_bad(xs):
    d = {}
    for x in xs:
        d[x] = d.get(x, 1) + 1
    return d
def halves(a):
    return a // 2 * 2 + a % 2
def halves_bad(a):
    return int(a / 2) * 2 + a % 2
def clear(d, ks):
    for k in ks:
        d.pop(k, None)
    return d
def clear_bad(d, ks):
    for k in ks:
        if d.pop(k, None):
            break
    return d
def ordered(xs):
    return sorted(xs)
def ordered_bad(xs):
    return sorted(xs, reverse=True)
def nested(xs, ys):
    n = 0
    for x in xs:
        for y in ys:
            n += 1
    return n
def nested_bad(xs, ys):
    n = 0
    for x in xs:
        for y in ys:
            n += 1
            if y == 7:
                break
    return n
def last(xs):
    r = None
    for x in xs:
        r = x
    return r
def last_bad(xs):
    r = 0
    for x in xs:
        r = x
    return r
def raising(a, b):
    try:
        return a / b
    except ZeroDivisionError:
        return 0
def raising_bad(a, b):
    return a / b
def default(v, acc=None):
    acc = [] if acc is None else acc
    acc.append(v)
    return len(acc)
def default_bad(v, acc=[]):
    acc.append(v)
    return len(acc)
'''
UNITS = '''
from pyvc.driver import unit
def twice(V):
    for nm, x, e in V.nums():
        yield "twice " + nm, lambda x=x: V.c.eq(x, 2 * V.k)
def gone(V):
    for nm, d, e in V.dicts():
        yield "gone " + nm, lambda d=d: V.c.forall(0, V.k, lambda i: V.c.not_(V.c.has(d, V.elem(i))))
def product(V):
    for nm, x, e in V.nums():
        yield "since " + nm, lambda x=x, e=e: V.c.eq(x, e + V.k)
        yield "product " + nm, lambda x=x: V.c.eq(x, V.k * V.c.ys)
INV = {"evens": twice, "clear": gone, "nested": product}
def reg(name):
    for bad in ("", "_bad"):
        def go(f, bad=bad):
            unit("P99.%s%s" % (name, bad), ["prosimos.toy:" + name + bad], inv=INV.get(name))(lambda c: f(c, getattr(c.mod("toy"), name + bad)))
            return f
        yield go
def both(f):
    for r in reg(f.__name__):
        r(f)
    return f
@both
def total(c, fn):
    xs = c.list("xs", c.Int)
    c.check("sum", c.eq(c.call(fn, xs), c.sum(c.len(xs), lambda i: c.at(xs, i), c.Int)))
@both
def largest(c, fn):
    xs = c.list("xs", c.Int)
    c.assume(c.len(xs) > 0)
    r = c.call(fn, xs)
    c.check("bound", c.forall(0, c.len(xs), lambda i: c.at(xs, i) <= r))
    c.check("member", c.exists(0, c.len(xs), lambda i: c.eq(c.at(xs, i), r)))
@both
def find(c, fn):
    xs, v = c.list("xs", c.Int), c.int("v")
    r = c.call(fn, xs, v)
    c.check("found", c.iff(r >= 0, c.exists(0, c.len(xs), lambda i: c.eq(c.at(xs, i), v))))
@both
def put(c, fn):
    d, v = c.mkdict({"a": c.int("a"), "b": c.int("b")}), c.int("v")
    old = c.get(d, "a")
    r = c.call(fn, d, "a", v)
    c.check("put", c.eq(c.get(r, "a"), v))
    c.check("argument untouched", c.eq(c.get(d, "a"), old))
@both
def positive(c, fn):
    xs = c.list("xs", c.Int)
    r = c.call(fn, xs)
    c.check("only", c.forall(0, c.len(r), lambda i: c.at(r, i) > 0))
@both
def clip(c, fn):
    a, lo, hi = c.int("a"), c.int("lo"), c.int("hi")
    c.assume(lo <= hi)
    r = c.call(fn, a, lo, hi)
    c.check("within", c.and_(lo <= r, r <= hi, c.implies(c.and_(lo <= a, a <= hi), c.eq(r, a))))
@both
def days(c, fn):
    c.check("midnight", c.eq(c.call(fn, c.dt("t")), 0))
@both
def guarded(c, fn):
    xs, i = c.list("xs", c.Int), c.int("i")
    c.call(fn, xs, i)
    c.check("returns", True)
@both
def shared(c, fn):
    xs = c.list("xs", c.Int)
    c.check("copy", c.eq(c.len(c.call(fn, xs)), c.len(xs)))
@both
def evens(c, fn):
    n = c.int("n", 0)
    c.check("twice", c.eq(c.call(fn, n), 2 * n))
@both
def tally(c, fn):
    xs, v = c.list("xs", c.Int), c.int("v")
    r = c.call(fn, xs)
    c.check("count", c.implies(c.has(r, v), lambda: c.eq(c.get(r, v), c.sum(c.len(xs), lambda i: c.ite(c.eq(c.at(xs, i), v), 1, 0), c.Int))))
@both
def halves(c, fn):
    a = c.int("a")
    c.check("division", c.eq(c.call(fn, a), a))
@both
def clear(c, fn):
    d, ks, q = c.dict("d", c.Str, c.Int), c.list("ks", c.Str), c.str("q")
    r = c.call(fn, d, ks)
    c.check("gone", c.implies(c.exists(0, c.len(ks), lambda i: c.eq(c.at(ks, i), q)), c.not_(c.has(r, q))))
@both
def ordered(c, fn):
    xs = c.list("xs", c.Int)
    r = c.call(fn, xs)
    c.check("ascending", c.forall(0, c.len(r) - 1, lambda i: c.at(r, i) <= c.at(r, i + 1)))
@both
def nested(c, fn):
    xs, ys = c.list("xs", c.Int), c.list("ys", c.Int)
    c.ys = c.len(ys)
    c.check("product", c.eq(c.call(fn, xs, ys), c.len(xs) * c.len(ys)))
@both
def last(c, fn):
    xs = c.list("xs", c.Int)
    c.check("none", c.iff(c.call(fn, xs) is None, c.eq(c.len(xs), 0)))
@both
def raising(c, fn):
    r = c.call(fn, c.int("a"), c.int("b"))
    c.check("returns", True)
@both
def default(c, fn):
    c.call(fn, c.int("a"))
    c.check("fresh", c.eq(c.call(fn, c.int("b")), 1))
'''
RUN = '''
import sys
sys.path.insert(0, %r); sys.path.insert(0, %r); sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import toyunits
from pyvc import main, driver
main.setup(True)
wrong = 0
for u in driver.UNITS.values():
    res = driver.Run(u, "quick").prove()
    # a wrong function must not be proved; a right one must be, except where no invariant is given
    ok = res["status"] != "proved" if u.name.endswith("_bad") else res["status"] == "proved" or u.name == "P99.tally"
    wrong += not ok
    print("%%-22s %%-10s %%s" %% (u.name[4:], res["status"], "" if ok else "WRONG %%s" %% {k: v for k, v in res.items() if k not in ("names",)}), flush=True)
sys.exit(wrong > 0)
'''
PLUGIN = '''
import sys
sys.path.insert(0, %r); sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from pyvc import xform, rt
# the containers of CPython instead of those of the verifier
def pairs(it):
    d = {}
    for k, v in it:
        if k is rt.STAR:
            d.update(v)
        else:
            d[k] = v
    return d
def comp(what, it, fn, cond=None, **kw):
    out = (fn(x) for x in it if cond is None or cond(x))
    return {"list": list, "set": set, "dict": dict}[what](out)
rt.SHADOWS, rt.VALUE_SHADOWS = {}, []
rt.mklist, rt.mkset, rt.mkdict, rt.comp = list, set, pairs, comp
rt.gen = lambda it, fn, cond=None, **kw: (fn(x) for x in it if cond is None or cond(x))
xform.install()
'''


def main():
    d = tempfile.mkdtemp(prefix="verif-self-")
    try:
        os.makedirs(d + "/repo/prosimos")
        for name, text in (("repo/prosimos/__init__.py", ""), ("repo/prosimos/toy.py", TOY), ("toyunits.py", UNITS),
                           ("run.py", RUN % (d, HERE)), ("pv_plugin.py", PLUGIN % HERE)):
            with open(os.path.join(d, name), "w") as f:
                f.write(text)
        rc = subprocess.run([sys.executable, d + "/run.py"], env=dict(os.environ, PV_REPO=d + "/repo", PYTHONHASHSEED="0", TZ="UTC")).returncode
        if "--suite" in sys.argv:
            shutil.copytree(os.environ.get("PV_REPO", "/repo"), d + "/copy", ignore=shutil.ignore_patterns(".git"))
            env = dict(os.environ, PV_REPO=d + "/copy", PYTHONPATH=d + "/copy:/opt/vp/lib:" + d, PYTHONHASHSEED="0", TZ="UTC", MPLBACKEND="Agg")
            rc = subprocess.run([sys.executable, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "pv_plugin", "-p", "vp_seed", "-W", "ignore",
                                 "-x" if "-x" in sys.argv else "--maxfail=20", "testing_scripts"], cwd=d + "/copy", env=env).returncode or rc
        return rc
    finally:
        shutil.rmtree(d)


sys.exit(main())
