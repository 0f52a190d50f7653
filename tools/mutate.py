#!/opt/venv/bin/python
"""Mutation campaign: small changes to the functions under contract, in scratch copies; lists the ones no unit reports.

usage: tools/mutate.py OUT.jsonl [--per N] [--seed S] [--only SUBSTR] [--jobs J]
Runs the units that name the changed function (from this copy of /verif) against a scratch copy of /repo.
"""
import argparse, ast, copy, glob, importlib, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.path.insert(0, "/repo")
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from pyvc import driver
ap = argparse.ArgumentParser()
ap.add_argument("out"); ap.add_argument("--per", type=int, default=6); ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--only", default=""); ap.add_argument("--jobs", type=int, default=7); ap.add_argument("--max-units", type=int, default=6)
ap.add_argument("--again", help="only the changes that this earlier OUT.jsonl lists as missed")
ar = ap.parse_args()
AGAIN = {(r["fn"], r["what"]) for r in map(json.loads, open(ar.again)) if r["status"] != "caught"} if ar.again else None
for f in sorted(glob.glob(HERE + "/units/p*.py")):
    importlib.import_module("units." + os.path.basename(f)[:-3])
TARGET = {}
for u in driver.UNITS.values():
    for t in u.targets:
        TARGET.setdefault(t, []).append(u.name)
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn,
       ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Mod, ast.Mod: ast.FloorDiv}


def variants(fn):
    """(description, function that changes the copied tree in place, given the node with the same index)"""
    out = []
    for i, n in enumerate(ast.walk(fn)):
        def add(what, f, i=i, n=n):
            out.append(("%s at line %d" % (what, getattr(n, "lineno", 0)), i, f))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            t = type(n.ops[0])
            if t in CMP:
                add("%s->%s" % (t.__name__, CMP[t].__name__), lambda m, t=t: m.ops.__setitem__(0, CMP[t]()))
            if t in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
                add("operands of %s swapped" % t.__name__, lambda m: (lambda a, b: (setattr(m, "left", b), m.comparators.__setitem__(0, a)))(m.left, m.comparators[0]))
        if isinstance(n, ast.BoolOp):
            add("and<->or", lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And()))
            add("first operand only", lambda m: m.values.__delitem__(slice(1, None)))
            add("first operand dropped", lambda m: m.values.__delitem__(0))
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            add("%s->%s" % (type(n.op).__name__, BIN[type(n.op)].__name__), lambda m: setattr(m, "op", BIN[type(m.op)]()))
        if isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            add("aug %s" % type(n.op).__name__, lambda m: setattr(m, "op", BIN[type(m.op)]()))
        if isinstance(n, ast.Constant) and type(n.value) in (int, float):
            add("%r+1" % n.value, lambda m: setattr(m, "value", m.value + 1))
            if n.value:
                add("%r->0" % n.value, lambda m: setattr(m, "value", 0))
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            add("not %r" % n.value, lambda m: setattr(m, "value", not m.value))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add("not dropped", lambda m: (setattr(m, "op", ast.Not()), setattr(m, "operand", ast.UnaryOp(ast.Not(), m.operand))))
        if isinstance(n, (ast.If, ast.IfExp)):
            add("if True", lambda m: setattr(m, "test", ast.Constant(True)))
            add("if False", lambda m: setattr(m, "test", ast.Constant(False)))
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            add("arguments swapped", lambda m: m.args.__setitem__(slice(0, 2), [m.args[1], m.args[0]]))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("min", "max"):
            add("min<->max", lambda m: setattr(m.func, "id", "max" if m.func.id == "min" else "min"))
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            add("return None", lambda m: setattr(m, "value", ast.Constant(None)))
        for field in ("body", "orelse"):
            b = getattr(n, field, None)
            if isinstance(b, list):
                for j, s in enumerate(b):
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.Break, ast.Continue)) or isinstance(s, ast.Expr) and not isinstance(s.value, ast.Constant):
                        if isinstance(s, ast.Expr) and "print" in ast.unparse(s)[:6]:
                            continue
                        out.append(("removed `%s` (line %d)" % (ast.unparse(s)[:60], s.lineno), i, lambda m, field=field, j=j: getattr(m, field).__setitem__(j, ast.Pass())))
                    if isinstance(s, (ast.Break, ast.Continue)):
                        out.append(("break<->continue (line %d)" % s.lineno, i, lambda m, field=field, j=j, s=s: getattr(m, field).__setitem__(
                            j, ast.Continue() if isinstance(s, ast.Break) else ast.Break())))
    return out


rnd, jobs = random.Random(ar.seed), []
for f in sorted(glob.glob("/repo/prosimos/**/*.py", recursive=True)):
    mod = os.path.relpath(f, "/repo")[:-3].replace("/", ".")
    tree = ast.parse(open(f).read())
    for ci, node in enumerate(tree.body):
        fns = [(node.name, None, node)] if isinstance(node, ast.FunctionDef) else [
            (node.name + "." + x.name, k, x) for k, x in enumerate(node.body) if isinstance(x, ast.FunctionDef)] if isinstance(node, ast.ClassDef) else []
        for q, k, fn in fns:
            name = mod + ":" + q
            if name not in TARGET or ar.only not in name:
                continue
            vs = variants(fn)
            for what, i, ch in rnd.sample(vs, min(len(vs), 10 ** 6 if AGAIN is not None else ar.per)):
                if AGAIN is not None and (name, what) not in AGAIN:
                    continue
                t = copy.deepcopy(tree)
                g = t.body[ci] if k is None else t.body[ci].body[k]
                ch(list(ast.walk(g))[i])
                try:
                    src = ast.unparse(ast.fix_missing_locations(t))
                    compile(src, f, "exec")
                except Exception:
                    continue
                jobs.append((name, what, os.path.relpath(f, "/repo"), src, fn.lineno))
rnd.shuffle(jobs)
print(len(jobs), "mutants", flush=True)
pool = Queue()
base = tempfile.mkdtemp(prefix="mut", dir="/tmp")
for j in range(ar.jobs):
    d = "%s/%d" % (base, j)
    os.makedirs(d)
    subprocess.run(["cp", "-a", "/repo/prosimos", "/repo/testing_scripts", d] if os.path.isdir("/repo/testing_scripts") else ["cp", "-a", "/repo/prosimos", d])
    for x in glob.glob("/repo/*"):
        if not os.path.exists(os.path.join(d, os.path.basename(x))):
            os.symlink(x, os.path.join(d, os.path.basename(x)))
    pool.put(d)
lock = __import__("threading").Lock()


def run(job):
    name, what, path, src, line = job
    d = pool.get()
    try:
        old = open(os.path.join("/repo", path)).read()
        open(os.path.join(d, path), "w").write(src)
        res = []
        units = TARGET[name]
        if len(units) > ar.max_units:
            units = random.Random(what).sample(units, ar.max_units)
        for u in units:
            try:
                p = subprocess.run(["/opt/venv/bin/python", HERE + "/check.py", u.split(".")[0], "--unit", u], cwd=HERE, timeout=400,
                                   env=dict(os.environ, PV_REPO=d), capture_output=True, text=True)
                out, rc = p.stdout, p.returncode
            except subprocess.TimeoutExpired:
                out, rc = "", "timeout"
            v = "violation" if "VIOLATION" in out and "no-failing" not in out else "unreplayed" if "VIOLATION" in out else "undecided" if (
                "NOT DECIDED" in out or "undecided" in out) else "clean" if rc == 0 else "rc%s" % rc
            res.append((u, v))
            if v == "violation":
                break
        st = "caught" if any(v == "violation" for _, v in res) else "proof" if any(v == "unreplayed" for _, v in res) else "missed"
        tests = None
        if st != "caught":       # do the repository's own tests see it?
            p = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-p", "vp_seed", "-W", "ignore",
                                "--deselect", "testing_scripts/test_batching_large_wt.py::test_range_large_wt_rule_correct_log_distances",
                                "testing_scripts"], cwd=d, capture_output=True, text=True, timeout=600,
                               env=dict(os.environ, PYTHONPATH=d + ":/opt/vp/lib", PYTHONDONTWRITEBYTECODE="1"))
            tests = "pass" if p.returncode == 0 else "fail"
        with lock:
            open(ar.out, "a").write(json.dumps(dict(status=st, fn=name, line=line, what=what, units=res, tests=tests)) + "\n")
        open(os.path.join(d, path), "w").write(old)
    finally:
        pool.put(d)


with ThreadPoolExecutor(ar.jobs) as ex:
    list(ex.map(run, jobs))
shutil.rmtree(base)
