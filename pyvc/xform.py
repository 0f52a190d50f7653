"""Mechanical transformation of /repo's source, redone from the working tree on every run.

What it changes, and nothing else:
  * for/while statements get a loop header that lets the verifier cut loops of symbolic length with an invariant;
  * list/dict/set displays and comprehensions build the verifier's containers; generator expressions are kept lazy;
  * f-strings and 'literal % args' go through a text constructor; attribute assignments are logged.
Docstrings, comments and annotations are dropped.  Everything else is executed by CPython as written."""
import ast
import importlib.abc
import importlib.util
import os
import sys

REPO = os.environ.get("PV_REPO", "/repo")
PV = "pv__"


def name(n):
    return ast.Name(id=n, ctx=ast.Load())


def attr(a):
    return ast.Attribute(value=name(PV), attr=a, ctx=ast.Load())


def call(f, *args):
    return ast.Call(func=attr(f), args=list(args), keywords=[])


class Assigned(ast.NodeVisitor):
    def __init__(self):
        self.names = set()

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.names.add(n.id)

    def visit_FunctionDef(self, n):
        self.names.add(n.name)

    def visit_Lambda(self, n):
        pass

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_Lambda


def assigned(nodes):
    v = Assigned()
    for n in nodes:
        v.visit(n)
    return sorted(v.names)


def events(node, out):
    """(name, is a read) in evaluation order, approximately"""
    if isinstance(node, (ast.Assign, ast.AnnAssign, ast.For)):
        first = node.iter if isinstance(node, ast.For) else node.value
        if first is not None:
            events(first, out)
        if isinstance(node, ast.For):
            events(node.target, out)
            for b in node.body + node.orelse:
                events(b, out)
        else:
            for t in node.targets if isinstance(node, ast.Assign) else [node.target]:
                events(t, out)
        return
    if isinstance(node, ast.AugAssign) and isinstance(node.target, ast.Name):
        out.append((node.target.id, True))
    if isinstance(node, ast.Name):
        out.append((node.id, isinstance(node.ctx, ast.Load)))
    for ch in ast.iter_child_nodes(node):
        events(ch, out)


def firsts(nodes):
    out = []
    for n in nodes:
        events(n, out)
    d = {}
    for nm, rd in out:
        d.setdefault(nm, rd)
    return d


def after(fn, loop):
    """statements that follow a loop inside its function"""
    out = []

    def go(stmts):
        for i, s in enumerate(stmts):
            if s is loop:
                return stmts[i + 1:]
            for f in ("body", "orelse", "finalbody", "handlers"):
                sub = getattr(s, f, None)
                if isinstance(sub, list) and sub and isinstance(sub[0], (ast.stmt, ast.ExceptHandler)):
                    r = go(sub)
                    if r is not None:
                        return r + ([] if f != "body" else []) + stmts[i + 1:]
        return None
    return go(fn.body) or []


class X(ast.NodeTransformer):
    def __init__(self, mod):
        self.mod, self.scope, self.cnt, self.depth, self.nested = mod, [], {}, 0, []
        self.live = {}

    def liveness(self, fn):
        """per loop: the names it assigns whose value is used in a later iteration or after it"""
        for l in ast.walk(fn):
            if isinstance(l, (ast.For, ast.While)) and l not in self.live:
                names = set(assigned([l]))
                tail, head = firsts(after(fn, l)), firsts(l.body if isinstance(l, ast.For) else [l.test] + l.body)
                if isinstance(l, ast.For):
                    head.update({x: False for x in assigned([l.target])})
                self.live[l] = tuple(sorted(x for x in names if tail.get(x) or head.get(x)))

    def visit_FunctionDef(self, n):
        self.liveness(n)
        self.scope.append(n.name)
        self.depth += 1
        # nonlocal/global names cannot be rebound through the header; they are simply never havocked
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.args.kw_defaults = [self.visit(d) if d else None for d in n.args.kw_defaults]
        for a in n.args.args + n.args.kwonlyargs:
            a.annotation = None
        n.returns = None
        n.body = self.block(n.body)
        self.depth -= 1
        self.scope.pop()
        return n

    def visit_ClassDef(self, n):
        self.scope.append(n.name)
        d, self.depth = self.depth, 0
        n.body = self.block(n.body)
        self.depth = d
        self.scope.pop()
        return n

    def visit_Lambda(self, n):
        n.body = self.visit(n.body)
        return n

    def visit_AnnAssign(self, n):
        if n.value is None or self.depth == 0 and isinstance(n.target, ast.Name):
            self.generic_visit(n)
            return n
        return self.visit(ast.copy_location(ast.Assign(targets=[n.target], value=n.value), n))

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if r is None:
                continue
            out.extend(r if isinstance(r, list) else [r])
        return out or [ast.Pass()]

    def lid(self, n):
        q = ".".join(self.scope)
        k = self.cnt.get(q, 0)
        self.cnt[q] = k + 1
        return "%s.%s#%d" % (self.mod.split(".")[-1], q, k), "pv__L%d_%d" % (len(self.scope), k)

    def loop(self, n, ctor, is_for):
        live = ast.Constant(self.live.get(n, ()))
        test = self.visit(n.test) if not is_for else None
        names = assigned([n])
        lid, var = self.lid(n)
        if is_for:
            target = self.visit(n.target)
            init = call("Loop", ast.Constant(lid), self.visit(n.iter), live)
        else:
            init = call("WLoop", ast.Constant(lid), live)
        body = self.block(n.body)
        orelse = self.block(n.orelse) if n.orelse else []
        L = lambda a: ast.Attribute(value=name(var), attr=a, ctx=ast.Load())
        lv = ast.Call(func=name("locals"), args=[], keywords=[])
        step_args = [lv]
        if not is_for:
            step_args.append(ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[],
                                                           defaults=[]), body=test))
        head = [ast.Assign(targets=[ast.Name(id=var + "g", ctx=ast.Store())],
                           value=ast.Call(func=L("step"), args=step_args, keywords=[]))]
        reb = []
        for nm in names:
            reb.append(ast.If(test=ast.Compare(left=ast.Constant(nm), ops=[ast.In()], comparators=[L("restore")]),
                              body=[ast.Assign(targets=[ast.Name(id=nm, ctx=ast.Store())],
                                               value=ast.Subscript(value=L("restore"), slice=ast.Constant(nm),
                                                                   ctx=ast.Load()))], orelse=[]))
        if reb:
            head.append(ast.If(test=L("restore"), body=reb, orelse=[]))
        if not is_for:
            import copy
            head.append(ast.If(test=ast.Compare(left=name(var + "g"), ops=[ast.Eq()], comparators=[ast.Constant("test")]),
                               body=[ast.Assign(targets=[ast.Name(id=var + "g", ctx=ast.Store())],
                                                value=ast.Call(func=L("after_test"), args=[
                                                    ast.Call(func=attr("truth"), args=[copy.deepcopy(test)], keywords=[])],
                                                    keywords=[]))], orelse=[]))
        head.append(ast.If(test=ast.UnaryOp(op=ast.Not(), operand=name(var + "g")), body=[ast.Break()], orelse=[]))
        if is_for:
            head.append(ast.Assign(targets=[target], value=L("item")))
        w = ast.While(test=ast.Constant(True), body=head + body, orelse=[])
        out = [ast.Assign(targets=[ast.Name(id=var, ctx=ast.Store())], value=init), w,
               ast.Expr(ast.Call(func=L("left"), args=[], keywords=[]))]
        if orelse:
            out.append(ast.If(test=L("exhausted"), body=orelse, orelse=[]))
        for o in out:
            ast.copy_location(o, n)
            ast.fix_missing_locations(o)
        return out

    def visit_For(self, n):
        if self.depth == 0:
            self.generic_visit(n)
            return n
        return self.loop(n, "Loop", True)

    def visit_While(self, n):
        if self.depth == 0:
            self.generic_visit(n)
            return n
        return self.loop(n, "WLoop", False)

    # ---- displays
    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            return ast.copy_location(call("mklist", n), n)
        return n

    def visit_Set(self, n):
        self.generic_visit(n)
        return ast.copy_location(call("mkset", ast.Tuple(elts=n.elts, ctx=ast.Load())), n)

    def visit_Dict(self, n):
        self.generic_visit(n)
        items = [ast.Tuple(elts=[k if k is not None else attr("STAR"), v], ctx=ast.Load())
                 for k, v in zip(n.keys, n.values)]
        return ast.copy_location(call("mkdict", ast.Tuple(elts=items, ctx=ast.Load())), n)

    # ---- comprehensions
    def _lam(self, target, body):
        a = lambda nm: ast.arguments(posonlyargs=[], args=[ast.arg(arg=x) for x in nm], kwonlyargs=[], kw_defaults=[],
                                     defaults=[])
        if isinstance(target, ast.Name):
            return ast.Lambda(args=a([target.id]), body=body)
        if isinstance(target, (ast.Tuple, ast.List)) and all(isinstance(e, ast.Name) for e in target.elts):
            inner = ast.Lambda(args=a([e.id for e in target.elts]), body=body)
            return ast.Lambda(args=a(["pv__t"]), body=ast.Call(func=inner, args=[
                ast.Starred(value=name("pv__t"), ctx=ast.Load())], keywords=[]))
        if isinstance(target, (ast.Tuple, ast.List)):
            # nested tuple target: bind the inner tuples through nested lambdas
            nms, b = [], body
            for i, e in enumerate(target.elts):
                if isinstance(e, ast.Name):
                    nms.append(e.id)
                else:
                    nm = "pv__n%d" % i
                    nms.append(nm)
                    b = ast.Call(func=self._lam(e, b), args=[name(nm)], keywords=[])
            inner = ast.Lambda(args=a(nms), body=b)
            return ast.Lambda(args=a(["pv__t"]), body=ast.Call(func=inner, args=[
                ast.Starred(value=name("pv__t"), ctx=ast.Load())], keywords=[]))
        return None

    def _comp(self, n, what, elt):
        gens = n.generators
        if len(gens) != 1 or gens[0].is_async or not isinstance(gens[0].target, (ast.Name, ast.Tuple, ast.List)):
            if what == "gen" or self.depth == 0:
                self.generic_visit(n)
                return n
            self.generic_visit(n)
            return ast.copy_location(call({"list": "mklist", "set": "mkset", "dict": "mkdict"}[what], n if what != "dict" else
                                          ast.Call(func=ast.Attribute(value=n, attr="items", ctx=ast.Load()), args=[],
                                                   keywords=[])), n)
        import copy
        g = gens[0]
        elt = self.visit(elt)
        conds = [self.visit(c) for c in g.ifs]
        it = self.visit(g.iter)
        cond = None
        if conds:
            cond = conds[0] if len(conds) == 1 else ast.BoolOp(op=ast.And(), values=conds)
        args = [it, self._lam(g.target, elt)]
        args.append(self._lam(copy.deepcopy(g.target), cond) if cond is not None else ast.Constant(None))
        if what == "gen":
            r = call("gen", *args)
        else:
            r = call("comp", ast.Constant(what), *args)
        return ast.copy_location(r, n)

    def visit_ListComp(self, n):
        return self._comp(n, "list", n.elt)

    def visit_SetComp(self, n):
        return self._comp(n, "set", n.elt)

    def visit_GeneratorExp(self, n):
        return self._comp(n, "gen", n.elt)

    def visit_DictComp(self, n):
        if len(n.generators) != 1:
            self.generic_visit(n)
            return n
        return self._comp(n, "dict", ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()))

    # ---- text
    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        parts = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                if v.format_spec is not None or v.conversion not in (-1, 115):
                    parts.append(ast.JoinedStr(values=[v]))
                else:
                    parts.append(v.value)
            else:
                parts.append(v)
        return ast.copy_location(call("fmt", *parts), n)

    def visit_FormattedValue(self, n):
        n.value = self.visit(n.value)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "join" and len(n.args) == 1 and not n.keywords:
            return ast.copy_location(call("join", n.func.value, n.args[0]), n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            return ast.copy_location(call("mod", n.left, n.right), n)
        return n

    # ---- attribute stores
    def visit_Assign(self, n):
        self.generic_visit(n)
        if self.depth and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute):
            t = n.targets[0]
            return ast.copy_location(ast.Expr(value=call("set_attr", t.value, ast.Constant(t.attr), n.value)), n)
        if self.depth and (len(n.targets) > 1 or isinstance(n.targets[0], ast.Tuple)) and any(
                isinstance(t, ast.Attribute) for q in n.targets for t in ast.walk(q) if isinstance(getattr(t, "ctx", None), ast.Store)):
            return self._multi(n)
        return n

    def _multi(self, n):
        tmp = "pv__m"
        out = [ast.Assign(targets=[ast.Name(id=tmp, ctx=ast.Store())], value=n.value)]
        for t in n.targets:
            if isinstance(t, (ast.Tuple, ast.List)) and not any(isinstance(e, ast.Starred) for e in t.elts):
                names = ["pv__m%d" % i for i in range(len(t.elts))]
                out.append(ast.Assign(targets=[ast.Tuple(elts=[ast.Name(id=x, ctx=ast.Store()) for x in names],
                                                         ctx=ast.Store())], value=name(tmp)))
                for e, x in zip(t.elts, names):
                    out.append(self._store(e, name(x)))
            else:
                out.append(self._store(t, name(tmp)))
        for o in out:
            ast.copy_location(o, n)
            ast.fix_missing_locations(o)
        return out

    def _store(self, t, v):
        if isinstance(t, ast.Attribute):
            return ast.Expr(value=call("set_attr", t.value, ast.Constant(t.attr), v))
        return ast.Assign(targets=[t], value=v)

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if self.depth and isinstance(n.target, ast.Attribute):
            a = ast.arguments(posonlyargs=[], args=[ast.arg(arg="pv__x")], kwonlyargs=[], kw_defaults=[], defaults=[])
            f = ast.Lambda(args=a, body=ast.BinOp(left=name("pv__x"), op=n.op, right=n.value))
            if isinstance(n.op, ast.Add):
                f = ast.Lambda(args=a, body=call("iadd", name("pv__x"), n.value))
            return ast.copy_location(ast.Expr(value=call("aug_attr", n.target.value, ast.Constant(n.target.attr), f)), n)
        return n


def transform(src, mod, path):
    tree = ast.parse(src, path)
    tree = X(mod).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, "exec")


class Loader(importlib.abc.Loader):
    def __init__(self, fullname, path):
        self.fullname, self.path = fullname, path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        from . import rt
        with open(self.path) as f:
            src = f.read()
        code = transform(src, self.fullname, self.path)
        module.__dict__[PV] = rt
        exec(code, module.__dict__)
        if self.path.endswith("__init__.py"):
            return
        g = module.__dict__
        for k, v in rt.SHADOWS.items():
            g.setdefault(k, v)
        for k, v in list(g.items()):
            if k.startswith("__"):
                continue
            for nat, sh in rt.VALUE_SHADOWS:
                if v is nat:
                    g[k] = sh
            if getattr(v, "__name__", None) == "copy" and getattr(v, "deepcopy", None):
                pass


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname.split(".")[0] not in ("prosimos", "bpdfr_discovery", "cli"):
            return None
        rel = fullname.replace(".", "/")
        base = os.path.join(REPO, rel)
        if os.path.isdir(base):
            p = os.path.join(base, "__init__.py")
            if not os.path.exists(p):
                return importlib.machinery.ModuleSpec(fullname, None, is_package=True) if False else None
            return importlib.util.spec_from_file_location(fullname, p, loader=Loader(fullname, p),
                                                          submodule_search_locations=[base])
        p = base + ".py"
        if os.path.exists(p):
            return importlib.util.spec_from_file_location(fullname, p, loader=Loader(fullname, p))
        return None


def install():
    sys.dont_write_bytecode = True
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())
