#!/usr/bin/env python3
"""Behaviour-preserving rewrites of a copy of prosimos, to test that the checks stay quiet on them.

usage: refactor.py KIND DIR     (DIR/prosimos/*.py is rewritten in place)
kinds: rename temps invert while comps flip aug wrap loops2helper ternary"""
import ast
import copy
import os
import sys

KIND, DIR = sys.argv[1], sys.argv[2]


def names(fn):
    return {n.id for n in ast.walk(fn) if isinstance(n, ast.Name)} | {a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)}


def nested(fn):
    return any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp, ast.Global, ast.Nonlocal)) for n in ast.walk(fn) if n is not fn)


class Rename(ast.NodeTransformer):
    """local variables get other names"""
    def visit_FunctionDef(self, fn):
        if any(isinstance(n, (ast.FunctionDef, ast.Global, ast.Nonlocal)) for n in ast.walk(fn) if n is not fn):
            return fn
        params = {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs} | {a.arg for a in (fn.args.vararg, fn.args.kwarg) if a}
        stored = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - params
        lam = {a.arg for l in ast.walk(fn) if isinstance(l, ast.Lambda) for a in l.args.args}
        stored -= lam
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and n.id in stored:
                n.id = n.id + "_val"
        return fn


class Temps(ast.NodeTransformer):
    """conditions and results go through a variable first"""
    k = 0

    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
            return n
        return [ast.Assign(targets=[ast.Name("outcome_", ast.Store())], value=n.value), ast.Return(ast.Name("outcome_", ast.Load()))]

    def visit_If(self, n):
        self.generic_visit(n)
        Temps.k += 1
        v = "cond_%d_" % Temps.k
        return [ast.Assign(targets=[ast.Name(v, ast.Store())], value=n.test), ast.If(ast.Name(v, ast.Load()), n.body, n.orelse)]


class Invert(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse:
            return n
        return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)


class While(ast.NodeTransformer):
    """for loops over lists, ranges and the like become while loops over an index"""
    k = 0

    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        While.k += 1
        s, i = "seq_%d_" % While.k, "pos_%d_" % While.k
        L = lambda x: ast.Name(x, ast.Load())
        return [ast.Assign([ast.Name(s, ast.Store())], ast.Call(L("list"), [n.iter], [])),
                ast.Assign([ast.Name(i, ast.Store())], ast.Constant(0)),
                ast.While(ast.Compare(L(i), [ast.Lt()], [ast.Call(L("len"), [L(s)], [])]),
                          [ast.Assign([n.target], ast.Subscript(L(s), L(i), ast.Load())),
                           ast.AugAssign(ast.Name(i, ast.Store()), ast.Add(), ast.Constant(1))] + n.body, [])]


class Comps(ast.NodeTransformer):
    """x = [.. for ..] becomes a loop"""
    def visit_Assign(self, n):
        if isinstance(n.value, ast.ListComp) and len(n.value.generators) == 1 and isinstance(n.targets[0], ast.Name):
            g = n.value.generators[0]
            t = n.targets[0].id
            used = {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}
            if t in used:
                return n
            body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(t, ast.Load()), "append", ast.Load()), [n.value.elt], []))]
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            return [ast.Assign(n.targets, ast.List([], ast.Load())), ast.For(g.target, g.iter, body, [])]
        return n


class Flip(ast.NodeTransformer):
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.M:
            return ast.Compare(n.comparators[0], [self.M[type(n.ops[0])]()], [n.left])
        return n


class Aug(ast.NodeTransformer):
    """x += y becomes x = x + y (numbers and attributes of them only: lists alias)"""
    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name) and isinstance(n.op, (ast.Sub, ast.Mult, ast.Add)) and isinstance(n.value, (ast.Constant, ast.BinOp)):
            return ast.Assign([n.target], ast.BinOp(ast.Name(n.target.id, ast.Load()), n.op, n.value))
        return n


class Wrap(ast.NodeTransformer):
    """the body of every plain method moves to a helper method"""
    def visit_ClassDef(self, n):
        out = []
        for f in n.body:
            out.append(f)
            if isinstance(f, ast.FunctionDef) and not f.decorator_list and not f.name.startswith("__") and f.args.args and f.args.args[0].arg == "self" \
                    and not f.args.vararg and not f.args.kwarg and not f.args.kwonlyargs \
                    and not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "super" for x in ast.walk(f)):
                h = copy.deepcopy(f)
                h.name = "_do_" + f.name.lstrip("_")
                h.args.defaults = []
                doc = f.body[0] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else None
                f.body = ([doc] if doc else []) + [ast.Return(ast.Call(ast.Attribute(ast.Name("self", ast.Load()), h.name, ast.Load()),
                                                                        [ast.Name(a.arg, ast.Load()) for a in f.args.args[1:]], []))]
                out.append(h)
        n.body = out
        return n


class Ternary(ast.NodeTransformer):
    """x = a if c else b becomes a statement"""
    def visit_Assign(self, n):
        if isinstance(n.value, ast.IfExp) and len(n.targets) == 1:
            return ast.If(n.value.test, [ast.Assign(n.targets, n.value.body)], [ast.Assign(copy.deepcopy(n.targets), n.value.orelse)])
        return n

    def visit_Return(self, n):
        if isinstance(n.value, ast.IfExp):
            return [ast.If(n.value.test, [ast.Return(n.value.body)], []), ast.Return(n.value.orelse)]
        return n


class Early(ast.NodeTransformer):
    """for x in y: if c: BODY   becomes   for x in y: if not c: continue; BODY"""
    def visit_For(self, n):
        self.generic_visit(n)
        if len(n.body) == 1 and isinstance(n.body[0], ast.If) and not n.body[0].orelse:
            i = n.body[0]
            n.body = [ast.If(ast.UnaryOp(ast.Not(), i.test), [ast.Continue()], [])] + i.body
        return n


class Displays(ast.NodeTransformer):
    """list() and dict() become displays and the other way round"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and not n.args and not n.keywords:
            if n.func.id == "list":
                return ast.List([], ast.Load())
            if n.func.id == "dict":
                return ast.Dict([], [])
        return n

    def visit_List(self, n):
        self.generic_visit(n)
        return ast.Call(ast.Name("list", ast.Load()), [], []) if not n.elts and isinstance(n.ctx, ast.Load) else n


class LoopHelper(ast.NodeTransformer):
    """loop bodies without control flow become local functions where they bind nothing"""
    k = 0

    def visit_For(self, n):
        self.generic_visit(n)
        if any(isinstance(x, (ast.Break, ast.Continue, ast.Return, ast.Yield, ast.YieldFrom)) for b in n.body for x in ast.walk(b)):
            return n
        if any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) for b in n.body for x in ast.walk(b)):
            return n
        t = [x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)]
        if not all(isinstance(x, (ast.Name, ast.Tuple, ast.Store, ast.Load)) for x in ast.walk(n.target)):
            return n
        LoopHelper.k += 1
        h = "each_%d_" % LoopHelper.k
        return [ast.FunctionDef(name=h, args=ast.arguments([], [ast.arg(x) for x in t], None, [], [], None, []), body=n.body, decorator_list=[], returns=None, type_params=[]),
                ast.For(n.target, n.iter, [ast.Expr(ast.Call(ast.Name(h, ast.Load()), [ast.Name(x, ast.Load()) for x in t], []))], n.orelse)]


K = dict(rename=Rename, temps=Temps, invert=Invert, comps=Comps, flip=Flip, aug=Aug, wrap=Wrap, ternary=Ternary, early=Early, displays=Displays, helper=LoopHelper)
K["while"] = While
for root, _, files in os.walk(DIR + "/prosimos"):
    for f in files:
        if f.endswith(".py"):
            p = os.path.join(root, f)
            t = ast.parse(open(p).read())
            t = ast.fix_missing_locations(K[KIND]().visit(t))
            open(p, "w").write(ast.unparse(t) + "\n")
