import random

from pyvc.driver import unit
from units import sim

E = "prosimos.event_attributes:"
EPS = 1e-6
TINY, MAX = 2.0 ** -126, (2 - 2.0 ** -23) * 2.0 ** 127


def share(r):
    return r.choice([0, .1, .2, .25, .3, .5, .7, 1, .3333333, 1e-7, 2e-6])


def classes(c):
    ga, ca, ea = c.mod("global_attributes"), c.mod("case_attributes"), c.mod("event_attributes")
    X = c.mod("exceptions")
    return {"global": (ga, lambda v: ga.GlobalAttribute("x", "discrete", v), X.InvalidGlobalAttributeException),
            "case": (ca, lambda v: ca.CaseAttribute("x", "discrete", v), X.InvalidCaseAttributeException),
            "event": (ea, lambda v: ea.EventAttribute("t", "x", "discrete", v), X.InvalidEventAttributeException)}


@unit("P22.discrete", ["prosimos.global_attributes:GlobalAttribute.validate", "prosimos.case_attributes:CaseAttribute.validate", E + "EventAttribute.validate",
                       "prosimos.global_attributes:GlobalAttribute.get_next_value", "prosimos.case_attributes:CaseAttribute.get_next_value", E + "EventAttribute.get_next_value",
                       "prosimos.global_attributes:parse_discrete_value", "prosimos.case_attributes:parse_discrete_value", E + "parse_discrete_value"],
      scope="at most 4 options")
def discrete(c):
    """accepted iff the probabilities add up to one within a tolerance; then only declared options are produced, with their probabilities"""
    kind = c.choice("kind", ["global", "case", "event"])
    mod, make, err = classes(c)[kind]
    n = c.choice("options", [1, 2, 3, 4])
    p = [c.real("p%d" % i, 0, 2, g=share) for i in range(n)]
    if not c.symbolic and c.rng is not None and c.rng.random() < .6:
        p[-1] = 1 - sum(p[:-1]) + c.rng.choice([0, 5e-7, -5e-7, 2e-6, -2e-6])
    keys = [c.str("k%d" % i, pool=["x", "y", "z"]) for i in range(n)]
    asked = []

    def choices(options, weights=None, **k):
        asked.append((options, weights, k))
        return c.mklist([c.at(options, c.choice("drawn", list(range(n))))])
    c.patch(mod, "choices", choices)
    v = c.mklist([c.mkdict({"key": k, "value": x}) for k, x in zip(keys, p)])
    total = sum(p[1:], p[0])
    a = c.call(make, v, raises=(err,))
    if c.raised(a):
        return c.check("rejected only if the sum is not one", c.or_(total < 1 - EPS / 2, total > 1 + EPS / 2))
    c.check("accepted only if the sum is one", c.and_(total > 1 - 2 * EPS, total < 1 + 2 * EPS))
    r = c.call(a.get_next_value, c.mkdict({})) if kind == "event" else c.call(a.get_next_value)
    c.check("one of its options", c.or_(*[c.eq(r, k) for k in keys]))
    o, w, k = asked[0]
    c.check("drawn once from the declared options with their probabilities", len(asked) == 1 and not k and c.and_(c.eq(c.len(o), n), c.eq(c.len(w), n), *[
        c.and_(c.eq(c.at(o, i), keys[i]), c.eq(c.at(w, i), p[i])) for i in range(n)]))


@unit("P22.states", [E + "EventAttribute.get_next_value", E + "EventAttribute.get_next_markov_state", E + "EventAttribute.validate"],
      scope="at most 3 states with at most 3 transitions each; any other attribute values")
def states(c):
    ea, X = c.mod("event_attributes"), c.mod("exceptions")
    S = ["s0", "s1", "s2"]
    trans = {}
    for s in S[:c.choice("states", [1, 2])]:
        to = c.choice("targets of " + s, [["s0"], ["s1"], ["s1", "s2"], ["s0", "s1", "s2"]])
        trans[s] = {t: c.real("p %s %s" % (s, t), 0, 1, g=lambda r: r.choice([.5, .25, 1, .3333333])) for t in to}
    asked = []

    def choices(options, weights=None, **k):
        options, weights = list(options), list(weights)
        asked.append((options, weights))
        return c.mklist([options[c.choice("drawn", [0, 1, 2]) % len(options)]])
    c.patch(ea, "choices", choices)
    a = c.call(ea.EventAttribute, "t", "x", "discrete", c.mkdict({s: c.mkdict(d) for s, d in trans.items()}), raises=(X.InvalidEventAttributeException,))
    totals = [sum(d.values()) for d in trans.values()]
    if c.raised(a):
        return c.check("rejected only if a state's probabilities do not add up to one", c.or_(*[c.or_(t < 1 - EPS / 2, t > 1 + EPS / 2) for t in totals]))
    c.check("accepted only if every state's probabilities add up to one", c.and_(*[c.and_(t > 1 - 2 * EPS, t < 1 + 2 * EPS) for t in totals]))
    cur = c.choice("current", S + [None])
    y = c.real("other")
    env = c.mkdict({"y": y} if cur is None else {"y": y, "x": cur})
    r = c.call(a.get_next_value, env)
    if cur in trans:
        c.check("along a declared transition", any(c.truth(c.eq(r, t)) for t in trans[cur]))
        o, w = asked[0]
        c.check("drawn with the probabilities of the current state", len(asked) == 1 and o == list(trans[cur]) and c.and_(*[
            c.eq(a, b) for a, b in zip(w, trans[cur].values())]))
    else:
        c.check("otherwise the value stays", (r is None) if cur is None else c.eq(r, cur))
    c.check("no attribute value is changed", c.and_(c.eq(c.len(env), 1 if cur is None else 2), c.eq(c.get(env, "y") if cur is None else lookup(env, "y"), y),
                                                    cur is None or lookup(env, "x") == cur))


def lookup(d, k):
    return dict((a, b) for a, b in list(d.items()))[k]


@unit("P22.range", E + "EventAttribute.get_next_value")
def limited(c):
    """any result of an expression"""
    ea = c.mod("event_attributes")
    x = c.choice("result", ["number", "whole", "inf", "-inf", "text", "none", "true"])
    v = {"number": lambda: c.real("v", g=lambda r: r.choice([-1, 1]) * r.choice([0, 1, 1e-50, 1e-37, 1.5e-38, 1e38, 3.4e38, 3.5e38, 1e300, r.random()])),
         "whole": lambda: c.int("w", g=lambda r: r.choice([0, 1, -7, 10 ** 50, -10 ** 50])), "inf": lambda: float("inf"), "-inf": lambda: -float("inf"),
         "text": lambda: "abc", "none": lambda: None, "true": lambda: True}[x]()
    seen = []
    c.patch(ea, "eval_expr", lambda e, d: seen.append((e, d)) or v)
    env = c.mkdict({"y": 1})
    a = c.obj(ea.EventAttribute, event_id="t", name="x", event_attr_type=ea.EVENT_ATTR_TYPE.EXPRESSION, value="expr")
    r = c.call(a.get_next_value, env)
    c.check("of its own expression over the given values", len(seen) == 1 and seen[0][0] == "expr" and seen[0][1] is env)
    if x in ("number", "whole"):
        out = lambda lo: c.and_(lo < r, r < 0)
        c.check("values within range are unchanged", c.implies(c.or_(c.eq(v, 0) if x == "whole" or c.symbolic else v == 0, c.and_(v >= TINY, v <= MAX), c.and_(v <= -TINY, v >= -MAX)),
                                                               lambda: r == v))
        c.check("too large", c.and_(c.implies(v > MAX, lambda: num(c, r) == MAX), c.implies(v < -MAX, lambda: num(c, r) == -MAX)))
        c.check("too small", c.and_(c.implies(c.and_(v > 0, v < TINY), lambda: num(c, r) == TINY), c.implies(c.and_(v < 0, v > -TINY), lambda: num(c, r) == -TINY)))
    elif "inf" in x:
        c.check("infinite", num(c, r) == (MAX if x == "inf" else -MAX))
    else:
        c.check("anything else is unchanged", r is v)


def num(c, x):
    return x if isinstance(x, (int, float)) or c.symbolic and not hasattr(x, "dtype") else float(x)


@unit("P22.table", [E + "evaluate_dtree", E + "EventAttribute.get_next_value"], scope="at most 3 rows of at most 2 conditions, arbitrary outcomes of the conditions")
def table(c):
    ea = c.mod("event_attributes")
    env = c.mkdict({"y": 1})
    holds = {}

    def ev(e, d):
        if e.startswith("f"):
            return results[e]
        return holds[e]
    c.patch(ea, "eval_expr", ev)
    rows, results = [], {}
    for i in range(c.choice("rows", [0, 1, 2, 3])):
        k = c.choice("conditions %d" % i, ["always", 0, 1, 2])
        conds = True if k == "always" else ["c%d%d" % (i, j) for j in range(k)]
        for x in conds if conds is not True else ():
            holds[x] = c.bool(x)
        results["f%d" % i] = c.choice("result %d" % i, ["number", "none"])
        results["f%d" % i] = c.real("value %d" % i) if results["f%d" % i] == "number" else None
        rows.append((conds, "f%d" % i))
    a = c.obj(ea.EventAttribute, event_id="t", name="x", event_attr_type=ea.EVENT_ATTR_TYPE.DTREE,
              value=c.mklist([(cs if cs is True else c.mklist(cs), f) for cs, f in rows]))
    r = c.call(a.get_next_value, env)
    for cs, f in rows:
        if cs is True or all(c.truth(holds[x]) for x in cs):
            v = results[f]
            return c.check("the first row whose conditions all hold", c.eq(r, 0 if v is None else v))
    c.check("zero if no row applies", c.eq(r, 0))


OPS = ["+", "-", "*", "/", "//", "%"]
CMP = ["<", "<=", ">", ">=", "==", "!="]
LEAVES = ["a", "b", "3", "0", "2.5"]
SHAPES = (["a %s b" % o for o in OPS + CMP] + ["a %s 3" % o for o in OPS + ["**"]] + ["%s a" % u for u in ("-", "+", "not")]
          + ["a - b - k", "a - (b - k)", "a / b / 2", "2 ** 3 ** 2", "-a ** 2", "(a + b) * 2 - k", "a + 2 * b", "- (a - b)", "not a < b", "+ - a"]
          + ["a < b < k", "a < b > k", "a == b == k", "a <= b < 3 <= k", "a > b >= k != 2"]
          + ["a < b and b < k", "a < b or b < k", "a < 1 and b < 1 and k < 1", "a < 1 or b < 1 or k < 1", "a < 1 or b < 1 and k < 1", "(a < 1 or b < 1) and not k < 1",
             "(a > 2) * b", "(a < b) + (b < k)", "a", "7", "'x'", "s == 'x'", "s != 'y'", "s == 'x' and a > 1", "s == t"]
          + ["10.0 ** 400", "10 ** 400 * 1.5", "10 ** 400 / 3", "(0 - 8) ** 0.5", "1e308 * 10 - 1e308 * 10", "2 ** -1", "a / 0", "a % 0",
             "fabs(a)", "floor(a)", "ceil(a)", "fabs(a - b) + 1", "floor(a / 2) * 2"])


def deep(r, d, kind="n"):
    """a random well-formed expression of a kind: number or condition"""
    if kind == "c":
        x = r.choice(["cmp", "cmp", "chain", "and", "or", "not", "str"]) if d > 0 else "cmp"
        if x == "cmp":
            return "(%s %s %s)" % (deep(r, d - 1), r.choice(CMP), deep(r, d - 1))
        if x == "chain":
            return "(%s %s %s %s %s)" % (deep(r, d - 1), r.choice(CMP), deep(r, d - 1), r.choice(CMP), deep(r, d - 1))
        if x == "not":
            return "(not %s)" % deep(r, d - 1, "c")
        if x == "str":
            return "(%s %s %s)" % (r.choice(["s", "t", "'x'"]), r.choice(["==", "!="]), r.choice(["s", "t", "'x'", "'y'"]))
        return "(" + (" %s " % x).join(deep(r, d - 1, "c") for _ in range(r.choice([2, 2, 3]))) + ")"
    if d <= 0 or r.random() < .15:
        return r.choice(["a", "b", "k", "a", "b", "k", "1", "2", "0.5", "0"])
    x = r.choice(["op", "op", "op", "neg", "pos", "call", "flat"])
    if x == "neg" or x == "pos":
        return "(%s%s)" % ("-" if x == "neg" else "+", deep(r, d - 1))
    if x == "call":
        return "%s(%s)" % (r.choice(["fabs", "floor", "ceil", "trunc", "atan", "cos"]), deep(r, d - 1))
    if x == "flat":
        return "(%s)" % r.choice([" - ", " + ", " * "]).join(deep(r, d - 1) for _ in range(3))
    return "(%s %s %s)" % (deep(r, d - 1), r.choice(OPS), deep(r, d - 1))


def python_value(expr, env, functions):
    """what Python itself computes"""
    names = dict(functions)
    names.update(env)
    return eval(expr, {"__builtins__": {}}, names)


@unit("P22.expression", [E + "eval_expr", E + "EventAttribute.get_next_value"],
      scope="the listed expression forms, over arbitrary values of their variables; random deeper expressions only by search")
def expression(c):
    """the value of the expression is what Python's evaluation of it is; zero if that is undefined"""
    ea = c.mod("event_attributes")
    if c.choice("form", ["listed"] if c.symbolic else ["listed", "random", "random", "random"]) == "random":
        expr = c.str("text", g=lambda r: deep(r, r.choice([2, 3, 3, 4]), r.choice("nnc")))
    else:
        expr = c.choice("expr", SHAPES)
    g = lambda r: r.choice([0, 1, 2, -1, 3, 2.5, -.5, r.randint(-20, 20), r.uniform(-50, 50)])
    env = {"a": c.real("a", -1000, 1000, g=g), "b": c.real("b", -1000, 1000, g=g), "k": c.int("k", -1000, 1000, g=lambda r: r.randint(-4, 6)),
           "s": c.str("s", pool=["x", "y", ""]), "t": c.str("t", pool=["x", "y"])}
    import ast
    import math
    functions = {k: getattr(math, k) for k in dir(math) if not k.startswith("_")}
    if c.symbolic:  # assumed contracts of the library functions that occur in the listed forms
        functions.update(fabs=lambda x: c.ite(x < 0, -x, x), floor=lambda x: c.floor(x), ceil=lambda x: -c.floor(-x))
        c.patch(ea, "math_functions", functions)
    huge = 0
    try:
        want = python_value(expr, env, functions)
        if isinstance(want, complex) or isinstance(want, float) and want != want:
            want = 0
    except OverflowError:
        want, huge = 0, 1
    except (ZeroDivisionError, ValueError, TypeError):
        # an undefined operand makes the operation around it undefined, too, and what that yields is left open
        node = ast.parse(expr, mode="eval").body
        for child in ast.iter_child_nodes(node):
            if isinstance(child, ast.expr):
                try:
                    python_value(ast.unparse(child), env, functions)
                except (ZeroDivisionError, ValueError, OverflowError, TypeError):
                    c.assume(False)
                except NameError:
                    pass
        want = 0
    r = c.call(ea.eval_expr, expr, c.mkdict(dict(env)))
    if huge:
        return c.check("limited if too large for a float", float(r) == MAX)
    c.check("the value of the expression", c.eq(r, want))


DRAWS = {  # what each distribution of an expression is given, in order
    "fix": ["mean"], "uniform": ["minimum", "maximum"], "triang": ["mean", "minimum", "maximum"], "norm": ["mean", "std", "minimum", "maximum"],
    "expon": ["mean", "minimum", "maximum"], "lognorm": ["mean", "var", "minimum", "maximum"], "gamma": ["mean", "var", "minimum", "maximum"]}


@unit("P22.drawn", [E + "eval_expr"] + [E + d for d in DRAWS], scope="each distribution with each number of arguments it takes, over arbitrary arguments")
def drawn(c):
    """a distribution named in an expression is drawn from once, with the arguments in the order of its declaration"""
    ea = c.mod("event_attributes")
    d = c.choice("distribution", sorted(DRAWS))
    named = DRAWS[d]
    need = len(named) if d in ("fix", "uniform", "triang") else len(named) - 2
    k = c.choice("arguments", list(range(need, len(named) + 1)))
    env = {x: c.real(x, 0, 1000, g=lambda r: r.choice([0, 1, 2.5, r.uniform(0, 900)])) for x in "abcd"[:k]}
    env["z"] = c.real("z", -10, 10)
    value, calls = c.real("value", 0, 5000), []

    class Recorded:
        def __init__(self, name="fix", mean=None, var=None, std=None, minimum=None, maximum=None):
            self.given = dict(name=getattr(name, "value", name), mean=mean, var=var, std=std, minimum=minimum, maximum=maximum)

        def generate_sample(self, size):
            calls.append((self.given, size))
            return [value] * size
    c.patch(ea, "DurationDistribution", Recorded)
    r = c.call(ea.eval_expr, "%s(%s) + z" % (d, ", ".join("abcd"[:k])), c.mkdict(dict(env)))
    c.check("drawn once", len(calls) == 1 and calls[0][1] == 1 and calls[0][0]["name"] == d)
    c.check("the value drawn", c.eq(r, value + env["z"]))
    for x, a in zip(named, "abcd"):
        got = calls[0][0][x] if calls else None
        c.check("its arguments in order", (got is None) if a not in env else got is not None and c.eq(got, env[a]))


@unit("P22.simulated", [E + "get_next_value", "prosimos.simulation_engine:run_simulation"],
      bounded="whole simulations of random models with generated attributes")
def simulated(c):
    """the values in the log are those the attributes declare"""
    class Generated(sim.Run):
        def extra(self, r):
            t = self.m.tasks[0]
            self.opts = r.sample(["p", "q", "r"], r.randint(1, 3))
            self.k = r.randint(2, 9)
            self.sections = {"event_attributes": [{"event_id": t, "attributes": [
                {"name": "d", "type": "discrete", "values": [{"key": o, "value": 1 / len(self.opts)} for o in self.opts]},
                {"name": "u", "type": "continuous", "values": {"distribution_name": "uniform", "distribution_params": [
                    {"value": 3}, {"value": 8}]}},
                {"name": "x", "type": "expression", "values": "amount * %d - (h + 1)" % self.k}]}],
                "global_attributes": [{"name": "h", "type": "continuous", "values": {
                    "distribution_name": "fix", "distribution_params": [{"value": 4}]}}],
                "case_attributes": [{"name": "amount", "type": "continuous", "values": {
                    "distribution_name": "fix", "distribution_params": [{"value": 2.5}]}}]}

        def more(self, j):
            j.update(self.sections)

    r = Generated(c, lead=True).go()
    for x in r.rows:
        c.check("a declared option", x["d"] in r.opts)
        c.check("within the declared range", 3 <= float(x["u"]) <= 8)
        c.check("the value of the expression", float(x["x"]) == 2.5 * r.k - 5)
