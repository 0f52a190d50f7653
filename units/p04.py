import copy

from pyvc.driver import unit
from units import sim

R = "prosimos.branch_condition_rules:"
OPS = [">", ">=", "<", "<=", "!=", "=", "in"]


def compare(c, op, a, b):
    return {">": lambda: a > b, ">=": lambda: a >= b, "<": lambda: a < b, "<=": lambda: a <= b,
            "!=": lambda: c.not_(c.eq(a, b)), "=": lambda: c.eq(a, b)}[op]()


@unit("P04.comparison", [R + "BranchConditionRule.is_rule_true", R + "BranchConditionRule.__init__"])
def comparison(c):
    """numbers against numbers, numbers as text on either side, present or missing attributes"""
    m = c.mod("branch_condition_rules")
    op = c.choice("op", OPS[:-1])
    x, y = c.real("case value"), c.real("rule value")
    textual = c.choice("written as text", ["none", "case", "rule", "both"]) if op != "=" else "none"
    w = c.bool("present")
    rv, cv = y, x
    if textual in ("rule", "both"):
        rv = number_text(c, "rule text", y)
    if textual in ("case", "both"):
        cv = number_text(c, "case text", x)
    values = c.mkdict({"b": c.real("other"), **({"a": cv} if w else {})})
    n0 = c.len(values)
    rule = c.call(m.BranchConditionRule, "a", op, rv)
    r = c.call(rule.is_rule_true, values)
    c.check("a missing attribute never matches, the comparison decides otherwise",
            c.iff(r, compare(c, op, x, y)) if w else c.not_(r))
    c.check("asking changes nothing", c.and_(c.eq(c.len(values), n0), c.eq(c.call(rule.is_rule_true, values), r)))


def number_text(c, name, x):
    """a text that denotes the number x"""
    if not c.symbolic:
        return str(x)
    import z3
    s = c.str(name)
    c.x.assume(z3.Function("txt_isnum", z3.IntSort(), z3.BoolSort())(s.e))
    c.x.assume(z3.Function("txt_num", z3.IntSort(), z3.RealSort())(s.e) == x.e)
    return s


@unit("P04.text", R + "BranchConditionRule.is_rule_true")
def text(c):
    """texts that are not numbers: (in)equality compares the texts"""
    m = c.mod("branch_condition_rules")
    op = c.choice("op", ["=", "!="])
    pool = ["REGULAR", "BUSINESS", "x"]
    a, b = c.str("case text", pool=pool), c.str("rule text", pool=pool)
    if c.symbolic and op == "!=":
        import z3
        c.x.assume(z3.Not(z3.Function("txt_isnum", z3.IntSort(), z3.BoolSort())(a.e)))
        c.x.assume(z3.Not(z3.Function("txt_isnum", z3.IntSort(), z3.BoolSort())(b.e)))
    if c.symbolic:
        import z3
        c.x.assume(z3.Not(z3.Function("txt_isnum", z3.IntSort(), z3.BoolSort())(a.e)))
    between = c.call(m.BranchConditionRule, "a", "in", c.mklist([c.real("lo"), c.real("hi")]))
    c.check("a text that is not a number is in no range", c.not_(c.call(between.is_rule_true, c.mkdict({"a": a}))))
    rule = c.call(m.BranchConditionRule, "a", op, b)
    c.check("equality of texts", c.iff(c.call(rule.is_rule_true, c.mkdict({"a": a})), compare(c, op, a, b)))
    num = c.real("number")
    if op == "=":
        c.check("values as they are: a text never equals a number", c.not_(c.call(rule.is_rule_true, c.mkdict({"a": num}))))


@unit("P04.range", [R + "BranchConditionRule.is_rule_true", R + "BranchConditionRule._parse_value"])
def range_(c):
    m = c.mod("branch_condition_rules")
    lo, hi, x = c.real("lo"), c.real("hi"), c.real("case value", g=lambda r: r.choice([0, 1, 5, 5.5, 1e19, 3e38, -3]))
    inf = c.bool("no upper end")
    txt = c.bool("ends written as text")
    ends = [number_text(c, "lo text", lo) if txt else lo, "inf" if inf else number_text(c, "hi text", hi) if txt else hi]
    if c.symbolic and txt and not inf:
        c.assume(c.not_(c.eq(ends[1], "inf")))
    rule = c.call(m.BranchConditionRule, "a", "in", c.mklist(ends))
    w = c.bool("present")
    cv = number_text(c, "case text", x) if c.bool("case value written as text") else x
    r = c.call(rule.is_rule_true, c.mkdict({"a": cv} if w else {}))
    c.check("within the range, both ends included, no upper end if infinite", c.iff(r, c.and_(
        lo <= x, True if inf else x <= hi)) if w else c.not_(r))


def conj(V):
    c = V.c
    for nm, b, e in V.bools():
        yield "all so far %s" % nm, c.iff(b, c.forall(0, V.k, lambda i: c.at(c.l, i).holds))
        yield "some so far %s" % nm, c.iff(b, c.exists(0, V.k, lambda i: c.at(c.l, i).holds))
        yield "none so far %s" % nm, c.not_(c.exists(0, V.k, lambda i: c.at(c.l, i).holds))


def stubs(c, name, cls, meth):
    def gen(r):
        out = []
        for _ in range(r.randint(0, 4)):
            o = object.__new__(cls)
            o.holds = r.random() < .6
            out.append(o)
        return out
    l = c.list(name, c.Obj(cls, {"holds": c.Bool}), g=gen)
    seen = []

    def holds(self, values):
        seen.append(values)
        return self.holds
    if c.symbolic:
        c.contract(cls, meth, holds)
    else:
        c.patch(cls, meth, holds)
    c.l = l
    return l, seen


@unit("P04.conjunction", R + "AndBranchConditionRule.is_and_rule_true", inv=conj)
def conjunction(c):
    m = c.mod("branch_condition_rules")
    l, seen = stubs(c, "comparisons", m.BranchConditionRule, "is_rule_true")
    values = c.mkdict({"a": c.real("value")})
    r = c.call(c.call(m.AndBranchConditionRule, l).is_and_rule_true, values)
    c.check("every comparison holds", c.iff(r, c.forall(0, c.len(l), lambda i: c.at(l, i).holds)))
    c.check("asked with the case's values", all(s is values for s in seen))


@unit("P04.disjunction", R + "OrBranchConditionRule.is_or_rule_true", inv=conj)
def disjunction(c):
    m = c.mod("branch_condition_rules")
    l, seen = stubs(c, "alternatives", m.AndBranchConditionRule, "is_and_rule_true")
    values = c.mkdict({"a": c.real("value")})
    o = c.call(m.OrBranchConditionRule, l)
    want = c.exists(0, c.len(l), lambda i: c.at(l, i).holds)
    c.check("one alternative holds", c.iff(c.call(o.is_or_rule_true, values), want))
    c.check("the named condition holds iff its alternatives do", c.iff(
        c.call(c.call(m.BranchConditionWithRule, o, "x").is_true, values), want))
    c.check("asked with the case's values", all(s is values for s in seen))


def lookup(V):
    c = V.c
    yield "not among the first", c.forall(0, V.k, lambda i: c.not_(c.eq(c.at(c.l, i).id, c.key)))


@unit("P04.by_id", R + "AllBranchConditionRules.get_branch_condition_by_id", inv=lookup)
def by_id(c):
    m = c.mod("branch_condition_rules")

    def gen(r):
        return [m.BranchConditionWithRule(None, r.choice("abcd")) for _ in range(r.randint(0, 4))]
    l = c.l = c.list("conditions", c.Obj(m.BranchConditionWithRule, {"id": c.Str}), g=gen)
    k = c.key = c.str("wanted", pool=list("abcd"))
    r = c.call(c.call(m.AllBranchConditionRules, l).get_branch_condition_by_id, k)
    if r is None:
        c.check("absent only if not listed", c.forall(0, c.len(l), lambda i: c.not_(c.eq(c.at(l, i).id, k))))
    else:
        c.check("the first one of that name", c.exists(0, c.len(l), lambda i: c.and_(
            c.same_obj(c.at(l, i), r), c.eq(c.at(l, i).id, k), lambda: c.forall(0, i, lambda j: c.not_(
                c.eq(c.at(l, j).id, k))))))


@unit("P04.parsed", ["prosimos.branch_condition_parser:BranchConditionParser.parse", R + "BranchConditionWithRule.is_true"],
      bounded=True)
def parsed(c):
    """bounded: random scenario sections of at most 3 conditions x 3 alternatives x 3 comparisons against an evaluator"""
    p = c.mod("branch_condition_parser")
    r = c.rng
    num = lambda: r.choice([0, 1, 2, 5, 10, 10.5, 1e20])

    def rule():
        op = r.choice(OPS)
        v = num()
        if op == "in":
            v = [str(v) if r.random() < .3 else v, r.choice(["inf", num(), str(num())])]
        elif r.random() < .2:
            op, v = r.choice(["=", "!="]), r.choice(["u", "v"])
        elif op != "=" and r.random() < .3:
            v = str(v)
        return {"attribute": r.choice("abc"), "comparison": op, "value": v}
    data = [{"id": "c%d" % i, "rules": [[rule() for _ in range(r.randint(1, 3))] for _ in range(r.randint(0, 3))]}
            for i in range(r.randint(1, 3))]
    values = {k: r.choice([num(), num(), num(), "u"]) for k in "ab" if r.random() < .8}
    texty = {k for k, v in values.items() if isinstance(v, str)}
    for d in data:
        for alt in d["rules"]:
            for x in alt:
                if x["attribute"] in texty and x["comparison"] not in ("=", "!="):
                    x["comparison"], x["value"] = "=", r.choice(["u", "v"])
                if x["comparison"] not in ("=", "!=", "in") and x["value"] in ("u", "v"):
                    x["value"] = 1

    def holds(x):
        if x["attribute"] not in values:
            return False
        a, op, b = values[x["attribute"]], x["comparison"], x["value"]
        if op == "in":
            return float(b[0]) <= a and (b[1] == "inf" or a <= float(b[1]))
        if op != "=":
            try:
                a, b = float(a), float(b)
            except ValueError:
                pass
        return {">": lambda: a > b, ">=": lambda: a >= b, "<": lambda: a < b, "<=": lambda: a <= b,
                "!=": lambda: a != b, "=": lambda: a == b}[op]()
    before, vb = copy.deepcopy(data), dict(values)
    rules = c.call(p.BranchConditionParser(data).parse)
    for d in before:
        got = rules.get_branch_condition_by_id(d["id"])
        c.check("disjunction of conjunctions of comparisons", c.eq(bool(c.call(got.is_true, values)),
                                                                  any(all(holds(x) for x in alt) for alt in d["rules"])))
    c.check("nothing changed", values == vb and data == before)


@unit("P04.simulated", ["prosimos.branch_condition_parser:BranchConditionParser.parse", "prosimos.simulation_engine:run_simulation"],
      bounded="whole simulations of random models with one conditioned split")
def simulated(c):
    """of two flows with opposite conditions a case takes the one whose condition holds for its own attributes"""
    class Two(sim.Run):
        def extra(self, rng):
            self.conditions, self.rules = {}, {}
            for g, (k, flows) in self.m.splits.items():
                a = self.condition()
                self.conditions[flows[0]] = a
                for f in flows[1:]:
                    self.conditions[f] = self.opposite(a)

        def opposite(self, a):
            # a single comparison, so that its opposite is one as well
            rule = self.rules[a] = [[self.rules[a][0][0]]]
            x = dict(rule[0][0])
            if x["comparison"] == "in":
                x.update(comparison=">=", value=x["value"][0])
                self.rules[a] = [[x]]
                x = dict(x)
            x["comparison"] = {"=": "!=", "!=": "=", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}[x["comparison"]]
            cid = "c%d" % len(self.rules)
            self.rules[cid] = [[x]]
            return cid

    r = Two(c, n=4, attributes=True, kinds=("xor", "or")).go()

    def firing(g, taken, row):
        flows = r.m.splits[g][1]
        c.check("the flows taken are those whose condition holds",
                all(r.holds(r.conditions[f], row) for f in taken) and
                (r.m.splits[g][0] == "xor" or set(taken) == {f for f in flows if r.holds(r.conditions[f], row)}))

    for i in range(r.n):
        rows = r.case(i)
        sim.holds(c, "the case is executed", r.follow(i, min(x["enable_time"] for x in rows), firing))
