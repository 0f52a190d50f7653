import copy
import datetime
import sys

from pyvc.driver import unit
from units import sim
from units.p04 import number_text

R = "prosimos.prioritisation_rules:"
P = "prosimos.prioritisation:CasePrioritisation."


def not_a_number(c, name):
    s = c.str(name, pool=["gold", "regular"])
    if c.symbolic:
        import z3
        c.x.assume(z3.Not(z3.Function("txt_isnum", z3.IntSort(), z3.BoolSort())(s.e)))
    return s


@unit("P05.comparison", [R + "PrioritisationRule.is_rule_true", R + "PrioritisationRule._parse_value", R + "InOperatorEvaluator.eval"])
def comparison(c):
    m = c.mod("prioritisation_rules")
    op = c.choice("op", ["in", "="])
    lo, hi, x = c.real("lo"), c.real("hi"), c.real("case value", g=lambda r: r.choice([0, 1, 5, 5.5, 7, 1e19, -3]))
    if op == "in":
        inf = c.bool("no upper end")
        rule = c.call(m.PrioritisationRule, "a", "in", c.mklist([lo, "inf" if inf else hi]))
        v = number_text(c, "case text", x) if c.bool("case value written as text") else x
        r = c.call(rule.is_rule_true, c.mkdict({"a": v, "b": c.real("other")}))
        c.check("a text that is not a number is in no range", c.not_(c.call(rule.is_rule_true, c.mkdict({"a": not_a_number(c, "word")}))))
        c.check("within the range, both ends included", c.iff(r, c.and_(lo <= x, True if inf else x <= hi)))
    else:
        if c.bool("text"):
            x, lo = c.str("case text", pool=["u", "v"]), c.str("rule text", pool=["u", "v"])
        rule = c.call(m.PrioritisationRule, "a", "=", lo)
        c.check("equal", c.iff(c.call(rule.is_rule_true, c.mkdict({"a": x})), c.eq(x, lo)))


def conj(V):
    c = V.c
    for nm, b, e in V.bools():
        yield "all so far %s" % nm, c.iff(b, c.forall(0, V.k, lambda i: c.at(c.l, i).holds))
        yield "some so far %s" % nm, c.iff(b, c.exists(0, V.k, lambda i: c.at(c.l, i).holds))
        yield "none so far %s" % nm, c.not_(c.exists(0, V.k, lambda i: c.at(c.l, i).holds))


def stubs(c, name, cls, meth, more=None):
    def gen(r):
        out = []
        for _ in range(r.randint(0, 4)):
            o = object.__new__(cls)
            o.holds = r.random() < .5
            if more:
                o.priority = r.choice([0, 1, 2, 3, 4, 10, 20, 100])
            out.append(o)
        return out
    l = c.list(name, c.Obj(cls, {"holds": c.Bool, **(more or {})}), g=gen)
    (c.contract if c.symbolic else c.patch)(cls, meth, lambda self, values: self.holds)
    c.l = l
    return l


@unit("P05.conjunction", R + "AndPrioritisationRule.is_and_rule_true", inv=conj)
def conjunction(c):
    m = c.mod("prioritisation_rules")
    l = stubs(c, "comparisons", m.PrioritisationRule, "is_rule_true")
    r = c.call(c.call(m.AndPrioritisationRule, l).is_and_rule_true, c.mkdict({"a": c.real("value")}))
    c.check("every comparison holds", c.iff(r, c.forall(0, c.len(l), lambda i: c.at(l, i).holds)))


@unit("P05.disjunction", [R + "OrPrioritisationRule.is_or_rule_true", R + "PriorityWithRule.is_true"], inv=conj)
def disjunction(c):
    m = c.mod("prioritisation_rules")
    l = stubs(c, "alternatives", m.AndPrioritisationRule, "is_and_rule_true")
    o = c.call(m.OrPrioritisationRule, l)
    p = c.call(m.PriorityWithRule, o, c.choice("level", [1, "2"]))
    v = c.mkdict({"a": c.real("value")})
    c.check("one alternative holds", c.iff(c.call(p.is_true, v), c.exists(0, c.len(l), lambda i: c.at(l, i).holds)))


def unmatched(V):
    c = V.c
    for nm, l, _ in V.lists():
        yield "none of the first of %s" % nm, c.forall(0, V.k, lambda i: c.not_(c.at(l, i).holds))
    yield "none of the first", c.forall(0, V.k, lambda i: c.not_(c.at(c.rules.all_rules, i).holds))


@unit("P05.smallest_level", [R + "AllPriorityRules.get_priority", R + "AllPriorityRules._sort_rule_by_priority_level"],
      inv=unmatched)
def smallest_level(c):
    m = c.mod("prioritisation_rules")
    l = stubs(c, "levels", m.PriorityWithRule, "is_true", {"priority": c.Int})
    c.assume(c.forall(0, c.len(l), lambda i: c.and_(c.at(l, i).priority >= 0, c.at(l, i).priority < sys.maxsize)))
    a = c.rules = c.call(m.AllPriorityRules, l)
    r = c.call(a.get_priority, c.mkdict({"a": c.real("value")}))
    some = c.exists(0, c.len(l), lambda i: c.at(l, i).holds)
    c.check("smallest matching level", c.forall(0, c.len(l), lambda i: c.implies(c.at(l, i).holds, lambda: r <= c.at(l, i).priority)))
    c.check("a level that matches, or the lowest priority", c.or_(c.exists(0, c.len(l), lambda i: c.and_(
        c.at(l, i).holds, c.eq(c.at(l, i).priority, r))), c.and_(c.not_(some), c.eq(r, sys.maxsize))))


BASE = datetime.datetime(2024, 1, 1, tzinfo=datetime.timezone.utc)


@unit("P05.batch_order", [P + "get_ordered_case_ids_by_priority", P + "_get_sorting_func", P + "calculate_max_priority"], secs=120)
def batch_order(c):
    m, w = c.mod("prioritisation"), c.mod("weekday_helper")
    T = w.CustomDatetimeAndSeconds
    prio = c.dict("priorities", c.Int, c.Int, True, g=lambda r: {k: r.choice([1, 2, 3, 10, 20]) for k in range(6)})
    c.assume(c.len(prio) >= 1)

    def gen(r):
        return [(k, T(0, BASE + datetime.timedelta(hours=r.choice([0, 1, 2, 3, 4, 25, 30, 800]), seconds=r.choice([0, 0.5, 59])))) for k in r.sample(range(6), r.randint(1, 5))]
    l = c.list("waiting", c.Tuple(c.Int, c.Obj(T, {"datetime": c.DT})), lo=1, g=gen)
    c.assume(c.forall(0, c.len(l), lambda i: c.has(prio, c.at(l, i)[0])))
    c.assume(c.forall(0, c.len(l), lambda i: c.forall(0, i, lambda j: c.not_(c.eq(c.at(l, i)[0], c.at(l, j)[0])))))
    p = c.obj(m.CasePrioritisation, all_case_priorities=prio, all_case_attributes=c.mkdict({}))
    r = c.call(p.get_ordered_case_ids_by_priority, l)
    n = c.len(l)
    pr = lambda x: c.get(prio, x[0])
    c.check("as many", c.eq(c.len(r), n))
    c.check("only given cases", c.forall(0, c.len(r), lambda i: c.exists(0, n, lambda j: c.and_(
        c.eq(c.at(r, i)[0], c.at(l, j)[0]), c.same_obj(c.at(r, i)[1], c.at(l, j)[1])))))
    c.check("every given case", c.forall(0, n, lambda j: c.exists(0, n, lambda i: c.eq(c.at(r, i)[0], c.at(l, j)[0]))))
    c.check("most urgent first, then by enabling time", c.forall(0, n - 1, lambda i: c.or_(
        pr(c.at(r, i)) < pr(c.at(r, i + 1)), lambda: c.and_(c.eq(pr(c.at(r, i)), pr(c.at(r, i + 1))),
                                                            lambda: c.at(r, i)[1].datetime <= c.at(r, i + 1)[1].datetime))))
    q = c.call(p.calculate_max_priority, l)
    c.check("batch priority: its most urgent case", c.and_(c.forall(0, n, lambda i: q <= pr(c.at(l, i))),
                                                          c.exists(0, n, lambda i: c.eq(q, pr(c.at(l, i))))))


@unit("P05.plain_order", P + "get_ordered_case_ids_by_priority", secs=90)
def plain_order(c):
    """case ids without enabling times"""
    m = c.mod("prioritisation")
    prio = c.dict("priorities", c.Str, c.Int, True, g=lambda r: {k: r.choice([1, 2, 3, 10, 20]) for k in "abcd"})
    c.assume(c.len(prio) >= 1)
    l = c.list("cases", c.Str, lo=1, g=lambda r: r.sample("abcd", r.randint(1, 4)))
    c.assume(c.forall(0, c.len(l), lambda i: c.has(prio, c.at(l, i))))
    c.assume(c.forall(0, c.len(l), lambda i: c.forall(0, i, lambda j: c.not_(c.eq(c.at(l, i), c.at(l, j))))))
    p = c.obj(m.CasePrioritisation, all_case_priorities=prio, all_case_attributes=c.mkdict({}))
    if not c.symbolic:
        r = c.call(p.get_ordered_case_ids_by_priority, l)
        c.check("ordered", list(r) == [x for _, x in sorted(zip([prio[k] for k in l], l), key=lambda t: t[0])])
        return
    r = c.call(p.get_ordered_case_ids_by_priority, l)
    c.check("most urgent first", c.forall(0, c.len(l) - 1, lambda i: c.get(prio, c.at(r, i)) <= c.get(prio, c.at(r, i + 1))))


@unit("P05.all_cases", P + "calculate_case_attr_and_priorities", secs=60)
def all_cases(c):
    """every case of the simulation gets attributes of its own and the priority of those attributes"""
    m = c.mod("prioritisation")
    pr = c.mod("prioritisation_rules")
    ca = c.mod("case_attributes")
    n = c.int("cases", 0, g=lambda r: r.randint(0, 5))
    c.assume(n < 10 ** 6)
    made = [0]
    src = c.obj(ca.AllCaseAttributes, all_attributes=c.mklist([]))
    rules = c.obj(pr.AllPriorityRules, all_rules=c.mklist([]))
    if c.symbolic:
        level = c.int("priority of any attributes")
        c.contract(ca.AllCaseAttributes, "get_values_calculated", lambda self: 0)
        c.contract(pr.AllPriorityRules, "get_priority", lambda self, v: level)
    else:
        def values(self):
            made[0] += 1
            return {"x": made[0]}
        c.patch(ca.AllCaseAttributes, "get_values_calculated", values)
        c.patch(pr.AllPriorityRules, "get_priority", lambda self, v: v["x"] * 10)
    p = c.obj(m.CasePrioritisation, total_num_cases=n, case_attributes=src, prioritisation_rules=rules)
    attrs, prio = c.call(p.calculate_case_attr_and_priorities)
    for d in (attrs, prio):
        c.check("exactly the cases", c.forall_int(lambda k: c.iff(c.has(d, k), c.and_(k >= 0, k < n)), dom=range(-1, 7)))
    if c.symbolic:
        c.check("their priorities", c.forall(0, n, lambda k: c.eq(c.get(prio, k), level)))
    else:
        c.check("their priorities", all(prio[k] == attrs[k]["x"] * 10 for k in range(n)) and len(
            {attrs[k]["x"] for k in range(n)}) == n)


@unit("P05.parsed", "prosimos.prioritisation_parser:PrioritisationParser.parse", bounded=True)
def parsed(c):
    """bounded: random priority sections of at most 4 levels x 3 alternatives x 2 comparisons against an evaluator"""
    pp = c.mod("prioritisation_parser")
    r = c.rng

    def rule():
        if r.random() < .5:
            lo = r.randint(0, 5)
            return {"attribute": "n", "comparison": "in", "value": [r.choice([lo, str(lo)]), r.choice(["inf", lo, lo + 3, str(lo + 1)])]}
        return {"attribute": "t", "comparison": "=", "value": r.choice("uv")}
    data = [{"priority_level": r.choice([i, str(i)]), "rules": [[rule() for _ in range(r.randint(1, 2))] for _ in range(r.randint(1, 3))]}
            for i in r.sample(range(1, 9), r.randint(0, 4))]
    v = {"n": r.choice([0, 1, 2.5, 4, 5, 1e20]), "t": r.choice("uvw")}

    def holds(x):
        a, b = v[x["attribute"]], x["value"]
        return a == b if x["comparison"] == "=" else float(b[0]) <= a and (b[1] == "inf" or a <= float(b[1]))
    before = copy.deepcopy(data)
    got = c.call(c.call(pp.PrioritisationParser(data).parse).get_priority, v)
    c.check("smallest matching level", c.eq(got, min([int(d["priority_level"]) for d in before if any(
        all(holds(x) for x in a) for a in d["rules"])], default=sys.maxsize)))


S = "prosimos.simulation_engine:SimBPMEnv."


@unit("P05.event_priority", [S + "calc_priority_and_append_to_queue", S + "calc_priority_for_task_or_batch", S + "append_enabled_event_to_queue",
                             P + "get_priority_by_case_id", P + "calculate_max_priority"], scope="batches of one to three cases")
def event_priority(c):
    """the priority an event gets in the queue: the most urgent of its cases, intermediate events before everything"""
    se, sq, m, w, ei = [c.mod(x) for x in ("simulation_engine", "simulation_queues_ds", "prioritisation", "weekday_helper", "execution_info")]
    pr = c.mkdict({i: c.int("priority of %d" % i, 0, g=lambda r: r.randint(0, 4)) for i in range(5)})
    kind = c.choice("kind", ["task", "batch", "intermediate"])
    case = c.choice("case", [0, 3])
    ids = c.choice("batch", [[2], [4, 1], [1, 4, 2]]) if kind == "batch" else [case]
    batch = c.obj(c.mod("control_flow_manager").BatchInfoForExecution, case_ids=c.mkdict({k: w.CustomDatetimeAndSeconds(
        0, c.dt("enabled %d" % i)) for i, k in enumerate(ids)})) if kind == "batch" else None
    ev = c.obj(ei.EnabledEvent, p_case=case, p_state=None, task_id="t", enabled_at=c.real("sec"), enabled_datetime=c.dt("at"),
               batch_info_exec=batch, duration_sec=None, is_inter_event=kind == "intermediate")
    out = []
    c.patch(sq.EventQueue, "append_arrival_event", lambda self, e, p: out.append((True, e, p)))
    c.patch(sq.EventQueue, "append_enabled_event", lambda self, e, p: out.append((False, e, p)))
    arrival = c.choice("arrival", [True, False])
    env = c.obj(se.SimBPMEnv, case_prioritisation=c.obj(m.CasePrioritisation, all_case_priorities=pr), events_queue=c.obj(sq.EventQueue))
    c.call(env.calc_priority_and_append_to_queue, ev, arrival)
    c.check("queued once, as what it is", len(out) == 1 and out[0][:2] == (arrival, ev))
    p = out[0][2]
    if kind == "intermediate":
        c.check("before everything", c.eq(p, 0))
    else:
        c.check("most urgent priority of its cases", c.and_(c.or_(*[c.eq(p, c.get(pr, k)) for k in ids]), *[p <= c.get(pr, k) for k in ids]))


@unit("P05.simulated", [P + "__init__", P + "get_priority_by_case_id", "prosimos.simulation_engine:run_simulation"],
      bounded="whole simulations of random models with random priority rules")
def simulated(c):
    """cases of a more urgent level are executed before the others, and within a level what was enabled first comes first"""
    class Ranked(sim.Run):
        def more(self, j):
            j["prioritisation_rules"] = [{"priority_level": lv, "rules": self.rules[cid]} for lv, cid in self.levels]

        def extra(self, r):
            self.levels = [(lv, self.condition()) for lv in r.sample([1, 2, 3, 10], r.randint(1, 3))]
            for _, cid in self.levels:
                # a priority rule compares a text for equality, or asks for a range
                for alt in self.rules[cid]:
                    for a in alt:
                        if a["comparison"] == "!=":
                            a["comparison"] = "="
                        elif a["comparison"] != "in" and a["comparison"] != "=":
                            a.update(comparison="in", value=[a["value"], c.rng.choice(["inf", a["value"], "7"])])

        def json(self):
            rules, j = self.rules, super().json()
            j.pop("branch_rules", None)
            return j

    r = Ranked(c, n=c.rng.randint(2, 7), attributes=True, events=False).go()
    seen = None
    for x in r.rows:
        level = min([int(lv) for lv, cid in r.levels if r.holds(cid, x)], default=10 ** 9)
        c.check("the most urgent first, then what was enabled first", seen is None or seen <= (level, x["enable_time"]))
        seen = (level, x["enable_time"])
