import datetime
import json
import os
import tempfile

from pyvc.driver import unit

P = "prosimos.simulation_properties_parser:"
B = "prosimos.batch_processing_parser:BatchProcessingParser."
DAYS = ["MONDAY", "TUESDAY", "WEDNESDAY", "THURSDAY", "FRIDAY", "SATURDAY", "SUNDAY"]
IDS = ["a", "b", "c", "a_0"]


@unit("P19.periods", P + "convert_to_fuzzy_time_periods")
def periods(c):
    """every period of weekdays, also one that wraps around the end of the week"""
    sp = c.mod("simulation_properties_parser")
    a, b = c.choice("from", list(range(7))), c.choice("to", list(range(7)))
    p = {"from": DAYS[a], "to": DAYS[b], "beginTime": c.str("begin", pool=["08:00", "09:30"]), "endTime": c.str("end", pool=["17:00", "23:59"])}
    given = c.choice("probability given", [True, False])
    if given:
        p["probability"] = c.real("probability", 0, 1)
    r = c.call(sp.convert_to_fuzzy_time_periods, c.mkdict(p))
    n = (b - a) % 7 + 1
    c.check("one entry per weekday", c.eq(c.len(r), n))
    for i in range(n):
        e = c.at(r, i)
        c.check("weekday %d" % i, c.eq(c.get(e, "weekDay"), DAYS[(a + i) % 7]))
        c.check("times %d" % i, c.and_(c.eq(c.get(e, "beginTime"), p["beginTime"]), c.eq(c.get(e, "endTime"), p["endTime"])))
        c.check("probability %d" % i, c.eq(c.get(e, "probability"), p["probability"] if given else 0))


@unit("P19.subrule", B + "create_subrule")
def subrule(c):
    bp, pp = c.mod("batch_processing"), c.mod("batch_processing_parser")
    X = c.mod("exceptions")
    t = c.choice("attribute", list(bp.RULE_TYPE))
    op = c.choice("comparison", ["=", "<", "<=", ">", ">="])
    if t is bp.RULE_TYPE.WEEK_DAY:
        v = c.str("day", pool=["Monday", "Friday"])
    elif t is bp.RULE_TYPE.DAILY_HOUR:
        v = c.choice("as text", [str, lambda x: x])(c.choice("hour", [0, 1, 9, 12, 23]))
    else:
        v = c.real("value", 0) if c.choice("fraction", [True, False]) else c.int("whole value", 0)
    r = c.call(pp.BatchProcessingParser.create_subrule, t.value, op, v, raises=(X.InvalidRuleDefinitionException,))
    if c.raised(r):
        return c.check("rejected only for a weekday without equality", t is bp.RULE_TYPE.WEEK_DAY and op != "=")
    c.check("a weekday needs equality", not (t is bp.RULE_TYPE.WEEK_DAY and op != "="))
    c.check("attribute and comparison as given", c.and_(c.eq(r.variable1, t.value), c.eq(r.operator, op)))
    if t is bp.RULE_TYPE.DAILY_HOUR:
        c.check("full hour", c.eq(r.value2, datetime.time(int(v))))
    elif t is bp.RULE_TYPE.SIZE:
        c.check("whole size", c.eq(r.value2, c.floor(v)))
    else:
        c.check("value as given", c.eq(r.value2, v))


def same_rules(c, l, rules):
    c.check("as many rules", c.eq(c.len(l), len(rules)))
    got = [c.at(l, i) for i in range(len(rules))]
    c.check("exactly the given rules", sorted(id(x) for x in got) == sorted(id(x) for x in rules))
    return got


KINDS = ["size", "daily_hour", "week_day", "ready_wt", "large_wt"]


@unit("P19.order", [B + "_move_size_to_end", B + "_move_to_end"], scope="at most 4 sub-rules in a rule, any of their kinds")
def order(c):
    pp, bp = c.mod("batch_processing_parser"), c.mod("batch_processing")
    n = c.choice("rules", list(range(5)))
    kinds = [c.choice("kind %d" % i, KINDS[:4]) for i in range(n)]
    rules = [c.obj(bp.FiringSubRule, variable1=k, operator="=", value2=c.real("v%d" % i)) for i, k in enumerate(kinds)]
    l = c.mklist(rules)
    c.call(pp.BatchProcessingParser._move_size_to_end, l)
    got = same_rules(c, l, rules)
    if "size" in kinds:
        c.check("the size rule is last", got[-1].variable1 == "size")
        if "daily_hour" in kinds and kinds.count("size") == 1:
            c.check("the hour rule before it", got[-2].variable1 == "daily_hour")
    elif "daily_hour" in kinds:
        c.check("the hour rule is last", got[-1].variable1 == "daily_hour")




@unit("P19.sizes", B + "parse_size_distrib")
def sizes(c):
    """a size distribution of any length"""
    pp = c.mod("batch_processing_parser")
    l = c.list("items", c.Rec(key=c.Int, value=c.Real), g=lambda r: [{"key": r.randint(1, 9), "value": r.random()} for _ in range(r.randint(0, 4))])
    r = c.call(pp.BatchProcessingParser.parse_size_distrib, l)
    a, b = r
    c.check("nothing lost or added", c.and_(c.eq(c.len(a), c.len(l)), c.eq(c.len(b), c.len(l))))
    c.check("size and probability of each item", c.implies(c.len(l) > 0, lambda: c.forall(0, c.len(l), lambda i: c.and_(
        c.eq(c.at(a, i), c.get(c.at(l, i), "key")), c.eq(c.at(b, i), c.get(c.at(l, i), "value"))))))


def acc(V):
    c = V.c
    l, l0 = getattr(c, "probs", None), getattr(c, "probs0", None)
    if l0 is None:
        return
    has = lambda j: c.has(c.at(l0, j), "value")
    val = lambda x, j: c.get(c.at(x, j), "value")
    n = c.len(l0)
    for nm, x, e in V.nums():
        yield "given so far %s" % nm, c.eq(x, e + c.sum(V.k, lambda j: c.ite(has(j), lambda: val(l0, j), 0), c.Real, "given"))
        yield "missing so far %s" % nm, c.eq(x, e + c.sum(V.k, lambda j: c.ite(has(j), 0, 1), c.Int, "missing"))
    yield "flows stay", c.and_(c.eq(c.len(l), n), c.forall(0, n, lambda j: c.eq(c.get(c.at(l, j), "path_id"), c.get(c.at(l0, j), "path_id"))))
    yield "given stay", c.forall(0, n, lambda j: c.implies(has(j), lambda: c.and_(c.has(c.at(l, j), "value"), lambda: c.eq(val(l, j), val(l0, j)))))
    yield "later ones untouched", c.forall(V.k, n, lambda j: c.iff(c.has(c.at(l, j), "value"), has(j)))
    for nm, x, e in V.lists():
        for f, y in V.fixed():
            yield "assigned %s %s" % (nm, f), lambda: c.and_(c.eq(c.len(x), V.k), c.forall(0, V.k, lambda j: c.eq(c.at(x, j), c.ite(has(j), lambda: val(l0, j), y))))
        yield "flows %s" % nm, lambda: c.and_(c.eq(c.len(x), V.k), c.forall(0, V.k, lambda j: c.eq(c.at(x, j), c.get(c.at(l0, j), "path_id"))))


def plain_distribution(c, sp):
    class D:
        @staticmethod
        def from_dict(d):
            return ("distribution", d)
    c.patch(sp, "DurationDistribution", D)


@unit("P19.branching", P + "parse_arrival_branching_probabilities", inv=acc, sum_parts=True)
def branching(c):
    """gateways with any number of flows; given probabilities are kept, missing ones share equally what is left"""
    sp = c.mod("simulation_properties_parser")
    plain_distribution(c, sp)
    class W:
        def add_warning(self, *a):
            return None
    c.patch(sp, "warning_logger", W())
    class Choice:
        def __init__(self, a, b):
            self.a, self.b = a, b
    c.patch(sp, "Choice", Choice)
    flow = c.Rec(path_id=c.Str, value=c.Maybe(c.Real))
    g = lambda r: [dict([("path_id", "f%d" % i)] + ([("value", r.choice([0, .25, .5]))] if r.random() < .5 else [])) for i in range(r.randint(0, 4))]
    c.probs = l = c.list("probabilities", flow, g=g)
    c.probs0 = l0 = c.old(l)
    x = c.real("other", 0, 1)
    arrival = c.mkdict({"distribution_name": "expon", "distribution_params": 1})
    gs = c.mklist([c.mkdict({"gateway_id": "g", "probabilities": l}),
                   c.mkdict({"gateway_id": "h", "probabilities": c.mklist([c.mkdict({"path_id": "p", "value": x}), c.mkdict({"path_id": "q"})])})])
    r = c.call(sp.parse_arrival_branching_probabilities, arrival, gs)
    c.check("entries: arrivals and every gateway", c.and_(c.eq(c.len(r), 3), c.has(r, "arrivalTime"), c.has(r, "g"), c.has(r, "h")))
    d = c.get(r, "arrivalTime")
    c.check("the arrival distribution of the file", d[0] == "distribution" and d[1] is arrival)
    n = c.len(l0)
    has = lambda j: c.has(c.at(l0, j), "value")
    given = c.sum(n, lambda j: c.ite(has(j), lambda: c.get(c.at(l0, j), "value"), 0), c.Real, "given")
    missing = c.sum(n, lambda j: c.ite(has(j), 0, 1), c.Int, "missing")
    ch = c.get(r, "g")
    c.check("every flow in order", c.and_(c.eq(c.len(ch.a), n), c.eq(c.len(ch.b), n), lambda: c.forall(0, n, lambda j: c.eq(
        c.at(ch.a, j), c.get(c.at(l0, j), "path_id")))))
    c.check("given probabilities are kept", c.forall(0, n, lambda j: c.implies(has(j), lambda: c.eq(c.at(ch.b, j), c.get(c.at(l0, j), "value")))))
    c.check("missing ones share what is left", c.forall(0, n, lambda j: c.implies(c.not_(has(j)), lambda: c.eq(
        c.at(ch.b, j), c.div(1 - given, missing)))))
    ch = c.get(r, "h")
    c.check("second gateway", c.and_(c.eq(c.at(ch.a, 0), "p"), c.eq(c.at(ch.a, 1), "q"), c.eq(c.at(ch.b, 0), x), c.eq(c.at(ch.b, 1), 1 - x)))


def shape(c, name, n, f):
    """a list of at most n parts"""
    return [f("%s %d" % (name, i)) for i in range(c.choice("number of " + name, list(range(n + 1))))]


def distinct(c, l):
    for i in range(len(l)):
        for j in range(i):
            c.assume(c.not_(c.eq(l[i], l[j])))


@unit("P19.resources", P + "parse_resource_profiles", scope="at most 2 pools of at most 2 entries with amounts up to 3 (identifiers, names, calendars and costs arbitrary)")
def resources(c):
    sp = c.mod("simulation_properties_parser")
    pools, entries = [], []
    for i in range(c.choice("pools", [0, 1, 2])):
        es = []
        for j in range(c.choice("entries %d" % i, [0, 1, 2])):
            k = "%d%d" % (i, j)
            n = c.choice("amount " + k, [0, 1, 2, 3])
            es.append({"id": c.str("id" + k, pool=["a", "b", "c", "d"]), "name": c.str("name" + k, pool=["A", "B"]), "amount": n,
                       "calendar": c.str("cal" + k, pool=["x", "y"]), "cost_per_hour": c.real("cost" + k, 0)})
            entries.append((es[-1], "p%d" % i))
        pools.append({"id": "p%d" % i, "name": "P%d" % i, "resource_list": c.mklist([c.mkdict(e) for e in es])})
    one = lambda e, k: c.fmt("%s_%d", e["id"], k) if e["amount"] > 1 else e["id"]
    nm = lambda e, k: c.fmt("%s_%d", e["name"], k) if e["amount"] > 1 else e["name"]
    distinct(c, [e["id"] for e, _ in entries])
    distinct(c, [one(e, k) for e, _ in entries for k in range(e["amount"])])      # no identifier is the expansion of another
    m, pool = c.call(sp.parse_resource_profiles, c.mklist([c.mkdict(p) for p in pools]))
    c.check("one pool per entry", c.eq(c.len(pool), len(entries)))
    c.check("as many resources as the amounts say", c.eq(c.len(m), sum(e["amount"] for e, _ in entries)))
    for e, p in entries:
        l = lookup(c, pool, e["id"])
        c.check("as many as its amount", c.and_(c.has(pool, e["id"]), c.eq(c.len(l), e["amount"])))
        for k in range(e["amount"]):
            c.check("identifier", c.and_(c.eq(c.at(l, k), one(e, k)), c.has(m, one(e, k))))
            r = lookup(c, m, one(e, k))
            c.check("its own profile", r is not None and c.and_(
                c.eq(r.resource_id, one(e, k)), c.eq(r.resource_name, nm(e, k)), c.eq(r.calendar_id, e["calendar"]),
                c.eq(r.cost_per_hour, e["cost_per_hour"]), c.eq(r.resource_amount, 1), c.eq(r.pool_info.pool_id, p)))


def lookup(c, m, k):
    """the object stored under a key, found by comparing keys"""
    for q, v in list(m.items()):
        if c.truth(c.eq(q, k)):
            return v
    return None


@unit("P19.copies", P + "parse_resource_profiles", scope="one entry of 10, 12 or 101 copies (calendar and cost arbitrary)")
def copies(c):
    """every copy of a resource is a resource of its own"""
    pp = c.mod("simulation_properties_parser")
    n = c.choice("amount", [10, 12, 101])
    rid, name = c.choice("id", ["a", "b_1"]), c.choice("name", ["A", "B 2"])
    cal, cost = c.str("calendar", pool=["x", "y"]), c.real("cost", 0)
    data = c.mklist([c.mkdict({"id": "p", "name": "P", "resource_list": c.mklist([c.mkdict({
        "id": rid, "name": name, "amount": n, "calendar": cal, "cost_per_hour": cost})])})])
    m, pool = c.call(pp.parse_resource_profiles, data)
    want = ["%s_%d" % (rid, k) for k in range(n)]
    c.check("one per copy", c.and_(c.eq(c.len(m), n), c.eq(c.len(pool), 1), lambda: c.eq(c.len(lookup(c, pool, rid)), n)))
    for k, x in enumerate(want):
        r = lookup(c, m, x)
        c.check("each under its own name", r is not None and c.and_(
            c.eq(r.resource_id, x), c.eq(r.resource_name, "%s_%d" % (name, k)),
            c.eq(r.calendar_id, cal), c.eq(c.at(lookup(c, pool, rid), k), x)))


@unit("P19.task_resources", P + "parse_task_resource_distributions", scope="at most 2 tasks with at most 2 entries each, from a pool of 2 entries expanded to at most 2 resources each")
def task_resources(c):
    sp = c.mod("simulation_properties_parser")
    class D:
        @staticmethod
        def from_dict(d):
            return ("distribution", c.get(d, "n"))
    c.patch(sp, "DurationDistribution", D)
    ids = ["u", "v"]
    pool = {x: [c.str("%s%d" % (x, i), pool=["r1", "r2", "r3", "r4", "r5"]) for i in range(c.choice("amount " + x, [0, 1, 2]))] for x in ids}
    distinct(c, [r for x in ids for r in pool[x]])
    data, n = [], 0
    for i in range(c.choice("tasks", [0, 1, 2])):
        rs = []
        for j in range(c.choice("entries %d" % i, [0, 1, 2])):
            rs.append((ids[j], n))
            n += 1
        data.append((c.choice("task %d" % i, ["t1", "t2"]), rs))
    c.assume(len({t for t, _ in data}) == len(data))
    r = c.call(sp.parse_task_resource_distributions, c.mklist([c.mkdict({"task_id": t, "resources": c.mklist(
        [c.mkdict({"resource_id": x, "n": k}) for x, k in rs])}) for t, rs in data]), c.mkdict({x: c.mklist(v) for x, v in pool.items()}))
    c.check("every task", c.and_(c.eq(c.len(r), len(data)), *[c.has(r, t) for t, _ in data]))
    for t, rs in data:
        d = c.get(r, t)
        c.check("exactly the resources of its entries", c.eq(c.len(d), sum(len(pool[x]) for x, _ in rs)))
        for x, k in rs:
            for y in pool[x]:
                c.check("with the entry's distribution", c.has(d, y) and c.eq(lookup(c, d, y)[1], k))


class Cal:
    def __init__(self, calendar_id):
        self.calendar_id, self.items, self.done = calendar_id, [], None

    def add_calendar_item(self, *a):
        self.items.append(a)

    def compute_cumulative_durations(self):
        self.done = len(self.items)


def period(c, k):
    f = {q: c.str(q + k, pool=DAYS + ["08:00"]) for q in ("from", "to", "beginTime", "endTime")}
    return f, (f["from"], f["to"], f["beginTime"], f["endTime"])


@unit("P19.calendars", [P + "parse_resource_calendars", P + "parse_arrival_calendar"], scope="at most 2 calendars of at most 2 periods")
def calendars(c):
    sp = c.mod("simulation_properties_parser")
    c.patch(sp, "RCalendar", Cal)
    data = [("c%d" % i, [period(c, "%d%d" % (i, j)) for j in range(c.choice("periods %d" % i, [0, 1, 2]))]) for i in range(c.choice("calendars", [0, 1, 2]))]
    js = lambda l: c.mklist([c.mkdict(f) for f, _ in l])
    r = c.call(sp.parse_resource_calendars, c.mklist([c.mkdict({"id": i, "time_periods": js(l)}) for i, l in data]))
    c.check("every calendar", c.and_(c.eq(c.len(r), len(data)), *[c.has(r, i) for i, _ in data]))
    for i, l in data:
        x = lookup(c, r, i)
        c.check("exactly its periods, then the durations", len(x.items) == len(l) and x.done == len(l) and c.and_(
            *[c.eq(p, q) for a, (_, b) in zip(x.items, l) for p, q in zip(a, b)]))
    l = data[0][1] if data else []
    if data:
        a = c.call(sp.parse_arrival_calendar, c.mkdict({"arrival_time_calendar": js(l)}))
        c.check("the arrival calendar has exactly its periods", len(a.items) == len(l) and c.and_(
            *[c.eq(p, q) for a, (_, b) in zip(a.items, l) for p, q in zip(a, b)]))
    else:
        c.check("no arrival calendar", c.call(sp.parse_arrival_calendar, c.mkdict({})) is None)


def rule(c, k):
    f = {q: c.str(q + k, pool=["x", "y", "=", "<"]) for q in ("attribute", "comparison", "value")}
    return f


def or_rules(c, k):
    return [[rule(c, "%s%d%d" % (k, i, j)) for j in range(c.choice("and %s%d" % (k, i), [0, 1, 2] if i == 0 else [2]))] for i in range(c.choice("or " + k, [0, 1, 2]))]


def js_rules(c, ors):
    return c.mklist([c.mklist([c.mkdict(f) for f in ands]) for ands in ors])


def rules_kept(c, got, ors, what):
    """an or-rule of the parsed structure against the file's"""
    n = c.len(got.or_rules)
    c.check(what + ": every alternative", c.eq(n, len(ors)))
    for i, ands in enumerate(ors):
        a = c.at(got.or_rules, i).and_rules
        c.check(what + ": every condition", c.eq(c.len(a), len(ands)))
        for j, f in enumerate(ands):
            r = c.at(a, j)
            c.check(what + ": condition as given", c.and_(c.eq(r.attribute, f["attribute"]), c.eq(r.condition, f["comparison"]), c.eq(r.value, f["value"])))


SMALL = "at most 2 rules of at most 2 alternatives of at most 2 conditions"


@unit("P19.priority_rules", "prosimos.prioritisation_parser:PrioritisationParser.parse", scope=SMALL)
def priority_rules(c):
    pp = c.mod("prioritisation_parser")
    got = []
    c.patch(pp, "PrioritisationRule", lambda a, b, v: c.obj(Cond, attribute=a, condition=b, value=v))
    data = [(c.int("level%d" % i, 0, 9), or_rules(c, "r%d" % i)) for i in range(c.choice("rules", [0, 1, 2]))]
    p = c.obj(pp.PrioritisationParser, data=c.mklist([c.mkdict({"priority_level": l, "rules": js_rules(c, o)}) for l, o in data]))
    c.patch(pp, "AllPriorityRules", lambda rules: rules)
    r = c.call(p.parse)
    c.check("every rule", c.eq(c.len(r), len(data)))
    for i, (l, o) in enumerate(data):
        x = c.at(r, i)
        c.check("level as given", c.eq(x.priority, l))
        rules_kept(c, x.or_rule, o, "rule")


class Cond:
    pass


@unit("P19.branch_rules", "prosimos.branch_condition_parser:BranchConditionParser.parse", scope=SMALL)
def branch_rules(c):
    pp = c.mod("branch_condition_parser")
    c.patch(pp, "BranchConditionRule", lambda a, b, v: c.obj(Cond, attribute=a, condition=b, value=v))
    data = [(c.str("id%d" % i, pool=["b1", "b2"]), or_rules(c, "r%d" % i)) for i in range(c.choice("rules", [0, 1, 2]))]
    p = c.obj(pp.BranchConditionParser, data=c.mklist([c.mkdict({"id": l, "rules": js_rules(c, o)}) for l, o in data]))
    r = c.call(p.parse).all_rules
    c.check("every rule", c.eq(c.len(r), len(data)))
    for i, (l, o) in enumerate(data):
        x = c.at(r, i)
        c.check("identifier as given", c.eq(x.id, l))
        rules_kept(c, x.or_rule, o, "rule")


@unit("P19.gateway_conditions", P + "parse_gateway_conditions", scope="at most 2 gateways of at most 3 flows")
def gateway_conditions(c):
    sp = c.mod("simulation_properties_parser")
    class W:
        def add_warning(self, *a):
            return None
    c.patch(sp, "warning_logger", W())
    class Rules:
        def get_branch_condition_by_id(self, i):
            return ("rule", i)
    data = []
    for i in range(c.choice("gateways", [0, 1, 2])):
        fl = []
        for j in range(c.choice("flows %d" % i, [1, 2, 3])):
            k = "%d%d" % (i, j)
            fl.append((c.str("path" + k, pool=["f", "g"]), c.str("cond" + k, pool=["b1", "b2"]) if c.choice("has condition " + k, [True, False]) else None))
        data.append(("g%d" % i, fl))
    r = c.call(sp.parse_gateway_conditions, c.mklist([c.mkdict({"gateway_id": g, "probabilities": c.mklist([c.mkdict(
        {"path_id": p} if q is None else {"path_id": p, "condition_id": q}) for p, q in fl])}) for g, fl in data]), Rules())
    for g, fl in data:
        x = lookup(c, r, g)
        w = [(p, q) for p, q in fl if q is not None]
        c.check("the flows with a condition", x is not None and c.and_(c.eq(c.len(x.candidates_list), len(w)), c.eq(c.len(x.rules_list), len(w))))
        for i, (p, q) in enumerate(w):
            c.check("each with its own condition", c.and_(c.eq(c.at(x.candidates_list, i), p), c.eq(c.at(x.rules_list, i)[1], q)))


@unit("P19.batching", B + "parse", scope="at most 2 tasks, rules of at most 2 alternatives of at most 2 sub-rules, at most 2 duration and size entries")
def batching(c):
    bp, pp = c.mod("batch_processing"), c.mod("batch_processing_parser")
    class And:
        def __init__(self, rules):
            self.rules, self.steps = rules, []

        def validate(self):
            self.steps.append("validate")

        def init_boundaries(self):
            self.steps.append("bounds")
    class Or:
        def __init__(self, rules):
            self.rules = rules
    class Config:
        def __init__(self, *a):
            self.a = a
    c.patch(pp, "AndFiringRule", And)
    c.patch(pp, "OrFiringRule", Or)
    c.patch(pp, "BatchConfigPerTask", Config)
    data = []
    for i in range(c.choice("tasks", [1, 2])):
        ors = []
        for a in range(c.choice("alternatives %d" % i, [1, 2]) if i == 0 else 1):
            ors.append([(c.choice("kind %d%d%d" % (i, a, j), ["size", "ready_wt"]) if not i and not a else "ready_wt", c.real("v%d%d%d" % (i, a, j), 1, 50))
                        for j in range((c.choice("conditions %d%d" % (i, a), [1, 2]) if not i else 2))])
        dur = [(c.choice("size %d%d" % (i, j), [1, 3]) + j if not i else 2, c.real("coef %d%d" % (i, j), 0)) for j in range(c.choice("durations %d" % i, [0, 2]) if i == 0 else 1)]
        siz = [(str(j + 1), c.real("share %d%d" % (i, j), 0, 1)) for j in range(2 * i)]
        data.append(("t%d" % i, c.choice("type %d" % i, list(bp.BATCH_TYPE)) if not i else bp.BATCH_TYPE.PARALLEL, ors, dur, siz))
    js = c.mklist([c.mkdict({"task_id": t, "type": ty.value, "firing_rules": c.mklist([c.mklist([c.mkdict(
        {"attribute": k, "comparison": ">=", "value": v}) for k, v in ands]) for ands in ors]),
        "duration_distrib": c.mklist([c.mkdict({"key": str(k), "value": v}) for k, v in dur]),
        "size_distrib": c.mklist([c.mkdict({"key": k, "value": v}) for k, v in siz])}) for t, ty, ors, dur, siz in data])
    r = c.call(c.obj(pp.BatchProcessingParser, data=js).parse)
    c.check("every task", c.eq(c.len(r), len(data)))
    for t, ty, ors, dur, siz in data:
        x = lookup(c, r, t)
        kind, coef, rule, opts, probs = x.a
        c.check("type", kind is ty)
        want = dict(dur)
        if 1 not in want:
            want[1] = 1.0
        c.check("coefficients as given, one for a single case by default", c.and_(c.eq(c.len(coef), len(want)), *[
            c.has(coef, k) and c.eq(lookup(c, coef, k), v) for k, v in want.items()]))
        c.check("sizes", c.and_(c.eq(c.len(opts), len(siz)), *[c.and_(c.eq(c.at(opts, i), int(k)), c.eq(c.at(probs, i), v)) for i, (k, v) in enumerate(siz)]))
        c.check("every alternative", c.eq(c.len(rule.rules), len(ors)))
        for i, ands in enumerate(ors):
            a = c.at(rule.rules, i)
            c.check("validated, then bounded", list(a.steps) == ["validate", "bounds"])
            got = [c.at(a.rules, j) for j in range(len(ands))]
            c.check("every condition", c.eq(c.len(a.rules), len(ands)))
            c.check("kinds kept", sorted(k for k, _ in ands) == sorted(g.variable1 for g in got))
            c.check("size last", got[-1].variable1 == "size" or "size" not in [k for k, _ in ands])
            for k, v in ands:
                c.check("value kept", c.or_(*[c.and_(g.variable1 == k, c.eq(g.value2, c.floor(v) if k == "size" else v)) for g in got]))


@unit("P19.multitasking", [P + "_parse_global_multitasking", P + "_parse_local_multitasking", P + "parse_multitasking_model"],
      scope="at most 2 resources with at most 2 periods and 2 probabilities each")
def multitasking(c):
    sp = c.mod("simulation_properties_parser")
    log = []
    class MT:
        def __init__(self, kind, size=0):
            self.kind, self.size = kind, size

        def register_resource(self, r):
            log.append(("resource", r))

        def update_expected_workload(self, r, w):
            log.append(("workload", r, w))

        def register_multitasks(self, *a):
            log.append(("global",) + a)

        def register_local_multitasks(self, *a):
            log.append(("local",) + a)
    c.patch(sp, "MultiTaskDS", MT)
    c.patch(sp, "parse_datetime", lambda t, d: ("at", t))
    kind = c.choice("type", ["global", "local"])
    vals, want = [], []
    def mt(k):
        l = [(c.int("tasks %s%d" % (k, i), 1, 9), c.real("prob %s%d" % (k, i), 0, 1)) for i in range(c.choice("entries " + k, [0, 1, 2]))]
        return l, c.mklist([c.mkdict({"parallel_tasks": a, "probability": b}) for a, b in l])
    for i in range(c.choice("resources", [0, 1, 2])):
        rid, w = "r%d" % i, c.real("workload %d" % i, 0, 1)
        v = {"resource_id": rid, "r_workload": w}
        want += [("resource", rid), ("workload", rid, w)]
        if kind == "global":
            l, v["multitask_info"] = mt("%d" % i)
            want += [("global", rid, a, b) for a, b in l]
        else:
            weeks = []
            for j in range(c.choice("periods %d" % i, [0, 1, 2]) if i == 0 else 1):
                a, b = c.choice("from %d%d" % (i, j), [0, 5]), c.choice("to %d%d" % (i, j), [0, 6])
                l, info = mt("%d%d" % (i, j))
                weeks.append(c.mklist([c.mkdict({"from": DAYS[a], "to": DAYS[b], "beginTime": "08:00", "endTime": "10:00", "multitask_info": info})]))
                want += [("local", rid, (a + d) % 7, ("at", "08:00"), ("at", "10:00"), x, y) for d in range((b - a) % 7 + 1) for x, y in l]
            v["weekly_probability"] = c.mklist(weeks)
        vals.append(c.mkdict(v))
    c.call(sp.parse_multitasking_model, c.mkdict({"type": kind, "values": c.mklist(vals)}), None)
    c.check("exactly the file's entries are registered", len(log) == len(want))
    order = lambda t: [x for x in log if x[0] == t]
    for t in ("resource", "workload", "global", "local"):
        a, b = order(t), [x for x in want if x[0] == t]
        c.check("registered: " + t, len(a) == len(b) and c.and_(*[c.eq(p, q) for x, y in zip(a, b) for p, q in zip(x[1:], y[1:])]))
    for i, x in enumerate(log):
        if x[0] in ("global", "local"):
            c.check("a resource is registered before its entries", ("resource", x[1]) in [y[:2] for y in log[:i]])


def written(c, text, suffix):
    """a file of this run's own, removed again at once by `gone`"""
    fd, path = tempfile.mkstemp(suffix=suffix, prefix="verif-p19-")
    with os.fdopen(fd, "w") as f:
        f.write(text)
    return path


SECTIONS = ["event_distribution", "batch_processing", "case_attributes", "event_attributes", "global_attributes", "prioritisation_rules",
            "branch_rules", "multitask"]


@unit("P19.scenario", [P + "parse_json_sim_parameters", "prosimos.simulation_setup:SimDiffSetup.__init__"],
      scope="every combination of optional sections, in both calendar models")
def scenario(c):
    """every section of the scenario reaches the setup in its own place; a section that is left out means none"""
    sp, ss, cf = c.mod("simulation_properties_parser"), c.mod("simulation_setup"), c.mod("control_flow_manager")
    there = {s: c.choice(s, [True, False]) for s in SECTIONS}
    kind = c.choice("model type", ["FUZZY", "CRISP", None])
    limit = c.choice("limit", [None, 7])
    data = {k: "data " + k for k in ["resource_profiles", "resource_calendars", "task_resource_distribution", "arrival_time_distribution",
                                      "gateway_branching_probabilities", "arrival_time_calendar"]}
    data.update({s: "data " + s for s in SECTIONS if there[s]})
    if kind:
        data["model_type"] = kind
    if limit:
        data["gateway_execution_limit"] = limit
    given = lambda s: data.get(s)
    c.patch(sp, "parse_resource_profiles", lambda d: (("profiles", d), ("pool", d)))
    c.patch(sp, "parse_fuzzy_calendar", lambda d: ("fuzzy", d["resource_calendars"]))
    c.patch(sp, "parse_resource_calendars", lambda d: ("crisp", d))
    c.patch(sp, "parse_task_resource_distributions", lambda d, pool: ("tasks", d, pool))
    c.patch(sp, "parse_arrival_branching_probabilities", lambda a, g: ("branching", a, g))
    c.patch(sp, "parse_gateway_conditions", lambda g, r: {"conditions of": g, "rules": r})
    c.patch(sp, "parse_arrival_calendar", lambda d: ("arrival", d["arrival_time_calendar"]))
    c.patch(sp, "parse_event_distribution", lambda d: ("events", d))
    c.patch(sp, "parse_case_attr", lambda d: ("cases", d))
    c.patch(sp, "parse_multitasking_model", lambda d, t: ("multitasking", d, t))

    def section(what):
        class Parser:
            def __init__(self, d):
                self.d = d

            def parse(self):
                return (what, self.d)
        return Parser
    for cls, what in [("BranchConditionParser", "branch rules"), ("BatchProcessingParser", "batching"), ("EventAttributesParser", "event attributes"),
                      ("GlobalAttributesParser", "global attributes"), ("PrioritisationParser", "priorities")]:
        c.patch(sp, cls, section(what))
    def none(what):
        return lambda x: ("no " + what, len(x))
    for cls, what in [("AllBranchConditionRules", "branch rules"), ("AllCaseAttributes", "cases"), ("AllEventAttributes", "event attributes"),
                      ("AllGlobalAttributes", "global attributes"), ("AllPriorityRules", "priorities")]:
        c.patch(sp, cls, none(what))

    class All:
        def __init__(self, g, k, e):
            self.global_attributes, self.case_attributes, self.event_attributes = g, k, e
    c.patch(sp, "AllAttributes", All)
    graph = c.obj(cf.BPMNGraph)
    wired = []
    c.patch(cf.BPMNGraph, "set_additional_fields_from_json", lambda self, *a: wired.append(a))
    c.patch(ss, "parse_simulation_model", lambda path: (wired.append(path), graph)[1])
    c.patch(ss, "add_default_flows", lambda g, path: (wired.append((g, path)), g)[1])
    path = written(c, json.dumps(data), ".json")
    try:
        s = c.call(ss.SimDiffSetup, "model.bpmn", path, "log events", 12)
    finally:
        os.unlink(path)
    if_given = lambda sec, what, name: ((what, given(sec)) if there[sec] else ("no " + name, 0))
    tasks = ("tasks", "data task_resource_distribution", ("pool", "data resource_profiles"))
    rules = if_given("branch_rules", "branch rules", "branch rules")
    cond = {"conditions of": "data gateway_branching_probabilities", "rules": rules}
    branching_ = ("branching", "data arrival_time_distribution", "data gateway_branching_probabilities")
    events_ = ("events", "data event_distribution") if there["event_distribution"] else {}
    batch = ("batching", "data batch_processing") if there["batch_processing"] else {}
    want = {
        "resources_map": ("profiles", "data resource_profiles"),
        "calendars_map": ("fuzzy" if kind == "FUZZY" else "crisp", "data resource_calendars"),
        "element_probability": branching_, "task_resource": tasks, "arrival_calendar": ("arrival", "data arrival_time_calendar"),
        "event_distibution": events_, "batch_processing": batch,
        "prioritisation_rules": if_given("prioritisation_rules", "priorities", "priorities"), "branch_rules": rules, "gateway_conditions": cond,
        "gateway_execution_limit": limit or sp.DEFAULT_GATEWAY_EXECUTION_LIMIT,
        "multitask_info": ("multitasking", "data multitask", tasks) if there["multitask"] else None,
        "case_attributes": if_given("case_attributes", "cases", "cases"), "is_event_added_to_log": "log events", "total_num_cases": 12,
    }
    for k, v in want.items():
        c.check("in its place: " + k, getattr(s, k) == v)
    if kind:
        c.check("in its place: model_type", s.model_type == kind)
    else:
        c.check("calendars are crisp unless stated", s.model_type != "FUZZY")
    a = s.all_attributes
    c.check("attributes", (a.global_attributes, a.case_attributes, a.event_attributes) == (
        if_given("global_attributes", "global attributes", "global attributes"), want["case_attributes"],
        if_given("event_attributes", "event attributes", "event attributes")))
    c.check("the model file, with its default flows", "model.bpmn" in wired and (cond, "model.bpmn") in wired and s.bpmn_graph is graph)
    c.check("the process knows its scenario", [w for w in wired if len(w) == 6] == [
        (branching_, tasks, events_, batch, cond, want["gateway_execution_limit"])])


MODEL_KINDS = {"task": "TASK", "exclusiveGateway": "EXCLUSIVE_GATEWAY", "parallelGateway": "PARALLEL_GATEWAY", "inclusiveGateway": "INCLUSIVE_GATEWAY",
         "eventBasedGateway": "EVENT_BASED_GATEWAY", "intermediateCatchEvent": "INTERMEDIATE_EVENT", "endEvent": "END_EVENT", "startEvent": "START_EVENT"}


def process(elements, flows):
    ns = "http://www.omg.org/spec/BPMN/20100524/MODEL"
    out = []
    for kind, i, name, inner in elements:
        out.append('<%s id="%s"%s>%s</%s>' % (kind, i, "" if name is None else ' name="%s"' % name, inner, kind))
    out += ['<sequenceFlow id="%s" sourceRef="%s" targetRef="%s"/>' % f for f in flows]
    return '<definitions xmlns="%s"><process id="p">%s</process></definitions>' % (ns, "".join(out))


def parsed(c, sp, elements, flows):
    path = written(c, process(elements, flows), ".bpmn")
    try:
        return c.call(sp.parse_simulation_model, path)
    finally:
        os.unlink(path)


@unit("P19.model", [P + "parse_simulation_model", P + "_add_fake_gateway"],
      scope="two connected elements of every kind with up to three incoming and outgoing flows each, in a model with a start and an end")
def model(c):
    """the process graph is the one of the model file, up to the gateways implied by several flows into or out of one element"""
    sp, cf = c.mod("simulation_properties_parser"), c.mod("control_flow_manager")
    kinds = ["task", "exclusiveGateway", "parallelGateway", "inclusiveGateway", "intermediateCatchEvent", "eventBasedGateway"]
    x, y = c.choice("first kind", kinds), c.choice("second kind", ["task", "exclusiveGateway", "endEvent"])
    xi, xo = c.choice("into the first", [1, 2, 3]), c.choice("out of the first", [1, 2, 3])
    yi, yo = c.choice("into the second", [1, 2, 3]), (0 if y == "endEvent" else c.choice("out of the second", [1, 2]))
    named = c.choice("named", ["name", "empty", "none"])
    nm = lambda i: {"name": "Name " + i, "empty": "", "none": None}[named]
    el = [("startEvent", "s", nm("s"), ""), (x, "x", nm("x"), ""), (y, "y", nm("y"), "")]
    fl = [("f0", "s", "a0"), ("xy", "x", "y")]
    el.append(("parallelGateway", "a0", nm("a0"), ""))
    if y != "endEvent":
        el.append(("endEvent", "e", nm("e"), ""))
    for i in range(xi):
        fl.append(("ax%d" % i, "a0", "x"))
    for i in range(yi - 1):
        fl.append(("ay%d" % i, "a0", "y"))
    sink = "y" if y == "endEvent" else "j"
    el.append(("exclusiveGateway", "j", nm("j"), ""))
    fl.append(("je", "j", "y" if y == "endEvent" else "e"))
    for i in range(xo - 1):
        fl.append(("xj%d" % i, "x", "j"))
    for i in range(yo):
        fl.append(("yj%d" % i, "y", "j"))
    fl.append(("aj", "a0", "j"))
    g = parsed(c, sp, el, fl)
    info = g.element_info
    for kind, i, name, _ in el:
        c.check("every element, with its kind and name", i in info and info[i].type == getattr(cf.BPMN, MODEL_KINDS[kind]) and info[i].id == i
                and info[i].name == (name or i))
    own = {i for _, i, _, _ in el}
    implied = [i for i in info if i not in own]
    arcs = g.flow_arcs
    c.check("every flow", {f for f, _, _ in fl} <= set(arcs) and len(arcs) == len(fl) + len(implied))
    c.check("the lists of flows are those of the arcs", all(
        sorted(info[i].outgoing_flows) == sorted(f for f, (a, b) in arcs.items() if a == i)
        and sorted(info[i].incoming_flows) == sorted(f for f, (a, b) in arcs.items() if b == i) for i in info))
    for f, a, b in fl:
        p, q = arcs[f]
        before = p == a or (p in implied and [arcs[z][0] for z in info[p].incoming_flows] == [a])
        after = q == b or (q in implied and [arcs[z][1] for z in info[q].outgoing_flows] == [b])
        c.check("from its source to its target", before and after)
    for i in own:
        k, n_in, n_out = info[i].type, sum(b == i for _, _, b in fl), sum(a == i for _, a, _ in fl)
        pre = [arcs[f][0] for f in info[i].incoming_flows]
        post = [arcs[f][1] for f in info[i].outgoing_flows]
        join = pre[0] if len(pre) == 1 and pre[0] in implied else None
        split = post[0] if len(post) == 1 and post[0] in implied else None
        kj = info[join].type if join else None
        if k is cf.BPMN.TASK:
            c.check("several flows into a task: each one enables it", (kj is cf.BPMN.EXCLUSIVE_GATEWAY) == (n_in > 1) and len(pre) <= 1)
            c.check("several flows out of a task: all are taken", (split is not None and info[split].type is cf.BPMN.PARALLEL_GATEWAY) == (n_out > 1) and len(post) <= 1)
        elif k is cf.BPMN.END_EVENT:
            c.check("several flows into the end: it waits for all that can come", (kj is cf.BPMN.INCLUSIVE_GATEWAY) == (n_in > 1) and len(pre) <= 1)
        elif info[i].is_gateway():
            c.check("a gateway that joins and splits: joined first, by its own kind", (kj is k) == (n_in > 1 and n_out > 1))
    c.check("start and end", g.starting_event == "s" and g.end_event == ("y" if y == "endEvent" else "e"))
    c.check("implied gateways only where needed", len(implied) == sum(
        (n_in > 1 and (k in ("task", "endEvent") or (k.endswith("Gateway") and n_out > 1))) + (n_out > 1 and k == "task")
        for k, i, _, _ in el for n_in, n_out in [(sum(b == i for _, _, b in fl), sum(a == i for _, a, _ in fl))]))


@unit("P19.event_types", [P + "parse_simulation_model", P + "_get_event_type_from_element"], scope="every kind of event definition")
def event_types(c):
    sp, cf = c.mod("simulation_properties_parser"), c.mod("control_flow_manager")
    d = c.choice("definition", ["timer", "message", "link", "signal", "terminate", "escalation", None])
    where = c.choice("event", ["startEvent", "intermediateCatchEvent", "endEvent"])
    inner = "<documentation/>" if c.choice("documented", [True, False]) else ""
    if d:
        inner += "<%sEventDefinition id=\"d\"/>" % d
    ids = {"startEvent": "s", "intermediateCatchEvent": "i", "endEvent": "e"}
    el = [(k, ids[k], k, inner if k == where else "") for k in ids]
    g = parsed(c, sp, el, [("f", "s", "i"), ("h", "i", "e")])
    T = cf.EVENT_TYPE
    for k, i in ids.items():
        want = None if k != where or d is None else T.UNDEFINED if d == "escalation" else getattr(T, d.upper())
        c.check("type of the event", g.element_info[i].event_type is want)


@unit("P19.ends", [P + "parse_simulation_model", "prosimos.control_flow_manager:BPMNGraph.validate_model"], scope="models with no to three end events")
def ends(c):
    """a model without an end event, or with several, is refused"""
    sp, X = c.mod("simulation_properties_parser"), c.mod("exceptions")
    n = c.choice("ends", [0, 1, 2, 3])
    el = [("startEvent", "s", None, ""), ("parallelGateway", "a", None, "")] + [("endEvent", "e%d" % i, None, "") for i in range(n)]
    path = written(c, process(el, [("f", "s", "a")] + [("f%d" % i, "a", "e%d" % i) for i in range(n)]), ".bpmn")
    try:
        r = c.call(sp.parse_simulation_model, path, raises=(X.InvalidBpmnModelException,))
        c.check("refused unless there is exactly one", bool(c.raised(r)) == (n != 1))
    finally:
        os.unlink(path)


@unit("P19.default_flows", P + "add_default_flows", scope="up to three gateways of every kind")
def default_flows(c):
    sp = c.mod("simulation_properties_parser")
    G = c.mod("gateway_condition_choice").GatewayConditionChoice
    el, cond, want = [], {}, {}
    for i in range(c.choice("gateways", [0, 1, 2, 3])):
        k = c.choice("kind %d" % i, ["exclusiveGateway", "inclusiveGateway", "parallelGateway"])
        d = c.choice("default %d" % i, [None, "flow%d" % i])
        el.append('<%s id="g%d"%s/>' % (k, i, ' default="%s"' % d if d else ""))
        if c.choice("conditions %d" % i, [True, False]):
            cond["g%d" % i] = c.call(G, [], [])
            want["g%d" % i] = d if k != "parallelGateway" else None
    path = written(c, '<definitions xmlns="http://www.omg.org/spec/BPMN/20100524/MODEL"><process id="p">%s</process></definitions>' % "".join(el), ".bpmn")
    try:
        r = c.call(sp.add_default_flows, cond, path)
    finally:
        os.unlink(path)
    c.check("all gateways stay", set(r) == set(want))
    for k in want:
        c.check("the default flow of its own gateway", r[k].get_default_path() == want[k])


@unit("P19.fuzzy_calendars", P + "parse_fuzzy_calendar", scope="at most 2 resources with at most 2 periods of a table")
def fuzzy_calendars(c):
    """each resource gets a calendar of its own; each period is entered on each of its weekdays, in the right table, with its probability"""
    sp = c.mod("simulation_properties_parser")

    class Week:
        def __init__(self, granule):
            self.granule, self.items, self.indexed = granule, [], None

        def add_weekday_intervals(self, *a):
            self.items.append(a)

        def index_consecutive_boundaries(self):
            self.indexed = len(self.items)

    class Model:
        def __init__(self, i):
            self.id, self.tables = i, {}

        def update_model(self, kind, cal):
            self.tables[kind] = cal
    c.patch(sp, "WeeklyFuzzyCalendar", Week)
    c.patch(sp, "FuzzyModel", Model)
    c.patch(sp, "parse_datetime", lambda t, d: ("time", t, d))
    unit_, factor = c.choice("unit", [("SECONDS", 1 / 60), ("minutes", 1), ("Hours", 60)])
    size = c.choice("size", [15, 60])
    data = []
    for i in range(c.choice("resources", [1, 2])):
        r = {"id": "r%d" % i}
        for t in ("time_periods", "workload_ratio"):
            r[t] = []
            for j in range(c.choice("%s %d" % (t, i), [0, 1, 2] if (t, i) == ("time_periods", 0) else [1] if i else [0, 1])):
                a, b = c.choice("days %s %d %d" % (t, i, j), [(0, 1), (6, 1)] if not i else [(5, 5)])
                r[t].append({"from": DAYS[a], "to": DAYS[b], "beginTime": "b%s%d%d" % (t, i, j), "endTime": "e%s%d%d" % (t, i, j),
                             "probability": c.real("p %s %d %d" % (t, i, j), 0, 1)})
        data.append(r)
    out = c.call(sp.parse_fuzzy_calendar, {"granule_size": {"value": size, "time_unit": unit_}, "resource_calendars": data})
    c.check("every resource", sorted(out) == [r["id"] for r in data])
    for r in data:
        m = out[r["id"]]
        c.check("its own calendar", m.id == r["id"] and sorted(m.tables) == ["time_periods", "workload_ratio"])
        for t in ("time_periods", "workload_ratio"):
            w = m.tables[t]
            want = [(d % 7, p) for p in r[t] for d in range(DAYS.index(p["from"]), DAYS.index(p["from"]) + (DAYS.index(p["to"]) - DAYS.index(p["from"])) % 7 + 1)]
            c.check("granules", w.granule == size * factor)
            c.check("indexed when complete", w.indexed == len(w.items))
            c.check("each weekday of each period", len(w.items) == len(want) and c.and_(*[c.and_(
                it[0] == d, it[1] == ("time", p["beginTime"], False), it[2] == ("time", p["endTime"], False), c.eq(it[3], p["probability"]))
                for it, (d, p) in zip(w.items, want)]))


@unit("P19.attributes", [P + "parse_case_attr", P + "parse_event_distribution", "prosimos.event_attributes_parser:EventAttributesParser.parse",
                         "prosimos.global_attributes_parser:GlobalAttributesParser.parse"], scope="at most 3 entries; at most 2 attributes of an event")
def attributes(c):
    """every declared attribute exists, for its owner, with its own name, kind and values"""
    sp, ep, gp = c.mod("simulation_properties_parser"), c.mod("event_attributes_parser"), c.mod("global_attributes_parser")

    def made(kind):
        return lambda *a: (kind,) + a
    for m, cls in [(sp, "CaseAttribute"), (ep, "EventAttribute"), (gp, "GlobalAttribute")]:
        c.patch(m, cls, made(cls))
    for m, cls in [(sp, "AllCaseAttributes"), (ep, "AllEventAttributes"), (gp, "AllGlobalAttributes")]:
        c.patch(m, cls, lambda x: x)

    class D:
        @staticmethod
        def from_dict(d):
            return ("distribution", d["n"])
    c.patch(sp, "DurationDistribution", D)
    att = lambda i: {"name": "a%d" % i, "type": "t%d" % i, "values": "v%d" % i}
    n = c.choice("entries", [0, 1, 2, 3])
    r = c.call(sp.parse_case_attr, [att(i) for i in range(n)])
    c.check("case attributes", r == [("CaseAttribute", "a%d" % i, "t%d" % i, "v%d" % i) for i in range(n)])
    r = c.call(c.call(gp.GlobalAttributesParser, [att(i) for i in range(n)]).parse)
    c.check("global attributes", r == {"a%d" % i: ("GlobalAttribute", "a%d" % i, "t%d" % i, "v%d" % i) for i in range(n)})
    per = [c.choice("attributes %d" % i, [1, 2]) for i in range(n)]
    r = c.call(c.call(ep.EventAttributesParser, [{"event_id": "e%d" % i, "attributes": [att(j + i) for j in range(per[i])]} for i in range(n)]).parse)
    c.check("event attributes", r == {"e%d" % i: {"a%d" % (j + i): ("EventAttribute", "e%d" % i, "a%d" % (j + i), "t%d" % (j + i), "v%d" % (j + i)) for j in range(
        per[i])} for i in range(n)})
    r = c.call(sp.parse_event_distribution, [{"event_id": "e%d" % i, "n": i} for i in range(n)])
    c.check("durations of events", r == {"e%d" % i: ("distribution", i) for i in range(n)})


@unit("P19.times", P + "parse_datetime", bounded="times of day with seconds or fractions, and instants with any offset, at random")
def times(c):
    """bounded: date and time texts are read as the time they denote"""
    sp, r = c.mod("simulation_properties_parser"), c.rng
    h, m, s, u = r.randint(0, 23), r.randint(0, 59), r.randint(0, 59), r.choice([0, 500000, r.randint(0, 999999)])
    if r.random() < .5:
        f = r.choice(["%H:%M:%S", "%H:%M:%S.%f", "%H:%M", "%I:%M%p", "%I:%M:%S%p"])
        t = datetime.time(h, m, s, u)
        want = datetime.datetime.strptime(t.strftime(f), f).time()
        c.check("time of day", c.call(sp.parse_datetime, t.strftime(f), False).time() == want)
    else:
        off = r.choice([0, 60, -300, 330, 840])
        d = datetime.datetime(r.randint(1990, 2060), r.randint(1, 12), r.randint(1, 28), h, m, s, u, datetime.timezone(datetime.timedelta(minutes=off)))
        x = c.call(sp.parse_datetime, d.isoformat(), True)
        c.check("instant", x == d and x.utcoffset() == d.utcoffset())
