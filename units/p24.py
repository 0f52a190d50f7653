"""P24: the parameters that are discovered from an event log describe that log"""
import contextlib
import csv
import datetime
import io
import itertools
import json
import os
import shutil
import tempfile
import warnings

from pyvc.driver import unit
from units import sim

D = "bpdfr_discovery.log_parser:"
BASE = datetime.datetime(2022, 1, 3, tzinfo=datetime.timezone.utc)


def lp(c):
    c.mod("control_flow_manager")
    return c.mod("bpdfr_discovery.log_parser")


def few(r):
    return float(r.choice([0, 0, 1, 2, 3, 60, 3600, 90000]))


class Ghost:
    """an object of a library, known by its contract only"""


def within(x, xs):
    return any(x is y for y in xs)


# ---------------------------------------------------------------- reading the log
@unit("P24.read", [D + "parse_csv", D + "process_csv_header", D + "CSVTrace.add_event"], scope="at most three rows of at most three cases")
def read(c):
    """every row of the log is one start and one completion in its own case, in the order in which they happened"""
    m = lp(c)
    cols = c.choice("columns", [("case", "activity", "start", "end", "resource"), ("resource", "other", "end", "start", "activity", "case"),
                                ("activity", "case", "resource", "end", "other", "start")])
    title = {"case": "case_id", "activity": "Activity", "start": "start_time", "end": "End Time", "resource": "org:Resource", "other": "enable_time"}
    n = c.choice("rows", [0, 1, 2, 3])
    rows = []
    for i in range(n):
        s = c.real("start %d" % i, 0, 10 ** 8, g=few)
        w = c.real("work %d" % i, 0, 10 ** 8, g=few)
        rows.append(dict(case=c.choice("case %d" % i, ["k1", "k2"] if n > 2 else ["k1", "k2", "k3"]), activity=["pay ", "check", "pay"][i], resource=["Ann", " Bob", "Ann"][i], other="",
                         start=BASE + c.delta(s), end=BASE + c.delta(s + w)))
    table = [[title[k] for k in cols]] + [[r[k] for k in cols] for r in rows]
    path = os.devnull
    if c.symbolic:
        c.patch(csv, "reader", lambda *a, **k: iter(table))

        class Pd:
            def __getattr__(self, k):
                return (lambda x, utc=None: x) if k == "to_datetime" else getattr(pandas, k)
        pandas = m.pd
        c.patch(m, "pd", Pd())
    else:
        fd, path = tempfile.mkstemp(prefix="verif-p24-")
        with os.fdopen(fd, "w", newline="") as f:
            csv.writer(f).writerows(table)
    try:
        out = c.call(m.parse_csv, path)
    finally:
        if not c.symbolic:
            os.unlink(path)
    cases = []
    for r in rows:
        if r["case"] not in cases:
            cases.append(r["case"])
    c.check("every case once", [t.attributes["concept:name"] for t in out] == cases)
    for t, k in zip(out, cases):
        got = list(t)
        mine = [(r["activity"].strip(), r["resource"].strip(), what, r[when]) for r in rows if r["case"] == k for what, when in (("start", "start"), ("complete", "end"))]
        c.check("a start and a completion of each row", len(got) == len(mine))
        seen = lambda e: (e["concept:name"], e["org:resource"], e["lifecycle:transition"])
        c.check("with its activity and resource", sorted(map(seen, got)) == sorted(x[:3] for x in mine) and all(e["elementId"] == e["concept:name"] for e in got))
        for key in sorted(set(x[:3] for x in mine)):
            c.check("at its time", c.eq(total([c.seconds(e["time:timestamp"] - BASE) for e in got if seen(e) == key]), total([c.seconds(x[3] - BASE) for x in mine if x[:3] == key])))
        c.check("in the order of time", c.and_(*[c.seconds(b["time:timestamp"] - a["time:timestamp"]) >= 0 for a, b in zip(got, got[1:])]))
        c.check("nothing completes before it starts", all(sum(1 if e["lifecycle:transition"] == "start" else -1 for e in got[:i + 1] if e["concept:name"] == got[i]["concept:name"]) >= 0
                                                          for i in range(len(got))))


def total(xs):
    t = 0
    for x in xs:
        t = t + x
    return t


@unit("P24.columns", D + "process_csv_header", scope="any of the columns missing")
def columns(c):
    """a log without one of the columns is refused"""
    m = lp(c)
    title = ["Case ID", "activity", "START", "end_time", "Resource"]
    there = [c.choice(t, [True, False]) for t in title]
    out = c.call(m.process_csv_header, [t for t, x in zip(title, there) if x], raises=(m.InvalidLogFileException,))
    if all(there):
        c.check("every column where it is", not c.raised(out) and out == {"case": 0, "activity": 1, "start": 2, "end": 3, "resource": 4})
    else:
        c.check("refused", c.raised(out))


@unit("P24.arguments", D + "parse_and_validate_input", scope="granules of chosen sizes")
def arguments(c):
    """what makes no sense as a granule or as a ratio is refused before anything is read"""
    m = lp(c)
    minutes = c.choice("minutes", [-1440, -15, 0, 1, 7, 15, 60, 61, 100, 720, 1440, 2880])
    g = lambda r: r.choice([-.5, 0, .3, 1, 1.5, r.uniform(-1, 2)])
    conf, supp, part = (c.real(x, g=g) for x in ("confidence", "support", "participation"))
    read_ = []
    c.patch(m, "parse_simulation_model", lambda p: read_.append(("model", p)) or "graph")
    c.patch(m, "parse_csv", lambda p: read_.append(("log", p)) or "traces")
    out = c.call(m.parse_and_validate_input, "the log", "the model", minutes, conf, supp, part, True, raises=(m.InvalidInputDiscoveryParameters,))
    ratio = lambda x: c.and_(x >= 0, x <= 1)
    fine = c.and_(minutes in (1, 15, 60, 720, 1440), ratio(conf), ratio(supp), ratio(part))
    if c.raised(out):
        c.check("refused only what makes no sense", c.not_(fine))
        c.check("nothing was read", not read_)
    else:
        c.check("what makes no sense is refused", fine)
        c.check("the model and the log", tuple(out) == ("graph", "traces") and read_ == [("model", "the model"), ("log", "the log")])


@unit("P24.recognised", [D + "validate_and_get_resource", D + "is_trace_event_start_or_end", D + "is_event_in_bpmn_model", D + "get_element_id_from_event_info", D + "is_event_resource_empty"],
      scope="one task, one event, a start and an end")
def recognised(c):
    """an entry of the log belongs to the element of the model it names; every execution of a task has a resource"""
    m, cf = lp(c), c.mod("control_flow_manager")
    kinds = {"s": cf.BPMN.START_EVENT, "e": cf.BPMN.END_EVENT, "t": cf.BPMN.TASK, "i": cf.BPMN.INTERMEDIATE_EVENT}
    names = {"s": "begin", "e": "finish", "t": "work", "i": "timer"}
    info = {k: cf.ElementInfo(v, k, names[k], None) for k, v in kinds.items()}
    graph = c.obj(cf.BPMNGraph, element_info=c.mkdict(info), from_name=c.mkdict({n: k for k, n in names.items()}), starting_event="s", end_event="e")
    who = c.choice("named", ["begin", "finish", "work", "timer", "nobody"])
    by = {v: k for k, v in names.items()}
    event = {"concept:name": who}
    ident = c.choice("identified", ["by name", "by the same", "by id", "not at all"])
    if ident == "by the same":
        event["elementId"] = who
    elif ident == "by id":
        event["elementId"] = by.get(who, "z")
    elif ident == "not at all":
        event["elementId"] = ""
    res = c.choice("resource", [None, "", "Ann"])
    if res is not None:
        event["org:resource"] = res
    c.check("of the model", c.call(m.is_event_in_bpmn_model, event, graph) == (who in by))
    c.check("start or end", c.call(m.is_trace_event_start_or_end, event, graph) == (who in ("begin", "finish")))
    out = c.call(m.validate_and_get_resource, event, graph, raises=(m.InvalidLogFileException,))
    if who not in by or (who == "work" and not res):
        c.check("refused", c.raised(out))
    else:
        c.check("the resource, or the event itself", out == (res or who))


# ---------------------------------------------------------------- what is derived from it
@unit("P24.disjoint", D + "_max_disjoint_intervals", scope="at most four executions with arbitrary times; more only by search")
def disjoint(c):
    """executions that are pooled into one resource never overlap, and none is pooled twice"""
    m, ei = lp(c), c.mod("execution_info")
    n = c.choice("executions", [1, 2, 3, 4] if c.symbolic else [1, 2, 3, 4, 6, 8])
    evs = []
    for i in range(n):
        a, w = c.real("start %d" % i, 0, g=few), c.real("work %d" % i, 0, g=few)
        evs.append(c.obj(ei.TaskEvent, started_at=BASE + c.delta(a), completed_at=BASE + c.delta(a + w)))
    groups = c.call(m._max_disjoint_intervals, c.mklist(list(evs)))
    groups = [list(g) for g in groups]
    flat = [e for g in groups for e in g]
    c.check("executions of the log, each at most once", all(within(e, evs) for e in flat) and len(set(map(id, flat))) == len(flat))
    for g in groups:
        c.check("one after the other", c.and_(*[c.seconds(y.started_at - x.completed_at) >= 0 for x, y in zip(g, g[1:])]))
    c.check("single executions are no pool, unless there is only one", all(len(g) > 1 for g in groups) if n > 1 else len(groups) == 1)
    if n > 1:
        pairs = [c.or_(c.seconds(y.started_at - x.completed_at) >= 0, c.seconds(x.started_at - y.completed_at) >= 0) for x, y in itertools.combinations(evs, 2)]
        positive = c.and_(*[c.seconds(e.completed_at - e.started_at) > 0 for e in evs])
        if n <= 4:
            c.check("all in one pool if nothing overlaps", c.implies(c.and_(positive, *pairs), len(groups) == 1 and len(groups[0]) == n))
            c.check("no pool only if everything overlaps", c.implies(c.and_(positive, len(groups) == 0), c.not_(c.or_(*pairs))))


@unit("P24.gaps", D + "discover_arrival_time_distribution", scope="at most four cases with arbitrary arrivals; more only by search")
def gaps(c):
    """the time between arrivals is fitted to the times between consecutive arrivals within the calendar"""
    m = lp(c)
    n = c.choice("cases", [0, 1, 2, 3, 4] if c.symbolic else [0, 1, 2, 3, 4, 7])
    ts = [c.real("arrival %d" % i, 0, g=few) for i in range(n)]
    on = [c.bool("in the calendar %d" % i) for i in range(n)]
    first = {"case %d" % i: BASE + c.delta(t) for i, t in enumerate(ts)}
    cal = Ghost()

    def working(d):
        i = [j for j, x in enumerate(first.values()) if x is d][0]
        p = Ghost()
        p.date_time = d
        return (True, p) if on[i] else (False, None)
    cal.is_working_datetime = working
    fitted = []
    c.patch(m, "get_best_fitting_distribution", lambda d: fitted.append(list(d)) or "the best")
    out = c.call(m.discover_arrival_time_distribution, c.mkdict(first), cal)
    c.check("the fitted distribution", out == "the best" and len(fitted) == 1)
    mine = [t for t, x in zip(ts, on) if c.truth(x)]
    d = fitted[0]
    c.check("one gap less than arrivals", len(d) == max(0, len(mine) - 1))
    c.check("no gap is negative", c.and_(*[x >= 0 for x in d]))
    if mine:
        c.check("they add up to the whole period", c.eq(total(d), c.max(mine[0], *mine) - c.min(mine[0], *mine)) if len(mine) > 1 else not d)
    if len(mine) > 2:
        second = c.min(*[c.max(a, b) for a, b in itertools.combinations(mine, 2)])
        c.check("the first one is the first gap", c.eq(d[0], second - c.min(*mine)))


@unit("P24.histogram", [D + "discover_arrival_time_distribution", D + "_reject_outliers"], bounded="random arrivals of at most 30 cases", search=10)
def histogram(c):
    """the observed times between arrivals are reproduced: the cumulative shares of twenty equal ranges"""
    m = lp(c)
    r = c.rng
    n = r.randint(3, 30)
    step = c.choice("steps", ["regular", "mostly regular", "random"])
    gaps_ = [600. if step == "regular" or step == "mostly regular" and r.random() < .7 else r.choice([60., 1e3, r.uniform(0, 5e3)]) for _ in range(n)]
    ts = [0.]
    for g in gaps_:
        ts.append(ts[-1] + g)
    order = list(enumerate(ts))
    r.shuffle(order)
    first = {"c%d" % i: BASE + datetime.timedelta(seconds=t) for i, t in order}
    cal = Ghost()

    def working(d):
        p = Ghost()
        p.date_time = d
        return True, p
    cal.is_working_datetime = working
    out = c.call(m.discover_arrival_time_distribution, first, cal, True)
    gaps_ = [(b - a).total_seconds() for a, b in zip(sorted(first.values()), sorted(first.values())[1:])]
    med = lambda xs: (sorted(xs)[(len(xs) - 1) // 2] + sorted(xs)[len(xs) // 2]) / 2
    dev = [abs(x - med(gaps_)) for x in gaps_]
    kept = [x for x, d in zip(gaps_, dev) if not med(dev) or d / med(dev) < 5]
    near = [x for x, d in zip(gaps_, dev) if med(dev) and abs(d / med(dev) - 5) < 1e-9]
    if near:
        return
    cdf, mid = out["histogram_data"]["cdf"], out["histogram_data"]["bin_midpoints"]
    c.check("its name", out["distribution_name"] == "histogram_sampling" and len(cdf) == len(mid) == 20)
    c.check("shares grow to one", all(a <= b for a, b in zip([0] + cdf, cdf)) and abs(cdf[-1] - 1) < 1e-9)
    lo, hi = min(kept), max(kept)
    w = (hi - lo) / 20
    c.check("middles of equal ranges", all(abs(x - (lo + (i + .5) * w)) < 1e-6 * max(1, hi) for i, x in enumerate(mid)))
    if w > 1e-6:
        for i in range(19):
            edge = lo + (i + 1) * w
            below = [sum(x < edge - e for x in kept) / len(kept) for e in (1e-6, -1e-6)]
            c.check("the share of the gaps up to there", below[0] - 1e-9 <= cdf[i] <= below[1] + 1e-9)


@unit("P24.durations", D + "discover_resource_task_duration_distribution", scope="two activities, two resources and a pooled one with at most two executions each")
def durations(c):
    """the durations of a resource are fitted to its own executions, or to all of the activity if these are too few"""
    m, ei = lp(c), c.mod("execution_info")
    fit = c.choice("only working time", [True, False])
    least = c.choice("needed", [1, 2, 50])
    n = {r: c.choice("executions of " + r, [1, 2]) for r in ("r1", "r2")}
    n["joint"] = 2

    def ev(who, i):
        a, w = c.real("start %s %d" % (who, i), 0, g=few), c.real("work %s %d" % (who, i), 0, g=few)
        return c.obj(ei.TaskEvent, started_at=BASE + c.delta(a), completed_at=BASE + c.delta(a + w))
    evs = {r: [ev(r, i) for i in range(k)] for r, k in n.items()}
    other = [ev("other", 0)]
    c.patch(Ghost, "find_working_time", lambda self, a, b: own(self.key, a, b))
    own = lambda k, a, b: c.seconds(b - a) * {"r1": 1, "r2": .5, "joint": .25}[k]  # any amount of its own
    cals = {}
    for r in n:
        cals[r] = Ghost()
        cals[r].key, cals[r].total_weekly_work = r, 1 if r != "joint" else c.choice("hours of the pooled", [0, 1])
    fitted = []

    def best(d):
        fitted.append(list(d))
        return len(fitted) - 1
    c.patch(m, "get_best_fitting_distribution", best)
    out = c.call(m.discover_resource_task_duration_distribution, {"t": {"r1": evs["r1"], "r2": evs["r2"]}, "u": {"r2": other}}, cals, {"t": ["r1", "r2", "joint"], "u": ["r2"]},
                 {"joint": evs["joint"]}, fit, least)
    took = lambda r, e: own(r, e.started_at, e.completed_at) if fit else c.seconds(e.completed_at - e.started_at)
    mine = {"t": {r: [took(r, e) for e in evs[r]] for r in n}, "u": {"r2": [took("r2", e) for e in other]}}
    c.check("every activity, every resource", {t: sorted(x) for t, x in out.items()} == {"t": ["joint", "r1", "r2"], "u": ["r2"]})
    for t in mine:
        for r, d in mine[t].items():
            want = d if len(d) >= least else [x for y in mine[t].values() for x in y]
            got = fitted[out[t][r]]
            c.check("fitted to its own executions, or to all", c.and_(len(got) == len(want), *[c.eq(x, y) for x, y in zip(got, want)]))


@unit("P24.pools", D + "discover_resource_calendars", scope="two activities, two resources, three executions each at most, one pool each at most")
def pools(c):
    """exactly the resources with working hours perform an activity, and each of them has a calendar; executions of the others are pooled"""
    m, ei = lp(c), c.mod("execution_info")

    class Cal(Ghost):
        def __init__(self, key, hours):
            self.key, self.total_weekly_work = key, hours
    hours = {r: c.choice("hours of " + r, [None, 0, 8]) for r in ("r1", "r2")}
    late = c.choice("hours of the pool", [None, 0, 8])
    cover = c.choice("coverage", [0, .5, 1])
    least = c.choice("needed coverage", [.3, 1])
    evs = {"t": {"r1": [c.obj(ei.TaskEvent, started_at=1, completed_at=2), c.obj(ei.TaskEvent, started_at=3, completed_at=4)], "r2": [c.obj(ei.TaskEvent, started_at=5, completed_at=6)]},
           "u": {"r2": [c.obj(ei.TaskEvent, started_at=7, completed_at=8)]}}
    pool = {"t": c.choice("executions pooled of t", [0, 2]), "u": 1}
    built, noted, given = [], [], []

    class Factory(Ghost):
        def build_weekly_calendars(self, *a):
            built.append(a)
            out = {r: Cal(r, h) if h is not None else None for r, h in hours.items()}
            if len(built) > 1 and late is not None:
                out.update({"Joint_%s_0" % t: Cal("Joint_%s_0" % t, late) for t in evs})
            return out

        def check_date_time(self, r, t, when, joint=False):
            noted.append((r, t, when, joint))

        def task_coverage(self, t):
            return cover

        def build_unrestricted_resource_calendar(self, r, t):
            return Cal(r, 168)

    def some(l):
        t = "t" if any(within(e, evs["t"]["r1"] + evs["t"]["r2"]) for e in l) else "u"
        given.append((t, list(l)))
        return [list(l)[:pool[t]]] if pool[t] and len(l) >= pool[t] else []
    c.patch(m, "_max_disjoint_intervals", some)  # its contract: P24.disjoint
    cals, res, joint, prof, cov = c.call(m.discover_resource_calendars, Factory(), evs, .1, least, .5)
    c.check("discovered twice with the same limits", len(built) == 2 and set(built) == {(.1, least, .5)})
    asked = dict(given)
    for t in evs:
        idle = [e for r in evs[t] if not hours[r] for e in evs[t][r]]
        c.check("the executions of the others are pooled", [id(e) for e in asked.get(t, [])] == [id(e) for e in idle])
        j = "Joint_%s_0" % t
        pooled = idle[:pool[t]] if pool[t] and len(idle) >= pool[t] else []
        c.check("the pool works when its executions do", [x[2] for x in noted if x[0] == j and x[1] == t] == [x for e in pooled for x in (e.started_at, e.completed_at)])
        want = [r for r in evs[t] if hours[r]] + ([j] if pooled and (late or cover < least) else [])
        c.check("who performs it", res[t] == want)
        c.check("with a profile", [x["id"] for x in prof[t]["resource_list"]] == want and [x["name"] for x in prof[t]["resource_list"]] == want
                and all(x["amount"] == 1 for x in prof[t]["resource_list"]))
        c.check("with a calendar of their own", all(cals[r].key == r and cals[r].total_weekly_work > 0 for r in want))
        c.check("with executions", [id(e) for e in joint.get(j, [])] == [id(e) for e in (pooled if j in want else [])])
        n = sum(len(evs[t][r]) for r in evs[t])
        c.check("covered", abs(cov[t] - (sum(len(evs[t][r]) for r in evs[t] if hours[r]) + (len(pooled) if j in want else 0)) / n) < 1e-9)
    c.check("no other calendar", set(cals) == {r for t in res for r in res[t]})


@unit("P24.written", [D + "build_resource_profiles", D + "map_task_id_from_names", D + "gateway_branching_to_json", D + "processing_times_json"], scope="two activities, two resources, two decisions")
def written(c):
    """the scenario lists every activity with its resources and distributions and every decision with the share of each path"""
    m = lp(c)
    ids = {"Pay": "t1", "Check": "t2"}
    who = {"Pay": c.choice("of Pay", [["r1"], ["r1", "r2"], []]), "Check": c.choice("of Check", [["r2"], ["r2", "r1"]])}

    class Dist(Ghost):
        def to_prosimos_distribution(self):
            return {"distribution_name": "norm " + self.key, "distribution_params": [{"value": self.key}]}
    dist = {}
    for t in who:
        dist[t] = {}
        for r in who[t]:
            dist[t][r] = Dist()
            dist[t][r].key = t + r
    prof = c.call(m.build_resource_profiles, dist, ids)
    c.check("one profile per activity", [(p["id"], p["name"]) for p in prof] == [(ids[t], t) for t in who])
    for p in prof:
        t = p["name"]
        c.check("with its resources", [r["id"] for r in p["resource_list"]] == who[t] and all(r["name"] == r["id"] for r in p["resource_list"]))
        for r in p["resource_list"]:
            c.check("a resource knows its activities and its hours", sorted(r["assigned_tasks"]) == sorted(ids[x] for x in who if r["id"] in who[x])
                    and r["calendar"] == r["id"] + "_timetable" and r["amount"] == 1)
    more = {t: list(who[t]) + (["unfitted"] if c.choice("one more", [True, False]) else []) for t in who}
    graph = Ghost()
    graph.from_name = ids
    times = c.call(m.processing_times_json, dist, more, graph)
    c.check("distributions per activity", [x["task_id"] for x in times] == [ids[t] for t in who])
    for x, t in zip(times, who):
        c.check("and resource", x["resources"] == [{"resource_id": r, "distribution_name": "norm " + t + r, "distribution_params": [{"value": t + r}]} for r in who[t]])
    c.check("by the identifier", c.call(m.map_task_id_from_names, dist, ids) == {ids[t]: dist[t] for t in who})
    p, q = c.real("p", 0, 1, g=lambda r: r.random()), c.real("q", 0, 1, g=lambda r: r.random())
    got = c.call(m.gateway_branching_to_json, {"g1": {"a": p, "b": 1 - p}, "g2": {"c": q}})
    flat = [(g["gateway_id"], x["path_id"], x["value"]) for g in got for x in g["probabilities"]]
    want = [("g1", "a", p), ("g1", "b", 1 - p), ("g2", "c", q)]
    c.check("every path of every decision, once", [x[:2] for x in flat] == [x[:2] for x in want] and len(got) == 2)
    c.check("with its share", c.and_(*[c.eq(x[2], y[2]) for x, y in zip(flat, want)]))


@unit("P24.waited", ["prosimos.execution_info:TaskEvent.update_enabling_times", D + "fix_enablement_from_incorrect_models"])
def waited(c):
    """a replayed execution has waited from when it was enabled, and not before that"""
    m, ei = lp(c), c.mod("execution_info")
    s, w, e = c.real("start", g=few), c.real("work", 0, g=few), c.real("enabled", g=few)
    ev = c.obj(ei.TaskEvent, started_at=BASE + c.delta(s), completed_at=BASE + c.delta(s + w), enabled_at=None)
    c.call(ev.update_enabling_times, BASE + c.delta(e))
    c.check("enabled at the given time, at the latest when it starts", c.eq(c.seconds(ev.enabled_at - BASE), c.min(s, e)))
    c.check("the time it waited", c.eq(ev.waiting_time, s - c.min(s, e)))
    c.check("the time it took", c.eq(ev.processing_time, w))


TRACES = {  # the entries of a case, in the order of time, and the executions they describe
    "one": (["A start", "A complete"], [("A", 0, 1)]),
    "overlapping": (["A assign", "B start", "A complete", "B complete"], [("A", 0, 2), ("B", 1, 3)]),
    "repeated": (["A start", "A complete", "A start", "A complete"], [("A", 0, 1), ("A", 2, 3)]),
    "with a start": (["begin start", "begin complete", "A start", "A complete"], [("A", 2, 3)]),
    "with others": (["Z start", "A start", "A COMPLETE", "Z complete"], [("A", 1, 2)]),
    "unfinished": (["A start", "B start", "B complete", "B start", "B complete"], [("B", 1, 2), ("B", 3, 4)]),
    "foreign": (["Z start", "Z complete"], []),
}


@unit("P24.executions", [D + "preprocess_xes_log", "prosimos.execution_info:Trace.start_event", "prosimos.execution_info:Trace.complete_event", D + "sort_by_completion_times",
                         "prosimos.execution_info:Trace.sort_by_completion_date", "prosimos.execution_info:Trace.filter_incomplete_events"],
      scope="two cases of seven kinds, at arbitrary times", secs=200)
def executions(c):
    """every completed execution of an activity of the model counts once, for its resource and in its case; the scenario is made of what is discovered from them"""
    m, cf = lp(c), c.mod("control_flow_manager")
    names = {"s": "begin", "e": "finish", "a": "A", "b": "B"}
    kinds = dict(zip("seab", (cf.BPMN.START_EVENT, cf.BPMN.END_EVENT, cf.BPMN.TASK, cf.BPMN.TASK)))
    graph = c.obj(cf.BPMNGraph, element_info=c.mkdict({k: cf.ElementInfo(kinds[k], k, names[k], None) for k in kinds}),
                  from_name={n: k for k, n in names.items()}, starting_event="s", end_event="e")
    what = [c.choice("case 1", list(TRACES)), c.choice("case 2", ["one", "foreign"] if c.symbolic else list(TRACES))]
    who = {"A": "Ann", "B": "Bob" if what[0] != "overlapping" else c.choice("resource of B", ["Ann", "Bob"]), "begin": "", "Z": "Zoe"}
    logs, want, entries = [], [], []
    for k, w in enumerate(what):
        t, times = c.real("first %d" % k, 0, 10 ** 8, g=few), []
        for i in range(len(TRACES[w][0])):
            times.append(t)
            t = t + c.real("step %d %d" % (k, i), 0, 10 ** 6, g=few)
        tr = m.CSVTrace("k%d" % k)
        for x, when in zip(TRACES[w][0], times):
            a, s = x.split()
            tr.add_event(a, s, who[a], BASE + c.delta(when))
            if a in "AB":
                entries.append((k, a, when))
        logs.append(tr)
        want.append([(a, times[i], times[j]) for a, i, j in TRACES[w][1]])
    asked = {}
    saved = []

    def tell(name, out):
        def f(*a, **kw):
            asked.setdefault(name, []).append(a)
            return out
        return f
    noted = []

    class Factory(Ghost):
        def __init__(self, minutes):
            self.minutes = minutes

        def check_date_time(self, r, t, when, *a):
            noted.append((r, t, when))

    class Thing(Ghost):
        def __init__(self, name):
            self.name = name

        def to_prosimos_distribution(self):
            return self.name + " for the scenario"

        def intervals_to_json(self):
            return self.name + " as intervals"
    replayed = []

    def reply(self, seq, freq, post, events):
        replayed.append((list(seq), freq, post, list(events)))
        return True, [], [], []
    c.patch(cf.BPMNGraph, "reply_trace", reply)
    c.patch(cf.BPMNGraph, "compute_branching_probability", lambda self, freq: (asked.setdefault("branching", []).append((freq,)), {"g": {"f1": .25, "f2": .75}})[1])
    c.patch(m, "CalendarFactory", Factory)
    c.patch(m, "parse_and_validate_input", tell("input", (graph, logs)))
    c.patch(m, "discover_resource_calendars", tell("calendars", ({"Ann": Thing("hours of Ann")}, {"A": ["Ann"]}, {"pooled": []}, {"A": "pool of A"}, {})))
    c.patch(m, "discover_arrival_calendar", tell("arrival calendar", Thing("arrivals")))
    observed = what[0] != "one" or c.choice("observed arrivals", [True, False])
    c.patch(m, "discover_arrival_time_distribution", tell("arrival times", Thing("gaps")))
    c.patch(m, "discover_resource_task_duration_distribution", tell("durations", {"A": "durations of A"}))
    c.patch(m, "build_resource_profiles", tell("profiles", "the profiles"))
    c.patch(m, "processing_times_json", tell("times", "the times"))
    c.patch(m, "save_json", lambda path, x: saved.append((path, x)))
    out = c.call(m.preprocess_xes_log, "log", "model", "target", 30, .1, .7, .3, True, True, 40, observed, raises=(m.InvalidLogFileException,))
    lost = [i for i in range(2) if not want[i]]
    total_, skipped = sum(len(TRACES[w][0]) for w in what), sum(x.split()[0] not in "AB" for w in what for x in TRACES[w][0])
    if len(lost) == 2 or skipped > total_ / 2:
        c.check("a log of mostly other events is refused", c.raised(out))
        return
    if c.raised(out):
        c.check("a log of mostly known executions is accepted", "unfinished" in what)
        return
    when = lambda d: c.seconds(d - BASE)
    c.check("read with the given limits", asked["input"] == [("log", "model", 30, .1, .7, .3, True)])
    first = asked["arrival calendar"][0][0]
    c.check("a case arrives with its first execution", sorted(first) == sorted("k%d" % k for k in range(2) if any(x[0] == k for x in entries)))
    for k in range(2):
        mine = [x[2] for x in entries if x[0] == k]
        if mine:
            c.check("when it begins", c.eq(when(first["k%d" % k]), mine[0]))
    c.check("the gaps are those of the same arrivals", asked["arrival times"][0][0] is first and asked["arrival times"][0][1].name == "arrivals" and asked["arrival times"][0][2] is observed)
    c.check("every known entry is an activity of its resource", len(noted) == len(entries) and all(r == who[a] and t == a for (r, t, _), (_, a, _) in zip(noted, entries)))
    c.check("at its time", c.and_(*[c.eq(when(x[2]), y[2]) for x, y in zip(noted, entries)]))
    tre = asked["calendars"][0][1]
    c.check("with the given limits", asked["calendars"][0][0].minutes == 30 and asked["calendars"][0][2:] == (.1, .7, .3))
    for a in "AB":
        mine = [x for w in want for x in w if x[0] == a]
        got = [e for r in tre.get(a, {}) for e in tre[a][r]]
        c.check("every completed execution once", len(got) == len(mine) and all(r == who[a] for r in tre.get(a, {})))
        c.check("from its start to its completion", c.and_(*[c.and_(c.eq(when(e.started_at), x[1]), c.eq(when(e.completed_at), x[2])) for e, x in zip(got, mine)]))
        c.check("of its activity and resource", all(e.task_id == a and e.resource_id == who[a] for e in got))
    full = [w for w in want if w]
    c.check("every case is replayed once", len(replayed) == len(full) and all(x[2] is True for x in replayed))
    for (seq, freq, _, evs), w in zip(replayed, full):
        c.check("with all its executions", [e.task_id for e in evs] == seq and sorted(seq) == sorted(x[0] for x in w))
        c.check("by the start", c.and_(*[c.seconds(y.started_at - x.started_at) >= 0 for x, y in zip(evs, evs[1:])]))
    c.check("one count for all", all(x[1] is replayed[0][1] for x in replayed) and asked["branching"] == [(replayed[0][1],)])
    d = asked["durations"][0]
    c.check("durations of the same executions", d[0] is tre and d[2] == {"A": ["Ann"]} and d[3] == {"pooled": []} and d[4] is True and d[5] == 40)
    c.check("one scenario", len(saved) == 1 and saved[0][0] == "target")
    s = saved[0][1]
    c.check("of everything discovered", s["resource_profiles"] == "the profiles" and s["task_resource_distribution"] == "the times" and s["arrival_time_calendar"] == "arrivals as intervals"
            and (s["arrival_time_distribution"].name == "gaps" if observed else s["arrival_time_distribution"] == "gaps for the scenario")
            and s["resource_calendars"] == [{"id": "Ann_timetable", "name": "Ann_timetable", "time_periods": "hours of Ann as intervals"}]
            and s["gateway_branching_probabilities"] == [{"gateway_id": "g", "probabilities": [{"path_id": "f1", "value": .25}, {"path_id": "f2", "value": .75}]}])


@unit("P24.discovered", [D + "preprocess_xes_log", D + "parse_csv", D + "save_json", "prosimos.simulation_engine:run_simulation"],
      bounded="the logs of whole simulations of random models without events, of at most 12 cases", search=20)
def discovered(c):
    """what is discovered from the log of a simulation describes this log, and can be simulated"""
    m, se = lp(c), c.mod("simulation_engine")
    r = sim.Run(c, n=c.rng.randint(4, 12), log_events=False, kinds=("and", "xor", "or", "loop"), events=False).go(stat=False)
    d = tempfile.mkdtemp(prefix="verif-p24-")
    path = lambda x: os.path.join(d, x)
    try:
        with open(path("m.bpmn"), "w") as f:
            f.write(r.m.xml())
        with open(path("l.csv"), "w", newline="") as f:
            csv.writer(f).writerows(r.raw)
        best = m.get_best_fitting_distribution

        def fitted(x):
            try:
                return best(x)
            except ValueError:  # of the library: it cannot fit everything
                return m.DurationDistribution(name="fix", mean=x[0], var=0.0, std=0.0, minimum=x[0], maximum=x[0])
        c.patch(m, "get_best_fitting_distribution", fitted)
        observed = c.choice("observed arrivals", [False, True])
        fit = c.choice("only working time", [False, True])
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out = c.call(m.preprocess_xes_log, path("l.csv"), path("m.bpmn"), path("o.json"), 60, .1, .7, .3, fit, True, 50, observed)
        with open(path("o.json")) as f:
            s = json.load(f)
        c.log["discovered"] = s
        names = {v: k for k, v in r.m.names.items()}
        for t, evs in out[7].items():
            mine = [x for x in r.rows if x["activity"] == t]
            c.check("every execution of the log", sorted((e.started_at.to_pydatetime(), e.completed_at.to_pydatetime()) for e in evs) == sorted((x["start_time"], x["end_time"]) for x in mine))
        c.check("every activity of the log", set(out[7]) == {x["activity"] for x in r.rows})
        for t, per in out[8].items():
            for who, evs in per.items():
                c.check("by its resource", len(evs) == sum(x["activity"] == t and x["resource"] == who for x in r.rows))
        profile = {p["id"]: {x["id"] for x in p["resource_list"]} for p in s["resource_profiles"]}
        times = {x["task_id"]: {y["resource_id"] for y in x["resources"]} for x in s["task_resource_distribution"]}
        c.check("a distribution for every resource of every activity", {t: profile[t] for t in profile} == times and set(times) == {names[x["activity"]] for x in r.rows})
        c.check("a calendar for every resource", {x["id"] for x in s["resource_calendars"]} >= {x["calendar"] for p in s["resource_profiles"] for x in p["resource_list"]})
        for g in s["gateway_branching_probabilities"]:
            got = [x["value"] for x in g["probabilities"]]
            c.check("shares of a decision", all(0 <= x <= 1 for x in got) and (abs(sum(got) - 1) < 1e-6 or not any(got)))
        if not observed and not fit:  # working times are those of a library, which takes some intervals for two thousand years
            with contextlib.redirect_stdout(io.StringIO()):
                c.call(se.run_simulation, path("m.bpmn"), path("o.json"), 3, None, path("again.csv"), r.start.isoformat())
            with open(path("again.csv")) as f:
                again = list(csv.DictReader(f))
            c.check("all cases are simulated", {x["case_id"] for x in again} == {"0", "1", "2"})
            c.check("by the resources that were discovered", all(x["resource"] in profile.get(names[x["activity"]], ()) for x in again))
    finally:
        shutil.rmtree(d)
