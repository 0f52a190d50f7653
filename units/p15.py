import csv
import datetime
import itertools
import os
import random
import tempfile

from pyvc.driver import unit
from units import sim

S = "prosimos.simulation_stats_calculator:"
L = S + "LogInfo."
BASE = datetime.datetime(2022, 1, 3, tzinfo=datetime.timezone.utc)
MAX = 1.7976931348623157e308


def amount(r):
    return r.choice([0, 1, 2.5, 3600, -1, -.5, r.randint(0, 50), r.uniform(0, 9)])


@unit("P15.indicator", [S + "KPIInfo.__init__", S + "KPIInfo.add_value"])
def indicator(c):
    """one more value on top of any indicator that summarises the non-negative values recorded so far: induction step; and the first value: its start"""
    st = c.mod("simulation_stats_calculator")
    k = c.call(st.KPIInfo)
    v = c.real("value", -MAX, MAX, g=amount)
    mn, mx, total, n = (c.real("min", 0, g=lambda r: 0.0), c.real("max", 0, g=lambda r: 0.0), c.real("total", 0, g=lambda r: 0.0), c.int("count", 0, g=lambda r: 0))
    if c.choice("values so far", ["none", "some"]) == "some":
        if not c.symbolic:
            xs = [abs(amount(c.rng)) for _ in range(3)] if c.rng is not None else [mn, mx]
            mn, mx, total, n = min(xs), max(xs), sum(xs), len(xs)
        c.assume(c.and_(n >= 1, mn <= mx, mn * n <= total, total <= mx * n))
        k.min, k.max, k.total, k.count, k.avg = mn, mx, total, n, c.div(total, n)
        before = (mn, mx, total, n)
        c.call(k.add_value, v)
        c.check("a negative value is not counted", c.implies(v < 0, lambda: c.and_(c.eq(k.min, mn), c.eq(k.max, mx), c.eq(k.total, total), c.eq(k.count, n))))
        c.check("count", c.implies(v >= 0, lambda: c.eq(k.count, n + 1)))
        c.check("total", c.implies(v >= 0, lambda: c.eq(k.total, total + v)))
        c.check("minimum", c.implies(v >= 0, lambda: c.eq(k.min, c.min(mn, v))))
        c.check("maximum", c.implies(v >= 0, lambda: c.eq(k.max, c.max(mx, v))))
    else:
        c.call(k.add_value, v)
        c.check("a negative value is not counted", c.implies(v < 0, lambda: c.and_(c.eq(k.count, 0), c.eq(k.total, 0), c.eq(k.avg, 0))))
        c.check("the first value", c.implies(v >= 0, lambda: c.and_(c.eq(k.count, 1), c.eq(k.total, v), c.eq(k.min, v), c.eq(k.max, v))))
    if c.symbolic:
        c.check("average times count is the total", c.implies(k.count >= 1, lambda: c.eq(k.avg * k.count, k.total)))
        c.check("the sum stays between", c.implies(k.count >= 1, lambda: c.and_(k.min * k.count <= k.total, k.total <= k.max * k.count)))
    elif k.count:
        c.check("average times count is the total", abs(k.avg * k.count - k.total) <= 1e-9 * max(1, k.total))
        c.check("between minimum and maximum", k.min - 1e-9 <= k.avg <= k.max + 1e-9)


@unit("P15.average", [S + "KPIInfo.set_average"])
def average(c):
    st = c.mod("simulation_stats_calculator")
    k = c.call(st.KPIInfo)
    k.total, k.count = c.real("total", 0), c.int("count", 0, g=lambda r: r.randint(0, 5))
    c.call(k.set_average)
    c.check("average", c.eq(k.avg, c.ite(k.count > 0, lambda: c.div(k.total, k.count), 0)))


def union(c, ivs, length):
    """length of the union: inclusion and exclusion"""
    total = 0
    for r in range(1, len(ivs) + 1):
        for sub in itertools.combinations(ivs, r):
            a, b = sub[0]
            for x, y in sub[1:]:
                a, b = c.max(a, x), c.min(b, y)
            part = c.ite(b > a, lambda a=a, b=b: length(a, b), 0)
            total = total + part if r % 2 else total - part
    return total


@unit("P15.union", S + "sum_interval_union", scope="at most 4 intervals, with arbitrary ends; more only by search", secs=150)
def union_(c):
    """however the intervals overlap, nest or touch"""
    st = c.mod("simulation_stats_calculator")
    n = c.choice("intervals", [0, 1, 2, 3, 4] if c.symbolic else [0, 1, 2, 3, 4, 5, 6, 7])
    g = lambda r: r.choice([0, 10, 20, r.randint(0, 40), r.randint(0, 4000) / 8])
    ivs = [(c.real("a%d" % i, g=g), c.real("l%d" % i, 0, g=g)) for i in range(n)]
    ivs = [(a, a + l) for a, l in ivs]
    objs = c.mklist([c.obj(st.Interval, start=BASE + c.delta(a), end=BASE + c.delta(b), duration=b - a) for a, b in ivs])
    r = c.call(st.sum_interval_union, objs)
    want = union(c, ivs, lambda a, b: b - a)
    c.check("the length of the union, to the microsecond", c.and_(r - want <= 1e-6, want - r <= 1e-6))
    c.check("the intervals are left as they are", c.and_(c.eq(c.len(objs), n), *[c.and_(c.eq(c.seconds(c.at(objs, i).start - BASE), a), c.eq(
        c.seconds(c.at(objs, i).end - BASE), b)) for i, (a, b) in enumerate(ivs)]))


@unit("P15.working_intervals", S + "working_intervals", unroll=4, scope="tasks that touch at most three days, two working intervals per weekday")
def working_intervals(c):
    """an instant of the task is worked exactly if it lies in a working interval of its weekday"""
    st, cf = c.mod("simulation_stats_calculator"), c.mod("control_flow_manager")
    day = c.choice("weekday", [0, 6] if c.symbolic else range(7))
    g = lambda r: float(r.choice([0, 3600, 30600, r.randint(0, 86399)]))
    a = c.real("from", 0, g=g)
    c.assume(a < 86400)
    days = c.choice("days", [0, 1, 2])
    b = (a if days == 0 else days * 86400) + c.real("to", 0, g=lambda r: r.choice([0, 1, 3600, r.randint(0, 40000)]) * 1.0)
    c.assume(b < (days + 1) * 86400)
    new_day = datetime.datetime(2020, 1, 1)
    h = lambda r: float(r.choice([0, 3600, 14400, r.randint(1, 40000)]))
    table = {}
    for k in range(7):
        table[k] = []
        if (k - day) % 7 <= 2:
            last = 0
            for j in range(c.choice("intervals %d" % k, [0, 1, 2] if k == day else [1])):
                x, y = last + c.real("gap %d %d" % (k, j), 0, g=h), c.real("length %d %d" % (k, j), 0, g=h)
                y = x + y
                c.assume(c.and_(x < y, y <= 86400))
                last = y
                table[k].append((x, y))
    shifts = c.mkdict({k: c.mklist([c.obj(st.Interval, start=new_day + c.delta(x), end=new_day + c.delta(y), duration=y - x) for x, y in v]) for k, v in table.items()})
    at = datetime.datetime(2022, 1, 3, tzinfo=datetime.timezone.utc) + datetime.timedelta(days=day)
    r = c.call(st.working_intervals, c.obj(Cal, new_day=new_day, work_intervals=shifts), at + c.delta(a), at + c.delta(b))
    ivs = [(c.seconds(iv.start - at), c.seconds(iv.end - at)) for iv in list(r)]
    t = c.real("instant", 0, g=g)
    c.assume(c.and_(a <= t, t < b))
    on = c.or_(False, *[c.and_(d * 86400 + x <= t, t < d * 86400 + y) for d in range(3) for x, y in table[(day + d) % 7]])
    c.check("worked exactly in the shifts", c.iff(c.or_(False, *[c.and_(x <= t, t < y) for x, y in ivs]), on))
    c.check("no time outside the task", c.and_(True, *[c.and_(a <= x, x < y, y <= b) for x, y in ivs]))


class Cal:
    """a crisp calendar: which parts of an interval are on duty is arbitrary"""


@unit("P15.case", L + "compute_execution_times", scope="cases of at most 3 executed activities and events")
def case(c):
    st, ei, cf = c.mod("simulation_stats_calculator"), c.mod("execution_info"), c.mod("control_flow_manager")
    ss, rp = c.mod("simulation_setup"), c.mod("resource_profile")
    fuzzy = c.choice("model", ["CRISP", "FUZZY"])
    n = c.choice("executed", [0, 1, 2, 3])
    asked, evs = [], []
    g = lambda r: float(r.choice([0, 5, 3600, 100000]))

    def idle(cal, a, b):
        asked.append((cal.name, a, b))
        return c.mklist([("on duty", len(asked))])
    c.patch(st, "working_intervals", idle)  # its contract: P15.working_intervals
    cals = {k: c.obj(Cal, name=k) for k in ("c1", "c2")}
    setup = c.obj(ss.SimDiffSetup, calendars_map=c.mkdict(cals), resources_map=c.mkdict(
        {"r%d" % i: c.obj(rp.ResourceProfile, calendar_id="c%d" % i) for i in (1, 2)}))
    for i in range(n):
        t = [c.real("%s %d" % (x, i), 0, g=g) for x in ("enabled", "wait", "work")]
        kind = c.choice("kind %d" % i, ["task 1", "task 2", "event"])
        e = c.obj(ei.TaskEvent, type=cf.BPMN.INTERMEDIATE_EVENT if kind == "event" else cf.BPMN.TASK, enabled_datetime=BASE + c.delta(t[0]),
                  started_datetime=BASE + c.delta(t[0] + t[1]), completed_datetime=BASE + c.delta(t[0] + t[1] + t[2]), task_id="t%d" % i)
        if kind != "event":
            e.resource_id = "r" + kind[-1]
            e.worked_intervals = c.mklist([("worked", i, 0), ("worked", i, 1)])
        evs.append((kind, e))
    start, span = BASE, c.real("span", 0, g=g)
    tr = c.obj(ei.Trace, p_case=0, started_at=start, completed_at=start + c.delta(span), event_list=c.mklist([e for _, e in evs]))
    sums = {}

    def total(ivs):
        ivs = list(ivs)
        kind = "none" if not ivs else "real" if isinstance(ivs[0], tuple) else None
        if kind is None:
            kind = "processing" if all(same(c, iv, e.started_datetime, e.completed_datetime) for iv, (_, e) in zip(ivs, evs)) else "waiting"
            if kind in sums and "waiting" not in sums:
                kind = "waiting"
        sums.setdefault(kind, []).append(ivs)
        return vals[kind]
    work, idle_ = c.real("working", 0, g=g), c.real("resting", 0, g=g)
    vals = {"none": 0, "real": work, "processing": work + idle_, "waiting": c.real("waiting", 0, g=g)}
    c.patch(st, "sum_interval_union", total)
    info = c.obj(st.LogInfo, sim_setup=setup)
    kpi = c.obj(st.KPIMap)
    got = {}
    for x in ("cycle_time", "processing_time", "waiting_time", "idle_cycle_time", "idle_processing_time", "idle_time", "duration", "cost"):
        setattr(kpi, x, c.obj(Cal, name=x))
    c.patch(Cal, "add_value", lambda self, v: got.setdefault(self.name, []).append(v))
    c.call(info.compute_execution_times, tr, kpi, fuzzy)
    tasks = [(k, e) for k, e in evs if k != "event"]
    for name, pick in (("processing", lambda e: (e.started_datetime, e.completed_datetime)), ("waiting", lambda e: (e.enabled_datetime, e.started_datetime))):
        if n:
            c.check("%s: one interval per executed activity or event" % name, any(len(ivs) == n and all(
                same(c, iv, *pick(e)) for iv, (_, e) in zip(ivs, evs)) for ivs in sums.get("processing", []) + sums.get("waiting", [])))
    if fuzzy == "FUZZY":
        real = [("worked", i, j) for i, (k, e) in enumerate(evs) if k != "event" for j in (0, 1)]
        c.check("work: the booked intervals of the activities", sums.get("real", [[]]) == [real] and not asked)
    else:
        c.check("work: the on-duty parts of the activities under the calendars of their resources", len(asked) == len(tasks) and all(
            name == "c" + k[-1] and c.truth(c.and_(c.eq(a, e.started_datetime), c.eq(b, e.completed_datetime))) for (name, a, b), (k, e) in zip(asked, tasks)))
    p, w, q = (vals["processing"] if n else 0), (vals["waiting"] if n else 0), (work if tasks else 0)
    tol = 1e-5
    near = lambda x, y: c.and_(x - y <= tol, y - x <= tol)
    c.check("each once", all(len(v) == 1 for v in got.values()) and len(got) == 6)
    one = lambda k: got[k][0]
    c.check("cycle time with idle time is the span of the case", near(one("idle_cycle_time"), span))
    c.check("processing time with idle time", near(one("idle_processing_time"), p))
    c.check("processing time", near(one("processing_time"), q))
    c.check("waiting time", near(one("waiting_time"), w))
    c.check("idle time is the difference", near(one("idle_time"), p - q))
    c.check("cycle time", near(one("cycle_time"), span - (p - q)))


def same(c, iv, a, b):
    return c.truth(c.and_(c.eq(iv.start, a), c.eq(iv.end, b)))


@unit("P15.activity", [L + "add_event_info", L + "_update_global_task_stats", S + "KPIMap.__init__"], scope="two cases, two activities, each already executed or not")
def activity(c):
    st, ei = c.mod("simulation_stats_calculator"), c.mod("execution_info")
    g = lambda r: float(r.choice([0, 5, 3600, 100000]))
    A = lambda x: BASE + c.delta(x)
    s0, e0 = c.real("first start", 0, g=g), c.real("last end", 0, g=g)
    d0 = [c.real("case %d until" % i, 0, g=g) for i in (0, 1)]
    traces = [c.obj(ei.Trace, p_case=i, started_at=BASE, completed_at=A(d0[i]), event_list=c.mklist(["before"])) for i in (0, 1)]
    got = {}

    class Ind:
        def __init__(self, t, x):
            self.t, self.x = t, x

        def add_value(self, v):
            got.setdefault((self.t, self.x), []).append(v)
    c.patch(st, "KPIInfo", lambda: Ind("new", None))
    FIELDS = ("cycle_time", "processing_time", "waiting_time", "idle_cycle_time", "idle_processing_time", "idle_time", "cost")

    def kpi(t):
        m = c.obj(st.KPIMap)
        for x in FIELDS + ("duration",):
            setattr(m, x, Ind(t, x))
        return m
    t = c.choice("activity", ["t1", "t2"])
    known = c.choice("seen before", [[], ["t1"], ["t2"], ["t1", "t2"]])
    info = c.obj(st.LogInfo, started_at=A(s0), ended_at=A(e0), trace_list=c.mklist(list(traces)), task_exec_info=c.mkdict({k: kpi(k) for k in known}), sim_setup=None)
    case = c.choice("case", [0, 1])
    st_, du = c.real("started", 0, g=g), c.real("took", 0, g=g)
    ev = c.obj(ei.TaskEvent, p_case=case, task_id=t, started_datetime=A(st_), completed_datetime=A(st_ + du))
    vals = {x: c.real(x, 0, g=g) for x in FIELDS if x != "cost"}
    for x, v in vals.items():
        setattr(ev, x, v)
    price = c.real("cost per hour", 0, g=lambda r: r.choice([0, 1, 35.5]))
    if t not in known:
        fresh = kpi(t)
        c.patch(st, "KPIMap", lambda: fresh)
    c.call(info.add_event_info, case, ev, price)
    c.check("recorded in its case, in order", list(traces[case].event_list) == ["before", ev] and list(traces[1 - case].event_list) == ["before"])
    c.check("the case ends with its last activity", c.and_(c.eq(c.seconds(traces[case].completed_at - BASE), c.max(d0[case], st_ + du)),
                                                           c.eq(c.seconds(traces[1 - case].completed_at - BASE), d0[1 - case])))
    c.check("the simulation spans all activities", c.and_(c.eq(c.seconds(info.started_at - BASE), c.min(s0, st_)), c.eq(c.seconds(info.ended_at - BASE), c.max(e0, st_ + du))))
    c.check("counted for this activity only, each indicator once", set(got) == {(t, x) for x in FIELDS} and all(len(v) == 1 for v in got.values()))
    for x in FIELDS:
        want = vals[x] if x != "cost" else c.div(price * vals["processing_time"], 3600)
        v = got[(t, x)][0]
        c.check("the %s of the activity" % x, c.eq(v, want) if c.symbolic else abs(v - want) <= 1e-9 * max(1, abs(want)))
    c.check("no other activity appears", sorted(info.task_exec_info.keys()) == sorted(set(known) | {t}))


@unit("P15.own_indicators", S + "KPIMap.__init__")
def own_indicators(c):
    st = c.mod("simulation_stats_calculator")
    m = c.call(st.KPIMap)
    vs = list(vars(m).values())
    c.check("every indicator has its own values", len({id(v) for v in vs}) == len(vs) == 8)


@unit("P15.utilization", ["prosimos.simulation_engine:SimBPMEnv.get_utilization_for", S + "compute_resource_utilization", S + "compute_resorce_availability", S + "save_resource_utilization"],
      scope="three resources of two calendars")
def utilization(c):
    st, se, ss, rp = (c.mod(x) for x in ("simulation_stats_calculator", "simulation_engine", "simulation_setup", "resource_profile"))
    g = lambda r: float(r.choice([0, 5, 3600, 100000]))
    ids = ["r1", "r2", "r3"]
    worked = {r: c.real("worked %s" % r, 0, g=g) for r in ids}
    tasks = {r: c.int("tasks %s" % r, 0, g=lambda r: r.randint(0, 9)) for r in ids}
    avail = {k: c.real("duty %s" % k, 0, g=g) for k in ("c1", "c2")}
    a, span = c.real("from", 0, g=g), c.real("span", 0, g=g)
    s, e = BASE + c.delta(a), BASE + c.delta(a + span)
    asked = []
    c.patch(Cal, "find_working_time", lambda self, x, y: asked.append((self.calendar_id, x, y)) or avail[self.calendar_id])
    cals = {k: c.obj(Cal, calendar_id=k) for k in avail}
    of = {"r1": "c1", "r2": "c2", "r3": c.choice("calendar of the third", ["c1", "c2"])}
    c.patch(ss.SimDiffSetup, "get_resource_calendar", lambda self, r: cals[of[r]])
    prof = {r: c.obj(rp.ResourceProfile, resource_name=r + "name", pool_info=c.obj(Cal, pool_id="p" + r, pool_name="pn" + r)) for r in ids}
    setup = c.obj(ss.SimDiffSetup, model_type="CRISP", resources_map=c.mkdict(prof))
    rs = {r: c.obj(se.SimResource, allocated_tasks=tasks[r], worked_time=worked[r], available_time=0, switching_time=0, last_released=0) for r in ids}
    rows = []
    c.patch(Cal, "writerow", lambda self, x: rows.append(list(x)))
    env = c.obj(se.SimBPMEnv, sim_setup=setup, sim_resources=c.mkdict(rs), log_info=c.obj(st.LogInfo, started_at=s, ended_at=e), stat_fwriter=c.obj(Cal))
    ratio = lambda r: c.ite(c.eq(avail[of[r]], 0), -1, lambda: c.div(worked[r], avail[of[r]]))
    if c.choice("report", ["object", "file"]) == "object":
        out = c.call(st.compute_resource_utilization, env)
        c.check("every resource", sorted(out.keys()) == ids)
        for r in ids:
            k = pick(out, r)
            c.check("worked and available time under their own names", c.and_(c.eq(k.worked_time, worked[r]), c.eq(k.available_time, avail[of[r]])))
            c.check("profile and tasks", k.r_profile is prof[r] and c.eq(k.task_allocated, tasks[r]))
            c.check("utilisation is worked over available time", c.eq(k.utilization, ratio(r)))
    else:
        c.call(st.save_resource_utilization, env)
        h = [i for i, x in enumerate(rows) if x and x[0] == "Resource ID"]
        c.check("one table", len(h) == 1)
        head = rows[h[0]]
        body = rows[h[0] + 1:h[0] + 4]
        c.check("every resource", [x[0] for x in body] == ids and all(len(x) == len(head) for x in body))
        for x, r in zip(body, ids):
            d = dict(zip(head, x))
            c.check("worked and available time under their own names", c.and_(c.eq(d["Worked Time (seconds)"], worked[r]), c.eq(d["Available Time (seconds)"], avail[of[r]])))
            c.check("profile and tasks", d["Resource name"] == r + "name" and d["Pool ID"] == "p" + r and d["Pool name"] == "pn" + r and c.eq(d["Tasks Allocated"], tasks[r]))
            if not c.symbolic:
                c.check("utilisation is worked over available time", float(d["Utilization Ratio"]) == ratio(r))
    c.check("availability over the span of the simulation", asked and all(c.truth(c.and_(c.eq(x, s), c.eq(y, e))) for _, x, y in asked))


def pick(d, k):
    return dict(list(d.items()))[k]


@unit("P15.fuzzy_availability", S + "compute_fuzzy_availability", scope="at most 3 worked intervals, of two resources")
def fuzzy_availability(c):
    """time worked counts in full, the rest of the simulation by the estimate of the calendar"""
    st, se, ss, ei, cf = (c.mod(x) for x in ("simulation_stats_calculator", "simulation_engine", "simulation_setup", "execution_info", "control_flow_manager"))
    g = lambda r: float(r.choice([0, 5, 7, 3600]))
    span = c.real("span", 0, g=lambda r: 20000.0)
    n = c.choice("intervals", [0, 1, 2, 3])
    ivs, evs = [], []
    for i in range(n):
        a, l = c.real("a%d" % i, 0, g=g), c.real("l%d" % i, 0, g=g)
        c.assume(a + l <= span)
        iv = c.obj(st.Interval, start=BASE + c.delta(a), end=BASE + c.delta(a + l), duration=l)
        r = c.choice("resource %d" % i, ["r1", "r2"]) if i == 2 else "r1"
        ivs.append((r, a, a + l))
        evs.append(c.obj(ei.TaskEvent, type=cf.BPMN.TASK, resource_id=r, worked_intervals=c.mklist([iv])))
    if c.choice("events", [False, True]):
        evs.append(c.obj(ei.TaskEvent, type=cf.BPMN.INTERMEDIATE_EVENT))
    traces = [c.obj(ei.Trace, event_list=c.mklist(evs[:1])), c.obj(ei.Trace, event_list=c.mklist(evs[1:]))]
    A = (lambda x: c.uf("duty until", [x], c.Real)) if c.symbolic else (lambda x: x / 4)
    cals = {r: c.obj(Cal, r=r) for r in ("r1", "r2")}

    def est(self, x, y):
        a, b = c.seconds(x - BASE), c.seconds(y - BASE)
        c.check("estimated forwards in time", c.and_(a <= b, a >= 0, b <= span))
        return A(b) - A(a)
    c.patch(Cal, "estimate_available_time", est)
    c.patch(ss.SimDiffSetup, "get_resource_calendar", lambda self, r: cals[r])
    rs = {r: c.obj(se.SimResource, allocated_tasks=0, worked_time=0, available_time=0, switching_time=0, last_released=0) for r in cals}
    env = c.obj(se.SimBPMEnv, sim_setup=c.obj(ss.SimDiffSetup, model_type="FUZZY", resources_map=c.mkdict({"r1": 1, "r2": 2})), sim_resources=c.mkdict(rs),
                log_info=c.obj(st.LogInfo, started_at=BASE, ended_at=BASE + c.delta(span), trace_list=c.mklist(traces)))
    c.call(st.compute_fuzzy_availability, env)
    for r in cals:
        mine = [(a, b) for x, a, b in ivs if x == r]
        want = A(span) - A(c.real('origin', 0, 0)) - union(c, mine, lambda a, b: A(b) - A(a)) + union(c, mine, lambda a, b: b - a)
        c.check("worked time and the estimate of the rest", c.eq(rs[r].available_time, want))


@unit("P15.tables", [L + "compute_individual_task_stats", L + "compute_full_simulation_statistics", L + "compute_process_kpi", L + "save_start_end_dates"],
      scope="two activities, two cases")
def tables(c):
    """every value under its own heading"""
    st, ss, cf, ei, se = (c.mod(x) for x in ("simulation_stats_calculator", "simulation_setup", "control_flow_manager", "execution_info", "simulation_engine"))
    FIELDS = {"cycle_time": "Cycle Time", "processing_time": "Processing Time", "waiting_time": "Waiting Time", "idle_cycle_time": "Idle Cycle Time",
              "idle_processing_time": "Idle Processing Time", "idle_time": "Idle Time", "cost": "Cost", "duration": "Duration"}

    def kpi(t):
        m = c.obj(st.KPIMap)
        for x in FIELDS:
            k = c.obj(st.KPIInfo, count=c.int("%s %s n" % (t, x), 0) if x != "cycle_time" else c.int("%s count" % t, 0))
            for y in ("min", "max", "avg", "total"):
                setattr(k, y, c.real("%s %s %s" % (t, x, y), g=lambda r: r.random()))
            setattr(m, x, k)
        return m
    maps = {t: kpi(t) for t in ("t1", "t2")}
    rows = []
    c.patch(Cal, "writerow", lambda self, x: rows.append(list(x)))
    w = c.obj(Cal)
    names = {"t1": c.str("n1"), "t2": c.str("n2")}
    setup = c.obj(ss.SimDiffSetup, model_type="CRISP", bpmn_graph=c.obj(cf.BPMNGraph, element_info=c.mkdict({t: c.obj(cf.ElementInfo, name=x) for t, x in names.items()})))
    tr = [c.obj(ei.Trace, p_case=i) for i in (0, 1)]
    info = c.obj(st.LogInfo, task_exec_info=c.mkdict(maps), sim_setup=setup, trace_list=c.mklist(tr), started_at=BASE, ended_at=BASE + datetime.timedelta(1))
    what = c.choice("table", ["activities", "process", "object", "dates"])
    seen = []
    proc = kpi("process")
    c.patch(st.LogInfo, "compute_execution_times", lambda self, t, k, m="CRISP": seen.append((t, k, m)))
    c.patch(st, "KPIMap", lambda: proc)
    if what == "activities":
        c.call(info.compute_individual_task_stats, w)
        h = [i for i, x in enumerate(rows) if x and x[0] == "Name"][0]
        head, body = rows[h], rows[h + 1:]
        c.check("one row per activity", len(body) == 2 and all(len(b) == len(head) for b in body))
        for b, t in zip(body, ("t1", "t2")):
            d = dict(zip(head, b))
            c.check("name and count", c.and_(c.eq(d["Name"], names[t]), c.eq(d["Count"], maps[t].cycle_time.count)))
            for x, X in FIELDS.items():
                for y, Y in (("min", "Min"), ("max", "Max"), ("avg", "Avg"), ("total", "Total")):
                    c.check("under its own heading", c.eq(d["%s %s" % (Y, X)], getattr(getattr(maps[t], x), y)))
    elif what == "process":
        c.call(info.compute_full_simulation_statistics, w, "CRISP")
        h = [i for i, x in enumerate(rows) if x and x[0] == "KPI"][0]
        head, body = rows[h], rows[h + 1:]
        c.check("every indicator once", sorted(b[0] for b in body) == sorted(x for x in FIELDS if x not in ("cost", "duration")))
        for b in body:
            d, k = dict(zip(head, b)), getattr(proc, b[0])
            c.check("under its own heading", c.and_(c.eq(d["Min"], k.min), c.eq(d["Max"], k.max), c.eq(d["Average"], k.avg), c.eq(d["Accumulated Value"], k.total),
                                                     c.eq(d["Trace Ocurrences"], 2)))
    elif what == "object":
        c.patch(st, "compute_resource_utilization", lambda e: "resources")
        out = c.call(info.compute_process_kpi, c.obj(se.SimBPMEnv, sim_setup=setup))
        c.check("process, activities, resources, start and end", out[0] is proc and out[1] is info.task_exec_info and out[2] == "resources" and out[3] is info.started_at
                and out[4] is info.ended_at)
    else:
        c.call(info.save_start_end_dates, w)
        c.check("start and end", rows[:2] == [["started_at", str(info.started_at)], ["completed_at", str(info.ended_at)]])
    if what in ("process", "object"):
        c.check("every case once, into one set of indicators", len(seen) == 2 and seen[0][0] is tr[0] and seen[1][0] is tr[1] and all(k is proc and m == "CRISP" for _, k, m in seen))


@unit("P15.reloaded", ["prosimos.simulation_stats:load_diff_simulation_results", "prosimos.simulation_stats:SimulationResult.update_resource_utilization",
                       "prosimos.simulation_stats:SimulationResult.get_kpi_ref_list", S + "KPIInfo.set_values", L + "save_joint_statistics"],
      scope="two activities, two resources of one or two pools")
def reloaded(c):
    """what is read back from a statistics file are the figures that were written to it"""
    st, ss, cf, ei, se, rp, mod = (c.mod(x) for x in ("simulation_stats_calculator", "simulation_setup", "control_flow_manager", "execution_info", "simulation_engine",
                                                      "resource_profile", "simulation_stats"))
    OWN = ("cycle_time", "processing_time", "waiting_time", "idle_cycle_time", "idle_processing_time", "idle_time")

    def kpi(t):
        m = st.KPIMap()
        for x in OWN + ("cost", "duration"):
            for y in ("min", "max", "avg", "total"):
                setattr(getattr(m, x), y, c.real("%s %s %s" % (t, x, y), 0, g=lambda r: r.random()))
            getattr(m, x).count = c.int("%s count" % t, 0)
        return m
    maps, proc = {t: kpi(t) for t in ("t1", "t2")}, kpi("process")
    rows = []
    c.patch(Cal, "writerow", lambda self, x: rows.append(list(x)))
    pools = ["p1", c.choice("pool of the second", ["p1", "p2"])]
    where = dict(zip(("r1", "r2"), pools))
    used = {"r1": .25, "r2": 0.0}
    rs = {r: c.obj(se.SimResource, allocated_tasks=c.int(r + " allocated", 0), worked_time=c.real(r + " worked", 0, 1e9), available_time=c.real(r + " available", 0, 1e9)) for r in where}
    profile = {r: c.obj(rp.ResourceProfile, resource_id=r, resource_name="name of " + r, pool_info=c.obj(rp.PoolInfo, pool_id=p, pool_name="pool " + p)) for r, p in where.items()}
    c.patch(st, "compute_resorce_availability", lambda e: None)
    c.patch(se.SimBPMEnv, "get_utilization_for", lambda self, r: used[r])
    tr = [c.obj(ei.Trace, p_case=i) for i in (0, 1)]
    setup = c.obj(ss.SimDiffSetup, model_type="CRISP", resources_map=c.mkdict(profile),
                  bpmn_graph=c.obj(cf.BPMNGraph, element_info=c.mkdict({t: c.obj(cf.ElementInfo, name="activity " + t) for t in maps})))
    a, b = datetime.datetime(2022, 3, 4, 5, 6, 7), datetime.datetime(2022, 3, 9, 23, 59, 58)
    info = c.obj(st.LogInfo, task_exec_info=c.mkdict(maps), sim_setup=setup, trace_list=c.mklist(tr), started_at=a, ended_at=b)
    c.patch(st.LogInfo, "compute_execution_times", lambda self, t, k, m="CRISP": None)
    make = st.KPIMap
    c.patch(st, "KPIMap", lambda: proc)
    env = c.obj(se.SimBPMEnv, sim_setup=setup, stat_fwriter=c.obj(Cal), log_info=info, sim_resources=c.mkdict(rs))
    c.call(info.save_joint_statistics, env)
    c.patch(st, "KPIMap", make)
    path = os.devnull

    def add(self, v):  # P15.indicator
        self.total, self.count = self.total + v, self.count + 1
    c.contract(st.KPIInfo, "add_value", add)
    if c.symbolic:
        c.patch(csv, "reader", lambda *x, **k: [list(r) for r in rows])
    else:
        fd, path = tempfile.mkstemp(prefix="verif-p15-")
        with os.fdopen(fd, "w", newline="") as f:
            csv.writer(f).writerows(rows)
    try:
        out = c.call(mod.load_diff_simulation_results, path)
    finally:
        if not c.symbolic:
            os.unlink(path)

    def same_(got, want, n, what):
        c.check(what, c.and_(c.eq(got.count, n), *[c.eq(getattr(got, y), getattr(want, y)) for y in ("min", "max", "avg", "total")]))
    for x in OWN:
        same_(getattr(out.process_kpi_map, x), getattr(proc, x), 2, "process, " + x)
    c.check("every activity", sorted(out.tasks_kpi_map) == ["activity t1", "activity t2"])
    for t, m in maps.items():
        got = out.tasks_kpi_map["activity " + t]
        for x in OWN + ("cost", "duration"):
            same_(getattr(got, x), getattr(m, x), m.cycle_time.count, "activity, " + x)
    c.check("every resource", sorted(out.resource_utilization) == ["name of r1", "name of r2"])
    for r, k in rs.items():
        n = "name of " + r
        g = out.resource_info[n]
        c.check("utilisation, allocated, worked, available, pool", c.and_(c.eq(out.resource_utilization[n], used[r]), c.eq(g[0], k.allocated_tasks), c.eq(g[1], k.worked_time),
                                                                          c.eq(g[2], k.available_time), g[3] == "pool " + where[r]))
    c.check("every pool", sorted(out.aggregated_pool_info) == sorted(set(pools)))
    for p in set(pools):
        mine, got = [r for r in where if where[r] == p], out.aggregated_pool_info[p]
        for x, y in (("kpi_allocated_tasks", "allocated_tasks"), ("kpi_worked_time", "worked_time"), ("kpi_available_time", "available_time"), ("kpi_utilization", None)):
            c.check("figures of the pool", c.and_(c.eq(getattr(got, x).total, sum(getattr(rs[r], y) if y else used[r] for r in mine)), c.eq(getattr(got, x).count, len(mine))))
    c.check("the period", str(out.started_at)[:19] == str(a) and str(out.ended_at)[:19] == str(b))


@unit("P15.simulated", [S + "LogInfo.save_joint_statistics", "prosimos.simulation_engine:run_simulation"],
      bounded="whole simulations of random models with random working hours")
def simulated(c):
    """the figures in the statistics file are the aggregates of the rows in the event log"""
    r = sim.Run(c, log_events=True).go()
    ids = {v["name"]: k for k, v in r.res.items()}
    same = lambda text, v: abs(float(text) - v) <= 1e-5 * max(1, abs(v))
    secs = lambda a, b: (b - a).total_seconds()
    part = {}
    for row in r.stats:
        if len(row) > 1:
            part.setdefault(row[0], []).append(row)
    c.check("simulated period", datetime.datetime.fromisoformat(part["started_at"][0][1]) == min(x["start_time"] for x in r.rows) and
            datetime.datetime.fromisoformat(part["completed_at"][0][1]) == max(x["end_time"] for x in r.rows))

    def figures(cells, vals):
        return same(cells[0], min(vals)) and same(cells[1], max(vals)) and same(cells[2], sum(vals) / len(vals)) and same(
            cells[3], sum(vals))

    head = part["Name"][0]
    at = {h: i for i, h in enumerate(head)}
    for t in r.m.tasks:
        rows = [x for x in r.rows if x["id"] == t]
        if not rows:
            c.check("no figures for a task that was not executed", r.m.names[t] not in part)
            continue
        row = part[r.m.names[t]][0]
        ideal = [r.work[t][ids[x["resource"]]] for x in rows]
        real = [secs(x["start_time"], x["end_time"]) for x in rows]
        wait = [secs(x["enable_time"], x["start_time"]) for x in rows]
        cost = [r.res[ids[x["resource"]]]["cost"] * d / 3600 for x, d in zip(rows, ideal)]
        c.check("number of executions", int(row[at["Count"]]) == len(rows))
        for kind, vals in (("Waiting Time", wait), ("Processing Time", ideal), ("Cycle Time", [a + b for a, b in zip(wait, ideal)]),
                           ("Idle Time", [a - b for a, b in zip(real, ideal)]), ("Idle Processing Time", real),
                           ("Idle Cycle Time", [a + b for a, b in zip(wait, real)]), ("Cost", cost)):
            c.check("figures of a task: %s" % kind, figures([row[at["%s %s" % (k, kind)]] for k in ("Min", "Max", "Avg", "Total")], vals))
    first, last = min(x["start_time"] for x in r.rows), max(x["end_time"] for x in r.rows)
    for who, v in r.res.items():
        row, week = part[who][0], r.weeks[v["cal"]]
        rows = [x for x in r.work_rows if x["resource"] == v["name"]]
        worked, avail = sum(r.work[x["id"]][who] for x in rows), overlap(week, first, last)
        c.check("figures of a resource", row[1] == v["name"] and int(row[3]) == len(rows) and same(row[4], worked) and
                row[6:8] == ["pool", "Pool"])
        c.check("available time of a resource", same(row[5], avail))
        c.check("utilisation of a resource", same(row[2], worked / avail if avail else -1))
    kpi = {k: [] for k in ("cycle_time", "processing_time", "idle_cycle_time", "idle_processing_time", "waiting_time", "idle_time")}
    for i in range(r.n):
        rows = r.case(i)
        span = secs(min(x["enable_time"] for x in rows), max(x["end_time"] for x in rows))
        busy = covered([(x["start_time"], x["end_time"]) for x in rows])
        work = covered([w for x in rows if x["id"] in r.work for w in shifts(
            r.weeks[r.res[ids[x["resource"]]]["cal"]], x["start_time"], x["end_time"])])
        for k, v in (("idle_cycle_time", span), ("idle_processing_time", busy), ("processing_time", work), ("idle_time", busy - work),
                     ("cycle_time", span - (busy - work)), ("waiting_time", covered([(x["enable_time"], x["start_time"]) for x in rows]))):
            kpi[k].append(v)
    for k, vals in kpi.items():
        c.check("figures of the process: %s" % k, figures(part[k][0][1:5], vals))


@unit("P15.files", ["prosimos.simulation_engine:run_simulation", "prosimos.simulation_engine:run_simpy_simulation", L + "compute_process_kpi"],
      bounded="whole simulations of random models without choices")
def files(c):
    """whichever files are asked for, they hold the same; without files the figures are returned"""
    r = sim.Run(c, kinds=()).go()  # parallel branches are taken in any order
    log, stats = r.raw, r.stats
    kind = c.choice("files", ["log", "statistics", "none"])
    r.go(stat=kind == "statistics", log=kind == "log")
    if kind == "log":
        c.check("the log alone", r.raw == log)
    elif kind == "statistics":
        c.check("the statistics alone", r.stats == stats)
    else:
        part = {x[0]: x for x in stats if len(x) > 1}
        kpi, tasks, use, first, last = r.result[0]
        c.check("the period", [str(first), str(last)] == [part["started_at"][1], part["completed_at"][1]])
        for k in ("cycle_time", "processing_time", "idle_cycle_time", "idle_processing_time", "waiting_time", "idle_time"):
            v = getattr(kpi, k)
            c.check("the figures of the process", [str(x) for x in (v.min, v.max, v.avg, v.total, v.count)] == part[k][1:])
        c.check("the figures of the tasks", all(str(tasks[t].waiting_time.total) in part[r.m.names[t]] for t in r.m.tasks if r.m.names[t] in part))
        c.check("the utilisation of the resources", all(abs(float(part[x][2]) - use[x].utilization) < 1e-9 for x in r.res))


def shifts(week, a, b):
    out, t = [], a
    while t < b:
        out += [(max(x, t), min(y, b)) for x, y in week.edges(t) if max(x, t) < min(y, b)]
        t += datetime.timedelta(days=14)
    return out


def covered(spans):
    """seconds covered by at least one of the spans"""
    out, end = 0, None
    for a, b in sorted(spans):
        if end is None or a > end:
            out, end = out + (b - a).total_seconds(), b
        elif b > end:
            out, end = out + (b - end).total_seconds(), b
    return out


def overlap(week, a, b):
    return covered(shifts(week, a, b))
