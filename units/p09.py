import datetime

from pyvc.driver import unit
from units import sim

E = "prosimos.simulation_engine:"
ENG = E + "SimBPMEnv."
S = "prosimos.simulation_setup:SimDiffSetup."
UTC = datetime.timezone.utc
BASE = datetime.datetime(2024, 1, 6, 9, tzinfo=UTC)


def when(r):
    return BASE + datetime.timedelta(seconds=r.choice([0, 1, 3600, 86399, 86400, 200000]) + r.randint(0, 99))


class Ghost:
    pass


def setup(c, now, open_now):
    """a scenario whose arrival distribution and calendar behave arbitrarily"""
    ss = c.mod("simulation_setup")
    d = c.real("sampled", 0, g=lambda r: r.choice([0, 1.5, 60, 3600]))
    kind = c.choice("distribution", ["function", "histogram"])
    if kind == "function":
        dist = c.obj(ss.DurationDistribution)
        c.patch(ss.DurationDistribution, "generate_sample", lambda self, n: c.mklist([d]))
    else:
        dist = c.obj(ss.HistogramDistribution)
        c.patch(ss.HistogramDistribution, "generate_value", lambda self: d)

    class Cal:
        def next_available_time(self, at):
            return c.uf("wait", [c.instant(at)], c.Real)

        def is_working_datetime(self, at):
            return c.truth(c.eq(c.instant(at), c.instant(now))) and open_now, None
    return c.obj(ss.SimDiffSetup, element_probability=c.mkdict({"arrivalTime": dist}), arrival_calendar=Cal(),
                 start_datetime=c.dt("created", g=when)), d


def delay(c, now, d):
    return d + c.uf("wait", [c.instant(now) + d], c.Real)


@unit("P09.inter_arrival", S + "next_arrival_time")
def inter_arrival(c):
    now = c.dt("now", g=when)
    s, d = setup(c, now, True)
    r = c.call(s.next_arrival_time, now)
    c.check("the sampled duration plus the wait until the calendar opens at that moment", c.eq(r, delay(c, now, d)))


@unit("P09.start", S + "set_starting_datetime")
def start(c):
    now = c.dt("requested", g=when)
    op = c.choice("open", [True, False])
    s, d = setup(c, now, op)
    c.assume(c.uf("wait", [c.instant(now) + d], c.Real) >= 0)
    c.call(s.set_starting_datetime, now)
    at = c.instant(s.start_datetime)
    c.check("at the requested instant if the calendar is open", c.implies(op, lambda: c.eq(at, c.instant(now))))
    c.check("otherwise one delay later", c.implies(not op, lambda: c.eq(at, c.instant(now) + delay(c, now, d))))


def env(c, **kw):
    se, ss = c.mod("simulation_engine"), c.mod("simulation_setup")
    s = c.obj(ss.SimDiffSetup, **kw)
    return se, s, c.obj(se.SimBPMEnv, sim_setup=s)


def gap(c, x):
    """what the scenario returns as the delay after an arrival at x"""
    return c.uf("gap", [x], c.Real if c.symbolic else c.Int)


def cases(V):
    c = V.c
    g = getattr(c, "ghost", None)
    if g is None:
        return
    l, t = g.cases, g.times
    yield "one per case", lambda: c.and_(c.eq(c.len(l), V.k), c.eq(c.len(t), V.k))
    yield "numbered", lambda: c.forall(0, V.k, lambda i: c.eq(c.at(l, i), i))
    given = getattr(c, "given", None)
    if given is not None:
        yield "as given", lambda: c.forall(0, V.k, lambda i: c.eq(c.at(t, i), c.at(given, i)))
    yield "first at zero", lambda: c.implies(V.k > 0, lambda: c.eq(c.at(t, 0), 0))
    yield "each a delay after the one before", lambda: c.forall(1, V.k, lambda i: c.eq(c.at(t, i), c.at(t, i - 1) + gap(c, c.at(t, i - 1))))
    for nm, x, e in V.nums():
        yield "next %s" % nm, lambda x=x: c.and_(c.implies(c.eq(V.k, 0), lambda: c.eq(x, 0)), c.implies(V.k > 0, lambda: c.eq(
            x, c.at(t, V.k - 1) + gap(c, c.at(t, V.k - 1)))))
        yield "next case %s" % nm, lambda x=x: c.eq(x, V.k)


def recorder(c, e, s):
    c.ghost = c.obj(Ghost, cases=c.mklist([]), times=c.mklist([]))
    zero = c.dt("zero", g=lambda r: BASE)

    def initial(setup, case, at):
        c.ghost.cases.append(case)
        c.ghost.times.append(at)
        return zero + c.delta(at)
    c.patch(e, "_update_initial_event_info", initial)
    c.patch(s, "next_arrival_time", lambda at: gap(c, c.instant(at) - c.instant(zero)))


@unit("P09.arrivals", ENG + "generate_all_arrival_events", inv=cases)
def arrivals(c):
    """any number of cases, any delays that are not negative"""
    n = c.int("cases", 0, g=lambda r: r.randint(0, 6))
    se, s, e = env(c, total_num_cases=n)
    recorder(c, e, s)
    c.call(e.generate_all_arrival_events)
    l, t = c.ghost.cases, c.ghost.times
    c.check("exactly the cases 0..N-1, each once, in order", c.and_(c.eq(c.len(l), n), c.forall(0, n, lambda i: c.eq(c.at(l, i), i))))
    c.check("offsets start at zero", c.implies(n > 0, lambda: c.eq(c.at(t, 0), 0)))
    c.check("each offset is the previous one plus the delay drawn there", c.forall(1, n, lambda i: c.eq(
        c.at(t, i), c.at(t, i - 1) + gap(c, c.at(t, i - 1)))))
    c.check("never decreasing when no delay is negative", c.forall(1, n, lambda i: c.implies(
        gap(c, c.at(t, i - 1)) >= 0, lambda: c.at(t, i) >= c.at(t, i - 1))))


@unit("P09.fixed", ENG + "generate_fixed_arrival_events", inv=cases)
def fixed(c):
    """any list of arrival times"""
    se, s, e = env(c)
    recorder(c, e, s)
    c.given = g = c.list("times", c.Real, g=lambda r: [r.choice([0, 5.5, 60, 7]) for _ in range(r.randint(0, 5))])
    c.call(e.generate_fixed_arrival_events, g)
    l, t = c.ghost.cases, c.ghost.times
    c.check("one case per time, numbered in order", c.and_(c.eq(c.len(l), c.len(g)), c.forall(0, c.len(g), lambda i: c.eq(c.at(l, i), i))))
    c.check("exactly the given times", c.forall(0, c.len(g), lambda i: c.eq(c.at(t, i), c.at(g, i))))


@unit("P09.first_events", ENG + "_update_initial_event_info", scope="at most 2 elements with recorded times and at most 2 tasks enabled at the start")
def first_events(c):
    se = c.mod("simulation_engine")
    cf = c.mod("control_flow_manager")
    case = c.int("case", 0, g=lambda r: r.randint(0, 3))
    at = c.real("arrival", 0, g=lambda r: r.choice([0, 60, 90000.5]))
    old = c.dict("recorded", c.Int, c.Opt(c.DT), g=lambda r: {k: r.choice([None, when(r)]) for k in range(3)})
    other = c.mkdict({})
    old0 = c.old(old)
    tasks = [c.obj(cf.EnabledTask, task_id=c.str("task%d" % i, pool=["t1", "t2"]), batch_info_exec=None,
                   duration_sec=c.choice("duration %d" % i, [None, 0, 30]), is_event=c.choice("event %d" % i, [True, False]))
             for i in range(c.choice("enabled", [0, 1, 2]))]
    updates, queued = [], []

    class Graph:
        pass
    g = c.obj(Graph, last_datetime=c.mkdict({"e1": old, "e2": other}), starting_event="s")

    class State:
        pass
    state = State()
    se, s, e = env(c, bpmn_graph=g, start_datetime=c.dt("start", g=lambda r: BASE))
    c.patch(s, "initial_state", lambda: state)
    c.patch(s, "update_process_state", lambda *a: updates.append(a) or (c.mklist(tasks), None))
    c.patch(e, "calc_priority_and_append_to_queue", lambda ev, arrival: queued.append((ev, arrival)))
    class Info:
        pass
    states = c.mkdict({})
    traces = c.mklist([])
    e.all_process_states, e.log_info = states, c.obj(Info, trace_list=traces)
    r = c.call(e._update_initial_event_info, s, case, at)
    start = c.instant(s.start_datetime)
    c.check("the arrival instant", c.eq(c.instant(r), start + at))
    c.check("a fresh state for the case, advanced from the start event at the arrival", len(updates) == 1 and c.and_(
        c.eq(updates[0][0], case), updates[0][1] == "s", updates[0][2] is state, c.eq(updates[0][3].seconds_from_start, at),
        c.eq(c.instant(updates[0][3].datetime), start + at)))
    c.check("the state is kept for the case", c.and_(c.eq(c.len(states), 1), [v for _, v in list(states.items())][0] is state,
                                                     c.has(states, case)))
    c.check("one trace for the case", c.eq(c.len(traces), 1) and c.and_(c.eq(c.at(traces, 0).p_case, case), c.eq(
        c.instant(c.at(traces, 0).started_at_datetime if hasattr(c.at(traces, 0), "started_at_datetime") else r), start + at)))
    c.check("nothing recorded for the new case, other cases untouched", c.and_(c.has(old, case), c.forall_int(lambda k: c.and_(
        c.implies(c.not_(c.eq(k, case)), lambda: c.iff(c.has(old, k), c.has(old0, k)))), dom=range(5))))
    c.check("not even elsewhere", c.has(other, case))
    c.check("exactly the enabled tasks arrive", len(queued) == len(tasks))
    for (ev, arrival), t in zip(queued, tasks):
        c.check("as an arrival of this case at its instant", c.and_(arrival is True, c.eq(ev.p_case, case), c.eq(ev.task_id, t.task_id), c.eq(
            ev.enabled_at, at), c.eq(c.instant(ev.enabled_datetime), start + at), ev.p_state is state, ev.is_inter_event == t.is_event,
            ev.duration_sec is None if t.duration_sec is None else c.eq(ev.duration_sec, t.duration_sec)))


@unit("P09.binned", "prosimos.histogram_distribution:HistogramDistribution.generate_value", scope="up to 4 bins")
def binned(c):
    hd = c.mod("histogram_distribution")
    n = c.choice("bins", [1, 2, 3, 4])
    cdf = [c.real("cdf%d" % i, 0, 1, g=lambda r: r.choice([0, .1, .25, .5, .9])) for i in range(n - 1)] + [1.0]
    if not c.symbolic:
        cdf.sort()
    for i in range(1, n):
        c.assume(cdf[i - 1] <= cdf[i])
    mid = [c.real("mid%d" % i, 0) for i in range(n)]
    u = c.real("u", 0, 1, g=lambda r: r.choice([0, .05, .1, .3, .5, .95]))
    c.assume(u < 1)

    class Rnd:
        def rand(self, k):
            return [u]

    class NP:
        random = Rnd()

        def searchsorted(self, a, v):
            for i in range(n):
                if c.truth(v <= a[i]):
                    return i
            return n
    c.patch(hd, "np", NP())
    h = c.obj(hd.HistogramDistribution, cdf=cdf, bin_midpoints=mid)
    r = c.call(h.generate_value)
    for i in range(n):
        c.check("a bin midpoint with its share", c.implies(c.and_(u <= cdf[i], *([u > cdf[i - 1]] if i else [])), lambda: c.eq(r, mid[i])))


@unit("P09.main_loop", E + "execute_full_process", unroll=True, scope="at most 4 events, of at most 2 cases, and a batch pending at the end of the queue or not")
def main_loop(c):
    """every queued event is executed exactly once, in order, until nothing is left"""
    se = c.mod("simulation_engine")
    done, log = [], []
    n = c.choice("events", [0, 1, 2, 3, 4])
    late = c.choice("released at the end", [0, 1]) if n else 0

    class Ev:
        pass
    evs = []
    for i in range(n + late):
        e = Ev()
        e.p_case = c.choice("case %d" % i, [0, 1])
        e.enabled_at, e.enabled_datetime = c.real("at%d" % i, 0), c.dt("dt%d" % i, g=when)
        evs.append(e)
    queue = evs[:n]

    class Queue:
        def pop_next_event(self):
            return queue.pop(0) if queue else None

        def peek(self):
            return queue[0] if queue else None

    class Env:
        def generate_all_arrival_events(self):
            log.append("all")

        def generate_fixed_arrival_events(self, t):
            log.append(("fixed", t))

        def execute_enabled_event(self, e):
            done.append(e)

        def append_any_enabled_batch_tasks(self, e):
            log.append(("batch", len(done), e))
            return []

        def execute_if_any_unexecuted_batch(self, t):
            log.append(("end", len(done), t))
            if len(done) == n and late:
                queue.append(evs[n])

    class Attr:
        name = "level"
        drawn = 0

        def get_next_value(self):
            Attr.drawn += 1
            return c.uf("level", [Attr.drawn], c.Real)
    a = Attr()
    Attr.drawn = 0
    glob = c.mkdict({"level": c.real("initial"), "other": c.real("other")})
    o0 = lookup(c, glob, "other")

    class X:
        pass
    env, sim, attrs, gca, graph = Env(), X(), X(), X(), X()
    env.sim_setup, env.events_queue = sim, Queue()
    sim.all_attributes, sim.bpmn_graph, attrs.global_case_attributes = attrs, graph, gca
    gca.attributes, graph.all_attributes = c.mklist([a]), c.mkdict({"global": glob})
    given = c.choice("given times", [True, False])
    times = c.mklist([]) if given else None
    c.call(se.execute_full_process, env, times)
    c.check("arrivals are generated first, once", log[:1] == [("fixed", times)] if given else log[:1] == ["all"])
    c.check("each event is executed once, in order", [id(e) for e in done] == [id(e) for e in evs])
    c.check("global case attributes are drawn at the first event of each case", c.and_(
        c.eq(a.drawn, len({e.p_case for e in done})), c.eq(lookup(c, glob, "other"), o0), c.eq(lookup(c, glob, "level"), c.uf(
            "level", [a.drawn], c.Real) if done else lookup(c, glob, "level"))))
    ends = [x for x in log if x[0] == "end"]
    c.check("pending batches are looked at whenever the queue runs empty", [x[1] for x in ends] == ([n, n + 1] if late else [n] if n else []))
    for x in ends:
        last = done[x[1] - 1]
        c.check("at the time of the last event", c.and_(c.eq(x[2].seconds_from_start, last.enabled_at), c.eq(x[2].datetime, last.enabled_datetime)))
    c.check("and batches due before every next event", [x[1:] for x in log if x[0] == "batch"] == [(i, evs[i]) for i in range(1, n)])


def lookup(c, m, k):
    for q, v in list(m.items()):
        if c.truth(c.eq(q, k)):
            return v
    return None


@unit("P09.default_calendar", S + "find_arrival_calendar", scope="models of at most 6 elements after the start event, at most 2 resources per task")
def default_calendar(c):
    """without an arrival calendar: the calendars of exactly the resources of the tasks reached first, each once"""
    ss, cf = c.mod("simulation_setup"), c.mod("control_flow_manager")
    T = cf.BPMN
    used = []

    class Cal:
        def __init__(self, name):
            self.name = name

        def combine_calendar(self, other):
            used.append(other)
    c.patch(ss, "RCalendar", Cal)
    kinds = {"s": T.START_EVENT, "g": c.choice("gateway", [T.EXCLUSIVE_GATEWAY, T.PARALLEL_GATEWAY]), "t1": T.TASK, "t2": T.TASK, "t3": T.TASK,
             "i": T.INTERMEDIATE_EVENT, "e": T.END_EVENT}
    arcs = {"direct": [("s", "t1"), ("t1", "t2"), ("t2", "e")], "split": [("s", "g"), ("g", "t1"), ("g", "i"), ("i", "t2"), ("t1", "t3"), ("t2", "t3"), ("t3", "e")],
            "event": [("s", "i"), ("i", "t2"), ("t2", "t1"), ("t1", "g"), ("g", "e")], "loop": [("s", "g"), ("g", "t1"), ("t1", "g"), ("g", "t3"), ("t3", "e")],
            "round": [("s", "g"), ("g", "i"), ("i", "g"), ("g", "t2"), ("t2", "t1"), ("t1", "e")]}
    first = {"round": ["t2"], "direct": ["t1"], "split": ["t1", "t2"], "event": ["t2"], "loop": ["t1", "t3"]}
    shape = c.choice("model", sorted(arcs))
    fl = {"f%d" % i: list(a) for i, a in enumerate(arcs[shape])}
    es = {k: c.obj(cf.ElementInfo, id=k, name=k, type=t, event_type=None, incoming_flows=c.mklist([f for f in fl if fl[f][1] == k]),
                   outgoing_flows=c.mklist([f for f in fl if fl[f][0] == k])) for k, t in kinds.items()}
    g = c.obj(cf.BPMNGraph, element_info=c.mkdict(es), starting_event="s", flow_arcs=c.mkdict({f: c.mklist(a) for f, a in fl.items()}))
    res = {t: [r for r in ("r1", "r2") if c.choice("%s may do %s" % (r, t), [True, False])] for t in ("t1", "t2", "t3")}

    class P:
        def __init__(self, i):
            self.calendar_id = i
    cals = {"c1": object(), "c2": object()}
    s = c.obj(ss.SimDiffSetup, bpmn_graph=g, task_resource=c.mkdict({t: c.mkdict({r: None for r in l}) for t, l in res.items()}),
              calendars_map=c.mkdict(cals), resources_map=c.mkdict({"r1": P("c1"), "r2": P("c2")}))
    r = c.call(s.find_arrival_calendar)
    want = [cals["c" + x[1]] for x in sorted({x for t in first[shape] for x in res[t]})]
    c.check("a calendar", isinstance(r, Cal))
    c.check("combined from exactly the starter resources", sorted(map(id, used)) == sorted(map(id, want)))


@unit("P09.simulated", [E + "SimBPMEnv.generate_all_arrival_events", "prosimos.simulation_setup:SimDiffSetup.next_arrival_time",
                        "prosimos.simulation_engine:run_simulation"],
      bounded="whole simulations of random models with random arrival calendars")
def simulated(c):
    """a simulation of n cases contains exactly the cases 0 to n-1, arriving one inter-arrival time after the other within the
    arrival calendar, or without one within the working hours of the resources of the tasks reached first"""
    r = sim.Run(c, n=c.rng.randint(1, 9), arrival=c.choice("arrival calendar", [True, False]), depth=1).go()
    c.check("exactly the requested cases", {x["case_id"] for x in r.rows} == {str(i) for i in range(r.n)})
    want = r.arrivals()
    for i in range(r.n):
        first = min(x["enable_time"] for x in r.case(i))
        if want:
            c.check("each case arrives when it should", first == want[i])


@unit("P09.given", [E + "SimBPMEnv.generate_fixed_arrival_events", "prosimos.simulation_engine:run_simulation"],
      bounded="whole simulations of random models with given arrivals")
def given(c):
    """given instants of arrival are those of the cases, in order"""
    r = sim.Run(c, n=c.rng.randint(1, 6), arrival=True, depth=1)
    at = [0]
    for _ in range(r.n - 1):
        at.append(at[-1] + c.rng.choice([0, 1, 600, 90000]))
    r.go(fixed=at)
    c.check("exactly the requested cases", {x["case_id"] for x in r.rows} == {str(i) for i in range(r.n)})
    want = r.arrivals()
    first = [min(x["enable_time"] for x in r.case(i)) for i in range(r.n)]
    for i in range(r.n):
        c.check("each case arrives when it should", (first[i] - first[0]).total_seconds() == at[i])
    if want:
        c.check("the first instant is that of the beginning", first[0] == want[0])


@unit("P09.histogram", ["prosimos.histogram_distribution:HistogramDistribution." + x for x in ("__init__", "from_dict", "generate_value")],
      scope="histograms of up to five bins, whatever their limits")
def histogram(c):
    """a value drawn from a histogram is the middle of the first bin that the uniform number drawn falls into"""
    hd = c.mod("histogram_distribution")
    n = c.choice("bins", [1, 2, 3, 5])
    cdf = [c.real("up to %d" % i, 0, 1, g=lambda r: r.choice([0, .25, .5, 1, r.random()])) for i in range(n)]
    mid = [c.real("middle %d" % i, 0, 9999) for i in range(n)]
    u = c.real("drawn", 0, 1, g=lambda r: r.choice([0, .25, .5, r.random()]))
    if not c.symbolic:
        cdf.sort()
        cdf[-1] = 1.0
    for a, b in zip(cdf, cdf[1:]):
        c.assume(a <= b)
    c.assume(c.eq(cdf[-1], 1))

    class Random:
        @staticmethod
        def rand(k=1):
            return [u] * k

    class Numpy:                     # assumed contract of numpy.searchsorted on an ascending list: the first position at which v fits
        random = Random

        @staticmethod
        def searchsorted(a, v, side="left"):
            i = 0
            while i < n and bool(c.truth(c.at(a, i) < v if side == "left" else c.at(a, i) <= v)):
                i += 1
            return i
    if c.symbolic:
        c.patch(hd, "np", Numpy)
    else:
        c.patch(hd.np.random, "rand", Random.rand)
    h = c.call(hd.HistogramDistribution.from_dict, c.mkdict({"distribution_name": "histogram_sampling", "histogram_data": c.mkdict(
        {"cdf": c.mklist(cdf), "bin_midpoints": c.mklist(mid)})}))
    r = c.call(h.generate_value)
    c.check("the middle of its bin", c.and_(*[c.implies(c.and_(u <= cdf[i], cdf[i - 1] < u if i else True), c.eq(r, mid[i])) for i in range(n)]))
