import datetime

from pyvc.driver import unit
from units import sim

E = "prosimos.simulation_engine:SimBPMEnv."
T = "prosimos.execution_info:TaskEvent."
S = "prosimos.simulation_setup:SimDiffSetup."
UTC = datetime.timezone.utc
BASE = datetime.datetime(2024, 1, 1, tzinfo=UTC)


def secs(r):
    return r.choice([0, 1, 60, 3600, 90000, 10 ** 6])


END = object()


def each(c, gen):
    while True:
        x = c.call(next, gen, END)
        if x is END:
            return
        yield x


class World:
    pass


@unit("P07.event", T + "__init__")
def event(c):
    """times of one executed task"""
    ei, se, ss = c.mod("execution_info"), c.mod("simulation_engine"), c.mod("simulation_setup")
    start = c.dt("start", g=lambda r: BASE)
    s = c.obj(ss.SimDiffSetup, start_datetime=start)
    env = c.obj(se.SimBPMEnv, sim_setup=s)
    ideal, extra = c.real("ideal", 0, g=secs), c.real("rest within", 0, g=secs)
    asked = []
    c.patch(ss.SimDiffSetup, "ideal_task_duration", lambda self, t, r, n: asked.append((t, r, n)) or ideal)
    c.patch(ss.SimDiffSetup, "real_task_duration", lambda self, d, r, at, iv: asked.append((d, r, at)) or ideal + extra)
    en, av = c.real("enabled", 0, g=secs), c.real("available", 0, g=secs)
    n = c.int("batch size", 0, g=lambda r: r.randint(0, 4))
    when = c.dt("enabled datetime")
    e = c.call(ei.TaskEvent, 7, "t1", "r1", av, en, when, env, n, "b")
    c.check("enabled as given", c.and_(c.eq(e.enabled_at, en), c.eq(e.enabled_datetime, when)))
    c.check("starts when both the case and the resource are ready", c.eq(e.started_at, c.max(en, av)))
    c.check("completes after its calendar-aware duration", c.eq(e.completed_at, e.started_at + ideal + extra))
    c.check("enabled, started, completed", c.and_(e.enabled_at <= e.started_at, e.started_at <= e.completed_at))
    for d, x in [(e.started_datetime, e.started_at), (e.completed_datetime, e.completed_at)]:
        c.check("datetimes denote the same instants", c.eq(c.instant(d) - c.instant(start), x))
    c.check("duration sampled once, for this task, resource and batch size", len(asked) == 2 and c.and_(
        asked[0][:2] == ("t1", "r1"), c.eq(asked[0][2], n)))
    c.check("calendar asked from the start on", c.and_(c.eq(asked[1][0], ideal), asked[1][1] == "r1", c.eq(
        c.instant(asked[1][2]) - c.instant(start), e.started_at)))
    c.check("durations reported", c.and_(c.eq(e.ideal_duration, ideal), c.eq(e.real_duration, ideal + extra)))
    c.check("idle", c.eq(e.idle_time, extra))
    c.check("waiting", c.eq(e.waiting_time, e.started_at - en))
    c.check("processing", c.and_(c.eq(e.idle_processing_time, ideal + extra), c.eq(e.processing_time, ideal)))
    c.check("cycle", c.and_(c.eq(e.idle_cycle_time, e.completed_at - en), c.eq(e.cycle_time, e.waiting_time + ideal)))
    c.check("who and what", c.and_(c.eq(e.p_case, 7), e.task_id == "t1", e.resource_id == "r1", e.batch_id == "b"))


def world(c, task="t1"):
    """arbitrary calendar, free resource and durations; observes what is executed"""
    ei, se, ss = c.mod("execution_info"), c.mod("simulation_engine"), c.mod("simulation_setup")
    qs, rp, st = c.mod("simulation_queues_ds"), c.mod("resource_profile"), c.mod("simulation_stats_calculator")
    fm, cr = c.mod("file_manager"), c.mod("fuzzy_engine.fuzzy_calendar")
    w = c.w = World()
    w.start = c.dt("start", g=lambda r: BASE)
    w.cost = c.real("cost", 0)
    w.prof = c.obj(rp.ResourceProfile, cost_per_hour=w.cost)
    w.setup = c.obj(ss.SimDiffSetup, start_datetime=w.start, multitask_info=None, resources_map=c.mkdict({"r1": w.prof}))
    w.res = c.obj(se.SimResource, switching_time=0, worked_time=c.real("worked", 0), allocated_tasks=c.int("allocated", 0))
    w.q, w.log, w.out = c.obj(qs.DiffResourceQueue), c.obj(st.LogInfo), c.obj(fm.FileManager)
    w.cal = c.obj(cr.FuzzyModel)
    w.env = c.obj(se.SimBPMEnv, sim_setup=w.setup, sim_resources=c.mkdict({"r1": w.res}), resource_queue=w.q, log_info=w.log,
                  log_writer=w.out)
    w.on = lambda d: c.uf("on duty", [c.instant(d)], c.Bool)
    w.rest = lambda d: c.max(c.uf("rest", [c.instant(d)], c.Real), 0)
    w.ghost = c.obj(World, avail=c.real("first free", 0), until=0, n=c.int("zero"), last=c.real("last"), groups=0, span=c.real("span"), freed=0, work=0, w0=w.res.worked_time)
    c.track(w.ghost, "ghost")
    P = c.patch
    P(qs.DiffResourceQueue, "pop_resource_for", lambda self, t: w.pop(t))
    P(qs.DiffResourceQueue, "update_resource_availability", lambda self, r, t: w.free(r, t))
    P(ss.SimDiffSetup, "get_resource_calendar", lambda self, r: w.cal if r == "r1" else None)
    P(cr.FuzzyModel, "is_working_datetime", lambda self, d: (w.on(d), None))
    P(ss.SimDiffSetup, "next_resting_time", lambda self, r, d: w.rest(d))
    P(st.LogInfo, "add_event_info", lambda self, k, e, cost: w.logged(k, e, cost))
    P(fm.FileManager, "add_csv_row", lambda self, row: w.row(row))
    P(se.SimBPMEnv, "get_csv_row_data", lambda self, e: e)
    P(se.SimBPMEnv, "update_attributes", lambda self, e: w.attrs(e))
    P(ss.SimDiffSetup, "ideal_task_duration", lambda self, t, r, n: w.ideal(t, r, n))
    P(ss.SimDiffSetup, "real_task_duration", lambda self, d, r, at, iv: w.real(d, r, at))
    return w


def ready(c, w, at):
    """first moment from `at` on at which the resource is on duty"""
    d = w.start + c.delta(at)
    return c.ite(w.on(d), at, lambda: at + w.rest(d))


@unit("P07.task", [E + "execute_task", E + "pop_and_allocate_resource", T + "__init__"])
def task(c):
    w = world(c)
    ei = c.mod("execution_info")
    av, en = c.real("free from", 0, g=secs), c.real("enabled", 0, g=secs)
    ideal, extra = c.real("ideal", 0, g=secs), c.real("rest within", 0, g=secs)
    log = []
    w.pop = lambda t: log.append(("pop", t)) or ("r1", av)
    w.free = lambda r, t: log.append(("free", r, t))
    w.logged = lambda k, e, cost: log.append(("event", k, e, cost))
    w.row = lambda e: log.append(("row", e))
    w.attrs = lambda e: log.append(("attributes", e))
    w.ideal = lambda t, r, n: log.append(("duration", t, r, n)) or ideal
    w.real = lambda d, r, at: log.append(("calendar", d, r, at)) or d + extra
    w.res.switching_time = c.choice("switching", [0, 5])
    w0, a0 = w.res.worked_time, w.res.allocated_tasks
    ev = c.call(ei.EnabledEvent, 7, None, "t1", en, w.start + c.delta(en))
    done, when = c.call(w.env.execute_task, ev)
    by = {}
    for x in log:
        by.setdefault(x[0], []).append(x[1:])
    c.check("it happens", all(k in by for k in ("pop", "event", "duration", "free", "row", "attributes")))
    c.check("one resource, asked for this task", by["pop"] == [("t1",)])
    c.check("one event of this case", len(by["event"]) == 1 and by["event"][0][0] == 7)
    e, cost = by["event"][0][1:]
    c.check("performed by that resource, at its cost", c.and_(e.resource_id == "r1", c.eq(cost, w.cost), e.task_id == "t1", e.p_case == 7))
    first = ready(c, w, c.max(en, av))
    c.check("starts when enabled, free and on duty", c.eq(e.started_at, first))
    c.check("never earlier", c.and_(e.started_at >= en, e.started_at >= av, c.eq(e.enabled_at, en)))
    c.check("duration of this task and resource, alone", len(by["duration"]) == 1 and by["duration"][0] == ("t1", "r1", 0))
    c.check("completes after exactly the calendar-aware duration", c.and_(c.eq(e.completed_at, first + ideal + extra), c.eq(
        done, e.completed_at), c.eq(c.instant(when) - c.instant(w.start), done)))
    c.check("busy until completed", len(by["free"]) == 1 and c.and_(by["free"][0][0] == "r1", by["free"][0][1] >= e.completed_at, c.implies(
        c.eq(w.res.switching_time, 0), lambda: c.eq(by["free"][0][1], e.completed_at))))
    c.check("worked time grows by the ideal duration", c.eq(w.res.worked_time, w0 + ideal))
    c.check("one more task", c.eq(w.res.allocated_tasks, a0 + 1))
    c.check("one row, after the attributes were updated", [x[0] for x in log if x[0] in ("row", "attributes")] == ["attributes", "row"]
            and by["row"][0][0] is e and by["attributes"][0][0] is ev)


def batch(c, w, kind, rule=True, one=False):
    cf, bp, ei = c.mod("control_flow_manager"), c.mod("batch_processing"), c.mod("execution_info")
    K = cf.CustomDatetimeAndSeconds

    def g(r):
        out, k = [], 0
        for _ in range(r.randint(1, 3)):
            out.append([])
            for _ in range(r.randint(1, 3)):
                k, s = k + 1, secs(r)
                out[-1].append((k, K(s, BASE + datetime.timedelta(seconds=s))))
        return out
    item = c.Tuple(c.Int, c.Obj(K, {"datetime": c.DT, "seconds_from_start": c.Real}))
    if one:
        ch = c.mklist([c.list("group", item, lo=1, g=lambda r: g(r)[0])])
    else:
        ch = c.list("groups", c.List(item), lo=1, g=g)
        c.assume(c.forall(0, c.len(ch), lambda i: c.len(c.at(ch, i)) >= 1))
    w.due = c.real("due", 0, g=secs) if rule else 0
    w.en = c.real("batch enabled", 0, g=secs)
    w.chunks = ch
    info = c.obj(cf.BatchInfoForExecution, start_time_from_rule=w.start + c.delta(w.due) if rule else None,
                 batch_id="b", task_batch_info=c.obj(bp.BatchConfigPerTask, type=kind))
    ev = c.obj(ei.EnabledEvent, task_id="t1", p_case=0, enabled_at=w.en, batch_info_exec=info)
    return ch, ev


def observe(c, w):
    gh = w.ghost

    def pop(t):
        c.check("resource asked for this task", t == "t1")
        c.check("the one before is released", gh.freed >= gh.until)
        gh.freed = 0
        gh.avail = c.fresh("free", c.Real) if c.symbolic else float(c.rng.choice([0, 10, 5000]))
        c.assume(gh.avail >= 0)
        gh.n = 0
        gh.until = 0
        gh.last = 0
        gh.groups = gh.groups + 1
        return "r1", gh.avail

    def dur(t, r, n):
        c.check("duration of this task and resource in a batch of that size", c.and_(
            t == "t1", r == "r1", c.eq(n, c.len(c.at(w.chunks, gh.groups - 1)))))
        x = c.fresh("ideal", c.Real) if c.symbolic else float(c.rng.choice([0, 10, 5000]))
        c.assume(x >= 0)
        gh.ideal = x
        gh.work = gh.work + x
        return x

    def real(d, r, at):
        x = c.fresh("extra", c.Real) if c.symbolic else float(c.rng.choice([0, 0, 10, 5000]))
        c.assume(x >= 0)
        gh.span = d + x
        return d + x

    def free(r, t):
        c.check("released no earlier than completed", c.and_(r == "r1", t >= gh.until))
        gh.freed = t

    def logged(k, e, cost):
        c.check("times in order", c.and_(e.enabled_at <= e.started_at, e.started_at <= e.completed_at))
        c.check("not before the resource is free, the batch is due and enabled", c.and_(
            e.started_at >= gh.avail, e.started_at >= w.due))
        w.item(k, e)
        gh.until = c.max(gh.until, e.completed_at)
        gh.n = gh.n + 1
        gh.last = e.started_at
        c.check("cost of the resource", c.and_(c.eq(cost, w.cost), e.resource_id == "r1", e.task_id == "t1", e.batch_id == "b", c.eq(e.p_case, k)))
    w.pop, w.ideal, w.real, w.free, w.logged = pop, dur, real, free, logged
    w.row = lambda e: None
    w.attrs = lambda e: None


def one_by_one(V):
    c = V.c
    if not hasattr(c, "w"):
        return
    gh = c.w.ghost
    if V.depth == 1:
        yield "items", c.eq(gh.n, V.k)
        yield "released", gh.freed >= gh.until
        yield "worked", c.eq(c.w.res.worked_time, gh.w0 + gh.work)
        for nm, x, e in V.nums():
            yield "%s no later than the last completion" % nm, c.or_(x <= gh.until, x <= gh.avail)
            yield "all so far completed before %s" % nm, gh.until <= x
            yield "exactly %s" % nm, c.eq(gh.until, x)
            yield "not before free %s" % nm, x >= gh.avail
    elif V.is_for:
        yield "groups", c.eq(gh.groups, V.k)
        yield "released", gh.freed >= gh.until
        yield "worked", c.eq(c.w.res.worked_time, gh.w0 + gh.work)


def together(V):
    c = V.c
    if not hasattr(c, "w"):
        return
    gh = c.w.ghost
    if V.is_for:
        yield "items", c.eq(gh.n, V.k)
        yield "released", gh.freed >= gh.until
        for nm, x in V.fixed():
            yield "all so far began at %s" % nm, c.or_(V.k == 0, c.eq(gh.last, x))
        for nm, x, e in V.nums():
            yield "all so far completed before %s" % nm, gh.until <= x


@unit("P07.sequential", [E + "execute_seq_task_batch", E + "_update_logs_and_resource_availability", T + "__init__"], inv=one_by_one, secs=120, merge_max=True)
def sequential(c):
    bp = c.mod("batch_processing")
    w = world(c)
    ch, ev = batch(c, w, bp.BATCH_TYPE.SEQUENTIAL)
    observe(c, w)
    gh = w.ghost

    def item(k, e):
        c.check("one after another", e.started_at >= gh.until)
        c.check("not before the batch is enabled", e.started_at >= w.en)
        c.check("as soon as enabled, due, free and on duty", c.eq(e.started_at, ready(c, w, c.max(
            e.enabled_at, gh.avail, w.en, w.due, gh.until))))
        c.check("completes after exactly the calendar-aware duration", c.eq(e.completed_at, e.started_at + gh.span))
        w.e = e
    w.item = item
    n = 0
    for done, when, case in each(c, w.env.execute_seq_task_batch(ev, ch)):
        c.check("reported completion", c.and_(c.eq(done, w.e.completed_at), c.eq(case, w.e.p_case), c.eq(
            c.instant(when) - c.instant(w.start), done)))
        n += 1
    c.check("released at the end", gh.freed >= gh.until)
    c.check("worked time grows by the ideal durations", near(c, w.res.worked_time, gh.w0 + gh.work))
    if not c.symbolic:
        c.check("every item once", n == sum(len(x) for x in ch))


def near(c, a, b):
    return c.eq(a, b) if c.symbolic else abs(a - b) < 1e-6


@unit("P07.parallel", [E + "execute_parallel_task_batch", E + "_update_logs_and_resource_availability", T + "__init__"], inv=together, secs=240, merge_max=True)
def parallel(c):
    """one group at a time: nothing but the queues is shared between the groups"""
    in_parallel(c, True)


@unit("P07.parallel_groups", [E + "execute_parallel_task_batch"], bounded="up to 3 groups of up to 3 items")
def parallel_groups(c):
    in_parallel(c, False)


def in_parallel(c, one):
    bp = c.mod("batch_processing")
    w = world(c)
    rule = c.choice("rule", [True, False])
    ch, ev = batch(c, w, bp.BATCH_TYPE.PARALLEL, rule, one)
    observe(c, w)
    gh = w.ghost

    def item(k, e):
        c.check("all items begin together", c.or_(c.eq(gh.n, 0), c.eq(e.started_at, gh.last)))
        c.check("not before its enabling", e.started_at >= e.enabled_at)
        if not rule:
            c.check("not before the batch is enabled", e.started_at >= w.en)
        c.check("as soon as the last item is enabled, the batch is due and the resource free and on duty", c.eq(
            e.started_at, ready(c, w, c.max(gh.avail, w.due if rule else w.en, latest()))))
        w.e = e

    def latest():
        """the last enabling time of the group"""
        if not c.symbolic:
            return max(t.seconds_from_start for _, t in ch[gh.groups - 1])
        g = c.at(ch, 0)
        if not hasattr(w, "latest"):
            w.latest = c.real("last enabled")
        c.assume(c.forall(0, c.len(g), lambda i: c.at(g, i)[1].seconds_from_start <= w.latest))
        c.assume(c.exists(0, c.len(g), lambda i: c.eq(c.at(g, i)[1].seconds_from_start, w.latest)))
        return w.latest
    w.item = item
    n = 0
    for done, when, case in each(c, w.env.execute_parallel_task_batch(ev, ch)):
        c.check("reported completion", c.and_(c.eq(done, w.e.completed_at), c.eq(case, w.e.p_case), c.eq(
            c.instant(when) - c.instant(w.start), done)))
        n += 1
    c.check("released at the end", gh.freed >= gh.until)
    if not c.symbolic:
        c.check("every item once", n == sum(len(x) for x in ch))


@unit("P07.own_calendar", [S + "real_task_duration", S + "next_resting_time", S + "get_resource_calendar", S + "ideal_task_duration"])
def own_calendar(c):
    """durations, rests and duty of a resource come from its own calendar and from its own row of the task table"""
    ss = c.mod("simulation_setup")

    class Calendar:
        def __init__(self, name):
            self.name = name

        def find_idle_time(self, at, duration, intervals=None):
            asked.append((self.name, at, duration, intervals))
            return real

        def next_available_time(self, at):
            asked.append((self.name, at))
            return rest

    class Sampler:
        def __init__(self, name):
            self.name = name

        def generate_sample(self, n):
            asked.append((self.name, n))
            return [sample]

    class Profile:
        def __init__(self, cal):
            self.calendar_id = cal
    asked = []
    real, rest, sample, ideal = c.real("real", 0), c.real("rest", 0), c.real("sample", 0), c.real("ideal", 0)
    at = c.dt("at")
    cals = {"c1": Calendar("c1"), "c2": Calendar("c2")}
    prof = {"r1": Profile("c2"), "r2": Profile("c1")}
    r = c.choice("resource", ["r1", "r2"])
    own = cals[prof[r].calendar_id]
    kind = c.choice("model", ["FUZZY", "CRISP"])
    task = c.choice("task", ["t1", "t2"])
    s = c.obj(ss.SimDiffSetup, model_type=kind, calendars_map=cals, resources_map=prof, batch_processing={},
              task_resource={t: {x: Sampler((t, x)) for x in prof} for t in ("t1", "t2")})
    iv = []
    c.check("duration with rests", c.and_(c.eq(c.call(s.real_task_duration, ideal, r, at, iv), real), len(asked) == 1 and c.and_(
        asked[0][0] == own.name, c.eq(asked[0][1], at), c.eq(asked[0][2], ideal))))
    if kind == "FUZZY":
        c.check("the worked intervals are reported", asked[0][3] is iv)
    del asked[:]
    c.check("next time on duty", c.and_(c.eq(c.call(s.next_resting_time, r, at), rest), len(asked) == 1 and c.and_(
        asked[0][0] == own.name, c.eq(asked[0][1], at))))
    del asked[:]
    c.check("duty", c.call(s.get_resource_calendar, r) is own)
    c.check("sampled once, for this task and resource", c.and_(c.eq(c.call(s.ideal_task_duration, task, r, 0), sample), asked == [((task, r), 1)]))


@unit("P07.simulated", [E + "execute_task", "prosimos.execution_info:TaskEvent.__init__", "prosimos.simulation_engine:run_simulation"],
      bounded="whole simulations of random block-structured models with random working hours")
def simulated(c):
    """each task is performed by a resource allowed for it, which is free and on duty when it begins, and ends when the configured
    work is done within the working hours of that resource"""
    r = sim.Run(c, n=c.rng.randint(2, 8)).go()
    ids = {v["name"]: k for k, v in r.res.items()}
    last = {}
    for x in r.work_rows:
        who = ids.get(x["resource"])
        c.check("the resource is one of those configured for the task", who in r.work[x["id"]])
        last.setdefault(who, []).append(x)
    for who, rows in last.items():
        week, free = r.weeks[r.res[who]["cal"]], None
        for x in sorted(rows, key=lambda y: y["start_time"]):
            ready = x["enable_time"] if free is None else max(x["enable_time"], free)
            c.log["row"] = {k: str(v) for k, v in x.items()}
            c.check("a resource works on one task at a time", free is None or x["start_time"] >= free)
            c.check("a task starts no earlier than it is enabled", x["start_time"] >= x["enable_time"])
            if not week.closing(ready):
                c.check("a task starts as soon as its resource is free and on duty", x["start_time"] == week.next_on(ready))
            end = week.finish(x["start_time"], r.work[x["id"]][who])
            if end is not None and not week.closing(x["start_time"]):
                c.check("a task ends when its work is done within working hours", x["end_time"] == end)
            free = x["end_time"]
