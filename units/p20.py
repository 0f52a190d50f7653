import datetime

from pyvc.driver import unit
from units import sim

M = "prosimos.multitasking.multitasking_struct:MultiTaskDS."
E = "prosimos.simulation_engine:SimBPMEnv."
UTC = datetime.timezone.utc
BASE = datetime.datetime(2024, 1, 1, tzinfo=UTC)
RES = ["r1", "r2", "r3"]
PROBS = [0, .25, .5, 1]


def when(r):
    return BASE + datetime.timedelta(seconds=r.choice([0, 1, 1800, 3599, 3600, 86399, 86400, 90000, 5 * 86400 + 7]) + 60 * r.randint(0, 2000))


def probs(r):
    return [0] + [r.choice(PROBS) for _ in range(r.randint(0, 3))]


def history(c, local, size=60):
    """any table, running counts and remembered completions of the registered resources"""
    ms = c.mod("multitasking.multitasking_struct")
    day = c.List(c.List(c.Real))
    gran = 1440 // size
    table = c.dict("table", c.Str, c.List(day) if local else c.List(c.Real), g=lambda r: {x: [
        [probs(r) for _ in range(gran)] for _ in range(7)] if local else probs(r) for x in RES if r.random() < .8})
    run = c.dict("running", c.Str, c.Int, g=lambda r: {x: r.randint(0, 4) for x in table})
    last = c.dict("latest", c.Str, c.Opt(c.DT), g=lambda r: {x: r.choice([None, when(r)]) for x in table})
    c.assume(c.forall_str(lambda x: c.iff(c.has(table, x), c.has(run, x)), dom=RES))
    c.assume(c.forall_str(lambda x: c.iff(c.has(table, x), c.has(last, x)), dom=RES))
    c.assume(c.forall_str(lambda x: c.implies(c.has(run, x), lambda: c.get(run, x) >= 0), dom=RES))
    if local:
        c.assume(c.forall_str(lambda x: c.implies(c.has(table, x), lambda: c.eq(c.len(c.get(table, x)), 7)), dom=RES))
        c.assume(c.forall_str(lambda x: c.implies(c.has(table, x), lambda: c.forall(0, 7, lambda i: c.eq(
            c.len(c.at(c.get(table, x), i)), gran))), dom=RES))
    kind = ms.MultiType.LOCAL if local else ms.MultiType.GLOBAL
    m = c.obj(ms.MultiTaskDS, mt_type=kind, g_size=size if local else 0, total_granules=gran if local else 1,
              res_multitask_info=table, allocated_tasks=run, active_datetimes=last, relative_workload=c.mkdict({}),
              expected_workload=c.mkdict({}), executed_tasks=c.mkdict({}), total_tasks=c.mkdict({}))
    return ms, m


def granule(c, at, size):
    return c.floor(c.div((at.hour * 60 + at.minute), size))


DIVISORS = [d for d in range(1, 1441) if 1440 % d == 0]


@unit("P20.granules", [M + "__init__", M + "_extract_type", M + "interval_index"], scope="every granule size that divides the day")
def granules(c):
    """a new table is empty and divides every day into granules of the given size"""
    ms = c.mod("multitasking.multitasking_struct")
    size = c.choice("granule", DIVISORS + [0])
    kind = c.choice("type", ["Local", "global"])
    m = c.call(ms.MultiTaskDS, kind, size)
    for d in (m.res_multitask_info, m.allocated_tasks, m.active_datetimes):
        c.check("nobody registered", c.eq(c.len(d), 0))
    if size == 0:
        c.check("one granule for all times", c.eq(m.total_granules, 1))
        return
    c.check("granules of a day", c.eq(m.total_granules, 1440 // size))
    at = c.dt("at", g=when)
    g = c.call(m.interval_index, at)
    c.check("one of them", c.and_(g >= 0, g < m.total_granules))
    t = at.hour * 60 + at.minute
    c.check("the one the moment lies in", c.and_(g * size <= t, t < (g + 1) * size))


def capacity(c, local):
    size = c.choice("granule", [15, 60]) if local else 60
    ms, m = history(c, local, size)
    x, at = c.str("resource", pool=RES), c.dt("at", g=when)
    u = c.real("u", 0, 1, g=lambda r: r.choice([0, .1, .25, .4, .5, .9]))
    c.patch(ms.random, "random", lambda: u)
    t, n = m.res_multitask_info, m.allocated_tasks
    ok = c.call(m.can_get_new_tasks, x, at)
    row = lambda: c.at(c.at(c.get(t, x), at.weekday()), granule(c, at, size)) if local else c.get(t, x)
    busy = c.and_(c.has(n, x), lambda: c.get(n, x) > 0)
    c.check("a resource without running tasks can take one", c.implies(c.not_(busy), lambda: ok))
    c.check("none beyond its capacity", c.implies(busy, lambda: c.implies(c.get(n, x) >= c.len(row()), lambda: c.not_(ok))))
    c.check("otherwise with the probability of its entry", c.implies(busy, lambda: c.implies(
        c.get(n, x) < c.len(row()), lambda: c.iff(ok, u <= c.at(row(), c.get(n, x))))))


@unit("P20.capacity_global", M + "can_get_new_tasks")
def capacity_global(c):
    """the same table all week"""
    capacity(c, False)


@unit("P20.capacity_local", [M + "can_get_new_tasks", M + "interval_index"])
def capacity_local(c):
    """a table per weekday and granule"""
    capacity(c, True)


def rest_unchanged(c, d, d0, x):
    return c.forall_str(lambda y: c.implies(c.not_(c.eq(x, y)), lambda: c.and_(c.iff(c.has(d, y), c.has(d0, y)), lambda: c.implies(
        c.has(d0, y), lambda: c.eq(c.get(d, y), c.get(d0, y))))), dom=RES)


@unit("P20.allocate", M + "allocate_task_to")
def allocate(c):
    ms, m = history(c, False)
    x, at = c.str("resource", pool=RES), c.dt("completed", g=when)
    t0, n0, l0 = c.old(m.res_multitask_info), c.old(m.allocated_tasks), c.old(m.active_datetimes)
    c.call(m.allocate_task_to, x, "t1", at)
    n, l = m.allocated_tasks, m.active_datetimes
    c.check("known resources stay", c.forall_str(lambda y: c.and_(c.iff(c.has(n, y), c.has(n0, y)), c.iff(c.has(l, y), c.has(l0, y))), dom=RES))
    c.check("one more running task", c.implies(c.has(n0, x), lambda: c.eq(c.get(n, x), c.get(n0, x) + 1)))
    c.check("other counts stay", rest_unchanged(c, n, n0, x))
    if c.has(n0, x):
        was, now = c.get(l0, x), c.get(l, x)
        if was is None:
            c.check("the completion is remembered", now is not None and c.eq(now, at))
        else:
            c.check("the latest completion is remembered", now is not None and c.eq(c.instant(now), c.max(c.instant(was), c.instant(at))))


@unit("P20.release", M + "release_tasks_from")
def release(c):
    ms, m = history(c, False)
    x, at = c.str("resource", pool=RES), c.dt("completed", g=when)
    n0, l0 = c.old(m.allocated_tasks), c.old(m.active_datetimes)
    end = c.call(m.release_tasks_from, x, at)
    n, l = m.allocated_tasks, m.active_datetimes
    c.check("other counts stay", rest_unchanged(c, n, n0, x))
    if c.has(n0, x) and c.get(l0, x) is not None:
        c.check("reports the later completion", c.eq(c.instant(end), c.max(c.instant(at), c.instant(c.get(l0, x)))))
        c.check("starts over", c.and_(c.eq(c.get(n, x), 0), c.get(l, x) is None))
    else:
        c.check("reports the given completion", c.eq(end, at))
        c.check("counts stay", c.implies(c.has(n0, x), lambda: c.eq(c.get(n, x), c.get(n0, x))))


@unit("P20.register_resource", M + "register_resource")
def register_resource(c):
    ms, m = history(c, False)
    x = c.str("resource", pool=RES)
    t0, n0 = c.old(m.res_multitask_info), c.old(m.allocated_tasks)
    c.call(m.register_resource, x)
    t, n, l = m.res_multitask_info, m.allocated_tasks, m.active_datetimes
    c.check("registered", c.and_(c.has(t, x), c.has(n, x), c.has(l, x)))
    c.check("idle and alone at first", c.implies(c.not_(c.has(t0, x)), lambda: c.and_(
        c.eq(c.get(n, x), 0), c.eq(c.len(c.get(t, x)), 1))))
    c.check("kept when registered already", c.implies(c.has(t0, x), lambda: c.and_(c.eq(c.get(n, x), c.get(n0, x)), same(
        c, c.get(t, x), c.get(t0, x)))))
    c.check("the others stay", c.and_(rest_unchanged(c, n, n0, x), c.forall_str(lambda y: c.implies(c.not_(c.eq(x, y)), lambda: c.and_(
        c.iff(c.has(t, y), c.has(t0, y)), lambda: c.implies(c.has(t0, y), lambda: same(c, c.get(t, y), c.get(t0, y))))), dom=RES)))


@unit("P20.fresh_rows", [M + "register_resource", M + "register_multitasks"], scope="granules of 8 or 12 hours")
def fresh_rows(c):
    """a resource registered for the first time is alone in every granule, and every granule has a row of its own"""
    ms = c.mod("multitasking.multitasking_struct")
    size = c.choice("granule", [480, 720])
    m = c.call(ms.MultiTaskDS, "LOCAL", size)
    d, g = c.choice("weekday", [0, 3, 6]), c.choice("in granule", [0, 1])
    p = c.real("probability", 0, 1)
    c.call(m.register_resource, "r1")
    c.call(m.register_resource, "r2")
    t = m.res_multitask_info
    c.check("registered", c.and_(*[c.and_(c.has(t, x), lambda: c.eq(c.len(c.get(t, x)), 7), c.has(m.allocated_tasks, x), c.has(
        m.active_datetimes, x)) for x in ("r1", "r2")]))
    c.call(m.register_multitasks, "r1", 1, p, d, g)
    for x in ("r1", "r2"):
        for i in range(7):
            for j in range(1440 // size):
                row = c.at(c.at(c.get(t, x), i), j)
                if (x, i, j) == ("r1", d, g):
                    c.check("the granule of this resource is set", c.and_(c.len(row) == 2, lambda: c.eq(c.at(row, 1), p)))
                else:
                    c.check("no other granule is", c.and_(c.eq(c.len(row), 1), lambda: c.eq(c.at(row, 0), 0)))


def same(c, a, b):
    return c.and_(c.eq(c.len(a), c.len(b)), lambda: c.forall(0, c.len(b), lambda i: c.eq(c.at(a, i), c.at(b, i))))


def entry_set(c, row, row0, k, p):
    c.check("entry k is set", c.and_(c.len(row) > k, lambda: c.eq(c.at(row, k), p)))
    c.check("entries present before stay", c.forall(0, c.len(row0), lambda i: c.or_(c.eq(i, k), lambda: c.eq(c.at(row, i), c.at(row0, i)))))
    c.check("no entry beyond k is added", c.eq(c.len(row), c.max(c.len(row0), k + 1)))


@unit("P20.register_global", M + "register_multitasks")
def register_global(c):
    ms, m = history(c, False)
    x, k, p = c.str("resource", pool=RES), c.int("k", 0, g=lambda r: r.randint(0, 5)), c.real("p", g=lambda r: r.choice([-.1, 0, .5, 1, 1.1]))
    c.assume(c.has(m.res_multitask_info, x))
    t0, n0 = c.old(m.res_multitask_info), c.old(m.allocated_tasks)
    res = c.call(m.register_multitasks, x, k, p, raises=(ValueError,))
    t = m.res_multitask_info
    bad = c.or_(p < 0, p > 1)
    if c.raised(res):
        c.check("only probabilities outside [0, 1] are rejected", bad)
        c.check("rejected without effect", same(c, c.get(t, x), c.get(t0, x)))
        return
    c.check("probabilities outside [0, 1] are rejected", c.not_(bad))
    entry_set(c, c.get(t, x), c.get(t0, x), k, p)
    c.check("other resources stay", c.forall_str(lambda y: c.implies(c.not_(c.eq(x, y)), lambda: c.and_(
        c.iff(c.has(t, y), c.has(t0, y)), lambda: c.implies(c.has(t0, y), lambda: same(c, c.get(t, y), c.get(t0, y))))), dom=RES))


@unit("P20.register_cell", M + "register_multitasks")
def register_cell(c):
    """one weekday and granule of one resource"""
    ms, m = history(c, True)
    x, k, p = c.str("resource", pool=RES), c.int("k", 0, g=lambda r: r.randint(0, 5)), c.real("p", 0, 1, g=lambda r: r.choice(PROBS))
    wd, gr = c.int("weekday", 0, 6, g=lambda r: r.randint(0, 6)), c.int("granule", 0, 23, g=lambda r: r.randint(0, 23))
    c.assume(c.has(m.res_multitask_info, x))
    t0 = c.old(m.res_multitask_info)
    c.call(m.register_multitasks, x, k, p, wd, gr)
    t = m.res_multitask_info
    entry_set(c, c.at(c.at(c.get(t, x), wd), gr), c.at(c.at(c.get(t0, x), wd), gr), k, p)
    c.check("other weekdays and granules stay", c.forall(0, 7, lambda i: c.forall(0, 24, lambda j: c.or_(c.and_(
        c.eq(i, wd), c.eq(j, gr)), lambda: same(c, c.at(c.at(c.get(t, x), i), j), c.at(c.at(c.get(t0, x), i), j))))))
    y = c.str("another", pool=RES)
    c.check("other resources stay", c.implies(c.and_(c.not_(c.eq(x, y)), c.has(t0, y)), lambda: c.forall(0, 7, lambda i: c.forall(
        0, 24, lambda j: same(c, c.at(c.at(c.get(t, y), i), j), c.at(c.at(c.get(t0, y), i), j))))))


class Ghost:
    pass


def told(V):
    c = V.c
    if hasattr(c, "told"):
        yield "within", c.or_(c.eq(V.k, 0), c.lo + V.k <= c.hi)
        for nm, l, l0 in V.lists():
            yield "granules told so far in %s" % nm, c.and_(c.eq(c.len(l), V.k), lambda: c.forall(0, V.k, lambda j: c.eq(c.at(l, j), c.lo + j)))


@unit("P20.register_local", [M + "register_local_multitasks", M + "interval_index"], inv=told)
def register_local(c):
    """exactly the granules between the two times of day"""
    ms, m = history(c, True)
    wd = c.choice("weekday", [None, -1, 0, 3, 6, 7])
    a, b = c.dt("from", g=when), c.dt("to", g=when)
    k, p = c.int("k", 0, g=lambda r: r.randint(0, 5)), c.real("p", 0, 1, g=lambda r: r.choice(PROBS))
    gh = c.told = c.obj(Ghost, seen=c.mklist([]))
    lo, hi = c.lo, _ = granule(c, a, 60), granule(c, b, 60)
    hi = c.hi = c.ite(c.eq(hi, 0), 24, hi)

    def told(self, x, kk, pp, day, g):
        c.check("the given entry", c.and_(x == "r1", c.eq(kk, k), c.eq(pp, p), day == wd))
        gh.seen.append(g)
    c.patch(ms.MultiTaskDS, "register_multitasks", told)
    res = c.call(m.register_local_multitasks, "r1", wd, a, b, k, p, raises=(ValueError,))
    bad = wd is None or not 0 <= wd <= 6
    c.check("only weekdays of the week", c.raised(res) == bad)
    n = c.len(gh.seen)
    if bad:
        c.check("rejected without effect", c.eq(n, 0))
        return
    c.check("exactly the granules in between, once each, in order", c.and_(c.eq(n, c.max(0, hi - lo)), lambda: c.forall(0, n, lambda i: c.eq(
        c.at(gh.seen, i), lo + i))))


def engine(c):
    """any multitasking table, queue, calendar"""
    from units.p07 import world
    w = world(c)
    ms = c.mod("multitasking.multitasking_struct")
    w.setup.multitask_info = w.m = c.obj(ms.MultiTaskDS)
    return w


@unit("P20.next_available", E + "release_multitasking_resource")
def next_available(c):
    """after a task was given to a resource: when it can take the next one"""
    w = engine(c)
    ei, ms = c.mod("execution_info"), c.mod("multitasking.multitasking_struct")
    done, avail, ideal = c.real("completed", 0), c.real("free from", 0), c.real("ideal", 0)
    last = c.real("latest", 0)
    more = c.bool("may take more")
    log = []
    c.patch(ms.MultiTaskDS, "allocate_task_to", lambda self, r, t, d: log.append(("allocate", r, t, d)))
    c.patch(ms.MultiTaskDS, "can_get_new_tasks", lambda self, r, d: log.append(("ask", r, d)) or more)
    c.patch(ms.MultiTaskDS, "release_tasks_from", lambda self, r, d: log.append(("release", r, d)) or w.start + c.delta(c.max(last, done)))
    w.free = lambda r, t: log.append(("free", r, t))
    e = c.obj(ei.TaskEvent, task_id="t1", completed_at=done, ideal_duration=ideal)
    w0 = w.res.worked_time
    c.call(w.env.release_multitasking_resource, "r1", e, avail)
    at = lambda d: c.instant(d) - c.instant(w.start)
    names = [x[0] for x in log]
    c.check("counted once, before it is asked", names[:2] == ["allocate", "ask"] and names.count("allocate") == 1 and
            c.and_(log[0][1:3] == ("r1", "t1"), c.eq(at(log[0][3]), done)))
    c.check("handed back once", names.count("free") == 1 and log[-1][1] == "r1")
    free = log[-1][2]
    c.check("at capacity: busy until its last task completes, then until it is on duty", c.implies(c.not_(more), lambda: c.and_(
        "release" in names, c.eq(free, c.max(last, done) + w.rest(w.start + c.delta(c.max(last, done)))))))
    c.check("below capacity: free as before", c.implies(more, lambda: c.and_("release" not in names, c.eq(free, avail))))
    c.check("worked time grows by the ideal duration", c.eq(w.res.worked_time, w0 + ideal))


@unit("P20.chosen", E + "allocate_multitasking_resource", unroll=True, scope="at most 3 resources for the task, all times")
def chosen(c):
    """one of the free resources is taken, the others go back, the task starts on duty"""
    from units.p07 import ready, secs
    w = engine(c)
    ei, se, rp = c.mod("execution_info"), c.mod("simulation_engine"), c.mod("resource_profile")
    en = c.real("enabled", 0, g=secs)
    n = c.choice("resources", [1, 2, 3])
    av = [c.real("free%d" % i, 0, g=secs) for i in range(n)]
    names = ["r%d" % (i + 1) for i in range(n)]
    c.assume(c.and_(True, *[a <= b for a, b in zip(av, av[1:])]))
    left, log = list(zip(names, av)), []
    w.pop = lambda t: left.pop(0) if left else (None, None)
    w.free = lambda r, t: log.append((r, t))
    tasks = {x: c.int("tasks " + x, 0) for x in names}
    w.env.sim_resources = c.mkdict({x: c.obj(se.SimResource, switching_time=0, worked_time=0, allocated_tasks=tasks[x]) for x in names})
    c.patch(type(w.setup), "get_resource_calendar", lambda self, r: w.cal)
    pick = c.int("pick", 0, g=lambda r: r.randint(0, 3))

    def rand(lo, hi):
        c.assume(pick <= hi)
        return lo + pick
    c.patch(se.random, "randint", rand)
    ev = c.obj(ei.EnabledEvent, task_id="t1", p_case=0, enabled_at=en)
    r, at = c.call(w.env.allocate_multitasking_resource, ev)
    c.check("a resource of the task", r in names)
    got = dict(log)
    out = [x for x, _ in left]
    c.check("all others are still available as before", sorted(out + list(got) + [r]) == names and len(log) == len(got) and c.and_(
        True, *[c.eq(got[x], av[names.index(x)]) for x in got]))
    mine = av[names.index(r)]
    c.check("starts when enabled, free and on duty", c.eq(c.max(at, en), ready(c, w, c.max(en, mine))))
    c.check("one more task for it alone", c.and_(True, *[c.eq(w.env.sim_resources[x].allocated_tasks, tasks[x] + (1 if x == r else 0)) for x in names]))
    c.check("a resource free at that time goes first", c.implies(av[0] <= en, lambda: c.or_(mine <= en, n > 1)))


@unit("P20.simulated", [M + "can_get_new_tasks", "prosimos.simulation_engine:SimBPMEnv.allocate_multitasking_resource",
                        "prosimos.simulation_engine:SimBPMEnv.release_multitasking_resource", "prosimos.simulation_engine:run_simulation"],
      bounded="whole simulations of random models with multitasking")
def simulated(c):
    """no resource works on more tasks at a time than its table covers, and each task is still worked on when its resource is on
    duty for as long as configured"""
    class Multi(sim.Run):
        def extra(self, r):
            self.local = r.random() < 0.5
            self.most = {x: r.choice([1, 1, 2, 3]) for x in self.res}
            self.gap = r.choice([1, 61, 600])

        def more(self, j):
            vals = []
            for x, m in self.most.items():
                # never more than one, or up to m + 1
                table = [{"parallel_tasks": k, "probability": 1.0} for k in range(1, m)]
                vals.append({"resource_id": x, "r_workload": 0.5, "multitask_info": table} if not self.local else
                            {"resource_id": x, "r_workload": 0.5, "weekly_probability": [[
                                {"from": "MONDAY", "to": "SUNDAY", "beginTime": "00:00:00", "endTime": "00:00:00", "multitask_info": table}]]})
            j["multitask"] = {"type": "local" if self.local else "global", "values": vals}
            if self.local:
                j["multitask"]["granule_size"] = {"value": 60, "time_unit": "MINUTES"}

    r = Multi(c, n=c.rng.randint(3, 9), spread=1).go()
    ids = {v["name"]: k for k, v in r.res.items()}
    last = {}
    for i in range(r.n):
        sim.holds(c, "each case is a run of the model", r.follow(i, min(x["enable_time"] for x in r.case(i))))
    for x in r.work_rows:
        who = ids.get(x["resource"])
        c.check("the resource is one of those configured for the task", who in r.work[x["id"]])
        last.setdefault(who, []).append(x)
        c.log["row"] = {k: str(v) for k, v in x.items()}
        week = r.weeks[r.res[who]["cal"]]
        c.check("a task starts no earlier than it is enabled", x["start_time"] >= x["enable_time"])
        c.check("a task starts on duty", week.on(x["start_time"]) or week.closing(x["start_time"]))
        end = week.finish(x["start_time"], r.work[x["id"]][who])
        if end is not None and not week.closing(x["start_time"]):
            c.check("a task ends when its work is done within working hours", x["end_time"] == end)
    for who, rows in last.items():
        c.log["resource"] = who
        for x in rows:
            at = x["start_time"]
            c.check("at most as many at a time as the table covers", sum(y["start_time"] <= at < y["end_time"] for y in rows) <= r.most[who])
