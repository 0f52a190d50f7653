import datetime

from pyvc.driver import unit
from units import sim

W = "prosimos.fuzzy_engine.fuzzy_calendar:WeeklyFuzzyCalendar."
M = "prosimos.fuzzy_engine.fuzzy_calendar:FuzzyModel."
DIVISORS = [g for g in range(1, 1441) if 1440 % g == 0]


def now(r):
    return datetime.datetime(2022, 1, 3 + r.randint(0, 13), r.randint(0, 23), r.choice([0, 0, 15, 30, 59, r.randint(0, 59)]), r.choice([0, 0, 59, r.randint(0, 59)]),
                             r.choice([0, 0, 1, 999999, 500000]), tzinfo=datetime.timezone.utc)


@unit("P17.granules", [W + "__init__", W + "interval_index", W + "duration_from_interval_start", W + "duration_to_interval_end"], secs=120)
def granules(c):
    """for each of the 36 granule sizes that divide a day, any instant"""
    fc = c.mod("fuzzy_engine.fuzzy_calendar")
    g = c.choice("granule", DIVISORS)
    cal = c.call(fc.WeeklyFuzzyCalendar, g)
    c.check("granules of a day", cal.i_count == 1440 // g and all(len(cal.probability_intervals[d]) == 1440 // g for d in range(7)))
    d = c.dt("at", g=now)
    i = c.call(cal.interval_index, d)
    a, b = c.call(cal.duration_from_interval_start, d), c.call(cal.duration_to_interval_end, d)
    sod = d.hour * 3600 + d.minute * 60 + d.second
    c.check("one of them", c.and_(i >= 0, i < cal.i_count))
    c.check("the one the time of day falls in", c.and_(i * g * 60 <= sod, sod < (i + 1) * g * 60))
    c.check("distance to its start", c.eq(a, sod - i * g * 60))
    c.check("both distances add up to its length", c.eq(a + b, g * 60))


class Told:
    pass


def booked(V):
    """what is booked so far, and where in the week the code is"""
    c = V.c
    if not hasattr(c, "told"):
        return
    t, n = c.told, c.n
    own = lambda vs: [(x, v) for x, v, e in vs if "." not in x]
    ints, nums = own(V.ints()), own(V.nums())
    for x, v in ints:
        for y, w in ints:
            if x != y:
                yield "granule %s of weekday %s" % (x, y), lambda v=v, w=w: c.and_(v >= 0, v <= n, w >= 0, w <= 6, c.or_(
                    c.and_(c.eq(v, t.i), c.eq(w, t.day)), c.and_(c.eq(v, n), c.eq(t.i, 0), c.eq(t.day, c.ite(w < 6, w + 1, 0)))))
    for x, v in nums:
        yield "booked plus %s" % x, lambda v=v: c.eq(t.total + c.max(v, 0), c.ideal)
        yield "elapsed %s" % x, lambda v=v: c.or_(c.eq(t.start, v), c.and_(t.total >= c.ideal, c.eq(t.until, v)))
        yield "elapsed %s at least until the last booking" % x, lambda v=v: v >= t.until
        yield "elapsed %s ends a booking if done" % x, lambda v=v: c.implies(t.total >= c.ideal, lambda: c.eq(t.until, v))
        yield "elapsed %s or the granule" % x, lambda v=v: c.implies(t.total < c.ideal, lambda: c.eq(t.start, v))
    for x, v, e in V.dts():
        yield "instant %s" % x, lambda v=v: c.implies(t.total < c.ideal, lambda: c.eq(c.seconds(v - c.now), t.start))
    yield "last granule seen", lambda: c.and_(t.day >= 0, t.day <= 6, t.i >= 0, t.i < n)
    yield "booked in order", lambda: c.and_(t.until >= 0, t.total >= 0, t.total <= t.until, t.total <= c.ideal, c.eq(t.start - t.size, t.begin))
    yield "no booking ahead", lambda: t.until <= t.start
    yield "asked once", lambda: c.eq(t.seen, 1)


def model(c):
    """a fuzzy calendar of any granule size; the availability of every granule is arbitrary. The instant asked about lies at any place within any granule"""
    fc = c.mod("fuzzy_engine.fuzzy_calendar")
    c.n = n = c.int("granules per day", 1, 1440, g=lambda r: r.choice([1, 2, 3, 24]))
    g = c.int("granule", 1, 1440, g=lambda r: 1440 // c.n)
    c.assume(c.or_(*[c.and_(c.eq(n, d), c.eq(g, 1440 // d)) for d in DIVISORS]))
    c.now = c.dt("now", g=lambda r: now(r).replace(microsecond=0))
    cal = c.obj(fc.WeeklyFuzzyCalendar, granule_size=g, i_count=n)
    if c.symbolic:
        q, off = c.int("index now"), c.int("into the granule")
        c.assume(c.and_(q >= 0, q < n, off >= 0, off < g * 60))
        # proved by P17.granules
        c.contract(fc.WeeklyFuzzyCalendar, "interval_index", lambda self, d: q if c.truth(c.eq(d, c.now)) else c.fresh("index", c.Int))
        c.contract(fc.WeeklyFuzzyCalendar, "duration_from_interval_start", lambda self, d: off if c.truth(c.eq(d, c.now)) else c.fresh("offset", c.Int))
    else:
        m = c.now.hour * 60 + c.now.minute
        q, off = m // g, (m % g) * 60 + c.now.second
    c.size = g * 60
    c.told = c.obj(Told, day=c.now.weekday(), i=q, start=g * 60 - off, begin=0 - off, total=0, until=0, seen=0, size=g * 60)
    c.track(c.told, "told")
    m = c.obj(fc.FuzzyModel, calendar_id="x", availability_calendar=cal, workload_ratio=cal, default_calendar=c.choice("current", [fc.FSpan.AVAILABILITY, fc.FSpan.WORKLOAD]))
    return fc, m, cal, off


def asks(c, fc, answer):
    """every granule is asked about once, in the order of the week, beginning with the current one"""
    t = c.told

    def is_available(self, day, i):
        first = c.eq(t.seen, 0)
        c.check("granules in the order of the week", c.and_(c.eq(day, t.day), c.eq(i, t.i)))
        a = c.fresh("available", c.Bool) if c.symbolic else c.rng.random() < .5
        answer(a, c.ite(first, 0, t.start), c.ite(first, t.start, t.start + t.size))
        t.begin = c.ite(first, t.begin, t.start)
        t.start = c.ite(first, t.start, t.start + t.size)
        t.seen = 1
        wrap = t.i + 1 >= c.n
        t.day = c.ite(wrap, c.ite(t.day < 6, t.day + 1, 0), t.day)
        t.i = c.ite(wrap, 0, t.i + 1)
        return a
    c.patch(fc.FuzzyModel, "is_available", is_available)


class Booked:
    """the list of worked intervals the caller passes"""


@unit("P17.work", M + "find_idle_time", inv=booked, secs=180, timeout_ms=20000)
def work(c):
    fc, m, cal, off = model(c)
    t = c.told
    c.ideal = ideal = c.real("work", 0, g=lambda r: r.choice([0, 1, 60, 3600, 86400, 5000, 100000]))
    t.open, t.close, t.ok = 0, 0, False
    asks(c, fc, lambda a, begin, end: [setattr(t, "open", begin), setattr(t, "close", end), setattr(t, "ok", a)])

    def book(self, iv):
        a, b = c.seconds(iv.start - c.now), c.seconds(iv.end - c.now)
        c.check("within the granule that was found available", c.and_(t.ok, a >= t.open, b <= t.close))
        c.check("begins at the start of the granule or now", c.eq(a, t.open))
        c.check("after what was booked before", c.and_(a >= t.until, b >= a))
        t.total = t.total + (b - a)
        t.until = b
        t.ok = False
    c.patch(Booked, "append", book)
    r = c.call(m.find_idle_time, c.now, ideal, c.obj(Booked))
    if c.symbolic:
        c.check("exactly the work is booked", c.eq(t.total, ideal))
        c.check("until the end of the last booking", c.eq(r, t.until))
    else:
        c.check("exactly the work is booked", abs(t.total - ideal) < 1e-3)
        c.check("until the end of the last booking", abs(r - t.until) < 1e-3)
    c.check("takes at least that long", r >= ideal if c.symbolic else r >= ideal - 1e-3)


def walked(V):
    c = V.c
    if not hasattr(c, "told"):
        return
    t, n = c.told, c.n
    own = lambda vs: [(x, v) for x, v, e in vs if "." not in x]
    ints, nums = own(V.ints()), own(V.nums())
    for x, v in ints:
        for y, w in ints:
            if x != y:
                yield "granule %s of weekday %s" % (x, y), lambda v=v, w=w: c.and_(v >= 0, v <= n, w >= 0, w <= 6, c.or_(
                    c.and_(c.eq(v, t.i), c.eq(w, t.day)), c.and_(c.eq(v, n), c.eq(t.i, 0), c.eq(t.day, c.ite(w < 6, w + 1, 0)))))
    for x, v in nums:
        yield "%s is the distance to the granule" % x, lambda v=v: c.eq(v, t.start)
    yield "last granule seen", lambda: c.and_(t.day >= 0, t.day <= 6, t.i >= 0, t.i < n, t.start >= 0)
    yield "asked once", lambda: c.eq(t.seen, 1)
    yield "granules apart", lambda: c.eq(t.start - t.size, t.begin)
    yield "none was available", lambda: c.eq(t.found, 0)


@unit("P17.wait", M + "next_available_time", inv=walked, secs=120)
def wait(c):
    fc, m, cal, off = model(c)
    t = c.told
    t.found, t.at = 0, 0

    def answer(a, begin, end):
        t.at = c.ite(a, begin, t.at)
        t.found = c.ite(a, 1, t.found)
    asks(c, fc, answer)
    class Row:
        def __init__(self, day):
            self.day = day

        def __getitem__(self, i):
            # only whether it is certain matters here; a certain granule is always found available
            c.check("granules in the order of the week", c.and_(c.eq(self.day, t.day), c.eq(i, t.i)))
            p = c.fresh("probability", c.Real) if c.symbolic else c.rng.choice([0.5, 1.0])
            c.certain = c.eq(p, 1)
            t.found = c.ite(c.certain, 1, t.found)
            t.at = c.ite(c.certain, t.start, t.at)
            return p

    class Table:
        def __getitem__(self, day):
            return Row(day)
    cal.probability_intervals = Table()
    r = c.call(m.next_available_time, c.now)
    c.check("never negative", r >= 0)
    c.check("at once or at the start of the first available granule", c.and_(c.eq(t.found, 1), c.eq(r, t.at)))


def set_so_far(V):
    c = V.c
    if not hasattr(c, "goal"):
        return
    n, a, p = c.goal
    for x, l, e in V.lists():
        yield "as long %s" % x, lambda l=l: c.eq(c.len(l), n)
        for y, v, _ in V.ints():
            yield "%s up to %s" % (x, y), lambda l=l, e=e, v=v: c.forall(0, n, lambda i: c.eq(c.at(l, i), c.ite(c.and_(a <= i, i < v), p, lambda: c.at(e, i))))
        if V.is_for:
            yield "%s so far" % x, lambda l=l, e=e: c.forall(0, n, lambda i: c.eq(c.at(l, i), c.ite(c.and_(a <= i, i < a + V.k), p, lambda: c.at(e, i))))


@unit("P17.assign", [W + "add_weekday_intervals", W + "interval_index"], inv=set_so_far, secs=120)
def assign(c):
    """a period that begins and ends at the boundary of a granule; midnight as its end is the end of the day"""
    fc = c.mod("fuzzy_engine.fuzzy_calendar")
    day = c.choice("weekday", [0, 3, 6])
    o = (day + 1) % 7
    n = c.int("granules per day", 1, 1440, g=lambda r: r.choice([1, 2, 3, 24, 96]))
    g = c.int("granule", 1, 1440, g=lambda r: 1440 // n)
    c.assume(c.or_(*[c.and_(c.eq(n, d), c.eq(g, 1440 // d)) for d in DIVISORS]))
    rowg = lambda r: [r.choice([0.0, .5, 1.0]) for _ in range(n)]
    tab = {d: c.list("day %d" % d, c.Real, g=rowg) for d in (day, o)}
    c.assume(c.and_(*[c.eq(c.len(l), n) for l in tab.values()]))
    was = {d: c.old(l) for d, l in tab.items()}
    cal = c.obj(fc.WeeklyFuzzyCalendar, granule_size=g, i_count=n, probability_intervals=c.mkdict(tab))
    a, b = c.int("from", 0, g=lambda r: r.randint(0, n - 1)), c.int("to", 1, g=lambda r: r.randint(1, n))
    c.assume(c.and_(a < b, b <= n))
    base = datetime.datetime(2022, 5, 5, tzinfo=datetime.timezone.utc)
    if c.symbolic:
        start, end = c.dt("start"), c.dt("end")
        # which granule an instant falls in is proved by P17.granules
        c.contract(fc.WeeklyFuzzyCalendar, "interval_index", lambda self, d: a if d is start else c.ite(c.eq(b, n), 0, b) if d is end else c.fresh("index", c.Int))
    else:
        start, end = base + c.delta(a * g * 60), base + c.delta(b * g * 60)
    p = c.real("probability", 0, 1)
    c.goal = (n, a, p)
    c.call(cal.add_weekday_intervals, day, start, end, p)
    now_ = c.get(cal.probability_intervals, day)
    c.check("as many granules", c.eq(c.len(now_), n))
    c.check("exactly the granules of the period", c.forall(0, n, lambda i: c.eq(c.at(now_, i), c.ite(c.and_(a <= i, i < b), p, lambda: c.at(was[day], i)))))
    now_ = c.get(cal.probability_intervals, o)
    c.check("no other weekday", c.and_(c.eq(c.len(now_), n), c.forall(0, n, lambda i: c.eq(c.at(now_, i), c.at(was[o], i)))))


@unit("P17.available", M + "is_available")
def available(c):
    """the two draws are made with the probabilities of the granule asked about"""
    fc = c.mod("fuzzy_engine.fuzzy_calendar")
    n = 3
    tabs = [{d: [c.real("p%d %d %d" % (k, d, i), 0, 1, g=lambda r: r.choice([0., 1., .5, .25])) for i in range(n)] for d in (0, 6)} for k in (0, 1)]
    cals = [c.obj(fc.WeeklyFuzzyCalendar, granule_size=480, i_count=n, probability_intervals=c.mkdict({d: c.mklist(list(l)) for d, l in t.items()})) for t in tabs]
    first = c.choice("current", [fc.FSpan.AVAILABILITY, fc.FSpan.WORKLOAD])
    m = c.obj(fc.FuzzyModel, calendar_id="x", availability_calendar=cals[0], workload_ratio=cals[1], default_calendar=first)
    draws, seen = [], []

    class Random:
        def choice(self, values, size, p):
            a = c.choice("draw %d" % len(draws), [True, False])
            seen.append((values, size, p))
            draws.append(a)
            return [a]
    c.patch(fc, "random", Random())
    day, i = c.choice("weekday", [0, 6]), c.choice("granule", [0, 1, 2])
    r = c.call(m.is_available, day, i)
    ps = [tabs[k][day][i] for k in (0, 1)]
    for d, (values, size, p) in zip(draws, seen):
        c.check("drawn with a probability of that granule", c.and_(list(values) == [True, False], c.or_(*[c.and_(c.eq(c.at(p, 0), x), c.eq(c.at(p, 1), 1 - x)) for x in ps])))
    c.check("available iff a draw says so", c.iff(r, any(draws)))
    c.check("both are drawn if the first fails", len(draws) == 2 or (len(draws) == 1 and draws[0]))
    if len(draws) == 2:
        c.check("one draw each", c.and_(*[c.eq(c.at(p, 0), x) for (v, z, p), x in zip(seen, ps)]))


def estimated(V):
    c = V.c
    if not hasattr(c, "est"):
        return
    frm, to, size, start2 = c.est
    for x, d, e in V.dts():
        yield "%s at a granule's start" % x, lambda d=d: c.exists_k(c.seconds(start2 - d))
        yield "%s not beyond" % x, lambda d=d: c.seconds(start2 - d) >= 0
        for y, v, _ in V.nums():
            yield "%s counted to %s" % (y, x), lambda d=d, v=v: c.eq(v, c.seconds(d - frm) + c.seconds(to - start2))


@unit("P17.estimate", [M + "estimate_available_time", M + "_extract_date_info"], inv=estimated, secs=180, scope="13 of the 36 granule sizes (1, 2, 5, 10, 15, 20, 30, 60, 120, 240, 480, 720, 1440 minutes), any instants")
def estimate(c):
    """proved: a resource that is always available is available for exactly the time between the instants; arbitrary probabilities by search"""
    fc = c.mod("fuzzy_engine.fuzzy_calendar")
    g = c.choice("granule", [1, 2, 5, 10, 15, 20, 30, 60, 120, 240, 480, 720, 1440])
    n, size = 1440 // g, g * 60
    cal = c.obj(fc.WeeklyFuzzyCalendar, granule_size=g, i_count=n)
    first = c.choice("current", [fc.FSpan.AVAILABILITY, fc.FSpan.WORKLOAD])
    other = c.obj(fc.WeeklyFuzzyCalendar, granule_size=g, i_count=n)
    m = c.obj(fc.FuzzyModel, calendar_id="x", availability_calendar=cal if first is fc.FSpan.AVAILABILITY else other,
              workload_ratio=other if first is fc.FSpan.AVAILABILITY else cal, default_calendar=first)
    frm = c.dt("from", g=lambda r: now(r).replace(microsecond=0))
    span = c.int("seconds between", 0, g=lambda r: r.choice([0, 1, 59, 3600, 86400, r.randint(0, 200000)]))
    to = frm + c.delta(span)

    class Row:
        def __init__(self, t, d):
            self.t, self.d = t, d

        def __getitem__(self, i):
            if c.symbolic:
                return 1
            return self.t[int(self.d)][int(i)]

    class Table:
        def __init__(self, t=None):
            self.t = t

        def __getitem__(self, d):
            return Row(self.t, d)
    other.probability_intervals = None
    if c.symbolic:
        i1, off, i2, off2, k = (c.int(x, 0) for x in ("i1", "off", "i2", "off2", "granules between"))
        c.assume(c.and_(i1 < n, i2 < n, off < size, off2 < size, c.eq(span, k * size + off2 - off)))
        c.exists_k = lambda s: c.eq(s % size, 0)
        start2 = to - c.delta(off2)
        c.est = (frm, to, size, start2)
        # proved by P17.granules
        known = lambda d, a, b, what: a if c.truth(c.eq(d, frm)) else b if c.truth(c.eq(d, to)) else c.fresh(what, c.Int)
        c.contract(fc.WeeklyFuzzyCalendar, "interval_index", lambda self, d: c.fresh("index", c.Int))
        c.contract(fc.WeeklyFuzzyCalendar, "duration_from_interval_start", lambda self, d: known(d, off, off2, "offset"))
        cal.probability_intervals = Table()
        want = span
    else:
        tab = [[c.rng.choice([0., 1., .5, .25]) for _ in range(n)] for _ in range(7)] if c.rng is not None else [[1.0] * n] * 7
        cal.probability_intervals = Table(tab)
        want, d = 0, frm
        while d < to:
            s = d.hour * 3600 + d.minute * 60 + d.second
            step = min(size - s % size, (to - d).total_seconds())
            want += tab[d.weekday()][s // size] * step
            d += datetime.timedelta(seconds=step)
    r = c.call(m.estimate_available_time, frm, to)
    c.check("the probability of each granule times the part of it in between", c.eq(r, want))


@unit("P17.simulated", [M + "find_idle_time", M + "next_available_time", "prosimos.simulation_engine:run_simulation"],
      bounded="whole simulations of random models with fuzzy calendars")
def simulated(c):
    """with probabilities of 0 and 1 tasks are worked on exactly in the working hours; with others each task starts when its
    resource is free or at the start of a granule, and takes at least its work"""
    class Fuzzy(sim.Run):
        def extra(self, r):
            self.sharp = r.random() < 0.6
            self.granule = r.choice([15, 5, 3, 1])
            if not self.sharp:
                self.granule = r.choice([15, 30, 60])
            p = lambda: 1.0 if self.sharp else r.choice([0.2, 0.5, 0.9, 1.0])
            self.cals = [{"id": k, "name": k, "time_periods": [dict(x, probability=p()) for x in w.json],
                          "workload_ratio": [] if self.sharp or r.random() < 0.5 else [dict(x, probability=p()) for x in w.json]}
                         for k, w in self.weeks.items()]

        def more(self, j):
            j.update(model_type="FUZZY", resource_calendars=self.cals, granule_size={
                "value": self.granule, "time_unit": "MINUTES"})

    r = Fuzzy(c, n=c.rng.randint(2, 6), arrival=True, spread=1).go()
    ids = {v["name"]: k for k, v in r.res.items()}
    last = {}
    for x in r.work_rows:
        last.setdefault(ids.get(x["resource"]), []).append(x)
    for who, rows in last.items():
        week, free = r.weeks[r.res[who]["cal"]], None
        for x in sorted(rows, key=lambda y: y["start_time"]):
            ready = x["enable_time"] if free is None else max(x["enable_time"], free)
            c.log["row"] = {k: str(v) for k, v in x.items()}
            at, free, work = x["start_time"], x["end_time"], r.work[x["id"]][who]
            c.check("a task starts no earlier than it is enabled and its resource is free", at >= ready)
            if r.sharp:
                c.check("a task starts as soon as its resource is free and on duty", at == week.next_on(ready))
                end = week.finish(at, work)
                if end is not None:
                    c.check("a task ends when its work is done within working hours", free == end)
            else:
                c.check("a task starts when its resource is free or with a granule", at == ready or (
                    at.hour * 60 + at.minute) % r.granule + at.second + at.microsecond == 0)
                c.check("a task takes at least its work", (free - at).total_seconds() >= work)
