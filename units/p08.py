import datetime

from pyvc.driver import unit

ENG = "prosimos.simulation_engine:SimBPMEnv."
G = "prosimos.control_flow_manager:BPMNGraph."


def env(c):
    se = c.mod("simulation_engine")
    ss = c.mod("simulation_setup")
    s = c.obj(ss.SimDiffSetup, start_datetime=c.dt("start"))
    return c.obj(se.SimBPMEnv, sim_setup=s), s


def micro(r):
    return r.choice([0, 1, 59.5, 3600, 86399.999999, 86400, 90061.25, -1.5, -90000.75, 10 ** 7, r.randint(-10 ** 6, 10 ** 7) / 4])


@unit("P08.round_trip", [ENG + "simulation_datetime_from", ENG + "simulation_at_from_datetime", ENG + "_datetime_from"])
def round_trip(c):
    e, s = env(c)
    x = c.real("offset", g=micro)
    d = c.call(e.simulation_datetime_from, x)
    c.check("the datetime lies that many seconds after the start", c.eq(c.instant(d) - c.instant(s.start_datetime), x))
    c.check("seconds, datetime, seconds", c.eq(c.call(e.simulation_at_from_datetime, d), x))
    c.check("optional form agrees", c.eq(c.instant(c.call(e._datetime_from, x)), c.instant(d)))
    c.check("nothing for nothing", c.call(e._datetime_from, None) is None)


@unit("P08.round_trip_back", [ENG + "simulation_datetime_from", ENG + "simulation_at_from_datetime"])
def round_trip_back(c):
    e, s = env(c)
    d = c.dt("when")
    x = c.call(e.simulation_at_from_datetime, d)
    c.check("the exact distance from the start", c.eq(x, c.instant(d) - c.instant(s.start_datetime)))
    c.check("datetime, seconds, datetime", c.eq(c.instant(c.call(e.simulation_datetime_from, x)), c.instant(d)))


@unit("P08.monotone", G + "_check_and_update_enabling_time")
def monotone(c):
    cf = c.mod("control_flow_manager")
    K = cf.CustomDatetimeAndSeconds
    W = c.Opt(c.Obj(K, {"datetime": c.DT, "seconds_from_start": c.Real}))
    mine = c.dict("recorded", c.Int, W, g=lambda r: {k: r.choice([None, pair(K, at(r))]) for k in range(r.randint(0, 3))})
    other = c.dict("other element", c.Int, W, g=lambda r: {0: None})
    g = c.obj(cf.BPMNGraph, last_datetime=c.mkdict({"e1": mine, "e2": other}))
    case = c.int("case", 0, g=lambda r: r.randint(0, 3))
    now = c.value("now", c.Obj(K, {"datetime": c.DT, "seconds_from_start": c.Real}), g=lambda r: pair(K, at(r)))
    start = c.dt("start", g=lambda r: BASE)
    agree = lambda p: True if p is None else c.eq(p.seconds_from_start, c.instant(p.datetime) - c.instant(start))
    c.assume(agree(now))
    c.assume(c.forall_int(lambda k: c.implies(c.has(mine, k), lambda: agree(c.get(mine, k))), dom=range(5)))
    old, oldo = c.old(mine), c.old(other)
    known = c.truth(c.has(old, case))
    if c.symbolic:
        known = c.bool("already seen")
        c.assume(c.iff(known, c.has(old, case)))
    prev = c.get(old, case) if known else None
    r = c.call(g._check_and_update_enabling_time, case, "e1", now)
    rec = c.get(mine, case)
    c.check("recorded", c.has(mine, case))
    c.check("what is returned is what is recorded", c.and_(c.eq(rec.datetime, r.datetime), c.eq(
        rec.seconds_from_start, r.seconds_from_start)))
    if prev is None:
        c.check("first time: exactly that instant", c.and_(c.eq(r.datetime, now.datetime), c.eq(
            r.seconds_from_start, now.seconds_from_start)))
    else:
        c.check("never moves backwards", c.and_(r.datetime >= prev.datetime, r.datetime >= now.datetime))
        c.check("the latest one", c.ite(now.datetime > prev.datetime, lambda: c.eq(
            r.seconds_from_start, now.seconds_from_start), lambda: c.implies(
            now.datetime < prev.datetime, lambda: c.eq(r.seconds_from_start, prev.seconds_from_start))))
        c.check("one of the two", c.or_(c.eq(r.datetime, prev.datetime), c.eq(r.datetime, now.datetime)))
    c.check("other cases keep theirs", c.forall_int(lambda k: c.implies(c.not_(c.eq(k, case)), lambda: c.and_(
        c.iff(c.has(mine, k), c.has(old, k)), lambda: c.implies(c.has(old, k), lambda: same(c, c.get(mine, k), c.get(old, k))))),
        dom=range(5)))
    c.check("other elements keep theirs", c.forall_int(lambda k: c.iff(c.has(other, k), c.has(oldo, k)), dom=range(5)))


BASE = datetime.datetime(2024, 1, 1, tzinfo=datetime.timezone.utc)


def pair(K, d):
    return K((d - BASE).total_seconds(), d)


def same(c, a, b):
    if a is None or b is None:
        return a is None and b is None
    return c.same_obj(a, b) if c.symbolic else (a.datetime, a.seconds_from_start) == (b.datetime, b.seconds_from_start)


def at(r):
    return BASE + datetime.timedelta(days=r.randint(0, 2), hours=r.randint(0, 23))
