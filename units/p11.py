import datetime
import operator
import sys

from pyvc.driver import unit
from units import sim
from units.p10 import Batched

M = "prosimos.batch_processing:"
SUB, AND, OR = M + "FiringSubRule.", M + "AndFiringRule.", M + "OrFiringRule."
UTC = datetime.timezone.utc
BASE = datetime.datetime(2024, 1, 1, tzinfo=UTC)
OPS = ["=", "<", "<=", ">", ">="]


def when(r):
    return BASE + datetime.timedelta(days=r.choice([0, 0, 1, 2, 7]), hours=r.randint(0, 23), seconds=r.choice([0, 0, 30, .5]))


def compare(c, op, x, v):
    return {"=": x == v, "<": x < v, "<=": x <= v, ">": x > v, ">=": x >= v}[op]


def queue(c, least=1, ordered=True):
    """waiting cases (enabled one after another), how long they wait, and the moment of the evaluation"""
    def gen(r):
        return sorted(when(r) for _ in range(r.randint(least, 5)))
    en = c.list("enabled", c.DT, lo=least, g=gen)
    now = c.dt("now", g=lambda r: max([when(r)] + en))
    if ordered:
        c.assume(c.forall(0, c.len(en), lambda i: c.forall(0, i, lambda j: c.at(en, j) <= c.at(en, i))))
        c.assume(c.forall(0, c.len(en), lambda i: c.at(en, i) <= now))
    wt = c.list("waiting", c.Real, lo=least) if c.symbolic else [(now - e).total_seconds() for e in en]
    if c.symbolic:
        c.assume(c.eq(c.len(wt), c.len(en)))
        c.assume(c.forall(0, c.len(en), lambda i: c.eq(c.at(wt, i), c.instant(now) - c.instant(c.at(en, i)))))
    return c.mkdict({"size": c.len(en), "waiting_times": wt, "enabled_datetimes": en, "curr_enabled_at": now,
                     "is_triggered_by_batch": c.bool("triggered by batch"), "is_only_one_batch_return": False}), en, now, wt


def seconds(r):
    return r.choice([0, 30, 3600, 86400, 90000, 172800, 7 * 86400])


@unit("P11.size_condition", [SUB + "is_true", SUB + "is_batch_size_enough"])
def size_condition(c):
    bp = c.mod("batch_processing")
    op, v = c.choice("op", OPS), c.int("bound", 1, g=lambda r: r.randint(1, 6))
    n = c.int("size", 0, g=lambda r: r.randint(0, 7))
    r = c.call(c.call(bp.FiringSubRule, "size", op, v).is_true, c.mkdict({"size": n}))
    enough = {"=": n >= v, ">=": n >= v, ">": n > v, "<": True, "<=": True}[op]
    c.check("enough cases wait", c.iff(r, c.and_(n >= 2, enough)))


@unit("P11.oldest_condition", SUB + "is_true")
def oldest_condition(c):
    bp = c.mod("batch_processing")
    op, v = c.choice("op", OPS), c.real("bound", 0, g=seconds)
    el, en, now, wt = queue(c)
    r = c.call(c.call(bp.FiringSubRule, "large_wt", op, v).is_true, el)
    c.check("waiting time of the oldest of several cases", c.iff(r, c.and_(c.len(en) >= 2, compare(
        c, op, c.instant(now) - c.instant(c.at(en, 0)), v))))


@unit("P11.last_condition", [SUB + "is_true", M + "get_waited_seconds"])
def last_condition(c):
    bp = c.mod("batch_processing")
    op, v = c.choice("op", OPS), c.real("bound", 0, g=seconds)
    el, en, now, wt = queue(c)
    r = c.call(c.call(bp.FiringSubRule, "ready_wt", op, v).is_true, el)
    gap = c.instant(now) - c.instant(c.at(en, c.len(en) - 1))
    if op in (">", ">=", "="):
        c.check("long enough since the last arrival", c.iff(r, compare(c, ">=" if op == "=" else op, gap, v)))
    else:
        c.check("an upper bound: at the latest when it is reached", r)


@unit("P11.day_conditions", SUB + "is_true")
def day_conditions(c):
    bp = c.mod("batch_processing")
    now = c.dt("now")
    n = c.int("size", 0, g=lambda r: r.randint(0, 4))
    el = c.mkdict({"size": n, "curr_enabled_at": now})
    if c.bool("weekday"):
        names = ["MONDAY", "TUESDAY", "WEDNESDAY", "THURSDAY", "FRIDAY", "SATURDAY", "SUNDAY"]
        day = c.choice("day", names)
        r = c.call(c.call(bp.FiringSubRule, "week_day", "=", c.choice("case", [day, day.title()])).is_true, el)
        c.check("that weekday", c.iff(r, c.and_(n >= 2, c.eq(now.weekday(), names.index(day)))))
    else:
        op, h = c.choice("op", OPS), c.choice("hour", [0, 1, 12, 23])
        r = c.call(c.call(bp.FiringSubRule, "daily_hour", op, datetime.time(h, 0, 0)).is_true, el)
        c.check("that time of day", c.iff(r, c.and_(n >= 2, compare(c, ">=" if op == "=" else op, now.time(), datetime.time(h)))))


def sized(c, op, n, v):
    return {"=": c.ite(n >= v, v, 0), "<": c.min(n, v - 1), "<=": c.min(n, v), ">": c.ite(n > v, n, 0), ">=": c.ite(n >= v, n, 0)}[op]


@unit("P11.size_rule", [AND + "get_firing_batch_size", AND + "get_firing_batch_size_ready_and_large", AND + "_has_rule"])
def size_rule(c):
    """one size rule alone: how many cases it fires"""
    bp = c.mod("batch_processing")
    op, v = c.choice("op", OPS), c.int("bound", 1, g=lambda r: r.randint(1, 6))
    el, en, now, wt = queue(c)
    n = c.len(en)
    a = c.call(bp.AndFiringRule, c.mklist([c.call(bp.FiringSubRule, "size", op, v)]))
    k, t = c.call(a.get_firing_batch_size, n, el)
    c.check("as many as the bound allows, none below it", c.eq(k, sized(c, op, n, v)))
    c.check("at that moment", c.eq(t, now) if t is not None else c.eq(k, 0))


WT = {"ready_wt": "get_ready_wt", "large_wt": "get_large_wt"}


@unit("P11.fired_part", [AND + "get_firing_batch_size", AND + "get_firing_batch_size_ready_and_large", AND + "_has_rule"], secs=120)
def fired_part(c):
    """whatever the rules on time find, at most the waiting cases fire, and not in the future"""
    bp = c.mod("batch_processing")
    kinds = c.choice("conditions", [["ready_wt"], ["large_wt"], ["ready_wt", "large_wt"], ["week_day"], ["daily_hour"],
                                    ["week_day", "daily_hour"], ["daily_hour", "daily_hour"], ["large_wt", "daily_hour"],
                                    ["ready_wt", "size"], ["large_wt", "size"], ["week_day", "size"], ["daily_hour", "size"],
                                    ["week_day", "daily_hour", "size"]])
    v = c.int("bound", 1, g=lambda r: r.randint(1, 5))
    h = datetime.time(12)
    val = {"size": v, "ready_wt": 60, "large_wt": 60, "week_day": "Monday", "daily_hour": h}
    op = c.choice("op", OPS)
    rules = [c.call(bp.FiringSubRule, k, op if k == "size" else "=", val[k]) for k in kinds]
    el, en, now, wt = queue(c)
    n = c.len(en)
    a = c.obj(bp.AndFiringRule, rules=c.mklist(rules), daily_hour_range=(datetime.time(0), datetime.time(23, 59, 59)),
              ready_wt_boundaries=(60, 60), large_wt_boundaries=(60, 60))
    cnt, parts = iter(range(9)), []

    def found(kind):
        i = next(cnt)
        k = c.int("found %s %d" % (kind, i), 0, g=lambda r: r.randint(0, len(en)))
        c.assume(k <= n)
        if c.truth(c.eq(k, 0)):
            return 0, None
        parts.append(k)
        return k, c.dt("due %s %d" % (kind, i), g=when)
    if c.symbolic:
        for kind, meth in WT.items():
            c.contract(bp.AndFiringRule, meth, lambda self, e, kind=kind: found(kind) if kind in kinds else None)
        c.contract(bp.FiringSubRule, "get_batch_size_relative_time", lambda self, e: found("week_day"))
        c.contract(bp.FiringSubRule, "get_batch_size_by_daily_hour", lambda self, e, o, rng: found("daily_hour"))
    k, t = c.call(a.get_firing_batch_size, n, el)
    c.check("none, or some of the waiting cases", c.and_(k >= 0, k <= n))
    c.check("not in the future", c.eq(k, 0) if t is None else t <= now)
    if "size" in kinds:
        c.check("as many as the size condition allows", c.implies(k > 0, {"<": k < v, "<=": k <= v, "=": c.eq(k, v), ">": k > v, ">=": k >= v}[op]))
    elif len([k for k in kinds if not k.endswith("wt")]) < 2:      # the hour overrides the weekday
        for p in parts:
            c.check("no more than each condition finds", k <= p)


def gaps(c, en, now, i):
    """time between arrival i - 1 and arrival i (the evaluation comes after the last arrival)"""
    n = c.len(en)
    nxt = c.ite(c.eq(i, n), lambda: c.instant(now), lambda: c.instant(c.at(en, i)))
    return nxt - c.instant(c.at(en, i - 1))


def fires_at(c, gap, i, lo, hi):
    return c.ite(c.eq(i, 1), c.and_(gap >= lo, gap > hi), gap >= lo)


def no_gap(V):
    c = V.c
    if not hasattr(c, "en"):
        return
    yield "no firing gap so far", c.forall(1, V.k + 1, lambda i: c.not_(fires_at(c, gaps(c, c.en, c.now, i), i, c.lo, c.hi)))
    for nm, x, _ in V.dts():
        yield "previous %s" % nm, c.eq(x, c.at(c.en, V.k))


@unit("P11.last_arrival", [AND + "get_ready_wt", M + "get_waited_seconds", M + "_get_enabled_time_for_wt_rule"], inv=no_gap)
def last_arrival(c):
    bp = c.mod("batch_processing")
    el, en, now, wt = queue(c)
    lo, hi = c.real("low", 0, g=seconds), c.real("high", 0, g=seconds)
    c.assume(lo <= hi)
    c.en, c.now, c.lo, c.hi = en, now, lo, hi
    n = c.len(en)
    a = c.obj(bp.AndFiringRule, rules=c.mklist([c.call(bp.FiringSubRule, "ready_wt", ">", lo)]), ready_wt_boundaries=(lo, hi))
    k, t = c.call(a.get_ready_wt, el)
    hit = lambda i: fires_at(c, gaps(c, en, now, i), i, lo, hi)
    if t is None:
        c.check("nothing fires", c.and_(c.eq(k, 0), c.forall(1, n + 1, lambda i: c.not_(hit(i)))))
    else:
        c.check("the first group followed by a long enough gap", c.and_(
            k >= 1, k <= n, lambda: hit(k), lambda: c.forall(1, k, lambda i: c.not_(hit(i)))))
        c.check("due when the gap is long enough", c.eq(c.instant(t), c.instant(c.at(en, k - 1)) + c.ite(c.eq(k, 1), hi, lo)))


def wait(c, en, now, i):
    n = c.len(en)
    return c.ite(c.eq(i, n), lambda: c.instant(now), lambda: c.instant(c.at(en, i))) - c.instant(c.at(en, 0))


def no_wait(V):
    c = V.c
    if not hasattr(c, "en"):
        return
    yield "not due so far", c.forall(1, V.k + 1, lambda i: c.or_(wait(c, c.en, c.now, i) <= c.lo, c.and_(c.eq(i, 1), wait(
        c, c.en, c.now, i) <= c.hi)))
    for nm, x, _ in V.dts():
        yield "previous %s" % nm, c.eq(x, c.at(c.en, V.k))


@unit("P11.oldest", [AND + "get_large_wt", M + "get_waited_seconds", M + "_get_enabled_time_for_wt_rule"], inv=no_wait)
def oldest(c):
    bp = c.mod("batch_processing")
    el, en, now, wt = queue(c)
    lo, hi = c.real("low", 0, g=seconds), c.real("high", 0, g=seconds)
    c.assume(lo <= hi)
    c.en, c.now, c.lo, c.hi = en, now, lo, hi
    n = c.len(en)
    a = c.obj(bp.AndFiringRule, rules=c.mklist([c.call(bp.FiringSubRule, "large_wt", ">", lo)]), large_wt_boundaries=(lo, hi))
    k, t = c.call(a.get_large_wt, el)
    w = lambda i: wait(c, en, now, i)
    first = c.instant(c.at(en, 0))
    if t is None:
        c.check("one case, still within the bounds", c.and_(c.eq(k, 0), c.eq(n, 1), lambda: c.and_(w(1) > lo, w(1) <= hi)))
    else:
        c.check("cases of the group", c.and_(k >= 1, k <= n))
        c.check("all that came before the oldest waited long enough", c.forall(2, k, lambda i: w(i) <= lo))
        if c.truth(w(k) <= lo):
            c.check("all wait, due in the future", c.and_(c.eq(k, n), c.eq(c.instant(t), first + lo)))
        else:
            c.check("never before the oldest waited long enough", c.instant(t) >= first + lo)
            c.check("a single case waits until the upper bound", c.implies(c.eq(k, 1), c.and_(w(1) > hi, c.eq(c.instant(t), first + hi + 1))))
            c.check("due when the oldest waited long enough, or the group is complete", c.implies(k >= 2, lambda: c.eq(
                c.instant(t), c.max(first + lo, c.min(c.instant(c.at(en, k - 1)), first + hi + 1)))))


@unit("P11.conjunction", [AND + "is_true", AND + "is_batch_size_enough_for_exec"], secs=120)
def conjunction(c):
    """sizes are positive, add up to at most the queue, and the start is not in the future; induction over the queue"""
    bp = c.mod("batch_processing")
    A = bp.AndFiringRule
    el, en, now, wt = queue(c)
    n = c.len(en)
    kinds = c.choice("conditions", [["size"], ["ready_wt"], ["week_day"], ["daily_hour", "size"]])
    rules = [c.call(bp.FiringSubRule, k, "=", c.int("bound", 1) if k == "size" else None) for k in kinds]
    a = c.obj(A, rules=c.mklist(rules), ready_wt_boundaries=(60, 60))
    hold = [c.bool("holds %d" % i) for i in range(len(rules))]
    k1 = c.int("group", 0, g=lambda r: r.randint(0, len(en)))
    c.assume(k1 <= n)
    due = c.dt("due", g=lambda r: min(now, when(r)))
    c.assume(due <= now)
    more = c.bool("the rest fires too")
    tail = c.list("rest", c.Int, lo=1, g=lambda r: [1] * r.randint(1, max(1, len(en) - k1)))
    c.assume(c.forall(0, c.len(tail), lambda i: c.at(tail, i) >= 1))
    tot = c.int("total of the rest", g=lambda r: sum(tail))
    c.assume(tot >= c.len(tail))
    rest = []
    full = A.is_true
    c.patch(bp.FiringSubRule, "is_true", lambda self, e: hold[[i for i, q in enumerate(rules) if q is self][0]])
    c.patch(A, "get_firing_batch_size", lambda self, m, e: (k1, due) if c.truth(k1 >= 1) else (0, None))

    def shorter(self, e):
        rest.append(1)
        m = e["size"]
        c.check("the rest is shorter", c.and_(c.eq(m, n - k1), m >= 1, m < n))
        c.check("the waiting cases of the rest", c.and_(
            c.eq(c.len(e["waiting_times"]), m), c.eq(c.len(e["enabled_datetimes"]), m),
            lambda: c.forall(0, m, lambda i: c.and_(c.eq(c.at(e["waiting_times"], i), c.at(wt, i + k1)),
                                                    c.eq(c.at(e["enabled_datetimes"], i), c.at(en, i + k1))))))
        c.check("evaluated at the same moment", c.eq(e["curr_enabled_at"], now))
        if not c.truth(more):
            return False, None, None
        c.assume(tot <= m)
        return True, tail, due
    c.patch(A, "is_true", shorter)
    ok, spec, t = c.call(full, a, el)
    least = 1 if "ready_wt" in kinds else c.ite(c.eq(rules[-1].value2, 1), 1, 2) if "size" in kinds else 2
    c.check("fires iff a large enough group is due", c.iff(ok, k1 >= least))
    if c.truth(ok):
        c.check("not in the future", t <= now)
        c.check("positive size", c.at(spec, 0) >= 1)
        whole = c.truth(c.eq(k1, n))
        c.check("the rest is asked once, if any", len(rest) == (0 if whole else 1))
        if rest and c.truth(more):
            c.check("first group, then the groups of the rest", c.and_(c.eq(c.len(spec), 1 + c.len(tail)), c.eq(c.at(spec, 0), k1), c.forall(
                0, c.len(tail), lambda i: c.eq(c.at(spec, i + 1), c.at(tail, i)))))
            c.check("no more than wait", k1 + tot <= n)
        else:
            c.check("one group", c.and_(c.eq(c.len(spec), 1), c.eq(c.at(spec, 0), k1), k1 <= n))


def first(V):
    c = V.c
    if not hasattr(c, "alts"):
        return
    if V.depth == 0 and c.alts is not None:
        yield "none so far fires", c.or_(c.forall(0, V.k, lambda i: c.not_(c.at(c.alts, i).holds)), False)
        yield "none so far is impossible", c.forall(0, V.k, lambda i: c.not_(c.at(c.alts, i).dead))


@unit("P11.alternatives", OR + "is_true", inv=first)
def alternatives(c):
    bp = c.mod("batch_processing")
    A = bp.AndFiringRule

    def gen(r):
        out = []
        for _ in range(r.randint(0, 4)):
            o = object.__new__(A)
            o.holds, o.dead, o.n = r.random() < .3, r.random() < .2, r.randint(1, 4)
            out.append(o)
        return out
    alts = c.alts = c.list("alternatives", c.Obj(A, {"holds": c.Bool, "dead": c.Bool, "n": c.Int}), g=gen)
    el, en, now, wt = queue(c)
    n = c.len(en)
    due = c.dt("due", g=lambda r: min(now, when(r)))
    c.assume(due <= now)
    pat = c.contract if c.symbolic else c.patch
    pat(A, "is_true", lambda self, e: (True, [self.n], due) if c.truth(self.holds) else (False, None, None))
    pat(A, "is_invalid", lambda self, w: self.dead)
    o = c.obj(bp.OrFiringRule, rules=alts)
    ok, spec, t = c.call(o.is_true, el)
    some = c.exists(0, c.len(alts), lambda i: c.at(alts, i).holds)
    c.check("fires iff one alternative does, or none ever can", c.iff(ok, c.or_(some, c.exists(0, c.len(alts), lambda i: c.at(alts, i).dead))))
    if c.truth(ok):
        c.check("not in the future", t <= now)
        c.check("the groups of the first alternative, otherwise everything", c.and_(c.eq(c.len(spec), 1), c.ite(some, lambda: c.exists(
            0, c.len(alts), lambda i: c.and_(c.at(alts, i).holds, c.eq(c.at(alts, i).n, c.at(spec, 0)), c.forall(
                0, i, lambda j: c.not_(c.at(alts, j).holds)))), lambda: c.eq(c.at(spec, 0), n))))


def earliest(V):
    c = V.c
    if not hasattr(c, "alts"):
        return
    for nm, xs, _ in V.lists():
        if "." in nm:
            continue
        yield "%s: from the alternatives seen" % nm, lambda xs=xs: c.forall(0, c.len(xs), lambda j: c.exists(
            0, V.k, lambda i: c.and_(c.len(c.at(c.alts, i).times) > 0, lambda: c.eq(c.instant(c.at(xs, j)), latest(c, c.at(c.alts, i))))))
        yield "%s: all alternatives seen" % nm, lambda xs=xs: c.forall(0, V.k, lambda i: c.implies(
            c.len(c.at(c.alts, i).times) > 0, lambda: c.exists(0, c.len(xs), lambda j: c.eq(
                c.instant(c.at(xs, j)), latest(c, c.at(c.alts, i))))))


def latest(c, alt):
    return c.instant(alt.last) if c.symbolic else max(c.instant(t) for t in alt.times)


@unit("P11.end_alternatives", OR + "get_enabled_time", inv=earliest)
def end_alternatives(c):
    """when nothing else happens: the earliest instant at which some alternative could hold, each at its last condition"""
    bp, wd = c.mod("batch_processing"), c.mod("weekday_helper")
    A = bp.AndFiringRule

    def gen(r):
        out = []
        for _ in range(r.randint(0, 4)):
            o = object.__new__(A)
            o.times = [when(r) for _ in range(r.randint(0, 3))]
            out.append(o)
        return out
    fields = {"times": c.List(c.DT), "last": c.DT}
    alts = c.alts = c.list("alternatives", c.Obj(A, fields), g=gen)
    if c.symbolic:
        c.assume(c.forall(0, c.len(alts), lambda i: c.and_(
            c.forall(0, c.len(c.at(alts, i).times), lambda j: c.at(c.at(alts, i).times, j) <= c.at(alts, i).last),
            c.implies(c.len(c.at(alts, i).times) > 0, lambda: c.exists(0, c.len(c.at(alts, i).times), lambda j: c.eq(
                c.instant(c.at(c.at(alts, i).times, j)), c.instant(c.at(alts, i).last)))))))
    (c.contract if c.symbolic else c.patch)(A, "get_enabled_time", lambda self, w, t: self.times)
    o = c.obj(bp.OrFiringRule, rules=alts)
    now = c.dt("now", g=when)
    w = [(k, wd.CustomDatetimeAndSeconds(0, now)) for k in range(c.choice("waiting", [2, 3]))]
    t = c.call(o.get_enabled_time, w, wd.CustomDatetimeAndSeconds(0, now))
    can = lambda i: c.len(c.at(alts, i).times) > 0
    if t is None:
        c.check("no alternative can hold", c.forall(0, c.len(alts), lambda i: c.not_(can(i))))
    else:
        c.check("when one alternative holds", c.exists(0, c.len(alts), lambda i: c.and_(
            can(i), lambda: c.eq(c.instant(t), latest(c, c.at(alts, i))))))
        c.check("never later than another one", c.forall(0, c.len(alts), lambda i: c.implies(
            can(i), lambda: c.instant(t) <= latest(c, c.at(alts, i)))))


@unit("P11.end_conjunction", [AND + "get_enabled_time", AND + "_get_min_enabled_time_waiting_time", SUB + "_get_min_enabled_time_week_day"],
      scope="every combination of up to three kinds of conditions in the order the parser gives them; queues of one to three cases")
def end_conjunction(c):
    """one instant per condition, each computed from the waiting cases and the last event"""
    bp, wd = c.mod("batch_processing"), c.mod("weekday_helper")
    K = wd.CustomDatetimeAndSeconds
    kinds = c.choice("conditions", [["size"], ["ready_wt"], ["large_wt"], ["week_day"], ["size", "week_day"], ["ready_wt", "size"],
                                    ["large_wt", "week_day"], ["ready_wt", "large_wt", "week_day"]])
    n = c.choice("waiting", [1, 2, 3])
    en = [c.dt("enabled %d" % i, g=when) for i in range(n)]
    now = c.dt("now", g=when)
    hi, lo = c.real("high", 0, g=seconds), c.real("low", 0, g=seconds)
    val = {"size": c.int("bound", 1), "ready_wt": lo, "large_wt": lo, "week_day": c.choice("day", ["Monday", "Sunday"])}
    rules = [c.call(bp.FiringSubRule, k, "=", val[k]) for k in kinds]
    a = c.obj(bp.AndFiringRule, rules=rules, ready_wt_boundaries=(lo, hi), large_wt_boundaries=(lo, hi),
              daily_hour_range=(datetime.time(0), datetime.time(23, 59, 59)))
    due = {k: c.dt("due by %s" % k, g=when) if c.bool("%s is due" % k) else None for k in kinds if k in WT}
    for k, meth in WT.items():
        def found(self, e, k=k):
            c.check("%s: all waiting cases" % k, c.and_(c.eq(c.len(e["enabled_datetimes"]), n), lambda: c.and_(
                *[c.eq(e["enabled_datetimes"][i], en[i]) for i in range(n)])))
            c.check("%s: at the last event" % k, c.eq(e["curr_enabled_at"], now))
            return (0, None) if due[k] is None else (n, due[k])
        c.patch(bp.AndFiringRule, meth, found)
    out = c.call(a.get_enabled_time, [(i, K(0, en[i])) for i in range(n)], K(0, now))
    want = [due[k] for k in kinds if k in WT and due[k] is not None]
    want += [now for k in kinds if k == "size"]
    if "week_day" in kinds:
        want.append(rules[-1]._get_min_enabled_time_week_day(K(0, now)))
    c.check("instants of the conditions", c.and_(*[c.or_(False, *[c.eq(c.instant(x), c.instant(t)) for t in want]) for x in out]))
    c.check("one for each condition", c.and_(*[c.or_(False, *[c.eq(c.instant(x), c.instant(t)) for x in out]) for t in want]))


@unit("P11.dead", [AND + "is_invalid", AND + "is_invalid_end", SUB + "is_invalid_end"],
      scope="every combination of up to three kinds of conditions")
def dead(c):
    """an alternative is given up only when it can never hold again"""
    bp = c.mod("batch_processing")
    kinds = c.choice("conditions", [["size"], ["ready_wt"], ["large_wt"], ["week_day"], ["daily_hour"], ["ready_wt", "size"], ["large_wt", "size"],
                                    ["ready_wt", "large_wt"], ["size", "week_day", "daily_hour"], ["large_wt", "size", "week_day"]])
    op, v = c.choice("op", OPS), c.int("bound", 1, g=lambda r: r.randint(1, 6))
    rl, rh = c.real("ready low", 0, g=seconds), c.real("ready high", 0, g=seconds)
    ll, lh = c.real("large low", 0, g=seconds), c.real("large high", 0, g=seconds)
    val = {"size": v, "ready_wt": rl, "large_wt": ll, "week_day": "Monday", "daily_hour": datetime.time(12)}
    rules = [c.call(bp.FiringSubRule, k, op if k == "size" else "=", val[k]) for k in kinds]
    a = c.obj(bp.AndFiringRule, rules=rules, ready_wt_boundaries=(rl, rh), large_wt_boundaries=(ll, lh))
    n, first, last = c.int("size", 1, g=lambda r: r.randint(1, 7)), c.real("oldest waits", g=seconds), c.real("last waits", g=seconds)
    old = c.and_("large_wt" in kinds, first > lh)
    few = {"=": n < v, ">=": n < v, ">": n <= v, "<": False, "<=": False}[op]
    c.check("during the simulation: the oldest waited too long", c.iff(c.call(a.is_invalid, first) or False, old))
    c.check("at the end: also too few cases, or the last arrival too long ago", c.iff(c.call(a.is_invalid_end, n, first, last) or False, c.or_(
        old, c.and_("ready_wt" in kinds, last > rh), c.and_("size" in kinds, few))))


def none_dead(V):
    c = V.c
    if hasattr(c, "dead"):
        yield "none so far is dead", lambda: c.forall(0, V.k, lambda i: c.not_(c.at(c.dead, i).dead))


@unit("P11.end_dead", OR + "is_invalid_end", inv=none_dead)
def end_dead(c):
    bp = c.mod("batch_processing")
    A = bp.AndFiringRule

    def gen(r):
        out = []
        for _ in range(r.randint(0, 4)):
            o = object.__new__(A)
            o.dead = r.random() < .3
            out.append(o)
        return out
    alts = c.dead = c.list("alternatives", c.Obj(A, {"dead": c.Bool}), g=gen)
    n, first, last = c.int("size", 1), c.real("oldest waits", g=seconds), c.real("last waits", g=seconds)

    def ask(self, m, f, l):
        c.check("asked about the queue", c.and_(c.eq(m, n), c.eq(f, first), c.eq(l, last)))
        return self.dead
    (c.contract if c.symbolic else c.patch)(A, "is_invalid_end", ask)
    r = c.call(c.obj(bp.OrFiringRule, rules=alts).is_invalid_end, n, first, last)
    c.check("one alternative can never hold again", c.iff(r or False, c.exists(0, c.len(alts), lambda i: c.at(alts, i).dead)))


def lower(op):
    return op in (">", ">=")


@unit("P11.wait_bounds", [AND + "init_boundaries", AND + "_get_low_and_high_boundaries", AND + "_init_ready_wt_boundaries_if_any",
                          AND + "_init_large_wt_boundaries_if_any"],
      scope="at most one lower and one upper bound for each kind of waiting time, listed in any order, before or after other conditions")
def wait_bounds(c):
    """the interval of waiting times worked out from the conditions is exactly the set of those satisfying them all"""
    bp = c.mod("batch_processing")
    kind = c.choice("kind", ["ready_wt", "large_wt"])
    other = "large_wt" if kind == "ready_wt" else "ready_wt"
    ops = c.choice("comparisons", [["="], ["<"], ["<="], [">", "<"], [">=", "<"], [">", "<="], [">=", "<="], ["<", ">"], ["<", ">="],
                                   ["<=", ">"], ["<=", ">="]])
    vals = [c.int("bound %d" % i, 0, g=lambda r: r.choice([0, 1, 60, 3600, 86400])) for i in range(len(ops))]
    rules = [c.call(bp.FiringSubRule, kind, o, v) for o, v in zip(ops, vals)]
    extra = [c.call(bp.FiringSubRule, other, "=", 77), c.call(bp.FiringSubRule, "size", ">=", 3),
             c.call(bp.FiringSubRule, "daily_hour", "<", datetime.time(12))]
    at = c.choice("other conditions", ["none", "before", "after"])
    rules = rules if at == "none" else extra + rules if at == "before" else rules + extra
    a = c.call(bp.AndFiringRule, rules)
    c.call(a.init_boundaries)
    got = getattr(a, kind + "_boundaries")
    w = c.int("waited", 0, g=lambda r: r.choice([0, 1, 2, 59, 60, 61, 3599, 3600, 3601, 86400]))
    c.check("within the bounds iff every comparison holds", c.iff(
        c.and_(got[0] <= w, w <= got[1]), c.and_(*[compare(c, o, w, v) for o, v in zip(ops, vals)])))
    rest = getattr(a, other + "_boundaries")
    c.check("the other kind has its own bounds", rest is None if at == "none" else c.and_(c.eq(rest[0], 77), c.eq(rest[1], 77)))


@unit("P11.wait_unbounded", AND + "init_boundaries")
def wait_unbounded(c):
    """a waiting time that is only bounded from below would let cases wait for ever: rejected"""
    bp = c.mod("batch_processing")
    kind = c.choice("kind", ["ready_wt", "large_wt"])
    a = c.call(bp.AndFiringRule, [c.call(bp.FiringSubRule, kind, c.choice("op", [">", ">="]), c.int("bound", 0))])
    c.check("rejected", c.raised(c.call(a.init_boundaries, raises=(Exception,))))


TIMES = [datetime.time(0), datetime.time(0, 0, 1), datetime.time(9, 30), datetime.time(12), datetime.time(23, 0, 30), datetime.time(23, 59, 59)]


def of_day(t):
    return t.hour * 3600 + t.minute * 60 + t.second


@unit("P11.hour_bounds", [AND + "init_boundaries", AND + "_init_daily_hour_range_if_any", AND + "_get_low_and_high_boundaries", SUB + "_get_new_time"],
      scope="one or two conditions on the hour out of six hours; every second of the day")
def hour_bounds(c):
    bp = c.mod("batch_processing")
    ops = c.choice("comparisons", [["="], ["<"], ["<="], [">"], [">="], [">", "<"], [">=", "<="], ["<", ">="], ["<=", ">"]])
    vals = [c.choice("hour %d" % i, TIMES) for i in range(len(ops))]
    c.assume(all(not (o == "<" and v == TIMES[0]) and not (o == ">" and v == TIMES[-1]) for o, v in zip(ops, vals)))
    a = c.call(bp.AndFiringRule, [c.call(bp.FiringSubRule, "daily_hour", o, v) for o, v in zip(ops, vals)])
    c.call(a.init_boundaries)
    low, high = a.daily_hour_range
    t = c.int("second of the day", 0, 86399, g=lambda r: min(86399, max(0, of_day(r.choice(TIMES)) + r.choice([-1, 0, 1]))))
    c.check("within the bounds iff every comparison holds", c.iff(
        c.and_(of_day(low) <= t, t <= of_day(high)), c.and_(*[compare(c, o, t, of_day(v)) for o, v in zip(ops, vals)])))


@unit("P11.hours_only", [AND + "validate"], scope="up to four conditions of any kinds")
def hours_only(c):
    """at most one weekday and two hours in one alternative"""
    bp = c.mod("batch_processing")
    kinds = [c.choice("kind %d" % i, ["week_day", "daily_hour", "size", "ready_wt"]) for i in range(c.choice("conditions", [0, 1, 2, 3, 4]))]
    a = c.call(bp.AndFiringRule, [c.call(bp.FiringSubRule, k, "=", None) for k in kinds])
    E = c.mod("exceptions").InvalidRuleDefinitionException
    r = c.call(a.validate, raises=(E,))
    c.check("rejected iff there are more", c.raised(r) == (kinds.count("week_day") > 1 or kinds.count("daily_hour") > 2))


def waiting(c, n, day=None):
    """n cases enabled one after another; evaluated at `now`"""
    en = [c.dt("enabled %d" % i, g=when) for i in range(n)]
    now = c.dt("now", g=when)
    return en, now


def ordered(c, en, now):
    for a, b in zip(en, en[1:] + [now]):
        c.assume(c.instant(a) <= c.instant(b))


@unit("P11.hour_same_day", [SUB + "get_batch_size_by_daily_hour", SUB + "_return_with_validation_arr", SUB + "_return_with_validation"],
      scope="up to three cases enabled on one day; evaluated on that day or a later one", secs=150)
def hour_same_day(c):
    """cases enabled on one day (at whole seconds, the precision of the bounds): which of them an hour condition fires, and when"""
    bp = c.mod("batch_processing")
    n = c.choice("cases", [1, 2, 3])
    op, h = c.choice("op", OPS), c.choice("hour", [9, 12])
    s = [c.int("second of the day %d" % i, 0, g=lambda r: r.choice([0, 3600 * 8, 3600 * 9, 3600 * 12 - 1, 3600 * 12, 3600 * 15, 86399])) for i in range(n)]
    if not c.symbolic:
        s.sort()
    for x, y in zip(s, s[1:] + [86400]):
        c.assume(x <= y)
    c.assume(s[-1] < 86400)
    now_s = c.real("now", 0, g=lambda r: r.choice([3600 * 9, 3600 * 12, 3600 * 16, 86399, 86400, 86400 + 3600, 86400 + 3600 * 13, 3 * 86400]))
    c.assume(now_s >= s[-1])
    day = BASE
    at = lambda x: day + c.delta(x)
    en, now = [at(x) for x in s], at(now_s)
    v = h * 3600
    el = {"curr_enabled_at": now, "enabled_datetimes": en}
    a = c.call(bp.AndFiringRule, [c.call(bp.FiringSubRule, "daily_hour", op, datetime.time(h))])
    c.call(a.init_boundaries)
    k, t = c.call(a.rules[0].get_batch_size_by_daily_hour, el, False, a.daily_hour_range)
    fits = [bool(c.truth(compare(c, "<=" if op == "=" else op, x, v))) for x in s]
    late = fits.count(False)
    due = lambda x: bool(c.truth(now_s >= x))
    if n < 2:
        want = (0, None)
    elif op in ("<", "<="):
        want = (2, s[1]) if fits[1] else (n, 86400) if due(86400) else (0, None)
    elif op == "=":
        m = n - late
        want = (m, v) if m >= 2 and due(v) else (n, 86400 + v) if m < 2 and due(86400 + v) else (0, None)
    else:
        want = (2, s[1]) if late < 2 and fits[1] else (late, v) if late >= 2 and due(v) else (0, None)
    c.check("how many fire", c.eq(k, want[0]))
    c.check("the instant they fire", t is None if want[1] is None else t is not None and c.eq(c.instant(t), c.instant(at(want[1]))))


DAYS = ["MONDAY", "TUESDAY", "WEDNESDAY", "THURSDAY", "FRIDAY", "SATURDAY", "SUNDAY"]


@unit("P11.weekday_part", SUB + "get_batch_size_relative_time", scope="up to four waiting cases; evaluated at whole seconds")
def weekday_part(c):
    """how many of the waiting cases a weekday condition fires"""
    bp = c.mod("batch_processing")
    n = c.choice("waiting", [1, 2, 3, 4])
    en = [c.dt("enabled %d" % i, g=when) for i in range(n)]
    d, s = c.int("day", 0, 21), c.int("second of the day", 0, 86399, g=lambda r: r.choice([0, 1, 43200, 86399]))
    now = BASE + c.delta(d * 86400 + s)
    if not c.symbolic:
        en.sort()
    ordered(c, en, now)
    day = c.choice("weekday", ["Monday", "Wednesday", "Sunday"])
    by_case = c.bool("a case has just been enabled")
    back = (d - DAYS.index(day.upper())) % 7            # days since that weekday
    today = bool(c.truth(c.eq(back, 0)))
    midnight = BASE + c.delta((d - back) * 86400)
    before = 0
    for e in en:
        before = before + c.ite(c.instant(e) < c.instant(midnight), 1, 0)
    k, t = c.call(c.call(bp.FiringSubRule, "week_day", "=", day).get_batch_size_relative_time, c.mkdict({
        "curr_enabled_at": now, "enabled_datetimes": c.mklist(en), "is_triggered_by_batch": by_case, "size": n}))
    if by_case and today and bool(c.truth(before >= 2)):
        c.check("the day has begun: all cases that waited at midnight", c.and_(c.eq(k, before), c.eq(c.instant(t), c.instant(midnight))))
    elif by_case:
        c.check("all cases enabled by now", c.and_(c.eq(k, n), c.eq(c.instant(t), c.instant(now))))
    else:
        c.check("the cases that waited when the last such day began", c.eq(k, before))
        c.check("at its midnight", c.eq(k, 0) if t is None else c.and_(k > 0, c.eq(c.instant(t), c.instant(midnight))))


@unit("P11.simulated", [M + "FiringSubRule.is_batch_size_enough", "prosimos.batch_processing_parser:BatchProcessingParser.parse",
                        "prosimos.simulation_engine:run_simulation"],
      bounded="whole simulations of random models with one batched task")
def simulated(c):
    """a rule on the size fires as soon as that many cases wait, never earlier and never for fewer"""
    r = Batched(c).go()
    for g in r.groups.values():
        c.check("batches of the size of the rule", len(g) == r.size if r.op == "=" else len(g) >= r.size)
        due = max(x["enable_time"] for x in g)
        if r.kind == "Parallel":
            c.check("no batch starts before it is complete", all(x["start_time"] >= due for x in g))


@unit("P11.waited", [M + "FiringSubRule.is_true", OR + "get_enabled_time", "prosimos.batch_processing_parser:BatchProcessingParser.parse",
                     "prosimos.simulation_engine:run_simulation"],
      bounded="whole simulations of random models with one task batched by waiting time")
def waited(c):
    """a batch begins when its oldest case, or the one that came last, has waited as long as the rule says"""
    class Waited(Batched):
        def extra(self, r):
            super().extra(r)
            self.kind = "Parallel"
            self.what, self.op, self.until = r.choice(["large_wt", "ready_wt"]), r.choice([">", ">="]), r.choice(["<", "<="])
            self.bound = r.choice([60, 600, 3600, 50000])
            self.last = self.bound + r.choice([60, 3600, 30000])
            # the cases reach the batched task one after the other, in order
            self.gap = r.choice([61, 600, 7201, 40000])
            for w in self.weeks.values():
                w.json, w.spans = [{"from": "MONDAY", "to": "SUNDAY", "beginTime": "00:00:00", "endTime": "23:59:59"}], []
            for t in self.work:
                if t != self.task:
                    self.work[t] = {x: r.choice([1, 17, 40]) for x in self.work[t]}

        def more(self, j):
            super().more(j)
            b = j["batch_processing"][0]
            b["firing_rules"] = [[{"attribute": self.what, "comparison": self.op, "value": self.bound},
                                  {"attribute": self.what, "comparison": self.until, "value": self.last}]]

    r = Waited(c).go()
    for x in r.rows:
        if x["id"] != r.task and x["start_time"] != x["enable_time"]:
            return
    sec = lambda a, b: (b - a).total_seconds()
    for b, g in sorted(r.groups.items()):
        c.log["batch"] = [{k: str(v) for k, v in x.items()} for x in g]
        came = [x["enable_time"] for x in g]
        since = min(came) if r.what == "large_wt" else max(came)
        late = sec(since, min(x["start_time"] for x in g)) - r.bound
        c.check("not before", late >= 0 if r.op == ">=" else late > 0)
