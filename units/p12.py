from pyvc.driver import unit
from units import sim
from units.p10 import Batched

B = "prosimos.batch_processing:BatchConfigPerTask."


def dist(c, a, b):
    return c.ite(a > b, lambda: a - b, lambda: b - a)


def table(c):
    """an arbitrary non-empty table of sizes and coefficients, with the sizes listed in ascending order"""
    d = c.dict("coefficients", c.Int, c.Real, g=lambda r: {r.randint(1, 12): r.choice([.5, .8, 1, 1.5, 2]) for _ in range(r.randint(1, 5))})
    l = c.list("sizes", c.Int, g=lambda r: sorted(d)) if c.symbolic else sorted(d)
    if c.symbolic:
        rank = c.dict("rank", c.Int, c.Int)
        c.assume(c.len(l) >= 1)
        c.assume(c.forall(0, c.len(l), lambda i: c.and_(c.has(d, c.at(l, i)), c.forall(0, i, lambda j: c.at(l, j) < c.at(l, i)))))
        c.assume(c.forall_int(lambda k: c.implies(c.has(d, k), lambda: c.and_(
            c.has(rank, k), lambda: c.and_(c.get(rank, k) >= 0, c.get(rank, k) < c.len(l),
                                           lambda: c.eq(c.at(l, c.get(rank, k)), k))))))
    c.assume(c.forall_int(lambda k: c.implies(c.has(d, k), lambda: c.and_(k >= 1, k < 10 ** 6)), dom=list(d) if not c.symbolic else ()))
    return d, l


def closest(V):
    c, l, n = V.c, V.c.sizes, V.c.n
    for nm, x, _ in V.ints():
        yield "distance of the last %s" % nm, c.implies(V.k > 0, lambda: c.eq(x, dist(c, n, c.at(l, V.k - 1))))
        yield "last %s" % nm, c.implies(V.k > 0, lambda: c.eq(x, c.at(l, V.k - 1)))
    yield "decreasing", c.forall(0, V.k - 1, lambda i: dist(c, n, c.at(l, i)) > dist(c, n, c.at(l, V.k - 1)))


@unit("P12.scaling", B + "calculate_ideal_duration", inv=closest)
def scaling(c):
    bp = c.mod("batch_processing")
    d, l = table(c)
    d0 = c.old(d)
    kind = c.choice("type", [bp.BATCH_TYPE.SEQUENTIAL, bp.BATCH_TYPE.PARALLEL, bp.BATCH_TYPE.CONCURRENT])
    n = c.int("n", 1, g=lambda r: r.randint(1, 15))
    c.assume(n < 10 ** 6)
    c.sizes, c.n = l, n
    x = c.real("sampled")
    b = c.obj(bp.BatchConfigPerTask, type=kind, duration_distribution=d, sorted_duration_distribution=l)
    r = c.call(b.calculate_ideal_duration, x, n)
    times = n if kind is bp.BATCH_TYPE.PARALLEL else 1
    if c.truth(c.eq(n, 1)):
        c.check("alone: the sampled duration", c.eq(r, x))
    elif c.truth(c.has(d0, n)):
        c.check("configured coefficient", c.eq(r, x * c.get(d0, n) * times))
    else:
        ok = lambda k: c.and_(c.has(d0, k), c.forall(0, c.len(l), lambda j: c.or_(
            dist(c, n, k) < dist(c, n, c.at(l, j)), c.and_(c.eq(dist(c, n, k), dist(c, n, c.at(l, j))), k <= c.at(l, j)))))
        c.check("coefficient of the nearest size, the smaller on ties", c.exists(0, c.len(l), lambda i: c.and_(
            ok(c.at(l, i)), lambda: c.eq(r, x * c.get(d0, c.at(l, i)) * times))))
    c.check("the table is not changed", c.and_(c.eq(c.len(l), c.len(l)), c.forall_int(lambda k: c.iff(
        c.has(d, k), c.has(d0, k)), dom=range(20))))


@unit("P12.sorted_table", B + "__init__")
def sorted_table(c):
    bp = c.mod("batch_processing")
    d = c.dict("coefficients", c.Int, c.Real, ordered=True, g=lambda r: {r.randint(1, 12): r.choice([.5, 1]) for _ in range(r.randint(1, 5))})
    p = c.real("p1", 0, 1)
    rules = bp.OrFiringRule([bp.AndFiringRule([bp.FiringSubRule("size", "=", 3)])]) if not c.symbolic else \
        c.obj(bp.OrFiringRule, rules=c.mklist([None]))
    b = c.call(bp.BatchConfigPerTask, bp.BATCH_TYPE.PARALLEL, d, rules, c.mklist([1, 3]), c.mklist([p, 1 - p]))
    l = b.sorted_duration_distribution
    c.check("ascending", c.forall(0, c.len(l), lambda i: c.forall(0, i, lambda j: c.at(l, j) < c.at(l, i))))
    c.check("exactly the listed sizes", c.and_(c.eq(c.len(l), c.len(d)), c.forall(0, c.len(l), lambda i: c.has(d, c.at(l, i)))))
    c.check("the table itself", c.forall_int(lambda k: c.iff(c.has(b.duration_distribution, k), c.has(d, k)), dom=range(20)))


@unit("P12.ideal_duration", "prosimos.simulation_setup:SimDiffSetup.ideal_task_duration")
def ideal(c):
    ss, bp = c.mod("simulation_setup"), c.mod("batch_processing")
    x = c.real("sampled")

    class D:
        def generate_sample(self, n):
            return [x]
    d, l = table(c)
    b = c.obj(bp.BatchConfigPerTask, type=bp.BATCH_TYPE.SEQUENTIAL, duration_distribution=d, sorted_duration_distribution=l)
    y = c.real("scaled")
    seen = []
    c.patch(bp.BatchConfigPerTask, "calculate_ideal_duration", lambda self, a, n: seen.append((a, n)) or y)
    n = c.int("n", 0, 10 ** 6, g=lambda r: r.randint(0, 12))
    s = c.obj(ss.SimDiffSetup, task_resource=c.mkdict({"t": c.mkdict({"r": D(), "q": None})}), batch_processing=c.mkdict({"t": b}))
    r = c.call(s.ideal_task_duration, "t", "r", n)
    if c.truth(c.eq(n, 0)):
        c.check("not in a batch: as sampled", c.eq(r, x))
    else:
        c.check("in a batch: as scaled", c.and_(c.eq(r, y), len(seen) == 1, c.eq(seen[0], (x, n))))


@unit("P12.simulated", [B + "calculate_ideal_duration", "prosimos.simulation_engine:run_simulation"],
      bounded="whole simulations of random models with one batched task")
def simulated(c):
    """the items of a batch take the configured duration scaled by the table, for parallel batches times their number"""
    r = Batched(c).go()
    ids = {v["name"]: k for k, v in r.res.items()}
    for x in r.work_rows:
        who = ids[x["resource"]]
        week, secs = r.weeks[r.res[who]["cal"]], r.work[x["id"]][who]
        if x["id"] == r.task:
            n = len(r.groups[x["batch_id"]])
            table = {1: 1, **r.table}
            near = min(table, key=lambda k: (abs(k - n), k)) if n > 1 else 1
            secs *= (table[near] if n > 1 else 1) * (n if r.kind == "Parallel" else 1)
        end = week.finish(x["start_time"], secs)
        if end is not None and not week.closing(x["start_time"]):
            c.check("the scaled duration", x["end_time"] == end)
    for g in r.groups.values():
        if r.kind == "Parallel":
            c.check("items of a parallel batch run together", len({(x["start_time"], x["end_time"], x["resource"]) for x in g}) == 1)
