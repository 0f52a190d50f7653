import datetime

from pyvc.driver import unit
from units import sim

G = "prosimos.control_flow_manager:BPMNGraph."
B = "prosimos.control_flow_manager:BatchInfoForExecution."
BC = "prosimos.batch_processing:BatchConfigPerTask."
E = "prosimos.simulation_engine:SimBPMEnv."
UTC = datetime.timezone.utc
BASE = datetime.datetime(2024, 1, 1, tzinfo=UTC)
TASKS = ["t1", "t2", "t3"]


def when(K):
    def g(r):
        s = r.choice([0, 60, 3600, 90000])
        return K(s, BASE + datetime.timedelta(seconds=s))
    return g


def waiting(c, cf, name="waiting", lo=0):
    """waiting cases of one task, in order of arrival"""
    K = cf.CustomDatetimeAndSeconds
    g = when(K)
    d = c.dict(name, c.Int, c.Obj(K, {"datetime": c.DT, "seconds_from_start": c.Real}), True,
               g=lambda r: {k: g(r) for k in r.sample(range(8), r.randint(lo, 6))})
    c.assume(c.len(d) >= lo)
    return d


def same(c, a, b):
    return c.same_obj(a, b) if c.symbolic else (a.datetime, a.seconds_from_start) == (b.datetime, b.seconds_from_start)


def unchanged(c, d, d0):
    return c.and_(c.eq(c.len(d), c.len(d0)), lambda: c.forall(0, c.len(d0), lambda i: c.and_(
        c.eq(c.key_at(d, i), c.key_at(d0, i)), lambda: same(c, c.get(d, c.key_at(d0, i)), c.get(d0, c.key_at(d0, i))))))


@unit("P10.join", G + "increase_task_count")
def join(c):
    """a case joins the queue of one task: once, at the end; every recorded length stays the number of waiting cases"""
    cf = c.mod("control_flow_manager")
    K = cf.CustomDatetimeAndSeconds
    g = when(K)
    W = c.Dict(c.Int, c.Obj(K, {"datetime": c.DT, "seconds_from_start": c.Real}), True)
    w = c.dict("queues", c.Str, W, g=lambda r: {t: {k: g(r) for k in r.sample(range(6), r.randint(0, 4))} for t in TASKS if r.random() < .8})
    n = c.dict("lengths", c.Str, c.Int, g=lambda r: {t: len(w[t]) for t in w})
    c.assume(c.forall_str(lambda t: c.iff(c.has(w, t), c.has(n, t)), dom=TASKS))
    right = lambda ww, nn: c.forall_str(lambda t: c.implies(c.has(ww, t), lambda: c.eq(c.get(nn, t), c.len(c.get(ww, t)))), dom=TASKS)
    c.assume(right(w, n))
    w0, n0 = c.old(w), c.old(n)
    t, k = c.str("task", pool=TASKS), c.int("case", 0, g=lambda r: r.randint(0, 6))
    at = c.value("at", c.Obj(K, {"datetime": c.DT, "seconds_from_start": c.Real}), g=g)
    gr = c.obj(cf.BPMNGraph, batch_waiting_processes=w, batch_count=n)
    c.call(gr.increase_task_count, t, k, at)
    w, n = gr.batch_waiting_processes, gr.batch_count
    c.check("the recorded length is the number of waiting cases", c.and_(right(w, n), c.forall_str(
        lambda x: c.iff(c.has(w, x), c.has(n, x)), dom=TASKS)))
    was = c.and_(c.has(w0, t), lambda: c.has(c.get(w0, t), k))
    before = c.ite(c.has(w0, t), lambda: c.len(c.get(w0, t)), 0)
    q = c.get(w, t)
    c.check("waits", c.and_(c.has(w, t), lambda: c.has(q, k)))
    c.check("once, behind all others", c.ite(was, lambda: c.eq(c.len(q), before), lambda: c.and_(
        c.eq(c.len(q), before + 1), c.eq(c.key_at(q, before), k), lambda: same(c, c.get(q, k), at))))
    c.check("those before it keep their places", c.implies(c.has(w0, t), lambda: c.forall(0, before, lambda i: c.eq(
        c.key_at(q, i), c.key_at(c.get(w0, t), i)))))
    c.check("no other case joins", c.forall_int(lambda x: c.implies(c.not_(c.eq(x, k)), lambda: c.iff(
        c.has(q, x), c.and_(c.has(w0, t), lambda: c.has(c.get(w0, t), x)))), dom=range(8)))
    c.check("other queues stay", c.forall_str(lambda x: c.implies(c.not_(c.eq(x, t)), lambda: c.and_(
        c.iff(c.has(w, x), c.has(w0, x)), lambda: c.implies(c.has(w0, x), lambda: c.and_(
            c.eq(c.len(c.get(w, x)), c.len(c.get(w0, x))), c.forall_int(lambda y: c.iff(
                c.has(c.get(w, x), y), c.has(c.get(w0, x), y)), dom=range(8)))))), dom=TASKS))


def sizes(c, q):
    """fired sizes: positive, together at most the waiting cases"""
    def g(r):
        l, left = [], len(q)
        while left and r.random() < .8:
            l.append(r.randint(1, left))
            left -= l[-1]
        return l or [len(q)]
    s = c.list("sizes", c.Int, lo=1, g=g)
    c.assume(c.forall(0, c.len(s), lambda i: c.at(s, i) >= 1))
    c.s = s
    upto = c.upto = lambda j: c.sum(j, lambda i: c.at(s, i), c.Int, "sizes")
    c.total = upto(c.len(s))
    c.assume(c.total <= c.len(q))
    c.assume(c.forall(0, c.len(s) + 1, lambda j: c.and_(upto(j) >= j, upto(j) <= c.total)))
    c.assume(c.forall(0, c.len(s), lambda j: upto(j) + c.at(s, j) <= c.total))
    return s


def leaving(V):
    c = V.c
    if not hasattr(c, "q0"):
        return
    d, q0 = c.g.batch_waiting_processes["t1"], c.q0
    lens = c.g.batch_count
    yield "queues", c.and_(c.has(lens, "t1"), c.has(lens, "t2"), lambda: c.eq(c.get(lens, "t2"), c.m))
    if V.depth == 0:
        done = c.upto(V.k)
        yield "length", c.eq(c.get(lens, "t1"), c.len(q0) - done)
    else:
        n = c.get(lens, "t1")
        done = c.len(q0) - n + V.k
        for nm, x, e in V.ints():
            yield "one more %s" % nm, c.eq(x, V.k)
        for nm, x in V.fixed():
            yield "fewer than %s" % nm, V.k < x
    yield "left", c.eq(c.len(d), c.len(q0) - done)
    yield "in order", c.forall(0, c.len(q0) - done, lambda i: c.eq(c.key_at(d, i), c.key_at(q0, i + done)))
    yield "members", c.forall_int(lambda k: c.iff(c.has(d, k), c.and_(c.has(q0, k), lambda: c.idx(q0, k) >= done)))
    yield "values", c.forall_int(lambda k: c.implies(c.has(d, k), lambda: same(c, c.get(d, k), c.get(q0, k))))


@unit("P10.leave", G + "_clear_batch", inv=leaving, secs=120)
def leave(c):
    """the longest-waiting cases leave the queue, as many as the fired sizes add up to"""
    cf = c.mod("control_flow_manager")
    q, other = waiting(c, cf, lo=1), waiting(c, cf, "other")
    c.q0 = q0 = c.old(q)
    o0 = c.old(other)
    s = sizes(c, q)
    n, m = c.len(q), c.int("other length", 0)
    c.m = m
    g = c.g = c.obj(cf.BPMNGraph, batch_waiting_processes=c.mkdict({"t1": q, "t2": other}),
                    batch_count=c.mkdict({"t1": n, "t2": m}))
    c.call(g._clear_batch, "t1", s)
    q = g.batch_waiting_processes["t1"]
    c.check("as many leave as fire", c.eq(c.len(q), n - c.total))
    c.check("the others keep waiting in order", c.forall(0, n - c.total, lambda i: c.and_(
        c.eq(c.key_at(q, i), c.key_at(q0, i + c.total)), lambda: same(c, c.get(q, c.key_at(q, i)), c.get(q0, c.key_at(q, i))))))
    c.check("the recorded length is the number of waiting cases", c.eq(c.get(g.batch_count, "t1"), c.len(q)))
    c.check("other queues stay", c.and_(c.eq(c.get(g.batch_count, "t2"), m), unchanged(c, g.batch_waiting_processes["t2"], o0)))


@unit("P10.handed_over", B + "__init__")
def handed_over(c):
    """what is handed over for execution: exactly the cases that leave"""
    cf, bp = c.mod("control_flow_manager"), c.mod("batch_processing")
    q = waiting(c, cf, lo=1)
    q0 = c.old(q)
    s = sizes(c, q)
    info = c.obj(bp.BatchConfigPerTask, type=c.choice("type", list(bp.BATCH_TYPE)))
    due = c.dt("due")
    b = c.call(cf.BatchInfoForExecution, c.mkdict({"t2": c.mkdict({}), "t1": q}), c.mkdict({"t1": info}), "t1", s, due)
    r = b.case_ids
    c.check("as many as the fired sizes add up to", c.eq(c.len(r), c.total))
    c.check("the longest-waiting ones, in order", c.forall(0, c.total, lambda i: c.and_(
        c.eq(c.key_at(r, i), c.key_at(q0, i)), lambda: same(c, c.get(r, c.key_at(q0, i)), c.get(q0, c.key_at(q0, i))))))
    c.check("with the fired sizes, at the time of the rule", c.and_(c.eq(b.start_time_from_rule, due), c.eq(c.len(b.batch_spec), c.len(s)),
                                                                   c.forall(0, c.len(s), lambda i: c.eq(c.at(b.batch_spec, i), c.at(s, i)))))
    c.check("the queue itself is left to the caller", unchanged(c, q, q0))
    kinds = [(cf.BatchInfoForExecution.is_sequential, "SEQUENTIAL"), (cf.BatchInfoForExecution.is_parallel, "PARALLEL"),
             (cf.BatchInfoForExecution.is_concurrent, "CONCURRENT")]
    c.check("kind of the batch", all(c.truth(c.call(f, b)) == (info.type.name == k) for f, k in kinds))


@unit("P10.fire", [G + "move_batch_if_enabled", G + "create_batch_info_and_clear_from_queue", G + "enable_batch_or_task", G + "is_open_batch"])
def fire(c):
    """order of events: the case joins, the rules are evaluated, what fires is handed over and then leaves"""
    cf = c.mod("control_flow_manager")
    q = waiting(c, cf)
    open_ = c.len(q) > 0
    log = []
    g = c.obj(cf.BPMNGraph, batch_waiting_processes=c.mkdict({"t1": q, "t2": c.mkdict({})}), batch_count=c.mkdict({}),
              batch_info=c.mkdict({}))
    fires, alone = c.bool("fires"), c.bool("alone")
    spec, due = c.mklist([c.int("size", 1)]), c.dt("due")
    c.patch(cf.BPMNGraph, "increase_task_count", lambda self, t, k, at: log.append(("join", t, k, at)))
    c.patch(cf.BPMNGraph, "is_executing_alone", lambda self, t: alone)
    c.patch(cf.BPMNGraph, "is_batched_task_enabled", lambda self, t, at: log.append(("ask", t, at)) or (
        (True, spec, due) if c.truth(fires) else (False, None, None)))
    c.patch(cf.BatchInfoForExecution, "__init__", lambda self, w, info, t, sp, d: log.append(("hand over", w, t, sp, d)))
    c.patch(cf.BPMNGraph, "_clear_batch", lambda self, t, sp: log.append(("leave", t, sp)))
    at = c.obj(cf.CustomDatetimeAndSeconds, datetime=c.dt("at"), seconds_from_start=c.real("sec"))
    en = c.mklist([])
    if c.choice("entry", ["arrival", "clock"]) == "clock":
        b = c.call(g.create_batch_info_and_clear_from_queue, "t1", spec, due)
        c.check("handed over, then cleared", len(log) == 2 and log[0] == ("hand over", g.batch_waiting_processes, "t1", spec, due)
                and log[1] == ("leave", "t1", spec) and isinstance(b, cf.BatchInfoForExecution))
        return
    d = c.real("duration")
    c.call(g.enable_batch_or_task, "t1", 7, at, en, d)
    if c.truth(c.and_(c.not_(open_), alone)):
        c.check("executed alone", c.and_(not log, len(en) == 1, lambda: c.and_(en[0].task_id == "t1", en[0].batch_info_exec is None, c.eq(
            en[0].duration_sec, d))))
    elif c.truth(fires):
        c.check("joins, asks, is handed over, leaves", [x[0] for x in log] == ["join", "ask", "hand over", "leave"] and
                log[0] == ("join", "t1", 7, at) and log[1] == ("ask", "t1", at) and log[2] == ("hand over", g.batch_waiting_processes, "t1", spec, due)
                and log[3] == ("leave", "t1", spec))
        c.check("one enabled batch", len(en) == 1 and en[0].task_id == "t1" and isinstance(en[0].batch_info_exec, cf.BatchInfoForExecution))
    else:
        c.check("keeps waiting", [x[0] for x in log] == ["join", "ask"] and log[0] == ("join", "t1", 7, at) and len(en) == 0)


def prefix(V):
    c = V.c
    if hasattr(c, "upto"):
        for nm, x, e in V.ints():
            yield "sum %s" % nm, c.eq(x, c.upto(V.k))


@unit("P10.group", E + "_get_chunk", inv=prefix)
def group(c):
    """the groups are consecutive, disjoint and as large as the fired sizes"""
    cf, se = c.mod("control_flow_manager"), c.mod("simulation_engine")
    l = c.list("cases", c.Int, lo=1, g=lambda r: r.sample(range(9), r.randint(1, 7)))
    s = sizes(c, l)
    j = c.int("group", 0, g=lambda r: r.randint(0, len(s) - 1))
    c.assume(j < c.len(s))
    e = c.obj(se.SimBPMEnv)
    r = c.call(e._get_chunk, s, j, l)
    c.check("size", c.eq(c.len(r), c.at(s, j)))
    c.check("consecutive", c.forall(0, c.at(s, j), lambda i: c.eq(c.at(r, i), c.at(l, c.upto(j) + i))))


@unit("P10.groups", [E + "execute_task_batch", E + "_get_chunk"])
def groups(c):
    cf, se, pr = c.mod("control_flow_manager"), c.mod("simulation_engine"), c.mod("prioritisation")
    bp = c.mod("batch_processing")
    q = waiting(c, cf, lo=1)
    s = sizes(c, q)
    c.assume(c.eq(c.total, c.len(q)))
    kind = c.choice("type", [bp.BATCH_TYPE.SEQUENTIAL, bp.BATCH_TYPE.PARALLEL])
    b = c.obj(cf.BatchInfoForExecution, case_ids=q, batch_spec=s, task_batch_info=c.obj(bp.BatchConfigPerTask, type=kind),
              start_time_from_rule=c.dt("due"), batch_id="b")
    ev = c.obj(c.mod("execution_info").EnabledEvent, task_id="t1", p_case=0, batch_info_exec=b)
    e = c.obj(se.SimBPMEnv, case_prioritisation=c.obj(pr.CasePrioritisation, all_case_priorities=None, all_case_attributes=None))
    seen, got = [], []
    c.patch(pr.CasePrioritisation, "get_ordered_case_ids_by_priority", lambda self, l: seen.append(l) or l)
    for m, k in [("execute_seq_task_batch", bp.BATCH_TYPE.SEQUENTIAL), ("execute_parallel_task_batch", bp.BATCH_TYPE.PARALLEL)]:
        c.patch(se.SimBPMEnv, m, lambda self, x, chunks, k=k: got.append((x, chunks, k)) or "events")
    if c.symbolic:          # what P10.group proves
        c.contract(se.SimBPMEnv, "_get_chunk", lambda self, sp, j, l: l[c.upto(j):c.upto(j) + c.at(sp, j)])
    c.check("what the batch yields", c.call(e.execute_task_batch, ev) == "events")
    c.check("all handed-over cases are ordered", len(seen) == 1 and c.and_(c.eq(c.len(seen[0]), c.len(q)), c.forall(
        0, c.len(q), lambda i: c.eq(c.at(seen[0], i)[0], c.key_at(q, i)))))
    c.check("executed once, by its kind", len(got) == 1 and got[0][0] is ev and got[0][2] is kind)
    ch = got[0][1]
    c.check("one group per fired size", c.eq(c.len(ch), c.len(s)))
    c.check("group sizes", c.forall(0, c.len(s), lambda j: c.eq(c.len(c.at(ch, j)), c.at(s, j))))
    c.check("consecutive groups", c.forall(0, c.len(s), lambda j: c.forall(0, c.at(s, j), lambda i: c.eq(
        c.at(c.at(ch, j), i)[0], c.key_at(q, c.upto(j) + i)))))


def random_rules(bp, r):
    def size():
        return [bp.FiringSubRule("size", r.choice(["=", ">", ">=", "<", "<="]), r.randint(2, 4))]

    def wt(kind):
        lo = r.choice([0, 60, 3600])
        hi = lo + r.choice([60, 3600, 90000])
        return r.choice([[bp.FiringSubRule(kind, r.choice([">", ">="]), lo), bp.FiringSubRule(kind, r.choice(["<", "<="]), hi)],
                         [bp.FiringSubRule(kind, "=", hi)]])

    def day():
        return [bp.FiringSubRule("week_day", "=", r.choice(["Monday", "Tuesday", "Sunday"]))]

    def hour():
        return [bp.FiringSubRule("daily_hour", r.choice([">", ">=", "<", "<="]), datetime.time(r.choice([6, 12, 18])))]
    out = []
    for _ in range(r.choice([1, 1, 2])):
        rules = r.choice([size, lambda: wt("large_wt"), lambda: wt("ready_wt"), day, lambda: day() + hour(), lambda: wt(
            "large_wt") + size(), hour])()
        a = bp.AndFiringRule(rules)
        a.init_boundaries()
        out.append(a)
    return out


@unit("P10.history", [G + "enable_batch_or_task", G + "is_any_batch_enabled", G + "get_invalid_batches_if_any",
                      G + "is_any_unexecuted_batch"], bounded=True)
def history(c):
    """bounded: random rules and arrivals: every case is in the queue or was executed, never both, never twice"""
    cf, bp = c.mod("control_flow_manager"), c.mod("batch_processing")
    r, K = c.rng, cf.CustomDatetimeAndSeconds
    g = cf.BPMNGraph()
    tasks = ["t1", "t2"][:r.randint(1, 2)]
    for t in tasks:
        alone = r.choice([0, 0, .3])
        g.batch_info[t] = bp.BatchConfigPerTask(r.choice([bp.BATCH_TYPE.SEQUENTIAL, bp.BATCH_TYPE.PARALLEL]), {1: 1, 3: .8},
                                                bp.OrFiringRule(random_rules(bp, r)), [1, 2, 3], [alone, 0, 1 - alone])
    c.patch(bp, "choices", lambda opts, w: [r.choice([o for o, x in zip(opts, w) if x > 0])])
    queue = {t: [] for t in tasks}
    done = {t: [] for t in tasks}
    now = 0.0

    def took(t, info, at):
        got, sizes = list(info.case_ids), info.batch_spec
        c.check("sizes are positive", all(n >= 1 for n in sizes))
        c.check("as many as the sizes", len(got) == sum(sizes) if sum(sizes) <= len(queue[t]) else False)
        c.check("the longest-waiting ones", got == queue[t][:len(got)])
        c.check("not started in the future", info.start_time_from_rule <= at)
        del queue[t][:len(got)]
        done[t] += got

    def settled():
        for t in tasks:
            w = list(g.batch_waiting_processes.get(t, {}))
            c.check("waiting cases", w == queue[t])
            c.check("recorded length", g.batch_count.get(t, 0) == len(w))
            c.check("executed once", len(set(done[t])) == len(done[t]) and not set(done[t]) & set(w))
    for case in range(r.randint(1, 9)):
        now += r.choice([0, 30, 600, 3600, 30000, 86400, 100000])
        at = K(now, BASE + datetime.timedelta(seconds=now))
        if r.random() < .5:
            for t, info in c.call(g.is_any_batch_enabled, at).items():
                took(t, info, at.datetime)
            settled()
        t, en = r.choice(tasks), []
        c.call(g.enable_batch_or_task, t, case, at, en, None)
        c.check("at most one execution", len(en) <= 1)
        if en and en[0].batch_info_exec is None:
            done[t].append(case)
        else:
            queue[t].append(case)
            if en:
                took(t, en[0].batch_info_exec, at.datetime)
        settled()
    now += r.choice([0, 86400, 10 ** 6])
    at = K(now, BASE + datetime.timedelta(seconds=now))
    for t, info in c.call(g.get_invalid_batches_if_any, at).items():
        took(t, info, max(at.datetime, info.start_time_from_rule))
    settled()


def several(c, cf, most=3):
    """up to three tasks with their queues; what is handed over and what leaves, in order"""
    names = TASKS[:c.choice("tasks", list(range(1, most + 1)))]
    qs = {t: waiting(c, cf, "waiting %s" % t) for t in names}
    log = []
    c.patch(cf.BatchInfoForExecution, "__init__", lambda self, w, info, t, sp, d: (log.append(("hand over", t, sp, d)), setattr(
        self, "start_time_from_rule", d))[1])
    c.patch(cf.BPMNGraph, "_clear_batch", lambda self, t, sp: log.append(("leave", t, sp)))
    at = c.obj(cf.CustomDatetimeAndSeconds, datetime=c.dt("at", g=lambda r: BASE), seconds_from_start=c.real("sec"))
    return names, qs, log, at


def same_size(c, sp, n):
    return c.and_(c.eq(c.len(sp), 1), lambda: c.eq(c.at(sp, 0), n))


@unit("P10.clock", [G + "is_any_batch_enabled", G + "create_batch_info_and_clear_from_queue"], scope="up to three batched tasks; queues of any length")
def clock(c):
    """at an event: each task with waiting cases is asked once; exactly those that fire are handed over and leave"""
    cf = c.mod("control_flow_manager")
    names, qs, log, at = several(c, cf)
    fires = {t: c.bool("%s fires" % t) for t in names}
    spec = {t: c.mklist([c.int("size %s" % t, 1)]) for t in names}
    due = {t: c.dt("due %s" % t) for t in names}
    asked = []

    def ask(self, t, when_):
        asked.append(t)
        c.check("asked about the moment of the event", when_ is at)
        return (True, spec[t], due[t]) if c.truth(fires[t]) else (False, None, None)
    c.patch(cf.BPMNGraph, "is_batched_task_enabled", ask)
    g = c.obj(cf.BPMNGraph, batch_waiting_processes=c.mkdict(dict(qs)), batch_count=c.mkdict({t: c.len(q) for t, q in qs.items()}),
              batch_info=c.mkdict({}))
    r = c.call(g.is_any_batch_enabled, at)
    busy = [t for t in names if c.truth(c.len(qs[t]) > 0)]
    c.check("every task with waiting cases is asked once", asked == busy)
    fired = [t for t in busy if c.truth(fires[t])]
    c.check("exactly those that fire", sorted(r) == sorted(fired))
    c.check("handed over, then cleared", log == [x for t in fired for x in [("hand over", t, spec[t], due[t]), ("leave", t, spec[t])]])


@unit("P10.given_up", [G + "get_invalid_batches_if_any", G + "is_or_rule_invalid", G + "create_batch_info_and_clear_from_queue"],
      scope="up to two batched tasks; queues of any length")
def given_up(c):
    """at the end: a queue whose conditions can never hold again is executed as a whole, not before its last case"""
    cf, bp = c.mod("control_flow_manager"), c.mod("batch_processing")
    names, qs, log, at = several(c, cf, 2)
    dead = {t: c.bool("%s is dead" % t) for t in names}
    rules = {t: c.obj(bp.OrFiringRule) for t in names}
    first = lambda t: c.get(qs[t], c.key_at(qs[t], 0)).datetime
    last = lambda t: c.get(qs[t], c.key_at(qs[t], c.len(qs[t]) - 1)).datetime

    def ask(self, n, f, l):
        t = [t for t in names if rules[t] is self][0]
        waits = lambda x, d: c.implies(d <= at.datetime, c.eq(x, c.instant(at.datetime) - c.instant(d)))
        c.check("asked about its queue", c.and_(c.eq(n, c.len(qs[t])), waits(f, first(t)), waits(l, last(t))))
        return dead[t]
    c.patch(bp.OrFiringRule, "is_invalid_end", ask)
    info = {t: c.obj(bp.BatchConfigPerTask, firing_rules=rules[t]) for t in names}
    g = c.obj(cf.BPMNGraph, batch_waiting_processes=c.mkdict(dict(qs)), batch_count=c.mkdict({t: c.len(q) for t, q in qs.items()}),
              batch_info=c.mkdict(info))
    lens = {t: c.len(q) for t, q in qs.items()}
    r = c.call(g.get_invalid_batches_if_any, at)
    gone = [t for t in names if c.truth(c.and_(lens[t] > 0, dead[t]))]
    c.check("exactly the dead queues", sorted(r) == sorted(gone))
    c.check("one execution each", [x[:2] for x in log] == [x for t in gone for x in [("hand over", t), ("leave", t)]])
    for t in gone:
        h, l = [x for x in log if x[1] == t]
        c.check("all that wait", c.and_(same_size(c, h[2], lens[t]), lambda: same_size(c, l[2], lens[t])))
        c.check("as soon as possible, but not before its last case", c.eq(c.instant(h[3]), c.max(c.instant(at.datetime), c.instant(last(t)))))


@unit("P10.remaining", [G + "is_any_unexecuted_batch", G + "get_start_time"], scope="up to three batched tasks; queues of any length")
def remaining(c):
    """when nothing else happens: every queue that can fire again is evaluated at the instant its rules propose"""
    cf, bp = c.mod("control_flow_manager"), c.mod("batch_processing")
    names, qs, log, at = several(c, cf)
    can = {t: c.bool("%s can fire" % t) for t in names}
    due = {t: c.dt("due %s" % t) for t in names}
    rules = {t: c.obj(bp.OrFiringRule) for t in names}
    who = lambda self: [t for t in names if rules[t] is self][0]
    enough = {t: c.bool("enough %s" % t) for t in names}
    for t in names:
        c.assume(c.implies(enough[t], c.len(qs[t]) > 0))
    c.patch(bp.OrFiringRule, "is_batch_size_enough_for_exec", lambda self, n: enough[who(self)])

    def ask(self, w, when_):
        t = who(self)
        c.check("the waiting cases, at the last event", c.and_(when_ is at, c.eq(c.len(w), c.len(qs[t])), lambda: c.forall(
            0, c.len(w), lambda i: c.and_(c.eq(c.at(w, i)[0], c.key_at(qs[t], i)), lambda: same(c, c.at(w, i)[1], c.get(qs[t], c.key_at(qs[t], i)))))))
        return due[t] if c.truth(can[t]) else None
    c.patch(bp.OrFiringRule, "get_enabled_time", ask)
    info = {t: c.obj(bp.BatchConfigPerTask, firing_rules=rules[t]) for t in names}
    g = c.obj(cf.BPMNGraph, batch_waiting_processes=c.mkdict(dict(qs)), batch_count=c.mkdict({t: c.len(q) for t, q in qs.items()}),
              batch_info=c.mkdict(info))
    out = list(c.call(g.is_any_unexecuted_batch, at))
    want = [t for t in names if c.truth(c.and_(enough[t], can[t]))]
    c.check("one evaluation per queue that can fire", len(out) == len(want))
    for (k, when_), t in zip(out, want):
        c.check("for its longest-waiting case, at the proposed instant", c.and_(c.eq(k, c.key_at(qs[t], 0)), c.eq(when_.datetime, due[t])))


def fired(c, cf, what, names):
    d = {}
    for t in names:
        if c.bool("%s %s" % (t, what)):
            d[t] = c.obj(cf.BatchInfoForExecution, start_time_from_rule=c.dt("%s starts %s" % (t, what), g=lambda r: BASE + datetime.timedelta(
                seconds=r.choice([0, 60, 3600, 90000]))), batch_id="id %s" % t)
    return d


@unit("P10.enqueued", E + "append_any_enabled_batch_tasks", scope="up to three batches fire at the event")
def enqueued(c):
    """every batch that fires at an event becomes one event of the queue, at the start the rules give, never later than the event"""
    cf, se, ss, ei = c.mod("control_flow_manager"), c.mod("simulation_engine"), c.mod("simulation_setup"), c.mod("execution_info")
    d = fired(c, cf, "fires", TASKS[:c.choice("tasks", [1, 2, 3])])
    start = BASE - datetime.timedelta(days=2)
    sec = c.real("seconds", g=lambda r: r.choice([172800, 172860, 176400, 262800]))
    now = c.dt("now", g=lambda r: start + datetime.timedelta(seconds=sec))
    c.assume(c.eq(c.instant(now) - c.instant(start), sec))
    ev = c.obj(ei.EnabledEvent, p_case=4, p_state="state", task_id="x", enabled_at=sec, enabled_datetime=now, batch_info_exec=None)
    setup = c.obj(ss.SimDiffSetup)
    asked, out = [], []
    c.patch(ss.SimDiffSetup, "is_any_batch_enabled", lambda self, at: (asked.append(at), c.mkdict(dict(d)))[1])
    c.patch(se.SimBPMEnv, "calc_priority_and_append_to_queue", lambda self, e, arr: out.append((e, arr)))
    c.call(c.obj(se.SimBPMEnv, sim_setup=setup).append_any_enabled_batch_tasks, ev)
    c.check("asked once, at the event", c.and_(len(asked) == 1, lambda: c.and_(c.eq(asked[0].datetime, now), c.eq(asked[0].seconds_from_start, sec))))
    c.check("one event per batch", sorted(e.task_id for e, _ in out) == sorted(d))
    for e, arr in out:
        b = d[e.task_id]
        c.check("carries its batch", e.batch_info_exec is b)
        c.check("is not an arrival", arr is False)
        c.check("same instant in both clocks", c.eq(c.instant(e.enabled_datetime) - c.instant(start), e.enabled_at))
        c.check("at the start the rules give, never later than the event", c.eq(c.instant(e.enabled_datetime), c.min(c.instant(b.start_time_from_rule), c.instant(now))))


@unit("P10.enqueued_last", E + "execute_if_any_unexecuted_batch", scope="up to two queues are evaluated; up to two batches fire at each evaluation")
def enqueued_last(c):
    """when nothing else happens: what fires at the proposed instants becomes an event each, otherwise what can never fire again"""
    cf, se, ss, wd = c.mod("control_flow_manager"), c.mod("simulation_engine"), c.mod("simulation_setup"), c.mod("weekday_helper")
    rounds = []
    for i in range(c.choice("rounds", [0, 1, 2])):
        rounds.append((7 + i, wd.CustomDatetimeAndSeconds(0, c.dt("proposed %d" % i)), fired(c, cf, "fires %d" % i, TASKS[:2]),
                       fired(c, cf, "is given up %d" % i, TASKS[:2])))
    setup = c.obj(ss.SimDiffSetup)
    last = wd.CustomDatetimeAndSeconds(c.real("seconds"), c.dt("last"))
    cur, out, seen = [], [], []

    def gen(self, at):
        c.check("queues that remain at the last event", at is last)
        for r in rounds:
            cur.append(r)
            yield r[0], r[1]

    def ask(self, at):
        c.check("evaluated at the proposed instant", at is cur[-1][1])
        seen.append(("asked", cur[-1][0]))
        return c.mkdict(dict(cur[-1][2]))

    def give_up(self, at):
        seen.append(("given up", cur[-1][0]))
        return c.mkdict(dict(cur[-1][3]))
    c.patch(ss.SimDiffSetup, "is_any_unexecuted_batch", gen)
    c.patch(ss.SimDiffSetup, "is_any_batch_enabled", ask)
    c.patch(ss.SimDiffSetup, "get_invalid_batches_if_any", give_up)
    c.patch(se.SimBPMEnv, "simulation_at_from_datetime", lambda self, d: ("seconds of", d))
    c.patch(se.SimBPMEnv, "calc_priority_and_append_to_queue", lambda self, e, arr: out.append((e, arr)))
    states = c.mkdict({7: "state 7", 8: "state 8"})
    c.call(c.obj(se.SimBPMEnv, sim_setup=setup, all_process_states=states).execute_if_any_unexecuted_batch, last)
    c.check("every queue is evaluated once", [k for w, k in seen if w == "asked"] == [r[0] for r in rounds])
    want = [(k, t, b) for k, _, f, dead in rounds for t, b in (f or dead).items()]
    c.check("each batch that fires, or is given up, becomes one event", [(e.p_case, e.task_id, e.batch_info_exec) for e, _ in out] == want)
    c.check("nothing is given up while something fires", [k for w, k in seen if w == "given up"] == [r[0] for r in rounds if not r[2]])
    for e, arr in out:
        b = e.batch_info_exec
        c.check("in the state of its case, not an arrival", e.p_state == "state %d" % e.p_case and arr is False)
        c.check("at the start the rules give, in both clocks", c.and_(e.enabled_at[0] == "seconds of", c.eq(
            e.enabled_at[1], b.start_time_from_rule), c.eq(e.enabled_datetime, b.start_time_from_rule)))


@unit("P10.by_size", [G + "enable_batch_or_task", G + "move_batch_if_enabled", G + "is_batched_task_enabled", G + "get_batch_size_no_rules_defined",
                      G + "is_executing_alone", BC + "is_batch_exec_alone", BC + "update_firing_rules_from_distr", BC + "get_new_subrule_rule",
                      BC + "get_batch_size", BC + "__init__"],
      scope="up to four arrivals at one task; batch sizes drawn from 1, 2 and 3")
def by_size(c):
    """without firing rules the batches have the drawn sizes; a case meeting an empty queue runs alone iff a one is drawn"""
    cf, bp = c.mod("control_flow_manager"), c.mod("batch_processing")
    K = cf.CustomDatetimeAndSeconds
    drawn, given = [], []

    def draw(options, weights):
        given.append((list(options), list(weights)))
        drawn.append(c.choice("draw %d" % len(drawn), [1, 2, 3]))
        return [drawn[-1]]
    c.patch(bp, "choices", draw)
    g = c.obj(cf.BPMNGraph, batch_info={}, batch_waiting_processes={}, batch_count={})
    g.batch_info["t"] = c.call(bp.BatchConfigPerTask, bp.BATCH_TYPE.SEQUENTIAL, {1: 1.0, 3: .8}, bp.OrFiringRule([]), [1, 2, 3], [.2, .3, .5])
    size, queue = drawn[-1], []
    for case in range(c.choice("arrivals", [1, 2, 3, 4])):
        en, before = [], len(drawn)
        at = K(60 * case, BASE + datetime.timedelta(minutes=case))
        c.call(g.enable_batch_or_task, "t", case, at, en, 5)
        new = drawn[before:]
        if not queue and new and new[0] == 1:
            c.check("runs alone", len(en) == 1 and en[0].task_id == "t" and en[0].batch_info_exec is None and en[0].duration_sec == 5)
            c.check("one draw", len(new) == 1)
        else:
            new = new if queue else new[1:]
            queue.append(case)
            if len(queue) == size:
                b = en[0].batch_info_exec if len(en) == 1 else None
                c.check("a batch of the drawn size", b is not None and list(b.case_ids) == queue and list(b.batch_spec) == [size])
                c.check("at this moment", b is not None and b.start_time_from_rule == at.datetime)
                c.check("a size for the next one is drawn", len(new) == 1)
                queue, size = [], new[-1] if new else size
            else:
                c.check("waits", len(en) == 0 and new == [])
        c.check("the queue", list(g.batch_waiting_processes.get("t", {})) == queue and g.batch_count.get("t", 0) == len(queue))
    c.check("drawn from the distribution", all(x == ([1, 2, 3], [.2, .3, .5]) for x in given))


@unit("P10.alone", [BC + "__init__", BC + "is_batch_exec_alone", BC + "get_batch_size", G + "is_executing_alone"],
      scope="one to four sizes")
def alone(c):
    """with firing rules a case runs alone with the probability the size distribution gives to one"""
    cf, bp = c.mod("control_flow_manager"), c.mod("batch_processing")
    n = c.choice("sizes", [1, 2, 3, 4])
    w = [c.real("probability %d" % i, 0, 1, g=lambda r: r.choice([0, .25, .5, 1])) for i in range(n)]
    rules = bp.OrFiringRule([bp.AndFiringRule([bp.FiringSubRule("size", ">=", 2)])])
    given = []
    k = c.choice("draw", [1, 2])
    c.patch(bp, "choices", lambda options, weights: (given.append((list(options), list(weights))), [k])[1])
    g = c.obj(cf.BPMNGraph, batch_info={"t": c.call(bp.BatchConfigPerTask, bp.BATCH_TYPE.PARALLEL, {1: 1.0}, rules, list(range(1, n + 1)), w)})
    r = c.call(g.is_executing_alone, "t")
    c.check("alone iff a one is drawn", c.iff(r, k == 1))
    c.check("a single draw between one and more", len(given) == 1 and given[0][0] == [1, 2])
    c.check("with the probability of one", c.and_(c.eq(given[0][1][0], w[0]), c.eq(given[0][1][1], 1 - w[0])))
    c.check("the rules are kept", g.batch_info["t"].firing_rules is rules)


@unit("P10.evaluated", G + "is_batched_task_enabled", scope="queues of up to four cases")
def evaluated(c):
    """the rules are asked about exactly the waiting cases, at the given moment, and their answer is taken"""
    cf, bp = c.mod("control_flow_manager"), c.mod("batch_processing")
    K = cf.CustomDatetimeAndSeconds
    n = c.choice("waiting", [0, 1, 2, 3, 4])
    en = [c.dt("enabled %d" % i, g=lambda r: BASE + datetime.timedelta(seconds=r.choice([0, 60, 3600, 90000, 3600.5]))) for i in range(n)]
    now = c.dt("now", g=lambda r: BASE + datetime.timedelta(seconds=r.choice([90001, 172800, 7e5])))
    q = {3 * i + 1: K(0, e) for i, e in enumerate(en)}
    rules, seen = bp.OrFiringRule([bp.AndFiringRule([bp.FiringSubRule("size", ">=", 2)])]), []
    ans = (True, [1], now) if c.bool("holds") else (False, None, None)
    c.patch(bp.OrFiringRule, "is_true", lambda self, spec: (seen.append((self, dict(spec))), ans)[1])
    info = c.call(bp.BatchConfigPerTask, bp.BATCH_TYPE.PARALLEL, {1: 1.0}, rules, [1, 2], [.5, .5])
    g = c.obj(cf.BPMNGraph, batch_info={"t": info}, batch_waiting_processes={"t": q}, batch_count={"t": n})
    r = c.call(g.is_batched_task_enabled, "t", K(0, now))
    if n == 0:
        c.check("an empty queue never fires", r[0] is False)
        return
    c.check("asked once", len(seen) == 1 and seen[0][0] is rules)
    s = seen[0][1]
    c.check("size", c.eq(s["size"], n))
    c.check("waiting times", c.and_(c.eq(c.len(s["waiting_times"]), n), lambda: c.and_(*[
        c.eq(s["waiting_times"][i], c.instant(now) - c.instant(en[i])) for i in range(n)])))
    c.check("enabling times", c.and_(c.eq(c.len(s["enabled_datetimes"]), n), lambda: c.and_(*[
        c.eq(c.instant(s["enabled_datetimes"][i]), c.instant(en[i])) for i in range(n)])))
    c.check("the moment", c.eq(c.instant(s["curr_enabled_at"]), c.instant(now)))
    c.check("after an arrival", s["is_triggered_by_batch"] is True)
    c.check("the answer of the rules", r is ans or tuple(r) == ans)
    c.check("the queue is untouched", list(q) == [3 * i + 1 for i in range(n)])


class Batched(sim.Run):
    """the second task of the model is executed in batches of `size`"""

    def __init__(self, c, sizes=(2, 3, 4)):
        self.size = c.rng.choice(sizes)
        super().__init__(c, n=self.size * c.rng.randint(1, 3), kinds=c.rng.choice([(), ("and",), ("xor",)]), depth=1, spread=1,
                         events=False, lead=True)

    def extra(self, r):
        self.task = r.choice(self.m.tree[1])[1]
        if self.task not in self.work:
            self.task = self.m.tasks[0]
        self.kind = r.choice(["Sequential", "Parallel"])
        self.table = {n: r.choice([0.5, 0.25, 1, 1.5]) for n in r.sample(range(1, 7), r.randint(1, 3))}
        self.op = r.choice(["=", ">="])
        if r.random() < 0.5:
            self.gap = r.choice([1, 61, 600, 7201])
        # whole seconds, also when scaled
        for w in self.work.values():
            for k in w:
                w[k] = w[k] // 4 * 4 + 4

    def more(self, j):
        j["batch_processing"] = [{"task_id": self.task, "type": self.kind,
                                  "size_distrib": [{"key": "1", "value": 0.0}, {"key": str(self.size), "value": 1.0}],
                                  "duration_distrib": [{"key": str(k), "value": v} for k, v in self.table.items()],
                                  "firing_rules": [[{"attribute": "size", "comparison": self.op, "value": self.size}]]}]

    def go(self):
        super().go()
        self.done = [x for x in self.rows if x["id"] == self.task]
        self.groups = {}
        for x in self.done:
            self.groups.setdefault(x["batch_id"], []).append(x)
        return self


@unit("P10.simulated", [G + "is_batched_task_enabled", E + "execute_task_batch", "prosimos.simulation_engine:run_simulation"],
      bounded="whole simulations of random models with one batched task")
def simulated(c):
    """every case that reaches a batched task is executed once, in one batch, with the cases that reached it next to it"""
    r = Batched(c).go()
    reached = {i: r.follow(i, min(x["enable_time"] for x in r.case(i))) if r.case(i) else "not executed" for i in range(r.n)}
    for i in range(r.n):
        sim.holds(c, "the case runs through the batched task and continues from its completion", reached[i])
    line = r.m.tree[1]
    at = [x[1] for x in line].index(r.task) if r.task in [x[1] for x in line] else 0
    before = line[at - 1] if at else ("block",)
    if before[0] == "task":
        # the cases reach the batched task in the order in which the task before it is executed
        order = [x["case_id"] for x in r.rows if x["id"] == before[1]]
        place = {b: sorted(order.index(x["case_id"]) for x in g) for b, g in r.groups.items()}
        c.check("a batch takes those that wait longest", all(
            max(p) < min(q) or max(q) < min(p) for b, p in place.items() for d, q in place.items() if b < d))
