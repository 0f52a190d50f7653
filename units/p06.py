import heapq

from pyvc.driver import unit
from units import sim

Q = "prosimos.simulation_queues_ds:PriorityQueue."
D = "prosimos.simulation_queues_ds:DiffResourceQueue."
E = "prosimos.simulation_queues_ds:EventQueue."


class Model:
    """every live element with its current priority and insertion number"""

    def __init__(self):
        self.live, self.n = {}, 0

    def insert(self, e, p):
        self.live[e] = (p, self.n)
        self.n += 1

    def least(self):
        return min(self.live, key=lambda e: self.live[e], default=None)


@unit("P06.history", [Q + n for n in ("insert", "pop_min", "remove_element", "peek", "is_empty", "size", "contains",
                                      "get_priority")], bounded=True)
def history(c):
    """bounded: random histories of at most 40 operations over 6 elements and 4 priorities against a reference"""
    m = c.mod("simulation_queues_ds")
    r = c.rng
    q, ref = c.call(m.PriorityQueue), Model()
    prio = (lambda: r.randint(0, 3)) if r.random() < .6 else (lambda: (r.randint(0, 1), r.choice([0, .5, 7])))
    names = "abcdef"[:r.randint(1, 6)]
    for _ in range(r.randint(1, 40)):
        op = r.choice(["insert", "insert", "insert", "pop", "remove", "peek"])
        e = r.choice(names)
        if op == "insert":
            p = prio()
            c.call(q.insert, e, p)
            ref.insert(e, p)
        elif op == "remove":
            if e in ref.live:
                c.call(q.remove_element, e)
                del ref.live[e]
        else:
            want = ref.least()
            got = c.call(q.peek if op == "peek" else q.pop_min)
            c.check("%s yields a live element of least priority, ties in insertion order" % op, c.eq(
                tuple(got), (want, ref.live[want][0] if want is not None else None)))
            if op == "pop" and want is not None:
                del ref.live[want]
        c.check("contents", c.and_(c.eq(c.call(q.size), len(ref.live)), c.eq(c.call(q.is_empty), not ref.live),
                                   all(c.call(q.contains, x) == (x in ref.live) for x in names),
                                   all(c.call(q.get_priority, x) == ref.live.get(x, (None,))[0] for x in names)))
    out = []
    while ref.live:
        want = ref.least()
        out.append(want)
        c.check("handed out smallest first, each once", c.eq(c.call(q.pop_min)[0], want))
        del ref.live[want]
    c.check("then nothing", c.eq(tuple(c.call(q.pop_min)), (None, None)))


@unit("P06.events", [E + "append_arrival_event", E + "append_enabled_event", E + "pop_next_event", E + "peek"], bounded=True)
def events(c):
    """bounded: random histories of at most 25 events, 3 case priorities, 5 instants"""
    m = c.mod("simulation_queues_ds")
    r = c.rng
    se = c.mod("simulation_engine")

    class Ev:
        def __init__(self, t, i):
            self.enabled_at, self.i = t, i
    q, ref = c.call(m.EventQueue), Model()
    for i in range(r.randint(1, 25)):
        if r.random() < .65:
            e, p = Ev(r.choice([0, 10, 20.5, 99999, 100000]), i), r.randint(1, 3)
            c.call(r.choice([q.append_arrival_event, q.append_enabled_event]), e, p)
            ref.insert(e, (p, e.enabled_at))
        else:
            want = ref.least()
            c.check("peek: most urgent, then earliest, then first in", c.call(q.peek) is want)
            c.check("pop: most urgent, then earliest, then first in", c.call(q.pop_next_event) is want)
            ref.live.pop(want, None)
    while ref.live:
        want = ref.least()
        c.check("pop: most urgent, then earliest, then first in", c.call(q.pop_next_event) is want)
        del ref.live[want]
    c.check("then nothing", c.call(q.pop_next_event) is None)


@unit("P06.event_key", [E + "append_arrival_event", E + "append_enabled_event"])
def event_key(c):
    m = c.mod("simulation_queues_ds")
    seen = []
    c.patch(m.PriorityQueue, "insert", lambda self, e, priority=0: seen.append((self, e, priority)))

    class Ev:
        pass
    e = Ev()
    e.enabled_at = c.real("enabled at")
    p = c.int("case priority")
    q = c.obj(m.EventQueue, enabled_events=c.obj(m.PriorityQueue))
    c.call(q.append_arrival_event if c.bool("arrival") else q.append_enabled_event, e, p)
    c.check("inserted once, by case priority and then enabling time", c.and_(len(seen) == 1, seen[0][1] is e,
            seen[0][0] is q.enabled_events, lambda: c.eq(seen[0][2], (p, e.enabled_at))))


@unit("P06.resources", [D + n for n in ("_init_simulation_queues", "pop_resource_for", "peek_resource_for",
                                        "update_resource_availability")], bounded=True)
def resources(c):
    """bounded: at most 5 tasks and 5 resources, random assignments, histories of at most 30 requests and releases"""
    m = c.mod("simulation_queues_ds")
    r = c.rng
    res = ["r%d" % i for i in range(r.randint(1, 5))]
    pool = [tuple(r.sample(res, r.randint(1, len(res)))) for _ in range(3)]
    tasks = {"t%d" % i: {x: 0 for x in (lambda s: r.sample(s, len(s)))(list(r.choice(pool)))} for i in range(r.randint(1, 5))}
    avail = {x: r.choice([0, 0, 3600, 7200]) for x in res}
    q = c.call(m.DiffResourceQueue, tasks, dict(avail))
    # a request takes the resource out of the queue shared by the tasks with exactly the same resources
    group = {t: frozenset(tasks[t]) for t in tasks}
    used = sorted({x for t in tasks for x in tasks[t]})
    free = {}
    n = 0
    for g in set(group.values()):
        for t in tasks:
            if group[t] == g:
                first = t
                break
        free[g] = {x: (avail[x], i) for i, x in enumerate(tasks[first])}
    ties = {g: True for g in free}
    for _ in range(r.randint(1, 30)):
        t = r.choice(list(tasks))
        g = group[t]
        if r.random() < .5:
            least = min((v[0] for v in free[g].values()), default=None)
            pk = c.call(q.peek_resource_for, t)
            got = c.call(q.pop_resource_for, t)
            if least is None:
                c.check("nothing free", c.eq(tuple(got), (None, None)))
                continue
            c.check("peek shows an earliest free resource of the task", c.and_(pk[0] in free[g], lambda: c.eq(pk[1], least)))
            c.check("an earliest free resource allowed for the task", c.and_(got[0] in free[g], lambda: c.eq(
                got[1], least), lambda: c.eq(free[g][got[0]][0], least)))
            del free[g][got[0]]
        else:
            x, at = r.choice(used), r.choice([0, 100, 5000, 9000.5])
            c.call(q.update_resource_availability, x, at)
            for h in free:
                if x in h:
                    free[h][x] = (at, n)
    for t in tasks:
        g = group[t]
        while free[g]:
            got = c.call(q.pop_resource_for, t)
            c.check("every free resource once", c.and_(got[0] in free[g], lambda: c.eq(got[1], min(v[0] for v in free[g].values())),
                    lambda: c.eq(free[g][got[0]][0], got[1])))
            del free[g][got[0]]


# ---------------------------------------------------------------- the lazy-deletion queue, for every history
class Entry:
    """an entry of the heap: the list [priority, number, element] that the queue's index and the heap share"""

    def __init__(self, st, n):
        self.st, self.n = st, n

    def __getitem__(self, i):
        return list(self)[i]

    def __iter__(self):
        st, n = self.st, self.n
        gone = st.c.truth(st.c.has(st.gone, n))
        return iter([st.c.get(st.prio, n), n, st.mark if gone else st.c.get(st.elem, n)])

    def __setitem__(self, i, v):
        assert i in (-1, 2) and v is st_mark(self.st)
        self.st.gone.add(self.n)


def st_mark(st):
    return st.mark


class Index:
    """entry_finder: element -> its entry"""

    def __init__(self, st):
        self.st = st

    def __contains__(self, e):
        return bool(self.st.c.truth(self.st.c.has(self.st.find, e)))

    def __getitem__(self, e):
        if e not in self:
            raise KeyError(e)
        return Entry(self.st, self.st.c.get(self.st.find, e))

    def get(self, e, d=None):
        return self[e] if e in self else d

    def __setitem__(self, e, entry):
        self.st.made = entry
        self.st.find[e] = entry.n if isinstance(entry, Entry) else entry[1]

    def pop(self, e, *d):
        if e not in self:
            if d:
                return d[0]
            raise KeyError(e)
        n = self.st.c.get(self.st.find, e)
        del self.st.find[e]
        return Entry(self.st, n)

    def __delitem__(self, e):
        self.pop(e)


class Heap:
    """what heapq promises: the entries pushed and not popped; the first one is the least by priority, then number"""

    def __init__(self, st):
        self.st = st

    def __bool__(self):
        return bool(self.some())

    def pv_truth(self):
        return self.some().e

    def some(self):
        st, c = self.st, self.st.c
        some = c.fresh("entries left", c.Bool)
        w = c.fresh("an entry", c.Int)
        c.assume(c.implies(some, c.has(st.inside, w)))
        c.assume(c.or_(some, c.forall_int(lambda i: c.not_(c.has(st.inside, i)))))
        return some

    def __getitem__(self, i):
        assert i == 0
        return Entry(self.st, self.least())

    def least(self):
        st, c = self.st, self.st.c
        w = c.fresh("least entry", c.Int)
        c.check("the heap is not empty", c.not_(c.forall_int(lambda i: c.not_(c.has(st.inside, i)))))
        c.assume(c.has(st.inside, w))
        c.assume(c.forall_int(lambda i: c.implies(c.has(st.inside, i), lambda: before(c, c.get(st.prio, w), w, c.get(st.prio, i), i))))
        return w


def before(c, p, n, q, m):
    return c.or_(p < q, c.and_(c.eq(p, q), n <= m))


class State:
    pass


class Counter:
    def __init__(self, st):
        self.st = st

    def __next__(self):
        n = self.st.count
        self.st.count = n + 1
        return n


class Lazy:
    """any queue satisfying the invariant, and what it stands for"""

    def __init__(self, c):
        self.c = c
        m = c.mod("simulation_queues_ds")
        if c.symbolic:
            self.q = q = c.call(m.PriorityQueue)
            st = self.st = c.obj(State, count=c.int("entries so far", 0), find=c.dict("index", c.Str, c.Int), gone=c.set("removed", c.Int),
                                 inside=c.set("in the heap", c.Int), prio=c.dict("priority", c.Int, c.Real), elem=c.dict("element", c.Int, c.Str))
            c.track(st, "st")
            st.c, st.mark = c, q.REMOVED
            q.pq, q.entry_finder, q.counter = Heap(st), Index(st), Counter(st)

            def push(h, entry):
                p, n, e = entry
                c.check("a new entry", c.not_(c.has(st.inside, n)))
                c.check("the heap and the index share the entry", st.made is entry)
                st.prio[n], st.elem[n] = p, e
                st.inside.add(n)

            def pop(h):
                w = h.least()
                st.inside.discard(w)
                return Entry(st, w)
            c.contract(m, "heappush", push)
            c.contract(m, "heappop", pop)
            c.assume(self.valid())
        else:
            self.q = q = c.call(m.PriorityQueue)
            r = c.rng
            for _ in range(r.randint(0, 30)):
                e = r.choice("abcdef")
                op = r.choice(["insert", "insert", "pop", "remove", "peek"])
                if op == "insert":
                    q.insert(e, r.choice([0, 1, 2, 3.5]))
                elif op == "remove":
                    if q.contains(e):
                        q.remove_element(e)
                else:
                    getattr(q, {"pop": "pop_min"}.get(op, op))()

    def valid(self):
        """every live element has one entry of its own in the heap; all other entries of the heap are marked as removed"""
        c = self.c
        if not c.symbolic:
            q = self.q
            live = {id(x) for x in q.entry_finder.values()}
            return all(any(x is y for y in q.pq) and x[2] == e for e, x in q.entry_finder.items()) and all(
                id(x) in live or x[2] is q.REMOVED for x in q.pq) and len({x[1] for x in q.pq}) == len(q.pq)
        return c.and_(*[f for _, f in self.parts()])

    def parts(self):
        c, st = self.c, self.st
        at = lambda e: c.get(st.find, e)
        yield "live entries", c.forall_str(lambda e: c.implies(c.has(st.find, e), lambda: c.and_(
            at(e) >= 0, at(e) < st.count, c.has(st.inside, at(e)), c.not_(c.has(st.gone, at(e))), c.has(st.elem, at(e)), c.has(st.prio, at(e)),
            c.eq(c.get(st.elem, at(e)), e))))
        yield "other entries", c.forall_int(lambda n: c.and_(c.implies(c.has(st.inside, n), lambda: c.and_(
            n >= 0, n < st.count, c.has(st.prio, n), c.has(st.elem, n), c.or_(c.has(st.gone, n), lambda: c.and_(
                c.has(st.find, c.get(st.elem, n)), lambda: c.eq(at(c.get(st.elem, n)), n))))),
            c.implies(c.has(st.gone, n), c.and_(n >= 0, n < st.count))))

    def snapshot(self):
        c = self.c
        if c.symbolic:
            st = self.st
            f, p, k = c.old(st.find), c.old(st.prio), st.count
            return (lambda e: c.has(f, e)), (lambda e: c.get(p, c.get(f, e))), (lambda e: c.get(f, e))
        d = {e: tuple(x[:2]) for e, x in self.q.entry_finder.items()}
        return (lambda e: e in d), (lambda e: d[e][0]), (lambda e: d[e][1])

    def unchanged(self, old, but=None):
        """the same live elements with the same priorities and ranks, but for one"""
        c = self.c
        h0, p0, n0 = old
        h1, p1, n1 = self.snapshot()
        same = lambda e: c.and_(c.iff(h0(e), h1(e)), c.implies(h0(e), lambda: c.and_(c.eq(p0(e), p1(e)), c.eq(n0(e), n1(e)))))
        return c.forall_str(lambda e: same(e) if but is None else c.or_(c.eq(e, but), lambda: same(e)), dom=() if c.symbolic else list("abcdef"))


def lazy_inv(V):
    c = V.c
    z = getattr(c, "lazy", None)
    if z is None or not c.symbolic:
        return
    for nm, f in z.parts():
        yield nm, f
    yield "the live elements stay", z.unchanged(c.before)


@unit("P06.insert", [Q + "insert", Q + "remove_element"], secs=120)
def insert(c):
    """any queue reached by any history (the invariant), any element, new or present"""
    z = Lazy(c)
    e, p = c.str("element", pool=list("abcdef")), c.real("priority", g=lambda r: r.choice([0, 1, 2, 3.5]))
    old = z.snapshot()
    n = z.st.count if c.symbolic else None
    c.call(z.q.insert, e, p)
    h, pr, rank = z.snapshot()
    c.check("present with the new priority", c.and_(h(e), lambda: c.eq(pr(e), p)))
    c.check("ranked after everything inserted before", c.forall_str(lambda x: c.implies(c.and_(old[0](x)), lambda: rank(e) > old[2](x)),
                                                                 dom=() if c.symbolic else list("abcdef")))
    c.check("every other element as before", z.unchanged(old, e))
    c.check("invariant", z.valid())


@unit("P06.remove", [Q + "remove_element", Q + "contains", Q + "get_priority"], secs=90)
def remove(c):
    z = Lazy(c)
    e = c.str("element", pool=list("abcdef"))
    old = z.snapshot()
    c.check("contains", c.iff(c.call(z.q.contains, e), old[0](e)))
    g = c.call(z.q.get_priority, e)
    c.check("priority", c.ite(old[0](e), lambda: c.eq(g, old[1](e)), lambda: c.eq(g, None)))
    c.assume(old[0](e))
    c.call(z.q.remove_element, e)
    c.check("gone", c.not_(z.snapshot()[0](e)))
    c.check("every other element as before", z.unchanged(old, e))
    c.check("invariant", z.valid())


def taken(c, pop):
    z = c.lazy = Lazy(c)
    old = c.before = z.snapshot()
    dom = () if c.symbolic else list("abcdef")
    r = c.call(z.q.pop_min if pop else z.q.peek)
    e, p = r
    if e is None:
        c.check("nothing only when nothing is there", c.and_(c.eq(p, None), c.forall_str(lambda x: c.not_(old[0](x)), dom=dom)))
        c.check("still nothing", z.unchanged(old))
    else:
        c.check("a live element with its priority", c.and_(old[0](e), lambda: c.eq(p, old[1](e))))
        c.check("of least priority, ties in insertion order", c.forall_str(lambda x: c.implies(old[0](x), lambda: before(
            c, p, old[2](e), old[1](x), old[2](x))), dom=dom))
        if pop:
            c.check("taken out", c.not_(z.snapshot()[0](e)))
        c.check("every other element as before", z.unchanged(old, e if pop else None))
    c.check("invariant", z.valid())


@unit("P06.pop", Q + "pop_min", inv=lazy_inv, secs=120)
def pop(c):
    """any queue reached by any history (the invariant); heapq by its contract"""
    taken(c, True)


@unit("P06.peek", Q + "peek", inv=lazy_inv, secs=120)
def peek(c):
    taken(c, False)


@unit("P06.size", [Q + "is_empty", Q + "size", Q + "contains"])
def size(c):
    """the size is that of the index of live elements"""
    m = c.mod("simulation_queues_ds")
    d = c.dict("index", c.Str, c.Int, ordered=True, g=lambda r: {e: i for i, e in enumerate("abc"[:r.randint(0, 3)])})
    q = c.call(m.PriorityQueue)
    q.entry_finder = d
    e = c.str("element", pool=list("abcdef"))
    c.check("size", c.eq(c.call(q.size), c.len(d)))
    c.check("empty", c.iff(c.call(q.is_empty), c.eq(c.len(d), 0)))
    c.check("contains", c.iff(c.call(q.contains, e), c.has(d, e)))


@unit("P06.next_event", [E + "pop_next_event", E + "peek"])
def next_event(c):
    """the next event is what the queue of events hands out (P06.pop, P06.peek)"""
    m = c.mod("simulation_queues_ds")
    e, n = c.str("event"), c.bool("none left")
    asked = []

    def answer(how):
        def fn(self):
            asked.append((self, how))
            return (None, None) if c.truth(n) else (e, (1, 2))
        return fn
    c.patch(m.PriorityQueue, "pop_min", answer("pop"))
    c.patch(m.PriorityQueue, "peek", answer("peek"))
    q = c.call(m.EventQueue)
    how = c.choice("operation", ["pop", "peek"])
    r = c.call(q.pop_next_event if how == "pop" else q.peek)
    c.check("asked once", len(asked) == 1 and asked[0] == (q.enabled_events, how))
    c.check("the element handed out", c.ite(n, lambda: c.eq(r, None), lambda: c.eq(r, e)))


SUBSETS = [[0], [1], [2], [0, 1], [2, 0], [1, 2], [0, 1, 2]]


@unit("P06.resource_queues", [D + n for n in ("_init_simulation_queues", "pop_resource_for", "peek_resource_for",
                                              "update_resource_availability")],
      scope="every assignment of 3 resources to 3 tasks, any availabilities")
def resource_queues(c):
    """with a queue that keeps the last priority of each element (P06.insert, P06.pop, P06.peek)"""
    m = c.mod("simulation_queues_ds")

    class Ref:
        def __init__(self):
            self.live = {}

        def insert(self, e, priority=0):
            self.live[e] = priority

        def is_empty(self):
            return not self.live

        def size(self):
            return len(self.live)

        def pop_min(self):
            return (self, "pop")

        def peek(self):
            return (self, "peek")
    c.patch(m, "PriorityQueue", Ref)
    names = ["r0", "r1", "r2"]
    av = {r: c.real("%s free at" % r, 0, g=lambda r: r.choice([0, 60, 3600])) for r in names}
    use = [c.choice("resources of task %d" % i, SUBSETS) for i in range(3)]
    tasks = {"t%d" % i: [names[k] for k in u] for i, u in enumerate(use)}
    q = c.call(m.DiffResourceQueue, c.mkdict([(t, c.mkdict([(r, 0) for r in rs])) for t, rs in tasks.items()]), c.mkdict(list(av.items())))

    def queue(t):
        return c.call(q.peek_resource_for, t)[0].live

    def same(now):
        return c.and_(*[c.and_(set(queue(t)) == set(rs), lambda: c.and_(*[c.eq(queue(t)[r], now[r]) for r in rs])) for t, rs in tasks.items()])
    c.check("asking a task hands out from its own queue", all(c.call(q.pop_resource_for, t)[1] == "pop" and c.call(
        q.peek_resource_for, t)[1] == "peek" and c.call(q.pop_resource_for, t)[0] is c.call(q.peek_resource_for, t)[0] for t in tasks))
    c.check("every task's queue holds exactly its resources with their availability", same(av))
    r = c.choice("released", [x for x in names if any(x in rs for rs in tasks.values())])
    at = c.real("released at", 0, g=lambda r: r.choice([0, 60, 7200]))
    c.call(q.update_resource_availability, r, at)
    c.check("every task the resource is allowed for sees its new availability, the others are as before", same(dict(av, **{r: at})))


@unit("P06.simulated", [E + "pop_next_event", D + "pop_resource_for", D + "update_resource_availability",
                        "prosimos.simulation_engine:run_simulation"], bounded="whole simulations of random models")
def simulated(c):
    """what was enabled first is executed first, and a task does not wait for a busy resource while another one allowed for it is free
    and on duty"""
    r = sim.Run(c, n=c.rng.randint(2, 8), events=False).go()
    ids = {v["name"]: k for k, v in r.res.items()}
    for a, b in zip(r.rows, r.rows[1:]):
        c.check("executed in the order of being enabled", a["enable_time"] <= b["enable_time"])
    busy = {k: [(x["start_time"], x["end_time"]) for x in r.rows if ids[x["resource"]] == k] for k in r.res}
    for x in r.rows:
        who = ids[x["resource"]]
        since = max([e for s, e in busy[who] if e <= x["start_time"]], default=None)
        if since is None or since <= x["enable_time"]:
            continue
        for other in r.work[x["id"]]:
            week = r.weeks[r.res[other]["cal"]]
            if other == who or any(s < x["start_time"] and e > x["enable_time"] for s, e in busy[other]):
                continue
            if week.closing(x["enable_time"]) or week.closing(x["start_time"]):
                continue
            c.check("a free resource on duty is preferred to a busy one", week.next_on(x["enable_time"]) >= x["start_time"])
