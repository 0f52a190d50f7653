"""Whole simulations of random scenarios, from the files a user writes to the files a user reads, judged row by row against the
structure of the scenario.  Sampled, never counted as proved: they cover the code between the functions under contract."""
import csv
import json
import os
import shutil
import tempfile
from datetime import datetime, timedelta, timezone

DAYS = ["MONDAY", "TUESDAY", "WEDNESDAY", "THURSDAY", "FRIDAY", "SATURDAY", "SUNDAY"]
KINDS = {"and": "parallelGateway", "xor": "exclusiveGateway", "or": "inclusiveGateway"}


def fix(v):
    return {"distribution_name": "fix", "distribution_params": [{"value": v}] * 3}


class Model:
    """a random block-structured process: every block has one entry and one exit, every branch begins with a task"""

    def __init__(self, rng, kinds=("and", "xor", "or", "loop"), depth=2, events=True, spread=2, lead=False):
        self.rng, self.kinds, self.events, self.spread = rng, list(kinds), events, spread
        self.names, self.elements, self.flows, self.splits, self.default = {}, [], [], {}, {}
        self.tasks, self.timers = [], {}
        self.n = 0
        self.tree = ("seq", ([self.task()] if lead or rng.random() < 0.7 else []) + [self.block(depth, False) for _ in range(rng.randint(1, spread))])
        self.element("startEvent", "start", "begin")
        self.element("endEvent", "end", "finish")
        self.draw(self.tree, "start", "end")

    def new(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def task(self):
        i = self.new("t")
        self.tasks.append(i)
        self.names[i] = "Do %s" % i
        return ("task", i)

    def block(self, depth, looped):
        r = self.rng
        if depth == 0 or not self.kinds or r.random() < 0.2:
            return self.task()
        k = r.choice([x for x in self.kinds if not (looped and x in ("or", "loop"))] or ["seq"])
        if k == "seq":
            return self.line(depth - 1, looped)
        if k == "loop":
            return ("loop", self.new("g"), self.line(depth - 1, True), self.new("g"))
        return (k, self.new("g"), [self.line(depth - 1, looped) for _ in range(r.randint(2, 3))], self.new("g"))

    def line(self, depth, looped):
        r, out = self.rng, [self.task()]
        if self.events and r.random() < 0.25:
            i = self.new("e")
            self.timers[i] = r.randint(60, 7000)
            self.names[i] = "Wait %s" % i
            out.append(("event", i))
        if r.random() < 0.6:
            out.append(self.block(depth, looped))
        return ("seq", out)

    def element(self, kind, i, name, extra=""):
        self.elements.append('<%s id="%s" name="%s"%s' % (kind, i, name, extra or "/>"))

    def flow(self, a, b):
        i = "f%d" % len(self.flows)
        self.flows.append((i, a, b))
        return i

    def entry(self, t):
        return self.entry(t[1][0]) if t[0] == "seq" else t[1]

    def firsts(self, t):
        """the tasks a block can begin with"""
        if t[0] in ("task", "event"):
            return [t[1]]
        if t[0] == "seq":
            return self.firsts(t[1][0])
        if t[0] == "loop":
            return self.firsts(t[2])
        return [x for b in t[2] for x in self.firsts(b)]

    def draw(self, t, src, dst):
        """-> the flow that leads into the block"""
        if t[0] == "seq":
            first = None
            for i, x in enumerate(t[1]):
                nxt = self.entry(t[1][i + 1]) if i + 1 < len(t[1]) else dst
                f = self.draw(x, src, nxt) if i == 0 else self.draw(x, None, nxt)
                first = first or f
            return first
        into = self.flow(src, t[1]) if src else None
        if t[0] == "task":
            self.element("task", t[1], self.names[t[1]])
            self.flow(t[1], dst)
        elif t[0] == "event":
            self.element("intermediateCatchEvent", t[1], self.names[t[1]], "><timerEventDefinition/></intermediateCatchEvent>")
            self.flow(t[1], dst)
        elif t[0] == "loop":
            self.element("exclusiveGateway", t[1], "")
            self.draw(t[2], t[1], t[3])
            self.element("exclusiveGateway", t[3], "")
            self.splits[t[3]] = ("loop", [self.flow(t[3], t[1]), self.flow(t[3], dst)])
        else:
            out = [self.draw(b, t[1], t[3]) for b in t[2]]
            self.splits[t[1]] = (t[0], out)
            d = ""
            if t[0] in ("xor", "or") and self.rng.random() < 0.4:
                self.default[t[1]] = self.rng.choice(out)
                d = ' default="%s"/>' % self.default[t[1]]
            self.element(KINDS[t[0]], t[1], "", d)
            self.element(KINDS[t[0]], t[3], "")
            self.flow(t[3], dst)
        return into

    def xml(self):
        parts = list(self.elements) + ['<sequenceFlow id="%s" sourceRef="%s" targetRef="%s"/>' % f for f in self.flows]
        self.rng.shuffle(parts)
        return ('<?xml version="1.0"?>\n<definitions xmlns="http://www.omg.org/spec/BPMN/20100524/MODEL"><process id="p">' +
                "".join(parts) + "</process></definitions>")


class Week:
    """working hours: [(weekday, first second, last second)]"""

    def __init__(self, rng):
        a, b = rng.choice([(0, 4), (0, 6), (2, 5), (0, 0), (1, 6)])
        spans = rng.choice([[(9, 17)], [(8, 12), (13, 18)], [(0, 6)], [(6, 14)], [(9.5, 16.25)]])
        self.json = [{"from": DAYS[a], "to": DAYS[b], "beginTime": hms(x), "endTime": hms(y)} for x, y in spans]
        self.spans = [(d, int(x * 3600), int(y * 3600)) for d in range(a, b + 1) for x, y in spans]

    def edges(self, t):
        """the shifts around t, in order"""
        day = t.replace(hour=0, minute=0, second=0, microsecond=0)
        out = []
        for k in range(-1, 15):
            d = day + timedelta(days=k)
            out += [(d + timedelta(seconds=x), d + timedelta(seconds=y)) for w, x, y in self.spans if w == d.weekday()]
        return sorted(out)

    def on(self, t):
        return any(a <= t < b for a, b in self.edges(t))

    def closing(self, t):
        """t is the very end of a shift (on or off duty is a matter of convention)"""
        return any(t == b for a, b in self.edges(t))

    def next_on(self, t):
        for a, b in self.edges(t):
            if t < b:
                return max(a, t)

    def finish(self, t, secs):
        """when secs of work begun at t are done; None if that is the very end of a shift"""
        left = timedelta(seconds=secs)
        while True:
            for a, b in self.edges(t):
                if t >= b:
                    continue
                t = max(a, t)
                if left < b - t:
                    return t + left
                if left == b - t:
                    return None
                left -= b - t
                t = b


class Union(Week):
    """on duty whenever one of the weeks is"""

    def __init__(self, weeks):
        self.weeks = weeks

    def edges(self, t):
        out = []
        for a, b in sorted(x for w in self.weeks for x in w.edges(t)):
            if out and a <= out[-1][1]:
                out[-1] = (out[-1][0], max(b, out[-1][1]))
            else:
                out.append((a, b))
        return out

    def closing(self, t):
        return any(w.closing(t) for w in self.weeks)


def hms(h):
    return "%02d:%02d:00" % (int(h), round(h % 1 * 60))


class Run:
    """a scenario: the model, the parameters, and after `go` the rows of its log"""

    def __init__(self, c, n=None, log_events=None, attributes=False, conditions=False, arrival=False, **kw):
        r = self.rng = c.rng
        self.c, self.m = c, Model(r, **kw)
        m = self.m
        self.n = n or r.randint(2, 5)
        self.log_events = r.random() < 0.5 if log_events is None else log_events
        self.zone = timezone(timedelta(hours=r.choice([0, 0, 2, -5])))
        self.start = datetime(2024, 1, 1, tzinfo=self.zone) + timedelta(days=r.randrange(400), minutes=r.randrange(1440),
                                                                       seconds=r.randrange(60))
        self.weeks = {"cal%d" % i: Week(r) for i in range(r.randint(1, 2))}
        self.res = {"r%d" % i: {"name": "Res %d" % i, "cal": r.choice(list(self.weeks)), "cost": r.choice([0, 7, 20])}
                    for i in range(r.randint(1, 3))}
        self.work = {t: {x: r.randint(30, 9000) for x in r.sample(list(self.res), r.randint(1, len(self.res)))} for t in m.tasks}
        self.gap = r.choice([0, 1, 61, 600, 7201, 40000])
        self.arrival = Week(r) if arrival else None
        self.weights, self.conditions, self.rules, self.attrs = {}, {}, {}, {}
        for g, (k, flows) in m.splits.items():
            if k == "and":
                continue
            if k == "loop":
                w = [r.choice([0, 0.3, 0.4]), None]
                w[1] = 1 - w[0]
            elif k == "or":
                w = [r.choice([0.3, 0.6, 1]) for _ in flows]
                s = sum(w)
                w = [x / s for x in w]
            else:
                p = r.randrange(len(flows))
                w = [0 if i != p and r.random() < 0.3 else 1.0 for i in range(len(flows))]
                w = [x / sum(w) for x in w]
            self.weights[g] = dict(zip(flows, w))
        if attributes or conditions:
            self.attrs = {"kind": ["red", "blue", "green"], "amount": ["1", "5", "10"]}
        if conditions:
            for g, (k, flows) in m.splits.items():
                if k in ("xor", "or") and r.random() < 0.8:
                    for f in flows:
                        self.conditions[f] = self.condition()
        self.extra(r)

    def extra(self, r):
        pass

    def condition(self):
        r = self.rng
        cid = "c%d" % len(self.rules)

        def atom():
            if r.random() < 0.5:
                return {"attribute": "kind", "comparison": r.choice(["=", "!="]), "value": r.choice(self.attrs["kind"])}
            op = r.choice(["<", "<=", ">", ">=", "in"])
            v = r.choice([0, 1, 4, 5, 6, 10])
            return {"attribute": "amount", "comparison": op, "value": [str(v), str(v + r.choice([0, 4, 9]))] if op == "in" else str(v)}

        # one comparison per attribute: two of the same attribute in one alternative are read as one range
        def alternative():
            a, b = atom(), atom()
            return [a] if r.random() < 0.5 or a["attribute"] == b["attribute"] else [a, b]

        self.rules[cid] = [alternative() for _ in range(r.choice([1, 1, 2]))]
        return cid

    def holds(self, cid, row):
        def atom(a):
            v, w = row[a["attribute"]], a["value"]
            if a["attribute"] == "kind":
                return (v == w) == (a["comparison"] == "=")
            v = float(v)
            return {"<": lambda: v < float(w), "<=": lambda: v <= float(w), ">": lambda: v > float(w), ">=": lambda: v >= float(w),
                    "in": lambda: float(w[0]) <= v <= float(w[1])}[a["comparison"]]()

        return any(all(atom(a) for a in alt) for alt in self.rules[cid])

    def json(self):
        m = self.m
        j = {"resource_profiles": [{"id": "pool", "name": "Pool", "resource_list": [
                {"id": x, "name": v["name"], "cost_per_hour": v["cost"], "amount": 1, "calendar": v["cal"]}
                for x, v in self.res.items()]}],
             "resource_calendars": [{"id": k, "name": k, "time_periods": w.json} for k, w in self.weeks.items()],
             "task_resource_distribution": [{"task_id": t, "resources": [dict(resource_id=x, **fix(d)) for x, d in w.items()]}
                                            for t, w in self.work.items()],
             "arrival_time_distribution": fix(self.gap),
             "gateway_branching_probabilities": [{"gateway_id": g, "probabilities": [
                 dict([("path_id", f), ("value", str(p))] + ([("condition_id", self.conditions[f])] if f in self.conditions else []))
                 for f, p in w.items()]} for g, w in self.weights.items()],
             "event_distribution": [dict(event_id=e, **fix(d)) for e, d in m.timers.items()]}
        if self.arrival:
            j["arrival_time_calendar"] = self.arrival.json
        if self.rules:
            j["branch_rules"] = [{"id": i, "rules": r} for i, r in self.rules.items()]
        if self.attrs:
            j["case_attributes"] = [{"name": a, "type": "discrete", "values": [
                {"key": v, "value": 1 / len(vs)} for v in vs]} for a, vs in self.attrs.items()]
        self.more(j)
        return j

    def more(self, j):
        pass

    def go(self, stat=True, log=True, fixed=None):
        """simulates; without a file for the log or the statistics, `raw` or `stats` is None"""
        c = self.c
        mod = c.mod("simulation_engine")
        d = tempfile.mkdtemp(prefix="verif-sim-")
        try:
            with open(os.path.join(d, "m.bpmn"), "w") as f:
                f.write(self.m.xml())
            with open(os.path.join(d, "m.json"), "w") as f:
                json.dump(self.json(), f)
            c.log["scenario"] = {"cases": self.n, "start": self.start.isoformat(), "model": self.m.tree, "parameters": self.json()}
            files = [os.path.join(d, name) if on else None for name, on in (("stat.csv", stat), ("log.csv", log))]
            more = () if fixed is None else (fixed,)
            self.result = c.call(mod.run_simulation, os.path.join(d, "m.bpmn"), os.path.join(d, "m.json"), self.n, *files,
                                 self.start.isoformat(), self.log_events, *more)
            self.stats, self.raw = [read(x) if x else None for x in files]
        finally:
            shutil.rmtree(d)
        if not self.raw:
            return self
        self.header = self.raw[0]
        self.rows = [dict(zip(self.header, r)) for r in self.raw[1:]]
        ids = {v: k for k, v in self.m.names.items()}
        for r in self.rows:
            r["id"] = ids.get(r["activity"], r["activity"])
            for k in ("enable_time", "start_time", "end_time"):
                r[k] = datetime.fromisoformat(r[k])
        self.work_rows = [r for r in self.rows if r["id"] in self.work]
        return self

    def case(self, i):
        return [r for r in self.rows if r["case_id"] == str(i)]

    # ------------------------------------------------------------------ the walk through the model
    def follow(self, i, arrived, firing=None):
        """-> why the rows of case i are not a run of the model that begins at `arrived` (None if they are one)"""
        left = {}
        for r in self.case(i):
            left.setdefault(r["id"], []).append(r)
        try:
            self.walk(self.m.tree, arrived, left, firing or (lambda g, taken, row: None), next(iter(self.case(i)), None))
        except Wrong as w:
            return str(w)
        rest = [k for k, v in left.items() if v]
        return "executed although nothing enabled it: %s" % rest if rest else None

    def walk(self, t, at, left, firing, row):
        """-> (when the block is complete, the last row)"""
        k, m = t[0], self.m
        if k == "event" and not self.log_events:
            return at + timedelta(seconds=m.timers[t[1]]), row
        if k in ("task", "event"):
            if not left.get(t[1]):
                raise Wrong("%s, enabled at %s, is not executed" % (t[1], at))
            r = left[t[1]].pop(0)
            if r["enable_time"] != at:
                raise Wrong("%s is enabled at %s, not at %s" % (t[1], r["enable_time"], at))
            if k == "event" and (r["start_time"] != at or r["end_time"] != at + timedelta(seconds=m.timers[t[1]])):
                raise Wrong("event %s from %s to %s instead of %s s" % (t[1], r["start_time"], r["end_time"], m.timers[t[1]]))
            return r["end_time"], r
        if k == "seq":
            for x in t[1]:
                at, row = self.walk(x, at, left, firing, row)
            return at, row
        begun = lambda b: any(left.get(f) and left[f][0]["enable_time"] == at for f in m.firsts(b))
        if k == "loop":
            at, row = self.walk(t[2], at, left, firing, row)
            while True:
                back = any(left.get(f) for f in m.firsts(t[2]))
                flows = self.m.splits[t[3]][1]
                firing(t[3], [flows[0 if back else 1]], row)
                if not back:
                    return at, row
                at, row = self.walk(t[2], at, left, firing, row)
        took = [b for b in t[2] if k == "and" or begun(b)]
        if not took:
            raise Wrong("no flow of %s is taken at %s" % (t[1], at))
        if k == "xor" and len(took) > 1:
            raise Wrong("%d flows of exclusive %s are taken at %s" % (len(took), t[1], at))
        if k != "and":
            firing(t[1], [self.m.splits[t[1]][1][t[2].index(b)] for b in took], row)
        ends = [self.walk(b, at, left, firing, row) for b in took]
        return max(e[0] for e in ends), row

    # ------------------------------------------------------------------ arrivals
    def starters(self):
        """when any resource of the tasks that are reached first is on duty"""
        todo, seen, who = ["start"], set(), set()
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                if x in self.work:
                    who |= set(self.work[x])
                else:
                    todo += [b for _, a, b in self.m.flows if a == x]
        return Union([self.weeks[self.res[x]["cal"]] for x in sorted(who)])

    def arrivals(self):
        """the instants of the arrivals under the arrival calendar (or, without, the calendars of the starters); None where a
        convention decides"""
        w = self.arrival or self.starters()
        step = lambda t: None if w.closing(t + timedelta(seconds=self.gap)) else w.next_on(t + timedelta(seconds=self.gap))
        t = self.start
        if w.closing(t):
            return None
        if not w.on(t):
            t = step(t)
        out = []
        for _ in range(self.n):
            if t is None:
                return None
            out.append(t)
            t = step(t)
        return out


def read(path):
    with open(path, newline="", encoding="utf-8") as f:
        return [r for r in csv.reader(f)]


class Wrong(Exception):
    pass


def holds(c, name, why):
    """the check `name`; the reason goes into the report"""
    if why:
        c.log["because"] = why
    c.check(name, not why)
