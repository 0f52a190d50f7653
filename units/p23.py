"""Replaying the log of a process on its model."""
import random
from collections import deque
from datetime import timedelta
from types import SimpleNamespace

from pyvc.driver import unit
from units import sim
from units.net import FLOWS, Net

G = "prosimos.control_flow_manager:BPMNGraph."
BASE = sim.datetime(2022, 1, 3, tzinfo=sim.timezone.utc)
REPLAY = [G + x for x in ("reply_trace", "try_firing", "_find_enabled_predecessors", "closer_enabled_predecessors", "fire_enabled_predecessors",
                          "update_flow_dates", "try_firing_or_join", "find_firing_index", "is_conflicting_task", "check_unfired_or_splits",
                          "_update_next", "_has_start_event", "_find_decision_successors", "_find_or_conflicting_predecesors")]
T = lambda i: ("task", i)
S = lambda *x: ("seq", list(x))
AND = lambda g, *b: ("and", g, [x if x[0] == "seq" else S(x) for x in b], g + "j")
XOR = lambda g, *b: ("xor", g, [x if x[0] == "seq" else S(x) for x in b], g + "j")
OR = lambda g, *b: ("or", g, [x if x[0] == "seq" else S(x) for x in b], g + "j")
LOOP = lambda g, b: ("loop", g, b if b[0] == "seq" else S(b), g + "j")
TREES = {
    "parallel": S(T("a"), AND("g", T("b"), S(T("c"), T("d"))), T("e")),
    "parallel at once": S(AND("g", T("a"), T("b"), T("c")), T("d")),
    "choice": S(T("a"), XOR("g", T("b"), S(T("c"), T("d"))), XOR("h", T("e"), T("f"))),
    "choice at once": S(XOR("g", T("a"), T("b"), T("c")), AND("h", T("d"), T("e"))),
    "choice in parallel": S(T("a"), AND("g", S(T("b"), XOR("h", T("c"), T("d"))), T("e")), T("f")),
    "parallel in choice": S(T("a"), XOR("g", AND("h", T("b"), T("c")), T("d")), T("e")),
    "choice in choice": S(T("a"), XOR("g", XOR("h", T("b"), T("c")), T("d")), T("e")),
    "joined far": S(T("a"), AND("g", AND("h", AND("k", T("p"), T("q")), T("r")), XOR("x", XOR("y", T("b"), T("c")), T("d"))), T("e")),
    "repeated": S(T("a"), LOOP("g", S(T("b"), XOR("h", T("c"), T("d")))), T("e")),
    "repeated at once": S(LOOP("g", S(T("b"), XOR("h", T("c"), T("d")))), T("e")),
    "repeated parallel": S(T("a"), LOOP("g", S(T("b"), AND("h", T("c"), T("d")))), T("e")),
    "some of": S(T("a"), OR("g", T("b"), S(T("c"), T("d")), T("e")), T("f")),
}


class Drawn(sim.Model):
    def __init__(self, rng, tree):
        self.rng, self.n, self.timers = rng, 0, {}
        self.names, self.elements, self.flows, self.splits, self.default = {}, [], [], {}, {}
        self.tree, self.arcs = tree, []
        self.name(tree)
        self.draw(tree, "start", "end")

    def name(self, t):
        if t[0] == "task":
            self.names[t[1]] = "Do " + t[1]
        else:
            for x in t[1] if t[0] == "seq" else [t[2]] if t[0] == "loop" else t[2]:
                self.name(x)

    def element(self, kind, i, name, extra=""):
        self.elements.append((kind, i, name))


def run(m, pick):
    """one run of the model: its events in order of completion, what enables each of them, and how often each decision went which way"""
    events, taken = [], {}

    def play(t, after):
        if t[0] == "seq":
            for x in t[1]:
                after = play(x, after)
            return after
        if t[0] == "task":
            events.append((t[1], after))
            return [len(events) - 1]
        outs = m.splits[t[3] if t[0] == "loop" else t[1]][1]
        if t[0] == "loop":
            while True:
                after = play(t[2], after)
                again = pick("again", [False, True]) if taken.get(outs[0], 0) < 2 else False
                f = outs[0] if again else outs[1]
                taken[f] = taken.get(f, 0) + 1
                if not again:
                    return after
        if t[0] == "xor":
            i = pick("branch", list(range(len(outs))))
            taken[outs[i]] = taken.get(outs[i], 0) + 1
            return play(t[2][i], after)
        some = list(range(len(outs)))
        if t[0] == "or":
            some = pick("branches", [[j for j in some if k >> j & 1] for k in range(1, 2 ** len(outs))])
        return [e for i in some for e in play(t[2][i], after)]

    play(m.tree, [])
    done, order = {}, []
    while len(order) < len(events):
        ready = [i for i, (_, pre) in enumerate(events) if i not in done and all(p in done for p in pre)]
        i = pick("next", ready) if len(ready) > 1 else ready[0]
        done[i] = len(order)
        order.append(i)
    return [(events[i][0], max([done[p] for p in events[i][1]], default=None)) for i in order], taken


def kinds(t):
    return {t[0]}.union(*[kinds(x) for x in (t[1] if t[0] == "seq" else [] if t[0] == "task" else [t[2]] if t[0] == "loop" else t[2])])


def judge(c, m, g, cases, replayed):
    decided = "or" not in kinds(m.tree)
    total = {f: 0 for k, outs in m.splits.values() if k != "and" for f in outs}
    freq = c.mkdict([]) if c.symbolic else {}
    for events, taken in cases:
        for f, n in taken.items():
            total[f] += n
        trace, when = replayed(events)
        names = c.mklist([m.names[t] for t, _ in events]) if c.symbolic else [m.names[t] for t, _ in events]
        ok, fired, left, enabled = c.call(g.reply_trace, names, freq, True, trace)
        c.check("a run of the model is accepted", ok and all(bool(fired[i]) for i in range(len(events))))
        if decided:
            c.check("no token is left", len(left) == 0)
        for i, (t, p) in enumerate(events):
            due = when[0][0] if p is None else when[p][1]
            c.check("enabled by the last completion it waited for", c.eq(c.instant(enabled[i]), c.instant(due)) if enabled[i] is not None else False)
    if decided:
        for f, n in sorted(total.items()):
            c.check("each way of a decision counted as often as it was taken", c.eq(c.get(freq, f), n) if n else c.or_(
                c.not_(c.has(freq, f)), lambda: c.eq(c.get(freq, f), 0)))


def events(c, m, seq):
    when, trace = [], []
    for i in range(len(seq)):
        when.append((c.dt("started %d" % i), c.dt("completed %d" % i)))
        trace.append(SimpleNamespace(started_at=when[-1][0], completed_at=when[-1][1], task_id=seq[i][0]))
    return c.mklist(trace), when


@unit("P23.shapes", REPLAY, scope="twelve models of up to eight tasks, flows listed in either order, every run with a loop repeated at most twice; all times")
def shapes(c):
    """every run of each of these models, whatever the times of its events"""
    cf = c.mod("control_flow_manager")
    K = cf.BPMN
    kind = {"task": K.TASK, "startEvent": K.START_EVENT, "endEvent": K.END_EVENT, "parallelGateway": K.PARALLEL_GATEWAY,
            "exclusiveGateway": K.EXCLUSIVE_GATEWAY, "inclusiveGateway": K.INCLUSIVE_GATEWAY}
    m = Drawn(random.Random(0), TREES[c.choice("model", sorted(TREES))])
    g = cf.BPMNGraph()
    for k, i, n in [("startEvent", "start", "begin")] + m.elements + [("endEvent", "end", "finish")]:
        g.add_bpmn_element(i, cf.ElementInfo(kind[k], i, n or i, None))
    for f in m.flows if c.choice("flows", ["in order", "backwards"]) == "in order" else reversed(m.flows):
        g.add_flow_arc(*f)
    g.encode_or_join_predecesors()
    n = [0]

    def pick(what, of):
        n[0] += 1
        return c.choice("%s %d" % (what, n[0]), of)
    judge(c, m, g, [run(m, pick)], lambda seq: events(c, m, seq))


@unit("P23.replayed", REPLAY + ["prosimos.simulation_properties_parser:parse_simulation_model"],
      search=20, bounded="random block-structured models, up to five runs each; models with inclusive gateways for acceptance and enabling only")
def replayed(c):
    """logs of random models, read from their files"""
    r = c.rng
    ks = r.choice([("and", "xor"), ("and", "xor", "loop"), ("and", "xor", "or", "loop")])
    m = sim.Model(r, kinds=ks, depth=r.choice([1, 2, 2, 3]), events=False, lead=r.random() < .5)
    sp = c.mod("simulation_properties_parser")
    path = sim.tempfile.mktemp(suffix=".bpmn")
    try:
        with open(path, "w") as f:
            f.write(m.xml())
        g = c.call(sp.parse_simulation_model, path)
    finally:
        sim.os.path.exists(path) and sim.os.remove(path)
    cases = [run(m, lambda what, of: of[0] if what == "again" and r.random() < .5 else r.choice(of)) for _ in range(r.randint(1, 5))]
    c.log["model"] = m.tree

    def times(seq):
        when, trace, at = [], [], 0
        start = r.choice([0, 1, 500])
        for i, (t, p) in enumerate(seq):
            at += r.choice([1, 60, 3601, 90000])
            when.append((r.randint(start if p is None else when[p][1], start + at) if i else start, start + at))
            trace.append(SimpleNamespace(started_at=BASE + timedelta(seconds=when[-1][0]), completed_at=BASE + timedelta(seconds=when[-1][1]), task_id=t))
        c.log["case"] = [(t, w) for (t, _), w in zip(seq, when)]
        return trace, [(x.started_at, x.completed_at) for x in trace]
    judge(c, m, g, cases, times)


@unit("P23.passed", G + "_update_next", secs=150)
def passed(c):
    """a token that goes over a flow is counted once, and goes on only where it can"""
    cf = c.mod("control_flow_manager")
    K = cf.BPMN
    n = Net(c)
    c.assume(c.has(n.toks, "f0"))
    st = n.state(cf)
    freq = c.dict("frequency", c.Str, c.Int, g=lambda r: {f: r.choice([0, 1, 7]) for f in FLOWS if r.random() < .6})
    before = c.old(freq)
    kind = c.choice("leads to", [K.TASK, K.END_EVENT, K.PARALLEL_GATEWAY, K.EXCLUSIVE_GATEWAY, K.INCLUSIVE_GATEWAY])
    ins = c.choice("its flows in", [["f0"], ["f0", "f1"]])
    outs = ["f2", "f3"] if len(ins) == 1 else ["f2"]
    c.assume(c.has(n.toks, "f1"))
    e = c.obj(cf.ElementInfo, id="e", name="e", type=kind, event_type=None, incoming_flows=c.mklist(ins), outgoing_flows=c.mklist(outs))
    g = c.obj(cf.BPMNGraph, element_info=c.mkdict([("e", e)]), flow_arcs=c.mkdict([(f, c.mklist(["a", "e"])) for f in ins]), starting_event="s")
    decided = kind in (K.EXCLUSIVE_GATEWAY, K.INCLUSIVE_GATEWAY) and c.choice("on the path", [True, False])
    joining = kind is K.INCLUSIVE_GATEWAY and len(ins) == 2 and c.choice("join already noted", [True, False])
    path = {"e": "f2"} if decided else {}
    firing = {"e": 3} if joining else {}
    later, todo = ["x"], deque()
    todo.extend(later)
    aside = c.choice("from an inclusive split", [True, False])
    c.call(g._update_next, "f0", todo, st, firing, path, freq, aside)
    c.check("one token more on the flow", n.after(st.tokens, lambda f, t: c.ite(c.eq(f, "f0"), t + 1, t)))
    c.check("counted once more", c.forall_str(lambda f: c.ite(c.eq(f, "f0"), lambda: c.and_(c.has(freq, f), lambda: c.eq(
        c.get(freq, f), c.ite(c.has(before, f), lambda: c.get(before, f), 0) + 1)), lambda: c.and_(c.iff(c.has(freq, f), c.has(before, f)), c.implies(
            c.has(before, f), lambda: c.eq(c.get(freq, f), c.get(before, f))))), dom=FLOWS))
    full = True if len(ins) == 1 else bool(c.truth(c.get(n.t0, "f1") >= 1))
    new = list(todo)[:len(todo) - len(later)]
    c.check("the other work is kept", list(todo)[len(todo) - len(later):] == later)
    if aside:
        c.check("a branch that was not asked for waits", not new and set(firing) == ({"e"} if joining else set()))
    elif kind is K.PARALLEL_GATEWAY:
        c.check("a parallel gateway goes on once every flow has a token", len(new) == (1 if full else 0) and all(x[0] is e for x in new))
    elif kind is K.EXCLUSIVE_GATEWAY or kind is K.INCLUSIVE_GATEWAY and len(outs) > 1:
        c.check("a decision goes the way of the path", [x[1] for x in new] == (["f2"] if decided else []) and all(x[0] is e for x in new))
    elif kind is K.INCLUSIVE_GATEWAY:
        c.check("a join is noted", not new and set(firing) == ({"e"} if decided or joining else set()))
        c.check("what was noted is kept", firing.get("e", 0) == 3 if joining else True)
    else:
        c.check("nothing else goes on", not new)


@unit("P23.taken_back", G + "check_unfired_or_splits", scope="up to two inclusive splits of up to three flows")
def taken_back(c):
    """tokens that were put on a branch of an inclusive split but never used count for nothing"""
    cf = c.mod("control_flow_manager")
    sizes = c.choice("flows", [[], [2], [3], [2, 2], [3, 2]])
    ids = {"g%d" % i: ["g%df%d" % (i, j) for j in range(n)] for i, n in enumerate(sizes)}
    els = [(k, c.obj(cf.ElementInfo, id=k, name=k, type=cf.BPMN.INCLUSIVE_GATEWAY, event_type=None, incoming_flows=c.mklist([]), outgoing_flows=c.mklist(v)))
           for k, v in ids.items()]
    flows = [f for v in ids.values() for f in v] + ["q"]
    toks = {f: c.int("tokens " + f, 0, None) for f in flows}
    freq = {f: c.int("count " + f, 0, None) for f in flows}
    st = c.obj(cf.ProcessState, tokens=c.mkdict(list(toks.items())), state_mask=0, arcs_bitset=c.mkdict([]), flow_date=c.mkdict([]))
    fr = c.mkdict(list(freq.items()))
    g = c.obj(cf.BPMNGraph, element_info=c.mkdict(els))
    c.call(g.check_unfired_or_splits, set(ids), fr, st)
    for f in flows:
        c.check("tokens left on a branch do not count", c.eq(c.get(fr, f), freq[f] if f == "q" else freq[f] - toks[f]))
        c.check("and are gone", c.eq(c.get(st.tokens, f), toks[f] if f == "q" else 0))
