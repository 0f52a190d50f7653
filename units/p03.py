import secrets
import types

from pyvc.driver import unit
from units import sim

P = "prosimos.probability_distributions:Choice."
O = "prosimos.outgoing_flow_selector:OutgoingFlowSelector."
G = "prosimos.control_flow_manager:BPMNGraph."
FLOWS = ["f%d" % i for i in range(5)]


class One:
    """a drawn sample of size one"""

    def __init__(self, v):
        self.v = v

    def __getitem__(self, i):
        return self.v

    def __bool__(self):
        return True if self.v else False


def sampler(c, m):
    """contract of numpy's choice: the weights form a distribution over the candidates; an item of positive weight is drawn"""
    def draw(cands, size=None, p=None):
        n = c.len(cands)
        c.check("one weight per candidate", c.eq(c.len(p), n))
        c.check("weights are probabilities", c.forall(0, n, lambda i: c.and_(c.at(p, i) >= 0, c.at(p, i) <= 1 + 1e-8)))
        if c.symbolic:
            k = c.fresh("drawn", c.Int)
            c.assume(c.and_(k >= 0, k < n, lambda: c.at(p, k) > 0))
        else:
            c.check("weights add up to one", abs(sum(p) - 1) < 1e-8)
            k = c.rng.choice([i for i in range(n) if p[i] > 0])
        return One(c.at(cands, k))
    c.patch(m, "random", types.SimpleNamespace(choice=draw))


def weighted(c):
    """candidates without repetition and a distribution over them"""
    n = c.int("number of flows", lo=1, hi=4)
    fl = c.list("candidates", c.Str, lo=1, g=lambda r: FLOWS[:n])
    w = c.list("weights", c.Real, lo=1, g=lambda r: dist(r, n))
    c.assume(c.and_(c.eq(c.len(fl), n), c.eq(c.len(w), n)))
    c.assume(c.forall(0, n, lambda i: c.and_(c.at(w, i) >= 0, c.at(w, i) <= 1)))
    c.assume(c.exists(0, n, lambda i: c.at(w, i) > 0))
    c.assume(c.forall(0, n, lambda i: c.forall(0, n, lambda j: c.or_(c.eq(i, j), c.not_(c.eq(c.at(fl, i), c.at(fl, j)))))))
    return fl, w


def dist(r, n):
    v = [r.choice([0, 0, 1, 1, 2]) for _ in range(n)]
    v[r.randrange(n)] += 1
    return [x / sum(v) for x in v]


def at_weight(c, fl, w, f):
    """f is a candidate of positive weight"""
    return c.exists(0, c.len(fl), lambda i: c.and_(c.eq(c.at(fl, i), f), c.at(w, i) > 0))


@unit("P03.one_by_weight", P + "get_outgoing_flow")
def one_by_weight(c):
    m = c.mod("probability_distributions")
    sampler(c, m)
    fl, w = weighted(c)
    f = c.call(c.call(m.Choice, fl, w).get_outgoing_flow)
    c.check("a candidate of positive weight", at_weight(c, fl, w, f))


def several_inv(V):
    c = V.c
    fl, w = c.fl, c.w
    for nm, l, _ in V.lists():
        yield "%s: among those seen" % nm, c.forall(0, c.len(l), lambda a: c.exists(0, V.k, lambda i: c.and_(
            c.eq(c.at(l, a)[0], c.at(fl, i)), c.at(w, i) > 0)))
        yield "%s: once" % nm, c.forall(0, c.len(l), lambda a: c.forall(0, a, lambda b: c.not_(
            c.eq(c.at(l, a)[0], c.at(l, b)[0]))))
        yield "%s: all certain ones" % nm, c.forall(0, V.k, lambda i: c.implies(c.at(w, i) >= 1, lambda: c.exists(
            0, c.len(l), lambda a: c.eq(c.at(l, a)[0], c.at(fl, i)))))


@unit("P03.several_by_weight", P + "get_multiple_flows", inv=several_inv, secs=60)
def several_by_weight(c):
    m = c.mod("probability_distributions")
    sampler(c, m)
    fl, w = c.fl, c.w = weighted(c)
    r = c.call(c.call(m.Choice, fl, w).get_multiple_flows)
    c.check("at least one", c.len(r) >= 1)
    c.check("candidates of positive weight, without a duration", c.forall(0, c.len(r), lambda a: c.and_(
        at_weight(c, fl, w, c.at(r, a)[0]), c.eq(c.at(r, a)[1], None))))
    c.check("each at most once", c.forall(0, c.len(r), lambda a: c.forall(0, a, lambda b: c.not_(
        c.eq(c.at(r, a)[0], c.at(r, b)[0])))))


class Split:
    """a gateway with weighted outgoing flows, some of them with a condition, perhaps a default flow"""

    def __init__(self, c, kind):
        cf, m = c.mod("control_flow_manager"), c.mod("outgoing_flow_selector")
        self.c = c
        self.fl, self.w = weighted(c)
        rule = c.mod("branch_condition_rules").BranchConditionWithRule
        nc = c.int("number of conditions", lo=1, hi=3)
        self.rules = c.list("conditions", c.Obj(rule, {"id": c.Str, "holds": c.Bool}), lo=1, g=lambda r: [
            self.rule(rule, r) for _ in range(nc)])
        self.cond = c.list("conditioned", c.Str, lo=1, g=lambda r: r.sample(self.fl, min(nc, len(self.fl))))
        self.asked = []

        def holds(me, values):
            self.asked.append(values)
            return me.holds
        (c.contract if c.symbolic else c.patch)(rule, "is_true", holds)
        c.assume(c.and_(c.eq(c.len(self.rules), nc), c.eq(c.len(self.cond), nc)))
        c.assume(c.forall(0, nc, lambda i: c.exists(0, c.len(self.fl), lambda j: c.eq(c.at(self.cond, i), c.at(self.fl, j)))))
        c.assume(c.forall(0, nc, lambda i: c.forall(0, nc, lambda j: c.or_(c.eq(i, j), c.not_(
            c.eq(c.at(self.cond, i), c.at(self.cond, j)))))))
        self.default = c.value("default flow", c.Opt(c.Str))
        if self.default is not None:
            c.assume(c.not_(c.eq(self.default, "")))
        pd = c.mod("probability_distributions")
        self.values = c.mkdict({"a": 1})
        self.n = nc
        ch = c.obj(pd.Choice, candidates_list=self.fl, probability_list=self.w)
        gc = c.obj(c.mod("gateway_condition_choice").GatewayConditionChoice, candidates_list=self.cond,
                   rules_list=self.rules, default_path=self.default)
        e = c.obj(cf.ElementInfo, id="g", name="g", type=kind, event_type=None, incoming_flows=c.mklist(["in"]),
                  outgoing_flows=self.fl)
        self.args = (e, c.mkdict({"g": ch}), self.values, c.mkdict({"g": gc}))

        def one(me):
            i = c.fresh("drawn", c.Int)
            c.assume(c.and_(i >= 0, i < c.len(me.candidates_list), lambda: c.at(me.probability_list, i) > 0))
            return c.at(me.candidates_list, i)
        if c.symbolic:
            c.contract(pd.Choice, "get_outgoing_flow", one)
        else:
            sampler(c, pd)

    def rule(self, cls, r):
        x = cls(None, "c")
        x.holds = r.random() < .5
        return x

    def holding(self, f, k=None):
        """f carries a condition (among the first k) that holds"""
        c = self.c
        return c.exists(0, self.n if k is None else k, lambda i: c.and_(c.eq(c.at(self.cond, i), f), c.at(self.rules, i).holds))

    def some(self):
        return self.c.exists(0, self.n, lambda i: self.c.at(self.rules, i).holds)


def passed_inv(V):
    c, s = V.c, V.c.split
    for nm, l, _ in V.lists():
        yield "%s: hold" % nm, c.forall(0, c.len(l), lambda a: s.holding(c.at(l, a), V.k))
        yield "%s: all that hold" % nm, c.forall(0, V.k, lambda i: c.implies(c.at(s.rules, i).holds, lambda: c.exists(
            0, c.len(l), lambda a: c.eq(c.at(l, a), c.at(s.cond, i)))))
        yield "%s: once" % nm, c.forall(0, c.len(l), lambda a: c.forall(0, a, lambda b: c.not_(c.eq(c.at(l, a), c.at(l, b)))))
        yield "%s: seen" % nm, c.forall(0, c.len(l), lambda a: c.exists(0, V.k, lambda i: c.eq(c.at(l, a), c.at(s.cond, i))))
        yield "%s: all seen" % nm, c.forall(0, V.k, lambda i: c.exists(0, c.len(l), lambda a: c.eq(c.at(l, a), c.at(s.cond, i))))


def weight_contracts(c, S):
    """what P03.weights proves of the two helpers"""
    def probs(flows, cands, ws):
        p = c.fresh("weights", c.List(c.Real))
        n = c.len(flows)
        c.check("every passed flow has a weight", c.forall(0, n, lambda i: c.exists(0, c.len(cands), lambda j: c.eq(
            c.at(cands, j), c.at(flows, i)))))
        c.assume(c.and_(c.eq(c.len(p), n), c.forall(0, n, lambda i: c.exists(0, c.len(cands), lambda j: c.and_(
            c.eq(c.at(cands, j), c.at(flows, i)), c.eq(c.at(p, i), c.at(ws, j)))))))
        return p

    def scaled(p):
        q = c.fresh("scaled", c.List(c.Real))
        n = c.len(p)
        c.assume(c.eq(c.len(q), n))
        c.assume(c.implies(c.exists(0, n, lambda i: c.at(p, i) > 0), lambda: c.forall(0, n, lambda i: c.iff(
            c.at(q, i) > 0, c.at(p, i) > 0))))
        return q
    c.contract(S, "_get_probabilities", probs)
    c.contract(S, "_scale_to_one", scaled)


@unit("P03.exclusive", [O + "choose_outgoing_flow", O + "_handle_exclusive_gateway"], inv=passed_inv, secs=120)
def exclusive(c):
    cf, m = c.mod("control_flow_manager"), c.mod("outgoing_flow_selector")
    s = c.split = Split(c, cf.BPMN.EXCLUSIVE_GATEWAY)
    weight_contracts(c, m.OutgoingFlowSelector)
    r = c.call(m.OutgoingFlowSelector.choose_outgoing_flow, *s.args)
    c.check("exactly one flow, without a duration", c.and_(c.eq(c.len(r), 1), c.eq(c.at(r, 0)[1], None)))
    f = c.at(r, 0)[0]
    c.check("an outgoing flow, or the default one", c.or_(
        c.exists(0, c.len(s.fl), lambda i: c.eq(c.at(s.fl, i), f)), c.eq(f, s.default)))
    c.check("one whose condition holds, if any does", c.implies(s.some(), lambda: s.holding(f)))
    c.check("of positive weight, if one that holds has it", c.implies(c.exists(0, c.len(s.fl), lambda j: c.and_(
        c.at(s.w, j) > 0, lambda: s.holding(c.at(s.fl, j)))), lambda: at_weight(c, s.fl, s.w, f)))
    if s.default is not None:
        c.check("else the default flow", c.implies(c.not_(s.some()), c.eq(f, s.default)))
    else:
        c.check("else one of positive weight", c.implies(c.not_(s.some()), lambda: at_weight(c, s.fl, s.w, f)))
    c.check("asked with the case's values", all(v is s.values for v in s.asked))


@unit("P03.inclusive", [O + "choose_outgoing_flow", O + "_handle_inclusive_gateway"], inv=passed_inv, secs=120)
def inclusive(c):
    cf, m = c.mod("control_flow_manager"), c.mod("outgoing_flow_selector")
    s = c.split = Split(c, cf.BPMN.INCLUSIVE_GATEWAY)
    pd = c.mod("probability_distributions")
    drawn = c.list("drawn flows", c.Tuple(c.Str, c.NoneK), lo=1, g=lambda r: [
        (f, None) for f in s.fl if r.random() < .5] or [(s.fl[0], None)])
    (c.contract if c.symbolic else c.patch)(pd.Choice, "get_multiple_flows", lambda me: drawn)
    r = c.call(m.OutgoingFlowSelector.choose_outgoing_flow, *s.args)
    any_, dflt = s.some(), s.default is not None
    c.check("every flow whose condition holds", c.forall(0, s.n, lambda i: c.implies(c.at(s.rules, i).holds, lambda: c.exists(
        0, c.len(r), lambda a: c.eq(c.at(r, a)[0], c.at(s.cond, i))))))
    c.check("no flow whose condition does not hold while another one holds", c.implies(any_, lambda: c.forall(
        0, c.len(r), lambda a: c.implies(c.exists(0, s.n, lambda i: c.eq(c.at(r, a)[0], c.at(s.cond, i))),
                                         lambda: s.holding(c.at(r, a)[0])))))
    c.check("not empty", c.len(r) >= 1)
    c.check("each once when conditions hold", c.implies(any_, lambda: c.forall(0, c.len(r), lambda a: c.forall(
        0, a, lambda b: c.not_(c.eq(c.at(r, a)[0], c.at(r, b)[0]))))))
    if dflt:
        c.check("else the default flow", c.implies(c.not_(any_), lambda: c.and_(
            c.eq(c.len(r), 1), lambda: c.eq(c.at(r, 0)[0], s.default))))
    else:
        c.check("else the drawn ones", c.implies(c.not_(any_), lambda: c.eq(c.len(r), c.len(drawn))))
        c.check("else exactly those", c.implies(c.not_(any_), lambda: c.forall(0, c.len(drawn), lambda a: c.eq(
            c.at(r, a)[0], c.at(drawn, a)[0]))))


@unit("P03.weights", [O + "_scale_to_one", O + "_get_probabilities"], secs=60, sum_parts=True)
def weights(c):
    cf, m = c.mod("control_flow_manager"), c.mod("outgoing_flow_selector")
    s = c.split = Split(c, cf.BPMN.EXCLUSIVE_GATEWAY)
    S = m.OutgoingFlowSelector
    p = c.call(S._get_probabilities, s.cond, s.fl, s.w)
    c.check("the weight of each", c.and_(c.eq(c.len(p), s.n), c.forall(0, s.n, lambda i: c.exists(
        0, c.len(s.fl), lambda j: c.and_(c.eq(c.at(s.fl, j), c.at(s.cond, i)), c.eq(c.at(p, i), c.at(s.w, j)))))))
    q = c.call(S._scale_to_one, p)
    t = c.sum(c.len(p), lambda i: c.at(p, i), c.Real)
    c.check("as many", c.eq(c.len(q), s.n))
    c.check("in proportion", c.implies(t > 0, lambda: c.forall(0, s.n, lambda i: near(c, c.at(q, i) * t, c.at(p, i)))))
    c.check("a flow of weight zero is out of the question beside one of positive weight", c.implies(c.exists(
        0, s.n, lambda i: c.at(p, i) > 0), lambda: c.forall(0, s.n, lambda i: c.iff(c.at(q, i) > 0, c.at(p, i) > 0))))
    c.check("equal if all are zero", c.implies(c.eq(t, 0), lambda: c.forall(0, s.n, lambda i: near(c, c.at(q, i) * s.n, 1))))


def near(c, a, b):
    return c.eq(a, b) if c.symbolic else abs(a - b) < 1e-9


@unit("P03.all_flows", [O + "choose_outgoing_flow", O + "_handle_parallel_events"])
def all_flows(c):
    cf, m = c.mod("control_flow_manager"), c.mod("outgoing_flow_selector")
    T = cf.BPMN
    t = c.choice("type", [T.TASK, T.PARALLEL_GATEWAY, T.START_EVENT, T.INTERMEDIATE_EVENT])
    out = c.list("outgoing", c.Str, g=lambda r: r.sample(FLOWS, r.randint(0, 4)))
    e = c.obj(cf.ElementInfo, id="g", name="g", type=t, event_type=None, incoming_flows=c.mklist([]), outgoing_flows=out)
    r = c.call(m.OutgoingFlowSelector.choose_outgoing_flow, e, c.mkdict({}), c.mkdict({}), c.mkdict({}))
    c.check("all of them, in order", c.and_(c.eq(c.len(r), c.len(out)), c.forall(0, c.len(out), lambda i: c.and_(
        c.eq(c.at(r, i)[0], c.at(out, i)), c.eq(c.at(r, i)[1], None)))))


@unit("P03.unconditioned", [O + "choose_outgoing_flow", O + "_use_probabilities"])
def unconditioned(c):
    """without conditions the weights decide alone"""
    cf, m, pd = c.mod("control_flow_manager"), c.mod("outgoing_flow_selector"), c.mod("probability_distributions")
    t = c.choice("type", [cf.BPMN.EXCLUSIVE_GATEWAY, cf.BPMN.INCLUSIVE_GATEWAY])
    one = c.str("drawn", pool=FLOWS)
    many = c.list("drawn flows", c.Tuple(c.Str, c.NoneK), lo=1, g=lambda r: [(f, None) for f in FLOWS[:r.randint(1, 4)]])
    put = c.contract if c.symbolic else c.patch
    put(pd.Choice, "get_outgoing_flow", lambda me: one if me is ch else None)
    put(pd.Choice, "get_multiple_flows", lambda me: many if me is ch else None)
    ch = c.obj(pd.Choice, candidates_list=c.mklist(FLOWS), probability_list=c.mklist([.2] * 5))
    e = c.obj(cf.ElementInfo, id="g", name="g", type=t, event_type=None, incoming_flows=c.mklist([]),
              outgoing_flows=c.mklist(FLOWS))
    gcc = c.mod("gateway_condition_choice").GatewayConditionChoice
    how = c.choice("conditions", ["none", "empty", "of another gateway"])
    conds = {"none": {}, "empty": {"g": c.obj(gcc, candidates_list=c.mklist([]), rules_list=c.mklist([]), default_path="f0")},
             "of another gateway": {"h": c.obj(gcc, candidates_list=c.mklist(["f1"]), rules_list=c.mklist([None]),
                                               default_path="f0")}}[how]
    r = c.call(m.OutgoingFlowSelector.choose_outgoing_flow, e, c.mkdict({"g": ch}), c.mkdict({}), c.mkdict(conds))
    if t is cf.BPMN.EXCLUSIVE_GATEWAY:
        c.check("the drawn one", c.and_(c.eq(c.len(r), 1), c.eq(c.at(r, 0)[0], one), c.eq(c.at(r, 0)[1], None)))
    else:
        c.check("the drawn ones", c.and_(c.eq(c.len(r), c.len(many)), c.forall(0, c.len(many), lambda i: c.eq(
            c.at(r, i)[0], c.at(many, i)[0]))))


def durations_inv(V):
    c = V.c
    for nm, d, _ in V.dicts():
        yield "%s: durations of those seen" % nm, c.forall(0, V.k, lambda i: c.has(d, c.at(c.out, i)))
        yield "%s: sampled" % nm, c.forall(0, V.k, lambda i: c.eq(c.get(d, c.at(c.out, i)), c.dur(c.at(c.out, i))))
        yield "%s: only those" % nm, c.forall_str(lambda f: c.implies(c.has(d, f), lambda: c.exists(
            0, V.k, lambda i: c.eq(c.at(c.out, i), f))))


@unit("P03.event_based", [G + "get_event_gateway_choice", G + "event_duration"], inv=durations_inv, secs=60)
def event_based(c):
    cf = c.mod("control_flow_manager")
    n = c.int("flows", lo=1, hi=4)
    out = c.out = c.list("outgoing", c.Str, lo=1, g=lambda r: FLOWS[:n])
    c.assume(c.eq(c.len(out), n))
    c.assume(c.forall(0, n, lambda i: c.forall(0, n, lambda j: c.or_(c.eq(i, j), c.not_(c.eq(c.at(out, i), c.at(out, j)))))))
    e = c.obj(cf.ElementInfo, id="g", name="g", type=cf.BPMN.EVENT_BASED_GATEWAY, event_type=None,
              incoming_flows=c.mklist(["in"]), outgoing_flows=out)
    table = {} if c.symbolic else {x: c.rng.choice([0, 1, 1, 2.5, 7]) for x in FLOWS}
    c.dur = (lambda x: c.uf("sampled duration", [x], c.Real)) if c.symbolic else table.get
    if c.symbolic:
        arcs = c.dict("flow_arcs", c.Str, c.Tuple(c.Str, c.Str))
        c.assume(c.forall_str(lambda x: c.has(arcs, x)))
        c.assume(c.forall_str(lambda x: c.eq(c.get(arcs, x)[1], x)))
        c.contract(cf.BPMNGraph, "event_duration", lambda self, ev: c.mklist([c.dur(ev)]))
        c.patch(secrets, "choice", lambda l: pick(l))
    else:
        arcs = {x: ("g", x) for x in FLOWS}

    def pick(l):
        k = c.fresh("picked", c.Int)
        c.assume(c.and_(k >= 0, k < c.len(l)))
        return c.at(l, k)

    class Dist:
        def __init__(self, x):
            self.x = x

        def generate_sample(self, k):
            return [table[self.x]] * k
    g = c.obj(cf.BPMNGraph, flow_arcs=arcs, event_distribution=c.mkdict({} if c.symbolic else {x: Dist(x) for x in FLOWS}))
    r = c.call(g.get_event_gateway_choice, e, c.dt("at"))
    c.check("an outgoing flow with its sampled duration", c.exists(0, n, lambda i: c.and_(
        c.eq(c.at(out, i), r[0]), c.eq(r[1], c.dur(c.at(out, i))))))
    c.check("the smallest one", c.forall(0, n, lambda i: r[1] <= c.dur(c.at(out, i))))


@unit("P03.simulated", [O + "choose_outgoing_flow", "prosimos.simulation_engine:run_simulation"],
      bounded="whole simulations of random block-structured models")
def simulated(c):
    """the flows that cases take through the splits of a model are the ones their conditions, default flow and weights allow"""
    r = sim.Run(c, n=4, conditions=True, kinds=("xor", "xor", "or", "loop", "and")).go()

    def firing(g, taken, row):
        flows, w = r.m.splits[g][1], r.weights[g]
        conditioned = [f for f in flows if f in r.conditions]
        true = [f for f in conditioned if r.holds(r.conditions[f], row)]
        exclusive = r.m.splits[g][0] != "or"
        if exclusive:
            c.check("an exclusive split takes one flow", len(taken) == 1)
        if true and exclusive:
            c.check("a flow whose condition holds is taken", taken[0] in true)
            if any(w[f] > 0 for f in true):
                c.check("one of positive weight, if one that holds has it", w[taken[0]] > 0)
        elif true:
            c.check("exactly the flows whose condition holds are taken", set(taken) == set(true))
        elif conditioned and g in r.m.default:
            c.check("the default flow is taken when no condition holds", taken == [r.m.default[g]])
        elif any(w[f] > 0 for f in flows):
            c.check("a flow of probability zero is not taken", all(w[f] > 0 for f in taken))

    for i in range(r.n):
        rows = r.case(i)
        sim.holds(c, "the flows taken are flows of the split, as many as its kind allows",
                  r.follow(i, min(x["enable_time"] for x in rows), firing))
