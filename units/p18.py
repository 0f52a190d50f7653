import random

from pyvc.driver import unit
from units import sim
from units.net import FLOWS, Net

S = "prosimos.simulation_execution_stats:SimulationExecutionStats."
ES, FS = ["e%d" % i for i in range(3)], ["f%d" % i for i in range(4)]


def table(c, name="data", ordered=False):
    """executions per element and case, and per outgoing flow"""
    case = c.Rec(executions=c.Int, arcs=c.Dict(c.Str, c.Rec(executions=c.Int), ordered))
    elem = c.Rec(BPMN_type=c.Str, name=c.Str, case_executions=c.Dict(c.Int, case, ordered))

    def g(r):
        return {e: {"BPMN_type": "t" + e, "name": "n" + e, "case_executions": {
            k: {"executions": r.randint(0, 3), "arcs": {f: {"executions": r.randint(0, 3)} for f in FS if r.random() < .6}}
            for k in range(3) if r.random() < .7}} for e in ES if r.random() < .9}
    return c.dict(name, c.Str, elem, ordered, g=g)


def runs(c, d, e, k):
    return c.ite(c.has(d, e), lambda: c.ite(c.has(c.get(d, e)["case_executions"], k), lambda: c.get(
        c.get(d, e)["case_executions"], k)["executions"], 0), 0)


def flows(c, d, e, k, f):
    def arcs():
        return c.get(c.get(d, e)["case_executions"], k)["arcs"]
    return c.ite(c.has(d, e), lambda: c.ite(c.has(c.get(d, e)["case_executions"], k), lambda: c.ite(
        c.has(arcs(), f), lambda: c.get(arcs(), f)["executions"], 0), 0), 0)


def every(c, fn):
    return c.forall_str(lambda e: c.forall_int(lambda k: fn(e, k), dom=range(4)), dom=ES)


def every_flow(c, fn):
    return c.forall_str(lambda e: c.forall_int(lambda k: c.forall_str(lambda f: fn(e, k, f), dom=FS), dom=range(4)), dom=ES)


def counting(V):
    c = V.c
    if not hasattr(c, "d0"):
        return
    yield "every flow handled so far counts once more", every_flow(c, lambda e, k, f: c.eq(
        flows(c, c.data, e, k, f), flows(c, c.d0, e, k, f) + c.ite(c.and_(c.eq(e, c.e), c.eq(k, c.case), c.exists(
            0, V.k, lambda j: c.eq(c.at(c.arcs, j)[0], f))), 1, 0)))
    yield "executions", every(c, lambda e, k: c.eq(runs(c, c.data, e, k), runs(c, c.d0, e, k) + c.ite(
        c.and_(c.eq(e, c.e), c.eq(k, c.case)), 1, 0)))
    yield "entry of the case", c.and_(c.has(c.data, c.e), lambda: c.has(c.get(c.data, c.e)["case_executions"], c.case))


@unit("P18.count", [S + "update_element_execution", S + "_update_arcs"], inv=counting, secs=120)
def count(c):
    st, cf = c.mod("simulation_execution_stats"), c.mod("control_flow_manager")
    d = table(c)
    c.d0 = c.old(d)
    e = c.str("element", pool=ES)
    k = c.int("case", 0, g=lambda r: r.randint(0, 3))
    c.assume(c.has(d, e))
    l = c.list("arcs", c.Tuple(c.Str, c.NoneK), g=lambda r: [(f, None) for f in r.sample(FS, r.randint(0, 3))])
    c.assume(c.forall(0, c.len(l), lambda i: c.forall(0, i, lambda j: c.not_(c.eq(c.at(l, i)[0], c.at(l, j)[0])))))
    c.data, c.e, c.case, c.arcs = d, e, k, l
    s = c.obj(st.SimulationExecutionStats, data=d, stats=None)
    ei = c.obj(cf.ElementInfo, id=e, name="n", type=None, event_type=None, incoming_flows=c.mklist([]), outgoing_flows=c.mklist([]))
    c.call(s.update_element_execution, k, ei, l)
    d = s.data
    c.check("one execution more for that element and case, no other", every(c, lambda x, y: c.eq(
        runs(c, d, x, y), runs(c, c.d0, x, y) + c.ite(c.and_(c.eq(x, e), c.eq(y, k)), 1, 0))))
    c.check("one execution more for each chosen flow, no other", every_flow(c, lambda x, y, f: c.eq(
        flows(c, d, x, y, f), flows(c, c.d0, x, y, f) + c.ite(c.and_(c.eq(x, e), c.eq(y, k), c.exists(
            0, c.len(l), lambda j: c.eq(c.at(l, j)[0], f))), 1, 0))))


@unit("P18.lookup", [S + "get_element_executions", "prosimos.control_flow_manager:BPMNGraph.is_gateway_execution_limit_exceeded"])
def lookup(c):
    st, cf = c.mod("simulation_execution_stats"), c.mod("control_flow_manager")
    d = table(c)
    e = c.str("element", pool=ES)
    k = c.int("case", 0, g=lambda r: r.randint(0, 3))
    lim = c.int("limit", 1, g=lambda r: r.randint(1, 4))
    s = c.obj(st.SimulationExecutionStats, data=d, stats=None)
    c.check("executions of that element and case, zero if none", c.eq(c.call(s.get_element_executions, k, e), runs(c, d, e, k)))
    g = c.obj(cf.BPMNGraph, simulation_execution_stats=s, gateway_execution_limit=lim)
    c.check("limit reached iff that many executions", c.iff(c.call(g.is_gateway_execution_limit_exceeded, k, e),
                                                          runs(c, d, e, k) >= lim))


def total(V):
    c = V.c
    for nm, x, e in V.nums():
        yield "total %s" % nm, c.eq(x, e + c.sum(V.k, lambda j: c.get(c.es, c.key_at(c.es, j))["executions"], c.Int, "runs"))


def some(c, d, f, val):
    return c.ite(c.has(d, f), lambda: val(c.get(d, f)), 0)


def per_flow(V):
    c = V.c
    for nm, x, e in V.dicts():
        if V.depth == 0:
            yield "whole cases %s" % nm, c.forall_str(lambda f: c.eq(some(c, x, f, lambda v: v), c.sum(
                V.k, lambda j: some(c, c.get(c.es, c.key_at(c.es, j))["arcs"], f, lambda v: v["executions"]), c.Int, "flows")))
        else:
            a = V.loop.source
            yield "this case %s" % nm, c.forall_str(lambda f: c.eq(some(c, x, f, lambda v: v), some(c, e, f, lambda v: v) + c.ite(
                c.and_(c.has(a, f), lambda: c.idx(a, f) < V.k), lambda: c.get(a, f)["executions"], 0)))


def element(c, st):
    d = table(c, ordered=True)
    e = c.str("element", pool=ES)
    c.assume(c.has(d, e))
    return c.get(d, e)


@unit("P18.totals", [S + "_analyze_element"], inv=total)
def totals(c):
    st = c.mod("simulation_execution_stats")
    el = element(c, st)
    c.es = es = el["case_executions"]
    s = c.obj(st.SimulationExecutionStats, data=c.mkdict({}), stats=None)
    c.contract(st.SimulationExecutionStats, "_collate_arcs_info", lambda self, d: "arcs") if c.symbolic else None
    r = c.call(s._analyze_element, "e", el)
    c.check("executions over all cases", c.eq(r["total_usages"], c.sum(
        c.len(es), lambda j: c.get(es, c.key_at(es, j))["executions"], c.Int, "runs")))


@unit("P18.flow_totals", [S + "_collate_arcs_info"], inv=per_flow, secs=120)
def flow_totals(c):
    st = c.mod("simulation_execution_stats")
    el = element(c, st)
    c.es = es = el["case_executions"]
    s = c.obj(st.SimulationExecutionStats, data=c.mkdict({}), stats=None)
    r = c.call(s._collate_arcs_info, el)
    c.check("executions of every flow over all cases", c.forall_str(lambda f: c.eq(some(c, r, f, lambda v: v), c.sum(
        c.len(es), lambda j: some(c, c.get(es, c.key_at(es, j))["arcs"], f, lambda v: v["executions"]), c.Int, "flows")), dom=FS))


@unit("P18.warnings", [S + "find_issues", S + "_count_total_cases"], scope="at most two elements with at most three flows; any counts")
def warnings(c):
    """reported are exactly the elements and flows used in less than one percent of the cases, or more often than once per case"""
    st = c.mod("simulation_execution_stats")
    g = lambda r: r.choice([0, 1, 2, 99, 100, 101, r.randint(0, 300)])
    cases = c.int("cases", 0, g=g)
    elements, uses = {}, []
    for i in range(c.choice("elements", [0, 1, 2])):
        arcs = {"flow %d %d" % (i, j): c.int("uses %d %d" % (i, j), 0, g=g) for j in range(c.choice("flows %d" % i, [[0, 1, 2], [0, 1]][i]))}
        n = c.int("uses %d" % i, 0, g=g)
        uses += [("element %d" % i, n)] + list(arcs.items())
        elements["element %d" % i] = c.mkdict({"id": "element %d" % i, "name": "name", "type": "task", "total_usages": n, "arcs": c.mkdict(arcs)})
    s = c.obj(st.SimulationExecutionStats, data=c.mkdict({}), stats=c.mkdict({"total_cases": cases, "elements": c.mkdict(elements)}))
    r = c.call(s.find_issues)
    odd = [c.or_(c.eq(cases, 0), 100 * n < cases, n > cases) for _, n in uses]
    c.check("as many warnings as there are rarely or too often used ones", c.eq(c.len(r), sum(c.ite(o, 1, 0) for o in odd) if odd else 0))
    if not c.symbolic:
        texts = list(r)
        for (name, n), o in zip(uses, odd):
            mine = [t for t in texts if t.startswith("Flow " + name + " ") or name.startswith("element") and "(ID: %s)" % name in t and not t.startswith("Flow")]
            c.check("a warning with the count", not o or len(mine) == 1 and "in %s out of %s cases" % (n, cases) in mine[0])


@unit("P18.elements", [S + "add_element", S + "_get_element_type"])
def elements(c):
    """an element that is registered has no executions, and the others keep theirs"""
    st, cf = c.mod("simulation_execution_stats"), c.mod("control_flow_manager")
    kind = c.choice("kind", [cf.BPMN.TASK, cf.BPMN.EXCLUSIVE_GATEWAY, cf.BPMN.START_EVENT])
    n = c.int("executions", 0)
    old = c.mkdict({"BPMN_type": "task", "name": "old", "case_executions": c.mkdict({0: c.mkdict({"executions": n, "arcs": c.mkdict({})})})})
    s = c.obj(st.SimulationExecutionStats, data=c.mkdict({"old": old} if c.choice("others", [False, True]) else {}), stats=None)
    others = len(s.data)
    c.call(s.add_element, c.obj(cf.ElementInfo, id="new", name="name", type=kind), "new")
    c.check("registered without executions", len(s.data) == others + 1 and len(s.data["new"]["case_executions"]) == 0)
    c.check("under its name", s.data["new"]["name"] == "name" and isinstance(s.data["new"]["BPMN_type"], str))
    if others:
        c.check("the others keep theirs", c.eq(s.data["old"]["case_executions"][0]["executions"], n))


@unit("P18.firing", "prosimos.control_flow_manager:BPMNGraph.update_process_state", secs=300)
def firing(c):
    """one firing: counted exactly once with the flows it chose, unless it is a split at its limit"""
    cf, st = c.mod("control_flow_manager"), c.mod("simulation_execution_stats")
    T = cf.BPMN
    n = c.net = Net(c)
    p = n.state(cf)
    t = c.choice("type", [T.TASK, T.EXCLUSIVE_GATEWAY, T.INCLUSIVE_GATEWAY, T.PARALLEL_GATEWAY])
    inc = c.mklist(["f0"])
    out = c.mklist(["f%d" % i for i in range(1, 1 + c.choice("outs", [0, 1, 2, 3]))])
    e = c.obj(cf.ElementInfo, id="e1", name="e1", type=t, event_type=None, incoming_flows=inc, outgoing_flows=out)
    ends = {"f%d" % i: cf.ElementInfo(T.END_EVENT, "x%d" % i, "x%d" % i, None) for i in range(1, 4)}
    for f, x in ends.items():
        x.incoming_flows = c.mklist([f])
    els = [("e1", e)] + [(x.id, x) for x in ends.values()]
    c.assume(c.and_(c.has(n.t0, "f0"), lambda: c.get(n.t0, "f0") >= 1))
    runs = c.int("runs", 0, g=lambda r: r.randint(0, 4))
    lim = c.int("limit", 1, g=lambda r: r.randint(1, 4))
    s = c.obj(st.SimulationExecutionStats, data=c.mkdict({}), stats=None)
    seen, put = [], []
    c.patch(st.SimulationExecutionStats, "get_element_executions", lambda self, k, x: c.ite(
        c.and_(c.eq(k, 3), c.eq(x, "e1")), runs, 0))
    c.patch(st.SimulationExecutionStats, "update_element_execution", lambda self, k, x, arcs: seen.append((k, x.id, [
        a[0] for a in arcs])))
    g = c.obj(cf.BPMNGraph, element_info=c.mkdict(els), starting_event="e0", arcs_bitset=n.arcs,
              flow_arcs=c.mkdict([(f, c.mklist(["e1", x.id])) for f, x in ends.items()]), or_join_pred=c.mkdict({}),
              all_attributes=None, batch_info=c.mkdict({}), last_datetime=c.mkdict([(k, c.mkdict({})) for k, _ in els]),
              gateway_execution_limit=lim, simulation_execution_stats=s, gateway_conditions=c.mkdict({}),
              element_probability=c.mkdict({}))
    pick = [(f, None) for f in c.choice("picked", [["f1"], ["f2", "f1"]])]
    c.patch(cf.OutgoingFlowSelector, "choose_outgoing_flow", lambda *a, **k: c.mklist(pick))
    c.patch(cf.BPMNGraph, "_find_next", lambda self, f_arc, *a: put.append(f_arc[0]))
    c.patch(cf.BPMNGraph, "is_enabled", lambda self, *a: True)
    c.patch(random, "shuffle", lambda l: None)
    c.call(g.update_process_state, 3, "e1", p, cf.CustomDatetimeAndSeconds(0, c.dt("at")))
    flows = [f for f, _ in pick] if len(out) > 1 else list(out)
    stop = len(out) > 1 and c.truth(runs >= lim)
    c.check("not fired iff a split at its limit", c.eq(sorted(put), sorted([] if stop else flows)))
    c.check("counted exactly once, with its flows", c.eq(seen, [] if stop else [(3, "e1", flows)]) if len(seen) < 1 or stop else c.and_(
        len(seen) == 1, c.eq(seen[0][:2], (3, "e1")), c.eq(sorted(seen[0][2]), sorted(flows))))


@unit("P18.loops", ["prosimos.control_flow_manager:BPMNGraph.update_process_state", S + "analyze_executions", S + "_count_total_cases"],
      bounded=True)
def loops(c):
    """bounded: random models with loops of splits only, several interleaved cases, small limits"""
    cf = c.mod("control_flow_manager")
    T, r = cf.BPMN, c.rng
    g = cf.BPMNGraph()
    names = ["e%d" % i for i in range(r.randint(3, 7))]
    for i, e in enumerate(names):
        g.add_bpmn_element(e, cf.ElementInfo(T.TASK if i == 0 or r.random() < .3 else T.EXCLUSIVE_GATEWAY, e, e, None))
    for i in range(r.randint(len(names), 3 * len(names))):
        a, b = r.choice(names), r.choice(names[1:])
        if g.element_info[a].type is T.TASK and g.element_info[a].outgoing_flows:
            continue
        g.add_flow_arc("a%d" % i, a, b)
    plain = [e for e in names if g.element_info[e].type is not T.TASK and len(g.element_info[e].outgoing_flows) == 1]
    for e in plain:                      # every loop goes through a split
        g.add_flow_arc("b" + e, e, names[0])
    g.encode_or_join_predecesors()
    lim = g.gateway_execution_limit = r.randint(1, 4)
    fired, stopped = {}, []
    state = {k: cf.ProcessState(g) for k in range(3)}

    def choose(e, *a, **k):
        return [(r.choice(e.outgoing_flows), None)]
    c.patch(cf.OutgoingFlowSelector, "choose_outgoing_flow", choose)
    moved = {}
    real = cf.BPMNGraph._find_next

    def count(self, f_arc, case, *a):
        moved[case, f_arc[0]] = moved.get((case, f_arc[0]), 0) + 1
        return real(self, f_arc, case, *a)
    c.patch(cf.BPMNGraph, "_find_next", count)
    at = cf.CustomDatetimeAndSeconds(0, c.dt("at"))
    for _ in range(r.randint(1, 6)):
        k, e = r.randrange(3), r.choice([x for x in names if g.element_info[x].type is T.TASK])
        for f in g.element_info[e].incoming_flows:
            state[k].add_token(f)
        state[k].add_token(g.element_info[e].incoming_flows[0]) if g.element_info[e].incoming_flows else None
        c.call(g.update_process_state, k, e, state[k], at)
    st = g.simulation_execution_stats
    for e in names:
        out = g.element_info[e].outgoing_flows
        for k in range(3):
            mv = [moved.get((k, f), 0) for f in out]
            got = st.get_element_executions(k, e)
            if out:
                c.check("executions equal firings", c.eq(got, sum(mv)))
            if len(out) > 1:
                c.check("a split never fires beyond its limit", got <= lim)
            rec = st.data[e]["case_executions"].get(k, {"arcs": {}})["arcs"]
            c.check("per flow", c.eq([rec.get(f, {"executions": 0})["executions"] for f in out], mv))
    st.analyze_executions()
    c.check("cases counted once", c.eq(st.stats["total_cases"], len({k for k, _ in moved} | {
        k for e in names for k in st.data[e]["case_executions"]})))
    for e in names:
        q = st.stats["elements"][e]
        c.check("totals are sums", c.eq(q["total_usages"], sum(st.get_element_executions(k, e) for k in range(3))))
        c.check("flow totals are sums", c.eq({f: n for f, n in q["arcs"].items() if n}, {
            f: n for f in g.element_info[e].outgoing_flows for n in [sum(moved.get((k, f), 0) for k in range(3))] if n}))


@unit("P18.simulated", [S + "get_element_count", "prosimos.simulation_engine:run_simulation"],
      bounded="whole simulations of random loops with a limit")
def simulated(c):
    """a loop that is never left by itself goes back exactly as often as the limit allows, in every case, and other splits go on"""
    class Looping(sim.Run):
        def extra(self, r):
            self.limit = r.randint(1, 6)
            for g, (k, flows) in self.m.splits.items():
                if k == "loop":
                    self.weights[g] = dict(zip(flows, [1, 0]))

        def more(self, j):
            j["gateway_execution_limit"] = self.limit

    r = Looping(c, kinds=("loop",), depth=1, spread=1).go()
    loops = [x for x in r.m.tree[1] if x[0] == "loop"]
    for i in range(r.n):
        ids = [x["id"] for x in r.case(i)]
        for x in r.m.tree[1][:r.m.tree[1].index(loops[0])] if loops else r.m.tree[1]:
            c.check("outside of the loop once", ids.count(x[1]) == 1)
        if loops:
            for t in loops[0][2][1]:
                if t[0] == "task":
                    c.check("the loop is repeated up to the limit", ids.count(t[1]) == r.limit + 1)
