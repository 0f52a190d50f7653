import random

from pyvc.driver import unit
from units import sim
from units.net import FLOWS, Net

S = "prosimos.control_flow_manager:ProcessState."
G = "prosimos.control_flow_manager:BPMNGraph."


@unit("P02.add_token", S + "add_token")
def add_token(c):
    cf = c.mod("control_flow_manager")
    n = Net(c)
    p = n.state(cf)
    f = c.str("flow", pool=FLOWS + ["zz"])
    c.call(p.add_token, f)
    c.check("exactly one token more on that flow", n.after(p.tokens, lambda g, t: c.ite(c.eq(g, f), t + 1, t)))
    c.check("mask agrees", n.consistent(p.tokens, p.state_mask))
    c.check("has_token sees it", c.implies(c.has(n.t0, f), c.call(p.has_token, f)))


@unit("P02.remove_token", [S + "remove_token", S + "has_token"])
def remove_token(c):
    cf = c.mod("control_flow_manager")
    n = Net(c)
    p = n.state(cf)
    f = c.str("flow", pool=FLOWS + ["zz"])
    h = c.call(p.has_token, f)
    c.check("has_token iff the flow is marked", c.iff(h, c.and_(c.has(n.t0, f), lambda: c.get(n.t0, f) >= 1)))
    c.call(p.remove_token, f)
    c.check("that flow is empty, others unchanged", n.after(p.tokens, lambda g, t: c.ite(c.eq(g, f), 0, t)))
    c.check("mask agrees", n.consistent(p.tokens, p.state_mask))


def ordered_net(c):
    order = c.dict("tokens", c.Str, c.Int, ordered=True)
    return order


@unit("P02.pending", S + "pending_tokens")
def pending(c):
    cf = c.mod("control_flow_manager")
    t = c.dict("tokens", c.Str, c.Int, ordered=True, g=lambda r: {f: r.choice([0, 1, 2]) for f in FLOWS})
    p = c.obj(cf.ProcessState, tokens=t, state_mask=0, arcs_bitset=c.mkdict({}), flow_date=c.mkdict({}))
    r = c.call(p.pending_tokens)
    dom = () if c.symbolic else list(t)
    c.check("every listed flow is marked", c.forall(0, c.len(r), lambda i: c.and_(
        c.has(t, c.at(r, i)), lambda: c.get(t, c.at(r, i)) >= 1)))
    c.check("listed once", c.forall(0, c.len(r), lambda i: c.forall(0, i, lambda j: c.not_(c.eq(c.at(r, i), c.at(r, j))))))
    c.check("every marked flow is listed", c.forall(0, c.len(t), lambda q: c.implies(
        c.get(t, c.key_at(t, q)) >= 1, lambda: c.exists(0, c.len(r), lambda i: c.eq(c.at(r, i), c.key_at(t, q))))))


@unit("P02.new_state", S + "__init__")
def new_state(c):
    cf = c.mod("control_flow_manager")
    fl = c.dict("flow_arcs", c.Str, c.Int, ordered=True, g=lambda r: {f: 0 for f in FLOWS[:r.randint(0, 5)]})
    g = c.obj(cf.BPMNGraph, arcs_bitset=c.mkdict({}), flow_arcs=fl)
    p = c.call(cf.ProcessState, g)
    dom = () if c.symbolic else FLOWS
    c.check("every flow starts empty", c.forall_str(lambda f: c.and_(c.iff(c.has(p.tokens, f), c.has(fl, f)), c.implies(
        c.has(fl, f), lambda: c.eq(c.get(p.tokens, f), 0))), dom=dom))
    c.check("empty mask", c.eq(p.state_mask, 0))


@unit("P02.deposit", G + "_find_next", secs=90)
def deposit(c):
    cf = c.mod("control_flow_manager")
    T = cf.BPMN
    n = Net(c)
    p = n.state(cf)
    f = c.str("flow", pool=FLOWS)
    c.assume(c.has(n.toks, f))
    t = c.choice("target", [T.TASK, T.INTERMEDIATE_EVENT, T.PARALLEL_GATEWAY, T.EXCLUSIVE_GATEWAY, T.END_EVENT,
                            T.INCLUSIVE_GATEWAY, T.EVENT_BASED_GATEWAY])
    inc = c.list("incoming", c.Str, g=lambda r: r.sample(FLOWS, r.randint(1, 3)))
    c.assume(n.known(inc))
    c.assume(n.among(f, inc))
    e = c.obj(cf.ElementInfo, id="e2", name="e2", type=t, event_type=None, incoming_flows=inc, outgoing_flows=c.mklist([]))
    when, prev = c.dt("reached"), c.dt("earlier")
    first = c.bool("first visit")
    at = cf.CustomDatetimeAndSeconds(c.real("secs"), when)
    old = cf.CustomDatetimeAndSeconds(c.real("secs0"), prev)
    last = c.mkdict({}) if first else c.mkdict({7: old})
    g = c.obj(cf.BPMNGraph, element_info=c.mkdict({"e2": e}), starting_event="e0", arcs_bitset=n.arcs,
              flow_arcs=c.mkdict({"f0": c.mklist(["e1", "e2"])}), or_join_pred=c.mkdict({"e2": c.mklist([0, c.bits("up")])}),
              last_datetime=c.mkdict({"e2": last}), batch_info=c.mkdict({}))
    if c.symbolic:
        c.assume(c.eq(f, "f0"))
    elif f != "f0":
        g.flow_arcs[f] = ["e1", "e2"]
    tasks, todo, seen = c.mklist([]), c.mklist(["e1"]), c.mkdict({})
    dur = c.value("duration", c.Opt(c.Real))
    if c.symbolic:
        on = c.bool("enabled")
        c.contract(cf.BPMNGraph, "is_enabled", lambda self, e_id, st: on)
    c.call(g._find_next, (f, dur), 7, p, tasks, todo, at, seen)
    c.check("one token more on the chosen flow only", n.after(p.tokens, lambda q, k: c.ite(c.eq(q, f), k + 1, k)))
    c.check("mask agrees", n.consistent(p.tokens, p.state_mask))
    if not c.symbolic:
        on = g.is_enabled("e2", p)
    ev = t is T.INTERMEDIATE_EVENT
    if t in (T.TASK, T.INTERMEDIATE_EVENT):
        c.check("handed out once iff enabled", c.and_(c.eq(c.len(tasks), c.ite(on, 1, 0)), c.eq(c.len(todo), 1)))
        if c.len(tasks) == 1:
            x = c.at(tasks, 0)
            c.check("as itself", c.and_(c.eq(x.task_id, "e2"), c.eq(x.is_event, ev), c.eq(x.duration_sec, dur),
                                        c.eq(x.batch_info_exec, None)))
    else:
        c.check("fires next iff enabled", c.and_(c.eq(c.len(tasks), 0), c.eq(c.len(todo), c.ite(on, 2, 1))))
        if c.len(todo) == 2:
            c.check("the target fires", c.eq(c.at(todo, 1), "e2"))
    got = seen["e2"].datetime
    c.check("enabling instant is the latest", c.eq(got, when) if first else c.and_(
        got >= when, got >= prev, c.or_(c.eq(got, when), c.eq(got, prev))))


def keep_mask(V):
    """the mask agrees with the counts at every loop head"""
    net = V.c.net
    for nt, t, _ in V.dicts():
        if "tokens" in nt:
            for nm, m, _ in V.bits():
                yield "mask of %s" % nm, net.consistent(t, m)


@unit("P02.fire", G + "update_process_state", inv=keep_mask, secs=400)
def fire(c):
    cf = c.mod("control_flow_manager")
    T = cf.BPMN
    n = c.net = Net(c)
    p = n.state(cf)
    t = c.choice("type", [T.TASK, T.EXCLUSIVE_GATEWAY])
    inc = c.list("incoming", c.Str, g=lambda r: r.sample(FLOWS, r.randint(0, 3)))
    out = c.list("outgoing", c.Str, g=lambda r: r.sample(FLOWS, r.randint(0, 3)))
    for l in (inc, out):
        c.assume(n.known(l))
        c.assume(n.distinct(l))
    e = c.obj(cf.ElementInfo, id="e1", name="e1", type=t, event_type=None, incoming_flows=inc, outgoing_flows=out)
    at = cf.CustomDatetimeAndSeconds(0, c.dt("at"))
    start = "e0"
    els = {"e1": e}
    flow_arcs = {}
    if not c.symbolic:
        for k, f in enumerate(FLOWS):
            els["t%d" % k] = cf.ElementInfo(T.TASK, "t%d" % k, "t%d" % k, None)
            els["t%d" % k].incoming_flows = [f]
            flow_arcs[f] = ["e1", "t%d" % k]
    stats = c.mod("simulation_execution_stats").SimulationExecutionStats()
    for k, v in els.items():
        stats.add_element(v, k)
    g = c.obj(cf.BPMNGraph, element_info=c.mkdict(els), starting_event=start, arcs_bitset=n.arcs,
              flow_arcs=c.mkdict(flow_arcs), or_join_pred=c.mkdict({}), all_attributes=None, batch_info=c.mkdict({}),
              last_datetime=c.mkdict({k: c.mkdict({}) for k in els}), gateway_execution_limit=1000,
              simulation_execution_stats=stats, gateway_conditions=c.mkdict({}), element_probability=c.mkdict({}))
    multi = c.len(out) > 1
    flow_of = lambda l, j: c.at(l, j)
    flows = out
    if multi:
        pairs = c.list("chosen", c.Tuple(c.Str, c.NoneK), lo=1,
                       g=lambda r: [(f, None) for f in out if r.random() < .6] or [(out[0], None)])
        c.assume(c.forall(0, c.len(pairs), lambda j: c.and_(n.among(c.at(pairs, j)[0], out), c.forall(
            0, j, lambda i: c.not_(c.eq(c.at(pairs, i)[0], c.at(pairs, j)[0]))))))
        c.patch(cf.OutgoingFlowSelector, "choose_outgoing_flow", lambda *a, **k: pairs)
        flows, flow_of = pairs, (lambda l, j: c.at(l, j)[0])
    if c.symbolic:
        def deposit_contract(self, f_arc, case_id, st, enabled, to_exec, when, visited):
            st.tokens[f_arc[0]] += 1
            st.state_mask |= self.arcs_bitset[f_arc[0]]
        c.contract(cf.BPMNGraph, "_find_next", deposit_contract)
        c.contract(type(stats), "update_element_execution", lambda self, *a: None)
        enabled = c.bool("enabled")
        c.contract(cf.BPMNGraph, "is_enabled", lambda self, e_id, st: enabled)
    else:
        enabled = c.exists(0, c.len(inc), lambda j: c.get(n.t0, c.at(inc, j)) >= 1) \
            if t is T.EXCLUSIVE_GATEWAY else c.forall(0, c.len(inc), lambda j: c.get(n.t0, c.at(inc, j)) >= 1)
    c.call(g.update_process_state, 3, "e1", p, at)
    def want(f, k):
        took = c.and_(k >= 1, n.among(f, inc))
        put = c.exists(0, c.len(flows), lambda j: c.eq(flow_of(flows, j), f))
        return c.ite(enabled, k - c.ite(took, 1, 0) + c.ite(put, 1, 0), k)
    c.check("one token from each marked incoming, one onto each chosen flow, nothing else", n.after(p.tokens, want))
    c.check("mask agrees", n.consistent(p.tokens, p.state_mask))


def empties(V):
    net = V.c.net
    for nt, t, _ in V.dicts():
        if "tokens" in nt:
            yield "done ones are empty", V.c.forall(0, V.k, lambda i: V.c.eq(V.c.get(t, V.c.key_at(t, i)), 0))
            yield "same flows", V.c.forall_str(lambda f: V.c.iff(V.c.has(t, f), V.c.has(net.t0, f)))
            for nm, m, _ in V.bits():
                yield "mask of %s" % nm, net.consistent(t, m)


@unit("P02.terminate", S + "remove_all_tokens_on_terminate", inv=empties, secs=90)
def terminate(c):
    cf = c.mod("control_flow_manager")
    n = c.net = Net(c, ordered=True)
    p = n.state(cf)
    c.call(p.remove_all_tokens_on_terminate)
    c.check("the whole marking is empty", n.after(p.tokens, lambda f, k: 0))
    c.check("mask is empty", c.eq(p.state_mask, 0))


@unit("P02.cascade", [G + "update_process_state", G + "_find_next"], bounded=True)
def cascade(c):
    """bounded: sequences of firings of random models of at most 8 elements, against an independent token game"""
    cf = c.mod("control_flow_manager")
    T = cf.BPMN
    r = c.rng
    names = ["e%d" % i for i in range(r.randint(3, 8))]
    g = cf.BPMNGraph()
    kinds = [T.TASK, T.EXCLUSIVE_GATEWAY, T.PARALLEL_GATEWAY, T.INCLUSIVE_GATEWAY, T.INTERMEDIATE_EVENT, T.END_EVENT]
    kind = {e: r.choice(kinds) for e in names}
    kind[names[0]] = T.TASK
    for e in names:
        ev = cf.EVENT_TYPE.TERMINATE if kind[e] is T.END_EVENT and r.random() < .5 else None
        g.add_bpmn_element(e, cf.ElementInfo(kind[e], e, e, ev))
    arcs = []
    for i in range(r.randint(len(names), 2 * len(names))):
        a, b = r.randrange(len(names)), r.randrange(1, len(names))
        if a >= b or kind[names[a]] is T.END_EVENT:      # acyclic, so that one call always ends
            continue
        arcs.append(("a%d" % i, names[a], names[b]))
        g.add_flow_arc(*arcs[-1])
    if not arcs:
        return
    g.encode_or_join_predecesors()
    p = cf.ProcessState(g)
    shadow = {f: 0 for f in p.tokens}
    for f in shadow:
        for _ in range(r.choice([0, 0, 1, 2])):
            p.add_token(f)
            shadow[f] += 1
    fired, picks = [], []

    def choose(e_info, *a, **k):
        outs = [(f, None) for f in e_info.outgoing_flows]
        if e_info.type is T.EXCLUSIVE_GATEWAY:
            outs = [r.choice(outs)]
        elif e_info.type is T.INCLUSIVE_GATEWAY:
            outs = r.sample(outs, r.randint(1, len(outs)))
        return outs
    c.patch(cf.OutgoingFlowSelector, "choose_outgoing_flow", lambda e, *a, **k: picks.append(choose(e)) or picks[-1])
    c.patch(random, "shuffle", lambda l: None)
    at = cf.CustomDatetimeAndSeconds(0, c.dt("at"))
    for step in range(r.randint(1, 5)):
        picks.clear()
        ready = [e for e in names if g.element_info[e].incoming_flows and g.is_enabled(e, p)]
        if not ready:
            break
        todo = [r.choice(ready)]
        tasks = c.call(g.update_process_state, 3, todo[0], p, at)
        # independent token game, replaying the recorded choices
        outs, got, q = list(picks), [], 0
        while q < len(todo):
            e = g.element_info[todo[q]]
            q += 1
            if e.type is T.END_EVENT and e.event_type is cf.EVENT_TYPE.TERMINATE:
                shadow = {f: 0 for f in shadow}
            else:
                for f in e.incoming_flows:
                    shadow[f] -= shadow[f] > 0
            flows = [f for f, _ in outs.pop(0)] if len(e.outgoing_flows) > 1 else list(e.outgoing_flows)
            for f in flows:
                shadow[f] += 1
                nxt = g.element_info[g.flow_arcs[f][1]]
                s = cf.ProcessState(g)
                for k, v in shadow.items():
                    for _ in range(v):
                        s.add_token(k)
                if g.is_enabled(nxt.id, s):
                    (got if nxt.type in (T.TASK, T.INTERMEDIATE_EVENT) else todo).append(nxt.id)
        tasks = tasks[0] if isinstance(tasks, tuple) else tasks
        c.check("token game", c.eq(p.tokens, shadow))
        c.check("mask agrees", c.eq(p.state_mask, sum(g.arcs_bitset[f] for f in shadow if shadow[f] > 0)))
        c.check("handed out", c.eq(sorted(t.task_id for t in tasks), sorted(got)))


S = "prosimos.simulation_engine:SimBPMEnv."


@unit("P02.schedule", S + "execute_enabled_event", scope="up to three completed items of a batch; up to two elements enabled by each completion")
def schedule(c):
    """after an element was executed, every element its completion enables is queued once: same case and marking, at the instant it is reached"""
    se, cf, ei, ss = [c.mod(x) for x in ("simulation_engine", "control_flow_manager", "execution_info", "simulation_setup")]
    K = cf.CustomDatetimeAndSeconds
    kind = c.choice("kind", ["task", "batch", "event"])
    cases = [5, 3, 8][:c.choice("items", [1, 2, 3])] if kind == "batch" else [5]
    done = {k: (c.real("done %d" % k), c.dt("done at %d" % k)) for k in cases}
    states = {k: "state %d" % k for k in [3, 5, 8]}
    nxt = {k: [c.obj(cf.EnabledTask, task_id="n%d" % i, batch_info_exec=c.choice("batch of %d %d" % (k, i), [None, "batch"]), duration_sec=c.real(
        "duration %d %d" % (k, i)), is_event=c.bool("event %d %d" % (k, i))) for i in range(c.choice("enabled by %d" % k, [0, 1, 2]))] for k in cases}
    reach = {(k, e.task_id): K(c.real("reached %d %s" % (k, e.task_id)), c.dt("reached at %d %s" % (k, e.task_id))) for k in cases for e in nxt[k]}
    log, out = [], []
    c.patch(se.SimBPMEnv, "execute_task_batch", lambda self, e: log.append(("batch", e)) or [(done[k][0], done[k][1], k) for k in cases])
    c.patch(se.SimBPMEnv, "execute_task", lambda self, e: log.append(("task", e)) or done[5])
    c.patch(se.SimBPMEnv, "execute_event", lambda self, e: log.append(("event", e)) or done[5])

    def fire(self, case, task, state, at):
        log.append(("fired", case, task, state))
        c.check("fired at its completion", c.and_(c.eq(at.seconds_from_start, done[case][0]), c.eq(at.datetime, done[case][1])))
        return nxt[case], {e.task_id: reach[case, e.task_id] for e in nxt[case]}
    c.patch(ss.SimDiffSetup, "update_process_state", fire)
    c.patch(se.SimBPMEnv, "calc_priority_and_append_to_queue", lambda self, e, arr: out.append((e, arr)))
    info = c.obj(cf.ElementInfo, type=cf.BPMN.INTERMEDIATE_EVENT if kind == "event" else cf.BPMN.TASK)
    setup = c.obj(ss.SimDiffSetup, bpmn_graph=c.obj(cf.BPMNGraph, element_info={"t": info}))
    ev = c.obj(ei.EnabledEvent, p_case=5, p_state=states[5], task_id="t", enabled_at=c.real("sec"), enabled_datetime=c.dt("at"),
               batch_info_exec="info" if kind == "batch" else None, duration_sec=None, is_inter_event=kind == "event")
    env = c.obj(se.SimBPMEnv, sim_setup=setup, all_process_states=states, executed_events=c.int("executed", 0), time_update_process_state=0)
    c.call(env.execute_enabled_event, ev)
    c.check("executed once, then each item fired once in its own marking", log == [(kind, ev)] + [("fired", k, "t", states[k]) for k in cases])
    want = [(k, e) for k in cases for e in nxt[k]]
    c.check("each enabled element is queued once", len(out) == len(want) and all(e.task_id == t.task_id for (e, _), (k, t) in zip(out, want)))
    for (e, arr), (k, t) in zip(out, want):
        at = reach[k, t.task_id]
        c.check("for its case, in its marking, not as an arrival", e.p_case == k and e.p_state == states[k] and arr is False)
        c.check("at the instant it is reached", c.and_(c.eq(e.enabled_at, at.seconds_from_start), c.eq(e.enabled_datetime, at.datetime)))
        c.check("as what it is", c.and_(e.batch_info_exec is t.batch_info_exec, c.eq(e.duration_sec, t.duration_sec), c.iff(e.is_inter_event, t.is_event)))


@unit("P02.simulated", [G + "update_process_state", "prosimos.simulation_engine:run_simulation"],
      bounded="whole simulations of random block-structured models")
def simulated(c):
    """in every case every token that an execution produces is used by exactly one later execution: nothing is executed twice,
    nothing is left out, and no case influences another"""
    r = sim.Run(c, kinds=("and", "xor", "loop", "seq"), depth=3, spread=1).go()
    for i in range(r.n):
        rows = r.case(i)
        c.check("every case is executed", rows)
        sim.holds(c, "each execution follows from exactly one execution before it",
                  r.follow(i, min(x["enable_time"] for x in rows)))
    c.check("no row belongs to another case", all(x["case_id"] in [str(i) for i in range(r.n)] for x in r.rows))
