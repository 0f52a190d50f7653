from pyvc.driver import unit
from units import sim

G = "prosimos.control_flow_manager:BPMNGraph."
FLOWS = ["f0", "f1", "f2", "f3"]


def element(c, cf, types):
    t = c.choice("type", types)
    inc = c.list("incoming", c.Str, g=lambda r: r.sample(FLOWS, r.randint(0, 3)))
    out = c.list("outgoing", c.Str, g=lambda r: r.sample(FLOWS, r.randint(0, 3)))
    return t, inc, out


def marking(c, cf, inc):
    toks = c.dict("tokens", c.Str, c.Int, g=lambda r: {f: r.choice([0, 0, 1, 1, 2]) for f in FLOWS})
    c.assume(c.forall(0, c.len(inc), lambda j: c.has(toks, c.at(inc, j))))
    c.assume(c.forall_str(lambda f: c.implies(c.has(toks, f), lambda: c.get(toks, f) >= 0), dom=list(toks) if not
             c.symbolic else ()))
    return toks


def marked(c, toks, f):
    return c.and_(c.has(toks, f), lambda: c.get(toks, f) >= 1)


def all_marked(c, toks, inc):
    return c.forall(0, c.len(inc), lambda j: marked(c, toks, c.at(inc, j)))


def any_marked(c, toks, inc):
    return c.exists(0, c.len(inc), lambda j: marked(c, toks, c.at(inc, j)))


@unit("P01.join_rule", G + "is_enabled")
def join_rule(c):
    cf = c.mod("control_flow_manager")
    T = cf.BPMN
    types = [T.TASK, T.END_EVENT, T.INTERMEDIATE_EVENT, T.PARALLEL_GATEWAY, T.EXCLUSIVE_GATEWAY,
             T.EVENT_BASED_GATEWAY, T.START_EVENT]
    t, inc, out = element(c, cf, types)
    toks = marking(c, cf, inc)
    eid, start = "e1", "e0"
    e = c.obj(cf.ElementInfo, id=eid, name=eid, type=t, event_type=None, incoming_flows=inc, outgoing_flows=out)
    if t is T.START_EVENT:
        start = eid
    g = c.obj(cf.BPMNGraph, element_info=c.mkdict({eid: e}), starting_event=start, or_join_pred=c.mkdict({}))
    p = c.obj(cf.ProcessState, tokens=toks, state_mask=c.bits("mask"), arcs_bitset=c.mkdict({}), flow_date=c.mkdict({}))
    before = c.old(toks)
    r = c.call(g.is_enabled, eid, p)
    if t is T.START_EVENT:
        want = True
    elif t in (T.EXCLUSIVE_GATEWAY, T.EVENT_BASED_GATEWAY):
        want = any_marked(c, toks, inc)
    else:
        want = all_marked(c, toks, inc)
    c.check("enabled iff the join rule holds", c.iff(r, want))
    c.check("asking changes nothing", c.eq(toks, before))
    c.check("an unknown element is never enabled", c.not_(c.call(g.is_enabled, "nowhere", p)))


def dom(c, d):
    return () if c.symbolic else list(d)


@unit("P01.inclusive_join", G + "is_enabled", secs=90)
def inclusive(c):
    cf = c.mod("control_flow_manager")
    t, inc, out = element(c, cf, [cf.BPMN.INCLUSIVE_GATEWAY])
    c.assume(c.len(inc) >= 1)
    toks = marking(c, cf, inc)
    # the arc bits are distinct and the mask is the set of marked arcs (P02 keeps it so)
    pos = c.dict("pos", c.Str, c.Int, g=lambda r: {f: i + 1 for i, f in enumerate(FLOWS)})
    arcs = c.dict("arcs", c.Str, c.Bits, g=lambda r: {f: 2 << i for i, f in enumerate(FLOWS)})
    mask = c.bits("mask") if c.symbolic else sum(arcs[f] for f in toks if toks[f] > 0)
    up = c.bits("upstream")            # the flows upstream of the join, as computed by encode_or_join_predecesors
    c.assume(c.forall_str(lambda f: c.implies(c.has(toks, f), lambda: c.and_(
        c.has(pos, f), c.has(arcs, f), c.iff(c.bit(mask, c.get(pos, f)), c.get(toks, f) >= 1))), dom=dom(c, toks)))
    c.assume(c.forall_str(lambda f: c.implies(c.has(arcs, f), lambda: c.forall_int(
        lambda i: c.iff(c.bit(c.get(arcs, f), i), c.eq(i, c.get(pos, f))), dom=range(70))), dom=dom(c, arcs)))
    owner = c.dict("owner", c.Int, c.Str, g=lambda r: {i + 1: f for i, f in enumerate(FLOWS)})
    c.assume(c.forall_int(lambda i: c.implies(c.bit(mask, i), lambda: c.and_(
        c.has(owner, i), lambda: c.and_(c.has(toks, c.get(owner, i)), lambda: c.eq(c.get(pos, c.get(owner, i)), i)))),
        dom=range(70)))
    e = c.obj(cf.ElementInfo, id="e1", name="e1", type=t, event_type=None, incoming_flows=inc, outgoing_flows=out)
    g = c.obj(cf.BPMNGraph, element_info=c.mkdict({"e1": e}), starting_event="e0", arcs_bitset=arcs,
              or_join_pred=c.mkdict({"e1": c.mklist([c.bits("nodes"), up])}))
    p = c.obj(cf.ProcessState, tokens=toks, state_mask=mask, arcs_bitset=arcs, flow_date=c.mkdict({}))
    r = c.call(g.is_enabled, "e1", p)
    upstream_token = c.not_(c.forall_int(lambda i: c.not_(c.and_(c.bit(up, i), c.bit(mask, i))), dom=range(70)))
    if c.truth(c.len(inc) > 1):
        want = c.or_(all_marked(c, toks, inc), c.and_(any_marked(c, toks, inc), c.not_(upstream_token)))
        c.check("enabled iff the inclusive join rule holds", c.iff(r, want))
    else:
        c.check("a marked split is enabled", c.implies(any_marked(c, toks, inc), r))
        c.check("an unmarked split with unmarked outgoing flows is not", c.implies(c.not_(c.or_(
            any_marked(c, toks, inc), any_marked(c, toks, out))), c.not_(r)))


@unit("P01.arc_bits", [G + "add_flow_arc", G + "add_bpmn_element"])
def arc_bits(c):
    """every flow added gets a bit of its own, is known at its source and target, and nothing else changes"""
    cf = c.mod("control_flow_manager")
    T = cf.BPMN
    arcs = c.dict("flow_arcs", c.Str, c.List(c.Str), ordered=True, g=lambda r: {f: ["q", "q"] for f in FLOWS[:r.randint(0, 3)]})
    bits = c.dict("bits", c.Str, c.Bits, g=lambda r: {f: 2 << i for i, f in enumerate(FLOWS)})
    b0 = c.old(bits)
    n0 = c.len(arcs)
    out, inc = c.list("outgoing", c.Str, g=lambda r: ["x"][:r.randint(0, 1)]), c.list("incoming", c.Str, g=lambda r: [])
    es = {i: c.obj(cf.ElementInfo, id=i, name=i, type=t, event_type=None, incoming_flows=a, outgoing_flows=b)
          for i, t, a, b in (("e0", T.TASK, c.mklist([]), out), ("e1", T.INCLUSIVE_GATEWAY, inc, c.mklist([])))}
    o0, i0 = c.old(out), c.old(inc)
    g = c.obj(cf.BPMNGraph, element_info=c.mkdict(es), flow_arcs=arcs, arcs_bitset=bits)
    f = "new"
    c.assume(c.not_(c.has(arcs, f)))
    c.call(g.add_flow_arc, f, "e0", "e1")
    k = n0 + 1
    c.check("a bit of its own: the next one", c.forall_int(lambda i: c.iff(c.bit(c.get(bits, f), i), c.eq(i, k)), dom=range(70)))
    c.check("other bits as they were", c.forall_str(lambda q: c.implies(c.not_(c.eq(q, f)), lambda: c.and_(
        c.iff(c.has(bits, q), c.has(b0, q)), lambda: c.implies(c.has(b0, q), lambda: c.eq(c.get(bits, q), c.get(b0, q))))),
        dom=FLOWS))
    c.check("leaves the source", c.and_(c.eq(c.len(out), c.len(o0) + 1), lambda: c.eq(c.at(out, c.len(o0)), f)))
    c.check("enters the target", c.and_(c.eq(c.len(inc), c.len(i0) + 1), lambda: c.eq(c.at(inc, c.len(i0)), f)))
    c.check("from source to target", c.and_(c.eq(c.at(c.get(arcs, f), 0), "e0"), c.eq(c.at(c.get(arcs, f), 1), "e1")))


@unit("P01.upstream", [G + "encode_or_join_predecesors", G + "add_flow_arc", G + "is_enabled"], bounded=True)
def upstream(c):
    """bounded: random models of at most 9 elements (cycles included), every join, random markings, against reachability"""
    cf = c.mod("control_flow_manager")
    T = cf.BPMN
    r = c.rng
    names = ["e%d" % i for i in range(r.randint(2, 9))]
    kinds = [T.TASK, T.EXCLUSIVE_GATEWAY, T.PARALLEL_GATEWAY, T.INCLUSIVE_GATEWAY, T.INCLUSIVE_GATEWAY,
             T.INTERMEDIATE_EVENT, T.EVENT_BASED_GATEWAY]
    g = cf.BPMNGraph()
    kind = {e: r.choice(kinds) for e in names}
    kind[names[0]] = T.START_EVENT
    for e in names:
        g.add_bpmn_element(e, cf.ElementInfo(kind[e], e, e, None))
    arcs = []
    for i in range(r.randint(len(names), 2 * len(names))):
        a, b = r.randrange(len(names)), r.randrange(1, len(names))
        if r.random() < .7 and a > b:
            a, b = b, a
        if b == 0:
            continue
        arcs.append(("a%d" % i, names[a], names[b]))
        g.add_flow_arc(*arcs[-1])
    c.call(g.encode_or_join_predecesors)
    for _ in range(4):
        p = cf.ProcessState(g)
        marked_ = {f for f, _, _ in arcs if r.random() < .2}
        for f in marked_:
            p.add_token(f)
        for e in names:
            inc = [f for f, _, t in arcs if t == e]
            here = [f for f in inc if f in marked_]
            if kind[e] is T.INCLUSIVE_GATEWAY and not inc:
                continue
            on = c.call(g.is_enabled, e, p)
            if kind[e] is T.START_EVENT:
                want = True
            elif kind[e] in (T.EXCLUSIVE_GATEWAY, T.EVENT_BASED_GATEWAY):
                want = bool(here)
            elif kind[e] is T.INCLUSIVE_GATEWAY:
                if len(inc) < 2:
                    continue
                reach = {e}
                while True:
                    more = {s for _, s, t in arcs if t in reach} - reach
                    if not more:
                        break
                    reach |= more
                # a token that already waits in front of the join counts as arrived, not as upstream of it
                up = [f for f, _, t in arcs if t in reach and t != e and f in marked_]
                want = len(here) == len(inc) or bool(here) and not up
            else:
                want = len(here) == len(inc)
            c.check("enabled iff its join rule holds", c.eq(bool(on), want))


@unit("P01.simulated", [G + "is_enabled", "prosimos.simulation_engine:run_simulation"],
      bounded="whole simulations of random block-structured models")
def simulated(c):
    """in every case each element begins exactly when the structure of the model says that it is enabled: after the element before
    it, and after a join when the last of the branches taken is complete"""
    r = sim.Run(c).go()
    for i in range(r.n):
        rows = r.case(i)
        c.check("every case is executed", rows)
        sim.holds(c, "elements are executed when, and only when, they are enabled",
                  r.follow(i, min(x["enable_time"] for x in rows)))
