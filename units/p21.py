from pyvc.driver import unit

FL = ["f%d" % i for i in range(5)]


def acc(V):
    """every counter of the loop over the flows is the sum of the frequencies seen so far"""
    c = V.c
    for nm, x, e in V.nums():
        yield "total %s" % nm, c.eq(x, e + c.sum(V.k, lambda j: c.n(c.at(c.o, j)), c.Int, "tot0"))


@unit("P21.distribution", "prosimos.control_flow_manager:BPMNGraph.compute_branching_probability", inv=acc, secs=120)
def distribution(c):
    cf = c.mod("control_flow_manager")
    T = cf.BPMN
    freq = c.dict("frequency", c.Str, c.Int, g=lambda r: {f: r.choice([0, 0, 1, 2, 7]) for f in FL + ["q"] if r.random() < .8})
    c.assume(c.forall_str(lambda f: c.implies(c.has(freq, f), lambda: c.get(freq, f) >= 0), dom=FL + ["q"]))
    f0 = c.old(freq)
    ta = c.choice("type", [T.EXCLUSIVE_GATEWAY, T.INCLUSIVE_GATEWAY, T.PARALLEL_GATEWAY, T.TASK])
    o = c.list("out", c.Str, g=lambda r: r.sample(FL[:3], r.randint(0, 3)))
    c.assume(c.forall(0, c.len(o), lambda j: c.forall(0, j, lambda i: c.not_(c.eq(c.at(o, i), c.at(o, j))))))
    c.assume(c.forall(0, c.len(o), lambda j: c.and_(c.not_(c.eq(c.at(o, j), "f3")), c.not_(c.eq(c.at(o, j), "f4")))))
    c.o, c.n = o, lambda f: c.ite(c.has(f0, f), lambda: c.get(f0, f), 0)
    n = c.n
    outs = [o, c.mklist(["f3", "f4"])]
    es = [c.obj(cf.ElementInfo, id="e%d" % i, name="e%d" % i, type=t, event_type=None, incoming_flows=c.mklist([]),
                outgoing_flows=o) for i, (t, o) in enumerate(zip((ta, T.EXCLUSIVE_GATEWAY), outs))]
    g = c.obj(cf.BPMNGraph, element_info=c.mkdict([("e0", es[0]), ("e1", es[1])]))
    r = c.call(g.compute_branching_probability, freq)
    for i, e in enumerate(es):
        o = outs[i]
        split = c.and_(e.type in (T.EXCLUSIVE_GATEWAY, T.INCLUSIVE_GATEWAY), c.len(o) > 1)
        c.check("entry iff a decision split %d" % i, c.iff(c.has(r, e.id), split))
        if c.truth(split):
            p = r[e.id]
            total = n("f3") + n("f4") if i else c.sum(c.len(o), lambda j: n(c.at(o, j)), c.Int, "tot0")
            c.check("its flows only %d" % i, c.forall_str(lambda f: c.iff(c.has(p, f), c.exists(
                0, c.len(o), lambda j: c.eq(c.at(o, j), f))), dom=FL + ["q"]))
            share = lambda f: c.ite(total > 0, lambda: c.eq(c.get(p, f), c.div(n(f), total)), lambda: c.eq(c.get(p, f), 0))
            if i:
                for f in ("f3", "f4"):
                    c.check("observed share of " + f, share(f))
            else:
                c.check("observed share 0", c.forall(0, c.len(o), lambda j: share(c.at(o, j))))
            if not c.symbolic:
                c.check("within [0,1], sums to one %d" % i, all(0 <= v <= 1 for v in p.values()) and (
                    total == 0 or abs(sum(p.values()) - 1) < 1e-9))
    c.check("frequencies observed are kept, missing ones count as zero", c.forall_str(lambda f: c.and_(
        c.implies(c.has(f0, f), lambda: c.and_(c.has(freq, f), lambda: c.eq(c.get(freq, f), c.get(f0, f)))),
        c.implies(c.and_(c.has(freq, f), c.not_(c.has(f0, f))), lambda: c.eq(c.get(freq, f), 0))), dom=FL + ["q"]))
