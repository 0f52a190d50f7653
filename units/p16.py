from pyvc.driver import unit
from units import sim

E = "prosimos.simulation_engine:SimBPMEnv."
G = "prosimos.control_flow_manager:BPMNGraph."
A = "prosimos.all_attributes:AllAttributes."
NAMES = ["a", "b", "c", "d"]


def values(c, name):
    return c.dict(name, c.Str, c.Real, ordered=True, g=lambda r: {n: r.choice([0, 1, 2.5]) for n in NAMES if r.random() < .6})


def view(c, glob, mine, n):
    """what a case sees of an attribute"""
    return c.ite(c.has(mine, n), lambda: c.get(mine, n), lambda: c.get(glob, n))


@unit("P16.view", G + "get_all_attributes")
def view_(c):
    cf = c.mod("control_flow_manager")
    glob, m0, m1 = values(c, "global"), values(c, "case 0"), values(c, "case 1")
    g0, o0 = c.old(glob), c.old(m0)
    case = c.choice("case", [0, 1, 7])
    g = c.obj(cf.BPMNGraph, all_attributes=c.mkdict([("global", glob), (0, m0), (1, m1)]))
    r = c.call(g.get_all_attributes, case)
    mine = {0: m0, 1: m1}.get(case)
    if mine is None:
        mine = c.mkdict({})
    c.check("the global attributes and its own, no other", c.forall_str(lambda n: c.iff(c.has(r, n), c.or_(c.has(glob, n), c.has(mine, n))), dom=NAMES))
    c.check("its own values override the global ones", c.forall_str(lambda n: c.implies(c.has(r, n), lambda: c.eq(c.get(r, n), view(c, glob, mine, n))), dom=NAMES))
    c.check("nothing is changed", c.forall_str(lambda n: c.and_(same(c, glob, g0, n), same(c, m0, o0, n)), dom=NAMES))


def same(c, d, d0, n):
    return c.and_(c.iff(c.has(d, n), c.has(d0, n)), lambda: c.implies(c.has(d0, n), lambda: c.eq(c.get(d, n), c.get(d0, n))))


@unit("P16.no_attributes", G + "get_all_attributes")
def none(c):
    cf = c.mod("control_flow_manager")
    c.check("nothing without attributes", c.eq(c.len(c.call(c.obj(cf.BPMNGraph, all_attributes=None).get_all_attributes, 0)), 0))


@unit("P16.update", [E + "update_attributes", E + "_extract_attributes_for_event"],
      scope="at most 2 global and 2 local attributes configured for the activity, arbitrary generators over all values (any number of attributes and cases' values)")
def update(c):
    se, ss = c.mod("simulation_engine"), c.mod("simulation_setup")
    glob, m0, m1 = values(c, "global"), values(c, "case 0"), values(c, "case 1")
    g0, o0, o1 = c.old(glob), c.old(m0), c.old(m1)
    case = c.choice("case", [0, 1])
    mine0 = (o0, o1)[case]
    probe = c.str("probe", pool=NAMES)

    class Gen:
        def __init__(self, i):
            self.i = i

        def get_next_value(self, seen):
            return c.uf("gen", [self.i, c.ite(c.has(seen, probe), lambda: c.get(seen, probe), -1)], c.Real)
    was = c.ite(c.or_(c.has(mine0, probe), c.has(g0, probe)), lambda: view(c, g0, mine0, probe), -1)
    new = lambda i: c.uf("gen", [i, was], c.Real)
    ng, nl = c.choice("global attributes", [0, 1, 2]), c.choice("local attributes", [0, 1, 2])
    gn, ln = ["a", "b"][:ng], ["c", "d"][:nl]
    other = c.mkdict({"a": Gen(90), "d": Gen(91)})
    conf = lambda names, base: c.mkdict(([("t", c.mkdict([(n, Gen(base + i)) for i, n in enumerate(names)]))] if names else []) + [("u", other)])

    class X:
        pass
    attrs, graph, ge, ev = X(), X(), X(), X()
    ge.attributes, ev.attributes = conf(gn, 0), conf(ln, 10)
    attrs.event_attributes, attrs.global_event_attributes = ev, ge
    graph.all_attributes = c.mkdict([("global", glob), (0, m0), (1, m1)])
    s = c.obj(ss.SimDiffSetup, all_attributes=attrs, bpmn_graph=graph)
    e = c.obj(se.SimBPMEnv, sim_setup=s)
    evt = X()
    evt.task_id, evt.p_case = c.choice("activity", ["t", "v"]), case
    c.call(e.update_attributes, evt)
    if evt.task_id == "v":
        gn, ln = [], []
    # the stores may have been replaced by new dictionaries: look at what is there now
    at = {k: v for k, v in list(graph.all_attributes.items())}
    mine, yours, yours0 = at[case], at[1 - case], (o1, o0)[case]
    for i, n in enumerate(gn):
        c.check("global attribute computed from the values before", c.and_(c.has(at["global"], n), lambda: c.eq(c.get(at["global"], n), new(i))))
    for i, n in enumerate(ln):
        c.check("attribute of the case computed from the values before", c.and_(c.has(mine, n), lambda: c.eq(c.get(mine, n), new(10 + i))))
    rest = lambda d, d0, names: c.forall_str(lambda n: c.or_(*[c.eq(n, x) for x in names], same(c, d, d0, n)), dom=NAMES)
    c.check("other global attributes stay", rest(at["global"], g0, gn))
    c.check("other attributes of the case stay", rest(mine, mine0, ln))
    c.check("other cases stay", rest(yours, yours0, []))
    c.check("no case appears or vanishes", len(at) == 3)


@unit("P16.partition", [A + "__init__", A + "_extract_case_attributes", A + "_extract_event_attributes", A + "_extract_global_attributes", A + "get_all_columns_generated"],
      scope="3 attribute names, each declared in any combination of the three sections, two activities")
def partition(c):
    aa = c.mod("all_attributes")
    ga, ca, ea = c.mod("global_attributes"), c.mod("case_attributes"), c.mod("event_attributes")
    names = NAMES[:3]

    class At:
        def __init__(self, name, kind):
            self.name, self.kind = name, kind

        def get_next_value(self, *a):
            return (self.name, self.kind)
    where = {n: c.choice("sections of " + n, [(g, k, e) for g in (0, 1) for k in (0, 1) for e in (0, 1)]) for n in names}
    ing, inc, ine = ({n for n in names if where[n][i]} for i in range(3))
    third = c.choice("activities of c", [["t"], ["u"], ["t", "u"]])
    G = {n: At(n, "g") for n in sorted(ing)}
    C = [At(n, "c") for n in sorted(inc)]
    Ev = {}
    for n in sorted(ine):
        for t in (third if n == "c" else ["t"]):
            Ev.setdefault(t, {})[n] = At(n, "e" + t)
    glob, case, ev = c.obj(ga.AllGlobalAttributes, attributes=c.mkdict(G)), c.obj(ca.AllCaseAttributes, attributes=c.mklist(C)), c.obj(
        ea.AllEventAttributes, attributes=c.mkdict({t: c.mkdict(d) for t, d in Ev.items()}))
    clash = (inc - ing) & (ine - ing)
    r = c.call(aa.AllAttributes, glob, case, ev, raises=(ValueError,))
    if c.raised(r):
        return c.check("rejected only if an attribute of cases is also set by activities", bool(clash))
    c.check("rejected if an attribute of cases is also set by activities", not clash)
    pairs = lambda d: {(t, n): o for t, x in list(d.items()) for n, o in list(x.items())}
    names_of = lambda l: [x.name for x in list(l)]
    c.check("global only", {k for k, _ in list(r.global_attributes.attributes.items())} == ing - inc - ine)
    c.check("global set per case", sorted(names_of(r.global_case_attributes.attributes)) == sorted(inc & ing))
    c.check("of the case", sorted(names_of(r.case_attributes.attributes)) == sorted(inc - ing))
    every = {(t, n): o for t, x in Ev.items() for n, o in x.items()}
    ge, le = pairs(r.global_event_attributes.attributes), pairs(r.event_attributes.attributes)
    c.check("global set by activities", ge == {k: o for k, o in every.items() if k[1] in ing})
    c.check("set by activities for their case", le == {k: o for k, o in every.items() if k[1] not in ing})
    init = dict(r.global_attribute_initial_values.items())
    c.check("every global attribute has an initial value", init == {n: (n, "g") for n in ing})
    cols = list(c.call(r.get_all_columns_generated))
    c.check("every attribute has its column", set(cols) == ing | inc | ine)
    c.check("no column twice", not (ing & inc & ine) and len(cols) == len(set(cols)) or bool(ing & inc & ine))


@unit("P16.initial", ["prosimos.case_attributes:AllCaseAttributes.get_values_calculated", "prosimos.global_attributes:AllGlobalAttributes.get_values_calculated"],
      scope="at most 3 attributes")
def initial(c):
    ga, ca = c.mod("global_attributes"), c.mod("case_attributes")
    n = c.choice("attributes", [0, 1, 2, 3])

    class At:
        def __init__(self, i):
            self.name, self.v = NAMES[i], c.real("v%d" % i)

        def get_next_value(self):
            return self.v
    l = [At(i) for i in range(n)]
    for r in (c.call(c.obj(ca.AllCaseAttributes, attributes=c.mklist(l)).get_values_calculated),
              c.call(c.obj(ga.AllGlobalAttributes, attributes=c.mkdict({x.name: x for x in l})).get_values_calculated)):
        c.check("one value per attribute, its own", c.and_(c.eq(c.len(r), n), *[c.and_(c.has(r, x.name), c.eq(c.get(r, x.name), x.v)) for x in l]))


@unit("P16.simulated", [E + "update_attributes", A + "__init__", "prosimos.simulation_engine:run_simulation"],
      bounded="whole simulations of random models with attributes of all scopes")
def simulated(c):
    """the attributes in the log are those of the case, set by the activities of the case, and the global ones, set by any case"""
    class Scoped(sim.Run):
        def extra(self, r):
            num = lambda v: {"type": "continuous", "values": {"distribution_name": "fix", "distribution_params": [{"value": v}]}}
            self.own = {t: {a: r.randint(1, 99) for a in r.sample(["e1", "e2"], r.randint(1, 2))}
                        for t in self.m.tasks if r.random() < 0.6}
            self.all = {t: r.randint(1, 99) for t in self.m.tasks if r.random() < 0.4}
            self.sums = {t for t in self.m.tasks if r.random() < 0.3}
            self.g0, self.h0 = r.randint(1, 99), r.randint(1, 99)
            self.sections = {"global_attributes": [dict(name="g", **num(self.g0)), dict(name="h", **num(self.h0))],
                             "event_attributes": [{"event_id": t, "attributes": [
                                 dict(name=a, **num(v)) for a, v in self.own.get(t, {}).items()] +
                                 ([dict(name="g", **num(self.all[t]))] if t in self.all else []) +
                                 ([{"name": "s", "type": "expression", "values": "g + h + 1"}] if t in self.sums else [])}
                                 for t in self.m.tasks if t in self.own or t in self.all or t in self.sums]}

        def more(self, j):
            j.update(self.sections)

    r = Scoped(c, attributes=True, events=False).go()
    g, own, fixed = r.g0, {}, {}
    for x in r.rows:
        mine, t = own.setdefault(x["case_id"], {}), x["id"]
        if t in r.sums:
            # from the values before this update; the global ones are updated first
            mine["s"] = None if t in r.all else g + r.h0 + 1
        g = r.all.get(t, g)
        mine.update(r.own.get(t, {}))
        c.check("the global value is the one set last", float(x["g"]) == g if r.all or "g" in x else True)
        c.check("a global value nothing sets never changes", float(x["h"]) == r.h0)
        for a in ("e1", "e2", "s"):
            if a in x and mine.get(a, 0) is not None:
                c.check("an activity's values belong to its case", x[a] == "" if a not in mine else float(x[a]) == mine[a])
        case = fixed.setdefault(x["case_id"], {a: x[a] for a in r.attrs})
        c.check("the attributes of a case stay", all(x[a] == case[a] and x[a] in r.attrs[a] for a in r.attrs))
