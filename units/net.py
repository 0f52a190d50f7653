"""Markings of a process model: token counts per flow plus the compact mask of marked flows."""
FLOWS = ["f%d" % i for i in range(6)]


class Net:
    """arbitrary marking whose mask agrees with its token counts; one bit per flow, bits distinct"""

    def __init__(self, c, g=None, ordered=False):
        self.c = c
        self.toks = c.dict("tokens", c.Str, c.Int, ordered, g=g or (lambda r: {f: r.choice([0, 0, 1, 1, 2]) for f in FLOWS}))
        self.pos = c.dict("bit_of", c.Str, c.Int, g=lambda r: {f: i + 1 for i, f in enumerate(FLOWS)})
        self.own = c.dict("flow_of", c.Int, c.Str, g=lambda r: {i + 1: f for i, f in enumerate(FLOWS)})
        self.arcs = c.dict("arcs_bitset", c.Str, c.Bits, g=lambda r: {f: 2 << i for i, f in enumerate(FLOWS)})
        t, pos, own, arcs = self.toks, self.pos, self.own, self.arcs
        self.mask = c.bits("mask") if c.symbolic else sum(arcs[f] for f in t if t[f] > 0)
        c.assume(c.forall_str(lambda f: c.implies(c.has(t, f), lambda: c.and_(
            c.get(t, f) >= 0, c.has(pos, f), c.has(arcs, f), lambda: c.and_(
                c.get(pos, f) >= 1, c.has(own, c.get(pos, f)), lambda: c.eq(c.get(own, c.get(pos, f)), f)))),
            dom=self.dom()))
        c.assume(c.forall_str(lambda f: c.implies(c.has(arcs, f), lambda: c.forall_int(
            lambda i: c.iff(c.bit(c.get(arcs, f), i), c.eq(i, c.get(pos, f))), dom=range(70))), dom=self.dom()))
        self.t0 = c.old(t)
        if c.symbolic:
            c.assume(self.consistent(t, self.mask))

    def dom(self):
        return () if self.c.symbolic else list(self.toks)

    def consistent(self, toks, mask):
        """the mask contains exactly the flows whose count is positive, and no count is negative"""
        c, pos, own = self.c, self.pos, self.own
        return c.and_(
            c.forall_str(lambda f: c.implies(c.has(toks, f), lambda: c.and_(
                c.get(toks, f) >= 0, c.iff(c.bit(mask, c.get(pos, f)), c.get(toks, f) >= 1))), dom=self.dom()),
            c.forall_int(lambda i: c.implies(c.bit(mask, i), lambda: c.and_(
                c.has(own, i), lambda: c.and_(c.has(toks, c.get(own, i)), lambda: c.eq(c.get(pos, c.get(own, i)), i)))),
                dom=range(70)))

    def state(self, cf):
        return self.c.obj(cf.ProcessState, tokens=self.toks, state_mask=self.mask, arcs_bitset=self.arcs,
                          flow_date=self.c.mkdict({}))

    def known(self, flows):
        c = self.c
        return c.forall(0, c.len(flows), lambda j: c.has(self.toks, c.at(flows, j)))

    def distinct(self, l):
        c = self.c
        return c.forall(0, c.len(l), lambda j: c.forall(0, c.len(l), lambda i: c.or_(c.eq(i, j), c.not_(c.eq(c.at(l, i),
                                                                                                   c.at(l, j))))))

    def among(self, f, l):
        c = self.c
        return c.exists(0, c.len(l), lambda j: c.eq(c.at(l, j), f))

    def after(self, toks, want):
        """every flow has the count want(flow, old count); no flow appears or disappears"""
        c = self.c
        return c.forall_str(lambda f: c.and_(c.iff(c.has(toks, f), c.has(self.t0, f)), c.implies(
            c.has(self.t0, f), lambda: c.eq(c.get(toks, f), want(f, c.get(self.t0, f))))), dom=self.dom())
