from timelib import *
TITLE = "Quantised time comparisons share one 50 microsecond tolerance"
RULE = """The twelve comparison operators between a quantised and a plain time (both argument orders) are reduced to
value graphs and evaluated in the polyhedra domain on the five regions of the difference d = a - b around
+-50 us; every operator must give the answer of the three-way comparison with that tolerance on each whole region, and
assigning a plain time keeps it exactly."""
ASSUME = ("doubles modelled as reals", "normalised nanoseconds", "no overflow of second differences")
H = 50000  # ns


def run(ctx):
    t = Time(ctx)
    for pfx in ("qu", "uq"):
        for op in ("lt", "le", "gt", "ge", "eq", "ne"):
            g, f = t.g("vh_%s_%s" % (pfx, op))
            ctx.add("functions", f["dem"])
            e0, s0, n0 = t.inputs(0, "a")
            e1, s1, n1 = t.inputs(1, "b")
            D = Dom({**e0, **e1})
            base = t.norm(t.norm(Facts(), n0), n1)
            d = (s0 - s1) * E9 + n0 - n1
            regions = {"far-below": (base.gt(-d, H), -1), "below-within": (base.gt(-d, 0).ge(d, -H), 0), "equal": (base.eq(d), 0),
                       "above-within": (base.gt(d, 0).ge(-d, -H), 0), "far-above": (base.gt(d, H), 1)}
            for rn, (F, order) in regions.items():
                want = {"lt": order < 0, "le": order <= 0, "gt": order > 0, "ge": order >= 0, "eq": order == 0, "ne": order != 0}[op]
                got = {v for _, v in D.bool(g.ret, F)}
                ctx.ob("%s_%s/%s" % (pfx, op, rn), got == {want}, impl_where(g, "quantized_time"),
                       "'%s' (%s) on region %s can return %s, must be %s; computed as %s" %
                       (op, "quantised,plain" if pfx == "qu" else "plain,quantised", rn, sorted(got), want, vg.show(g.ret, 9)))
    for name in ("vh_assign", "vh_quant"):
        g, f = t.g(name)
        ctx.add("functions", f["dem"])
        so, no = t.out(g)
        want = (vg.mk("init", (("arg", 1), t.so, 8, 0), 64), vg.mk("init", (("arg", 1), t.no, 8, 0), 64))
        ctx.ob(name[3:] + "/keeps-time", (so, no) == want, impl_where(g, "time"), "stores (%s, %s)" % (vg.show(so), vg.show(no)))
