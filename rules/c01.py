from timelib import *
TITLE = "UTC time comparisons form one total order"
RULE = """Each of the six comparison operators is reduced to a gated boolean value graph over (sec,nsec) of both
operands; the graph is evaluated in the finite domain of the 9 orderings sec{<,=,>} x nsec{<,=,>} (nsec
normalised) and must equal the lexicographic order in every one."""
ASSUME = ("nsec is normalised to [0,1e9) (C02)", "no signed overflow of the second count")


def run(ctx):
    t = Time(ctx)
    for op in ("lt", "le", "gt", "ge", "eq", "ne"):
        g, f = t.g("vh_uu_" + op)
        ctx.add("functions", f["dem"])
        e0, s0, n0 = t.inputs(0, "a")
        e1, s1, n1 = t.inputs(1, "b")
        D = Dom({**e0, **e1})
        for so in (-1, 0, 1):
            for no in (-1, 0, 1):
                F = t.norm(t.norm(Facts(), n0), n1)
                for o, a, b in ((so, s0, s1), (no, n0, n1)):
                    F = F.gt(b, a) if o < 0 else F.gt(a, b) if o > 0 else F.eq(a, b)
                order = so or no
                want = {"lt": order < 0, "le": order <= 0, "gt": order > 0, "ge": order >= 0, "eq": order == 0,
                        "ne": order != 0}[op]
                got = {v for _, v in D.bool(g.ret, F)}
                ctx.ob("op_%s/sec%+d/nsec%+d" % (op, so, no), got == {want}, impl_where(g, "utctime"),
                       "UTCTime operator '%s' with sec ordering %+d and nsec ordering %+d can return %s, the order requires %s; computed as %s"
                       % (op, so, no, sorted(got), want, vg.show(g.ret, 8)))
