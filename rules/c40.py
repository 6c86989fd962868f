import re
import ir, vg
from ir import VERIF
TITLE = "Collections, factors and states expose exactly their own parts"
TECH = "value-graph evaluation of constructors and accessors in instantiated witnesses (LLVM IR) and comparison with the type-checked layout"
RULE = """Witnesses build mixed-type collections (including members whose base part is not at their own address) and every factor of the library from distinct objects. From the value graphs: get<i>
is the i-th object; get_base<i> is the base part of the i-th object; base_items() has exactly one entry per object, in order, each that object's base part; every named member of a factor is the
object passed for it, in the declared order. For every state class, data() (mutable, const and direct) of a constructed state points at a member of exactly DIM doubles inside that state, the run-time
dimension and identifier are the class's own, and no two state classes share an identifier."""
ASSUME = ("std::tuple, std::vector and std::reference_wrapper of the installed standard library are analysed as inlined",)
COLL = {"c1": 1, "c3": 3, "c4": 4, "imu": 5, "gnss": 4, "sw": 2, "cp": 7}
STATES = ("Pose", "Velocity", "ClockBias", "AntennaPosition", "GnssSwitch", "ImuBias")
WH = "common/hetero_collection.h"
WHERE = {"imu": "core/factors/imu.h", "gnss": "core/factors/gnss.h", "sw": "core/factors/gnss_switch.h", "cp": "core/factors/relative_carrier_phase.h"}


def run(ctx):
    m = ir.load([VERIF + "/harness/hetero.cxx", "common/utctime.cxx"], ["^vh_"],
                inline=ir.DEFAULT_INLINE + [r"std::|__gnu_cxx|\b(got|base|items|want)<|^(Coll|Root|Base|Pad)\b"], extra=["-fstandalone-debug"])

    def out(n, k):
        f = m.find(r"^vh_%s\(" % n)
        g = vg.VG(m, f)
        a = ("arg", len(f["args"]) - 1)
        ctx.add("witness functions", n)
        return g, [g.mem(g.final, a, 8 * i, 8, "p") for i in range(k)]

    for n, k in COLL.items():
        w = WHERE.get(n, WH)
        _, want = out(n + "_want", 2 * k)
        self_, base = want[:k], want[k:]
        ctx.need(len(set(self_)) == k, "the witness objects are not distinct")
        _, got = out(n + "_get", k)
        ctx.ob(n + "/elements", got == self_, w, "get<i> are %s, the objects are %s" % (show(got), show(self_)))
        _, got = out(n + "_base", k)
        ctx.ob(n + "/bases", got == base, w, "get_base<i> are %s, the base parts are %s" % (show(got), show(base)))
        g, got = out(n + "_items", k)
        ctx.ob(n + "/listed once", g.ret is not None and g.ret.op == "c" and g.ret.a[0] == k, w, "base_items() has %s entries for %d objects" % (vg.show(g.ret)[:60], k))
        ctx.ob(n + "/list", got == base, w, "base_items() are %s, the base parts are %s" % (show(got), show(base)))
        if n in WHERE:
            _, got = out(n + "_named", 2 * k)
            ctx.ob(n + "/named members", got == want, w, "members refer to %s, given %s" % (show(got[:k]), show(self_)))
    ids = {}
    for s in STATES:
        f = m.find(r"^vh_%s_new\(" % s)
        g = vg.VG(m, f)
        v = [g.mem(g.final, ("arg", 1), 4 * i, 4, 32) for i in range(4)]
        v = [x.a[0] if x.op == "c" else None for x in v]
        w = "core/states (%s)" % s
        ctx.add("state classes", "%s: dimension %s, id %s" % (s, v[2], v[3]))
        ctx.ob(s + "/dimension and id", None not in v and v[0] == v[2] and v[1] == v[3], w, "run-time DIM, ID are %s, %s; the class has %s, %s" % tuple(v))
        ctx.ob(s + "/id unique", v[1] is not None and v[1] not in ids, w, "identifier %s is also %s's" % (v[1], ids.get(v[1])))
        ids[v[1]] = s
        size = {(o, z) for _, o, z, _ in m.leaves("mc::states::" + s) if not _.get("inh")}
        for h in ("data", "cdata", "get"):
            g = vg.VG(m, m.find(r"^vh_%s_%s\(" % (s, h)))
            r = g.ret
            ok = r is not None and r.op == "ptr" and r.a[0] == ("arg", 0) and not r.a[2] and (r.a[1], 8 * (v[2] or 0)) in size
            ctx.ob("%s/%s" % (s, h), ok, w, "the data pointer is %s, members are %s" % (vg.show(r)[:80], sorted(size)[-4:]))


def show(l):
    return [vg.show(x)[:20] for x in l]
