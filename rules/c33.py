import math
import prop, vg
from imulib import *
TITLE = "IMU preintegration refuses bad samples before changing anything"
TECH = "value graph of ImuModel::integrate: guards of every effect on the model, specialised to NaN, infinite and out-of-order samples (LLVM IR)"
RULE = """With any component of the sample's acceleration or rate NaN or infinite, or a time step that is not positive, the condition under which the history is extended or any memory of the model is written must be false, and the function
must not report success. The time step tested must be the sample's time minus that of the last sample, and a finite, later sample must be able to reach the extension."""
ASSUME = ("a failed check does not return (it ends the process)", "toSec of a difference has the sign of the difference (C01)")


def run(ctx):
    m, globs = load()
    g = graph(ctx, m, "integrate")
    H, S, Z, Q = offsets(m)
    w = W % "integrate"
    ap = appends(g)
    ctx.ob("extends", len(ap) >= 1, w, "integrate does not extend the history")
    cases = []
    for n in ("accel", "gyro"):
        for i in range(3):
            for v, s in ((math.nan, "NaN"), (math.inf, "infinite"), (-math.inf, "minus infinite")):
                off = Z[n] + 8 * i
                cases.append(("%s[%d] %s" % (n, i, s), lambda t, off=off, v=v: vg.cf(v) if t.op == "init" and t.w == "f" and t.a[0] == ("arg", 1) and t.a[1] == off else None))
    size = m.type("mc::models::ImuModel::History")["size"]
    consts = {abs(vg.fval(x)) for e in g.events for x in vg.subterms(e.guard) if x.op == "cf"} - {math.inf}
    steps = sorted({-x for x in consts if x == x} | {-x * 1.5 for x in consts if x == x} | {0.0, -1e-9, -1e-6, -1.0, -1e6})
    for v in steps:
        cases.append(("step of %g s" % v, lambda t, v=v: vg.cf(v) if step(t, size, Z, H) else None))
    back = [x for e in ap for x in vg.subterms(e.guard) if step(x, size, Z, H)]
    ctx.ob("time", bool(back), w, "the time step from the last sample is not tested before the history is extended")
    for what, f in cases:
        memo = {}
        rw = lambda t: vg.rewrite(t, f, memo)
        checks = [(e.seq, vg.OR(vg.NOT(rw(e.guard)), rw(e.args[0]))) for e in g.events if e.kind == "check"]

        def dead(gd, seq):
            """the path condition, with the checks passed before this point, cannot hold"""
            c = rw(gd)
            for s, k in checks:
                if s < seq:
                    c = vg.AND(c, k)
            return false(c) or not prop.sat(c)
        bad = [e.dem[:60] for e in g.events if e.kind != "check" and effect(e) and not dead(e.guard, e.seq)]
        # plain stores into the model's memory
        for o in g.final.mem:
            if owner(o) or o == ("arg", 1):
                for off, (s, t) in g.final.mem[o].items():
                    r = rw(t)
                    if not (r.op == "init" and r.a[0] == o and r.a[1] == off) and not hav(r):
                        bad.append("store at byte %d" % off)
        for gd, st, r in g.rets:
            if not dead(gd, 1 << 30) and rw(r).op in ("null", "init", "sym"):
                bad.append("success is reported")
        ctx.ob("refused/" + what, not bad, w, "sample with %s: %s" % (what, "; ".join(bad[:3])))
    # the guard is satisfiable for an ordinary sample
    ordinary = lambda t: vg.cf(0.5) if t.op == "init" and t.w == "f" else vg.cf(0.01) if step(t, size, Z, H) else None
    memo = {}
    ctx.ob("accepted", any(not false(vg.rewrite(e.guard, ordinary, memo)) for e in ap), w, "an ordinary sample is refused")


def hav(t):
    return t.op == "init" and len(t.a) > 3 and isinstance(t.a[3], tuple) and t.a[3][:1] == ("hav",)


def false(t):
    return t.op == "c" and not t.a[0] & 1


def effect(e):
    return any(reaches(a) for a in e.args)


def reaches(t):
    return t.op == "ptr" and owner(t.a[0]) or t.op == "ite" and any(reaches(x) for x in t.a[1:])


def step(t, size, Z, H):
    """seconds from the last sample of the history to the new one"""
    if t.op != "call" or t.a[0] != "seconds" or len(t.a) != 3:
        return False
    a, b = t.a[1:]
    return a.op == "ptr" and a.a[0] == ("arg", 1) and a.a[1] == Z["t"] and b.op == "ptr" and b.a[0][0] == "deref" and owner(b.a[0]) and b.a[1] == H["z"] + Z["t"] - size and not b.a[2]
