from ephlib import *
import c17
TITLE = "A released ephemeris is completely populated"
TECH = "must-assign analysis of every data member over constructor and per-message transformers (LLVM IR)"
RULE = """For every data member of the three ephemeris classes (base classes included), some part that must have been received before a release (C17), the release step itself, or the
constructor must assign it a value that does not depend on the member's own old content or on uninitialised memory, on every accepting path of that part."""
ASSUME = ("a release happens only after every part was accepted (C17)",)


def leaves(d, t, seen, out):
    """leaf terms the value can depend on once the assumptions decide the selects"""
    if t in seen:
        return
    seen.add(t)
    if t.op in ("init", "undef", "sym", "lphi", "lmem", "call", "vload"):
        out.add(t)
    if t.op == "init":
        return
    if t.op == "ite":
        k = bits.const_gate(d.cond(t.a[0]))
        if k in (0, 1):
            leaves(d, t.a[1] if k else t.a[2], seen, out)
            return
    if t.op in ("and", "shl", "lshr", "or", "trunc", "zext", "xor") and isinstance(t.w, int):
        b = d.bits(t)
        if all(z in (0, 1) or z[0] == "b" and z[1] == "in" for z in b):
            for z in b:
                if z not in (0, 1):
                    out.add(vg.mk("init", (z[2], z[3], 1, z[5]), 8))
            return
    for x in t.a:
        if isinstance(x, vg.T):
            leaves(d, x, seen, out)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, vg.T):
                    leaves(d, y, seen, out)


def assigned(d, t, o, off, size):
    out = set()
    leaves(d, t, set(), out)
    for x in out:
        if x.op == "undef":
            return "uninitialised memory"
        if x.op == "init" and x.a[0] == o and x.a[1] < off + size and off < x.a[1] + x.a[2]:
            return "its own previous content"
    return None


def run(ctx):
    for tag, s in c17.WORDS.items():
        m = c17.Machine(ctx, tag)
        con = m.con
        where = "common/ephemeris/" + con.file
        ng = vg.VG(con.m, con.m.find(r"^vh_new_%s\(" % tag))
        lv = []
        for name, off, size, info in con.m.leaves(con.cls):
            if size > 8:                # fixed arrays: Eigen vectors of double, arrays of int
                e = 8 if info["t"].startswith("Eigen::") else 4
                lv += [("%s[%d]" % (name, i), off + e * i, e, {"flt": e == 8}) for i in range(size // e)]
            else:
                lv.append((name, off, size, info))
        ctx.need(lv, "no members found")
        others = {}
        allf = {k: m.flags(m.vals({**m.base(k, 0), **m.stored_high(k)}, k, 0)) for k in s["parts"]}
        views = []
        for k in s["parts"]:
            views.append(("part %d" % k, con.dom(m.base(k, 0), {}, {})))
        last = s["parts"][-1]
        rest = 0
        for k, f in allf.items():
            if k != last:
                rest |= f or 0
        rel = con.dom(m.vals({**m.base(last, rest), **m.stored_high(last)}, last, 0), {}, {})
        ctx.ob(tag + "/release reached", bits.const_gate(rel.cond(con.g.ret)) == 1, where, "no release with all parts received")
        for name, off, size, info in lv:
            flt = bool(info.get("flt"))
            w = "f" if flt and size == 8 else 8 * size
            why = []
            t = ng.mem(ng.final, ("arg", 0), off, size, w)
            r = assigned(con.dom({}, {}, {}), t, ("arg", 0), off, size)
            ctx.add("members", "%s::%s" % (con.cls, name))
            if r is None:
                ctx.ob("%s/%s" % (tag, name), True, where)
                continue
            t = con.g.mem(con.g.final, ("arg", 0), off, size, w)
            ok = False
            for v, d in views + [("release", rel)]:
                r = assigned(d, t, ("arg", 0), off, size)
                if r is None:
                    ok = True
                    break
                why.append("%s leaves %s" % (v, r))
            ctx.ob("%s/%s" % (tag, name), ok, where, "%s::%s is released without having been set (%s)" % (con.cls, name, "; ".join(why)))
