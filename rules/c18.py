from ephlib import *
TITLE = "Navigation parsers read only the bytes they were given"
TECH = "guarded-access bounds analysis on the value graph of each parser (LLVM IR)"
RULE = """Every load (and block copy, and pointer handed to another function) from the message buffer in parse() and everything it calls is enumerated with the condition under which it
happens; for every length from 0 to the format's size, that condition must be false unless the bytes read lie below the length; offsets must be known. Accesses to the parsers' own local
arrays must lie inside them."""
ASSUME = ("the buffer holds `size` readable bytes",)
SIZES = {"gps": ("GPSEphemeris", 40), "gal": ("GalileoEphemeris", 32), "glo": ("GlonassEphemeris", 16)}


def span(ptr):
    """(object, lowest offset, highest offset) of a pointer, or None"""
    if ptr.op != "ptr":
        return None
    o, off, var = ptr.a
    return None if var else (o, off)


def alts(p, g):
    if p.op == "ite":
        return alts(p.a[1], vg.AND(g, p.a[0])) + alts(p.a[2], vg.AND(g, vg.NOT(p.a[0])))
    return [(p, g)]


def run(ctx):
    for tag, (cls, n) in SIZES.items():
        con = Con(tag, cls, n)
        where = "common/ephemeris/" + con.file
        ctx.add("functions", con.fs["dem"])
        g = con.g
        acc = {}
        for kind, ptr, size, gd, ins in g.accesses:
            for p, gg in alts(ptr, gd):
                if p.op == "ptr":
                    acc.setdefault((kind, p, size), []).append((gg, ins))
        for e in g.events:
            if e.kind == "call":
                for a in e.args:
                    if isinstance(a, vg.T):
                        for p, gg in alts(a, e.guard):
                            if p.op == "ptr" and p.a[0] == ("arg", 1):
                                acc.setdefault(("passed", p, None), []).append((gg, e.ins))
        doms = {}
        nread = 0
        for (kind, p, size), gs in sorted(acc.items(), key=lambda x: str(x[0])):
            o, off, var = p.a
            at = vg.where(gs[0][1]) or where
            if o == ("arg", 1):
                nread += 1
                key = "%s/%s of byte%s" % (tag, {"r": "read", "w": "write", "passed": "escape"}[kind], "s %d..%s" % (off, off + size - 1 if isinstance(size, int) else "?"))
                if kind != "r" or var or not isinstance(size, int) or off < 0:
                    ctx.ob(key, False, at, "the message is %s with an offset or extent that is not bounded" % {"r": "read", "w": "written", "passed": "handed on"}[kind])
                    continue
                bad = None
                for s in range(0, min(off + size, 400)):
                    if s not in doms:
                        doms[s] = con.dom(con.arg_known(s), {}, {})
                    d = doms[s]
                    if any(bits.const_gate(d.cond(gg)) != 0 for gg, _ in gs):
                        bad = s
                        break
                ctx.ob(key, bad is None, at, "reads byte %d of a %s-byte message" % (off + size - 1, bad))
            elif o[0] == "alloca":
                sz = g.objsize(o)
                if sz is None:
                    continue
                key = "%s/local access" % tag
                if var:
                    ctx.ob(key + " variable offset", False, at, "a local array is accessed at an offset that is not bounded: %s" % p)
                elif isinstance(size, int):
                    ok = 0 <= off and off + size <= sz
                    if not ok and all(con.dom({}, {}, {}).cond(gg) == 0 for gg, _ in gs):
                        ok = True
                    ctx.ob(key + " %s+%d" % (o[-1], off), ok, at, "access to bytes %d..%d of a local object of %d bytes" % (off, off + size - 1, sz))
        ctx.need(nread, "%s::parse no longer reads its buffer" % cls)
        # too short: refused
        for s in range(0, n):
            r = bits.const_gate(con.dom(con.arg_known(s), {}, {}).cond(g.ret))
            ctx.ob("%s/size %d refused" % (tag, s), r == 0, where, "a message of %d bytes can be accepted" % s)
