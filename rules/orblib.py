import ir, vg, modlib
SRC = "common/satellite/satellite_state.cxx"


class Orb:
    """value graph of one eph2Sat with the time differences and the orbit step left as calls"""

    def __init__(self, ctx, rx, consts=None, entry=None, more=(), m=None, unroll=None):
        self.m = m = m or ir.load([SRC, "common/utctime.cxx"], [r"eph2Sat\(.*Keplerian", r"eph2Sat\(.*Glonass", r"glonassOrbit", r"RK4"], inline=ir.DEFAULT_INLINE + [r"std::|__gnu_cxx"],
                             keep=[r"UTCTime::operator-\(mc::UTCTime", r"toSec", r"\bRK4", r"glonassOrbit", r"UTCTime::str"], extra=["-fstandalone-debug"])
        fs = m.find(rx, unique=False)
        ctx.need(len(fs) == 1, "eph2Sat vanished or is ambiguous: %s" % [f["dem"] for f in fs])
        self.f = f = fs[0]
        self.secs = {}

        def given(ob, off):
            v = [entry.wcells(ob).get(off + d) for d in (0, 8)] if entry is not None else [None]
            return tuple(x[1].a[0] for x in v) if all(x and x[1].op == "c" for x in v) else None
        known = {given(*q): q for k in consts or {} for q in k}

        def origin(g, st, x):
            v = [g.load(st, y, 8, 64) for y in (x, g.ptr_add(x, 8, []))]
            q = known.get(tuple(y.a[0] for y in v)) if all(y.op == "c" for y in v) and (x.a[0], x.a[1]) not in known.values() else None
            return vg.mk("ptr", q + ((),), "p") if q else modlib.origin(g, st, x)

        def sub(g, st, ins, args):
            a, b = (origin(g, st, x) for x in args[-2:])
            if any(x.op != "ptr" or x.a[2] for x in (a, b)):
                return NotImplemented
            k = (a.a[0], a.a[1]), (b.a[0], b.a[1])
            t = [vg.mk("sym", (("timediff", k, i), 0), 64) for i in (0, 1)]
            if len(args) == 3:
                for i in (0, 1):
                    g.store(st, g.ptr_add(args[0], 8 * i, []), 8, t[i])
                return vg.c(0, 32)
            return vg.mk("agg", tuple(t), None)

        def sec(g, st, ins, args):
            t = g.load(st, args[0], 8, 64)
            u = g.load(st, g.ptr_add(args[0], 8, []), 8, 64)
            if t.op == "sym" and u.op == "sym" and t.a[0][:2] == u.a[0][:2] and (t.a[0][0], t.a[0][2], u.a[0][2]) == ("timediff", 0, 1):
                r = vg.mk("sym", (("secs", t.a[0][1]), 0), "f")
                self.secs[r] = t.a[0][1]
                if consts is not None and t.a[0][1][0] == t.a[0][1][1]:
                    return vg.cf(0.0)
                if consts is not None and t.a[0][1] in consts:
                    return vg.cf(consts[t.a[0][1]])
                return r
            return NotImplemented
        self.g = g = vg.VG(m, f, unroll=unroll if unroll is not None else 0 if consts is None else 300, entry=entry, summaries=list(more) + [(r"UTCTime::operator-\(", sub), (r"UTCTime::toSec\(", sec)])
        self.T, self.E, self.S = (("arg", i) for i in range(3))
        if len(f["args"]) == 4:
            self.T, self.E, self.S = (("arg", i) for i in (1, 2, 3))
        ctx.add("functions", f["dem"])
        self.eph = {n: (o, s, i) for n, o, s, i in m.fields("mc::ephemeris::" + ("KeplerianEphemeris" if "Kepler" in rx else "GlonassEphemeris"))}
        self.st = {n: (o, s) for n, o, s, _ in m.fields("mc::satellite::SatelliteState")}
        # conditions known to hold when no error is returned
        self.known = {}
        r = g.ret
        while r is not None and r.op == "ite":
            c, a, b = r.a
            if not any(x.op == "null" or x.op == "c" and x.a[0] == 0 for x in vg.subterms(a)):
                self.known[c], r = vg.FALSE, b
            elif not any(x.op == "null" or x.op == "c" and x.a[0] == 0 for x in vg.subterms(b)):
                self.known[c], r = vg.TRUE, a
            else:
                break

    def out(self, n, i=0):
        """component of the state when no error is returned"""
        o, s = self.st[n]
        t = self.g.mem(self.g.final, self.S, o + 8 * i, 8, "f")
        return vg.rewrite(t, self.known.get, {}) if self.known else t


    def par(self, n, i=0):
        o, s, info = self.eph[n]
        if info["t"] in ("unsigned int", "int", "uint32_t") or s in (1, 2, 4):
            t = self.g.initial(vg.State(), self.E, o, s, 8 * s)
            return vg.mk("uitofp", (t,), "f")
        return self.g.initial(vg.State(), self.E, o + 8 * i, 8, "f")

    def since(self, field, t=None):
        """the term for seconds of (t - ephemeris.field)"""
        return vg.mk("sym", (("secs", ((self.T, 0) if t is None else t, (self.E, self.eph[field][0]))), 0), "f")


def eccentric(g, roots):
    """the term of the eccentric anomaly the iteration leaves: the outermost-independent argument of sin/cos that depends on the loop"""
    args = {}
    for r in roots:
        for x in vg.subterms(r):
            if x.op == "call" and x.a[0] in ("sin", "cos") and x.a[1].op != "lphi":
                args[x.a[1]] = vg.subterms(x.a[1])
    dep = {t: s for t, s in args.items() if any(x.op == "lphi" for x in s)}
    return [t for t, s in dep.items() if not any(u is not t and u in s for u in dep)]
