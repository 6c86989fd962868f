import math, random
from fractions import Fraction
import ir, vg, pit
from pit import K
TITLE = "Satellites are placed where they were when the signal left them"
TECH = "loop summaries of the light-time iterations over an abstract satellite; one step compared with the light-time equation by algebraic identity testing, exits evaluated on both sides of the limit (LLVM IR)"
RULE = """Wherever a satellite's state is looked up for an observation (the cache of the filter, the pseudorange and carrier-phase factors, the simulated receiver) the satellite is an unknown function of time. Each iteration must ask for the state at
the time of reception less the time the signal takes from where the satellite was last found, including the turn of the earth, and the search may stop only when the satellite moved less than a millimetre in the last correction. The state used, its
earth-rotation term and the atmospheric correction must be those of the result, at the observation's own time and receiver position; simulated ranges and range rates must be the ones that state implies."""
ASSUME = ("exact arithmetic; constants are compared to twelve digits", "the time of the state a satellite returns is the time asked for (C21, C22)", "iterations end: a satellite moves much slower than light")
H = ir.VERIF + "/harness/light.cxx"
SRC = [H, "common/satellite/satellite_cache.cxx", "models/prange_model.cxx", "models/relative_carrier_phase_model.cxx", "sim/sensors/gnss.cxx"]
CL, OM = 299792458.0, 7.2921151467e-5
# place: (source, offset type and field of the state, of the earth-rotation term)
PLACES = {"cache": "common/satellite/satellite_cache.cxx SatelliteCache::update", "prange": "models/prange_model.cxx PseudorangeModel::computeConstants",
          "relcp": "models/relative_carrier_phase_model.cxx RelativeCarrierPhase::computeSatState", "sim": "sim/sensors/gnss.cxx GnssSim::range"}


def snap(v):
    if v and abs(v * CL / OM - 1) < 1e-13:
        return snap(OM) / snap(CL)
    return Fraction("%.12e" % v)


def inside(t):
    return any(x.op in ("lphi", "lmem") for x in vg.subterms(t))


def first(c):
    """a condition on the state looked up first: its value, if it is always the same"""
    seen = set()
    rng = random.Random(9)
    for _ in range(20):
        val = {}

        def atom(t):
            if t.op == "call" and (str(t.a[0]).startswith("sat:") or t.a[0] == "time") or t.op in ("init", "sym") and t.w == "f":
                if t not in val:
                    val[t] = pit.F(rng.uniform(100, 4000) * rng.choice((-1, 1)) * (1 if t.op == "call" else 1e3))
                return val[t]
            return None
        seen.add(bool(Num(atom).truth(c)))
    return seen.pop() if len(seen) == 1 else None


class Num(pit.FPoint):
    def fn(self, name, args):
        if name in ("fmin", "fmax"):
            return pit.F({"fmin": min, "fmax": max}[name](*[a.v for a in args]))
        raise vg.Broken("no numerical value for " + name)


entry = {}


def settle(t, sub, memo):
    """replace loop values and fold times"""
    def f(x):
        if x in sub:
            return sub[x]
        if x.op == "ite" and not inside(x.a[0]) and any(y.op == "call" and str(y.a[0]).startswith("sat:") for y in vg.subterms(x.a[0])):
            k = x.a[0]
            if k not in entry:
                try:
                    entry[k] = first(k)
                except vg.Broken:
                    entry[k] = None
            if entry[k] is True:
                return vg.rewrite(x.a[1], f, memo.setdefault("s", {}))
            if entry[k] is False:
                return vg.rewrite(x.a[2], f, memo.setdefault("s", {}))
        return None

    def tm(x):
        if x.op == "call" and x.a[0] == "time":
            a, b = x.a[1:]
            if a.op == b.op == "call" and (a.a[0], b.a[0]) == ("tm0", "tm1") and a.a[1] is b.a[1]:
                return a.a[1]
        return None
    r = vg.rewrite(t, f, memo.setdefault("s", {}))
    for _ in range(20):
        n = vg.rewrite(r, tm, {})
        if n is r:
            return r
        r = n
    return r


class Place:
    def __init__(self, ctx, m, n):
        self.ctx, self.n, self.where = ctx, n, PLACES[n]
        f = m.find("^vs_%s$" % n)
        ctx.add("functions", self.where)
        st = {k: (o, s) for k, o, s, _ in m.fields("mc::satellite::SatelliteState")}
        self.st = st
        at = {k: (o, s) for k, o, s, _ in m.fields("mc::satellite::AtmosphericCorrection")}
        self.asked, self.atm = {}, {}
        arg = lambda i: ("arg", i)
        if n == "cache":
            c = {k: o for k, o, s, _ in m.fields("mc::satellite::SatelliteCache")}
            self.state, self.sag, self.rec, self.T, self.sat = (arg(0), c["state"]), (arg(0), c["sagnac"]), arg(2), (arg(1), 0), vg.mk("ptr", (arg(3), 0, ()), "p")
            self.atmout = (arg(0), c["atm"])
        elif n == "prange":
            c = {k: o for k, o, s, _ in m.fields("mc::models::PseudorangeModel")}
            ob = {k: o for k, o, s, _ in m.fields("mc::meas::GnssObservation")}
            self.state, self.sag, self.rec = (arg(0), c["sat_state_"]), (arg(0), c["sagnac_"]), arg(1)
            self.T, self.sat, self.atmout = (arg(0), c["obs_"] + ob["t"]), None, (arg(0), c["atm_"])
            self.satref = (arg(0), c["sat_"])
        elif n == "relcp":
            ob = {k: o for k, o, s, _ in m.fields("mc::meas::GnssObservation")}
            self.state, self.sag, self.rec, self.T, self.sat = (arg(4), 0), None, arg(2), (arg(1), ob["t"]), vg.mk("ptr", (arg(3), 0, ()), "p")
            self.atmout = None
        else:
            self.state, self.sag, self.rec, self.T, self.sat = None, None, arg(3), (arg(1), 0), vg.mk("ptr", (arg(2), 0, ()), "p")
            self.atmout = None

        def tterm(g, s, p):
            a, b = g.load(s, p, 8, 64), g.load(s, g.ptr_add(p, 8, []), 8, 64)
            if a.op == b.op == "call" and (a.a[0], b.a[0]) == ("tm0", "tm1") and a.a[1] is b.a[1]:
                return a.a[1]
            return vg.mk("call", ("time", a, b), "f")

        def put(g, s, p, x):
            for i in (0, 1):
                g.store(s, g.ptr_add(p, 8 * i, []), 8, vg.mk("call", ("tm%d" % i, x), 64))

        def ind(g, s, ins, a):
            if len(a) == 1:
                return vg.mk("sym", (("virtual", a[0]), 0), 64)
            if len(a) != 3:
                return NotImplemented
            x = tterm(g, s, a[1])
            put(g, s, g.ptr_add(a[2], st["t"][0], []), x)
            for k in ("pos", "vel", "clk"):
                for i in range(st[k][1] // 8):
                    g.store(s, g.ptr_add(a[2], st[k][0] + 8 * i, []), 8, vg.mk("call", ("sat:%s%d" % (k, i), a[0], x), "f"))
            self.asked[ins["id"]] = (a[0], a[2])
            return vg.mk("sym", (("error", ins["id"]), 0), "p")

        def minus(g, s, ins, a):
            two = "UTCTime const&)" in ins["cdem"]
            out, p, q = a if len(a) == 3 else (None,) + tuple(a)
            x = tterm(g, s, p)
            if "(double)" in ins["cdem"]:
                y = q
            elif two:
                y = tterm(g, s, q)
            else:
                return NotImplemented
            r = vg.fbin("fadd" if "operator+" in ins["cdem"] else "fsub", x, y)
            if "=" in ins["cdem"].split("(")[0]:
                put(g, s, p, r)
                return p
            if out is None:
                return vg.mk("agg", tuple(vg.mk("call", ("tm%d" % i, r), 64) for i in (0, 1)), None)
            put(g, s, out, r)
            return vg.c(0, 32)

        def sec(g, s, ins, a):
            return tterm(g, s, a[0])

        def corr(g, s, ins, a):
            rec = [g.load(s, g.ptr_add(a[1], 8 * i, []), 8, "f") for i in range(3)]
            sv = self.read(g, s, a[2])
            self.atm[ins["id"]] = (tterm(g, s, a[0]), rec, sv, a[3])
            for k in ("ionospheric_delay_m", "tropospheric_delay_m"):
                g.store(s, g.ptr_add(a[3], at[k][0], []), 8, vg.mk("call", ("atm:" + k, vg.c(0, 32)), "f"))
            return vg.c(0, 32)
        quiet = lambda g, s, ins, a: ("ev", None)
        self.g = g = vg.VG(m, f, summaries=[("<indirect>", ind), (r"UTCTime::operator[-+]", minus), (r"UTCTime::toSec\(", sec), (r"computeAtmCorrection", corr), (r"mc::check\(|source_location::current|basic_format_args", quiet),
                                             (r"UTCTime::operator[!=]=", lambda g, s, ins, a: vg.mk("sym", (("time test", a[0]), 0), 1))])

    def read(self, g, s, p):
        st = self.st
        d = {"t": None}
        a, b = g.load(s, g.ptr_add(p, st["t"][0], []), 8, 64), g.load(s, g.ptr_add(p, st["t"][0] + 8, []), 8, 64)
        d["t"] = a.a[1] if a.op == b.op == "call" and (a.a[0], b.a[0]) == ("tm0", "tm1") and a.a[1] is b.a[1] else vg.mk("call", ("time", a, b), "f")
        for k in ("pos", "vel", "clk"):
            d[k] = [g.load(s, g.ptr_add(p, st[k][0] + 8 * i, []), 8, "f") for i in range(st[k][1] // 8)]
        return d

    def check(self):
        ctx, g, n, w = self.ctx, self.g, self.n, self.where
        ob = lambda key, ok, text: ctx.ob("%s/%s" % (n, key), ok, w, text)
        loops = [L for L in g.loops.values() if L.nextcells or L.next]
        if len(loops) != 1:
            ob("search", False, "expected one search for the time of transmission, found %d loops" % len(loops))
            return
        L = loops[0]
        tgt = {p for _, p in self.asked.values()}
        if len(tgt) != 1:
            ob("satellite", False, "states are asked of several satellites or into several places: %s" % [vg.show(p, 3) for p in tgt])
            return
        p0 = tgt.pop()
        sats = {a for a, _ in self.asked.values()}
        want = self.sat
        if want is None:
            want = g.initial(vg.State(), self.satref[0], self.satref[1], 8, "p")
        ob("satellite", sats == {want}, "the state is asked of another satellite")
        if self.state:
            ob("place", p0.op == "ptr" and (p0.a[0], p0.a[1]) == self.state, "the state is put somewhere else: %s" % vg.show(p0, 3))
        if p0.op != "ptr":
            return
        hexit = [((p, s), e) for (p, s), e in L.exits]
        athead = all(p == L.h for (p, s), e in hexit)
        # loop values -> their value after one more turn
        nxt = {}
        for k, v in L.next.items():
            nxt[vg.mk("lphi", (L.tag, k), v.w)] = v
        for k, v in L.cells.items():
            nxt[v] = L.nextcells[k]
        ini = {vg.mk("lphi", (L.tag, k), v.w): L.init[k] for k, v in L.next.items() if L.init.get(k) is not None}
        for k, v in L.cells.items():
            ini[v] = L.initcells[k]
        memo = {"s": {}}
        after = (lambda t: settle(t, nxt, memo)) if athead else (lambda t: settle(t, {}, memo))
        O, off = p0.a[0], p0.a[1]
        cell = lambda k, i: L.cells.get((O, off + self.st[k][0] + 8 * i, 8))
        head = {k: [cell(k, i) for i in range(self.st[k][1] // 8)] for k in ("pos", "vel", "clk")}
        hs = [cell("t", i) for i in (0, 1)]
        if any(x is None for x in head["pos"] + hs):
            ob("search", False, "the state does not change from one turn of the search to the next")
            return
        TH = vg.mk("call", ("time",) + tuple(hs), "f")
        # the result of a turn
        fin = self.read(g, L.bst, p0)
        fin = {k: settle(v, {}, memo) if k == "t" else [settle(x, {}, memo) for x in v] for k, v in fin.items()}
        X = fin["t"]
        good = all(fin[k][i] is vg.mk("call", ("sat:%s%d" % (k, i), want, X), "f") for k in ("pos", "vel", "clk") for i in range(len(fin[k])))
        ob("one state", good, "position, velocity, clock and time of the result do not come from one lookup")
        init = self.read_init(L, O, off)
        X0 = init["t"]
        ob("start", all(init[k][i] is vg.mk("call", ("sat:%s%d" % (k, i), want, X0), "f") for k in ("pos", "vel") for i in range(3)), "the search starts from a state that was not looked up: %s" % vg.show(init["pos"][0], 4))

        T = vg.mk("call", ("time",) + tuple(g.initial(vg.State(), self.T[0], self.T[1] + 8 * i, 8, 64) for i in (0, 1)), "f")
        rec = [g.initial(vg.State(), self.rec, 8 * i, 8, "f") for i in range(3)]

        def atoms(val, extra):
            def atom(t):
                if t in val:
                    return val[t]
                if t.op == "call" and str(t.a[0]).startswith("sat:"):
                    return extra(t)
                if t.op == "call" and (t.a[0] == "time" or str(t.a[0]).startswith("atm:")):
                    return extra(t)
                return None
            return atom

        # light time
        def light(seed):
            q = pit.Point(seed, snap=snap)
            val = {}
            for x in head["pos"] + rec + [TH, T]:
                if x not in val:
                    val[x] = pit.D(q.rnd())
            q.atom = atoms(val, lambda t: None)
            P, R = [val[x] for x in head["pos"]], [val[x] for x in rec]
            los = [a - b for a, b in zip(P, R)]
            d = (los[0] * los[0] + los[1] * los[1] + los[2] * los[2]).sqrt() + K(snap(OM)) * (P[0] * R[1] - P[1] * R[0]) / K(snap(CL))
            return (val[T] - q(X)) * K(snap(CL)) == d
        ok = self.holds(light)
        ob("light time", ok, "the state is asked for at %s, not at reception less the travel time of the signal" % vg.show(X, 6)[:300])
        ctx.add("obligations", "light time %s" % n)

        # leaving the search
        def conv(turns, step, speed, rng):
            """is the search left with this last correction?"""
            val = {}
            u = [rng.gauss(0, 1) for _ in range(3)]
            k = math.sqrt(sum(x * x for x in u))
            R = [6.4e6 * x / k for x in u]
            P = [R[i] + 2.1e7 * u[i] / k + rng.uniform(-5e6, 5e6) for i in range(3)]
            d = math.dist(P, R) + OM * (P[0] * R[1] - P[1] * R[0]) / CL
            v = [rng.gauss(0, 1) for _ in range(3)]
            k = math.sqrt(sum(x * x for x in v))
            v = [speed * x / k for x in v]
            Tv = rng.choice((0.0, 0.25))
            Xv = Tv - d / CL
            for i in range(3):
                val[head["pos"][i]] = pit.F(P[i])
                val[rec[i]] = pit.F(R[i])
                if head["vel"][i] is not None:
                    val[head["vel"][i]] = pit.F(v[i])
            val[TH], val[T] = pit.F(Xv + step), pit.F(Tv)

            def extra(t):
                if t.op == "call" and str(t.a[0]).startswith("sat:"):
                    if t.a[2] is X and t.a[0].startswith("sat:vel"):
                        return pit.F(v[int(t.a[0][-1])])
                    if t.a[2] is X and t.a[0].startswith("sat:pos"):
                        return pit.F(P[int(t.a[0][-1])])
                return None
            q = Num(atoms(val, extra))
            return any(q.truth(t) for t in turns)
        turns = []
        for (p, s), e in hexit:
            c = e[0] if p == L.h else g.rel(p, L.h, e[1])
            turns.append(settle(c, nxt, memo) if athead else settle(c, {}, memo))
        rng = random.Random(93)
        bad = None
        n_ = 0
        try:
            for k in range(400):
                step = 10 ** rng.uniform(-9.5, 3) * rng.choice((-1, 1))
                speed = 10 ** rng.uniform(-1, 4.5)
                if k % 2:
                    speed = 1e-3 / abs(step) * rng.choice((1.02, 1.5, 10, 0.9, 0.5))
                if not 0.1 < speed < 1e5:
                    continue
                moved = abs(step) * speed
                if moved < 1.01e-3:
                    continue
                n_ += 1
                if conv(turns, step, speed, rng):
                    bad = (step, speed, moved)
                    break
        except vg.Broken as e:
            bad = (str(e), 0, 0)
        ob("stop", bad is None and n_ > 50, "the search can end %s" % ("undecided: %s" % bad[0] if bad and isinstance(bad[0], str) else "after a correction of %.3g s to a satellite moving at %.3g m/s (%.3g m)" % bad if bad else "anywhere"))
        if athead:
            try:
                bad = any(first(settle(e[0], ini, {"s": {}})) is not False for (p, s), e in hexit)
            except vg.Broken as e:
                bad = True
            ob("at least once", not bad, "the state at the time of reception is used without correction")
        # what is left behind
        fs = self.read(g, g.final, p0)
        same = lambda t, x: after(t) is x
        if self.state:
            ob("result", same(fs["t"], X) and all(same(fs[k][i], fin[k][i]) for k in ("pos", "vel", "clk") for i in range(len(fin[k]))), "the state left behind is not the one found: time %s" % vg.show(after(fs["t"]), 5)[:200])
        if n != "relcp":
            calls = list(self.atm.values())
            ok = len(calls) == 1
            if ok:
                t_, r_, s_, o_ = calls[0]
                ok = t_ is T and [x for x in r_] == rec and all(same(s_[k][i], fin[k][i]) for k in ("pos", "vel") for i in range(3)) and (self.atmout is None or o_.op == "ptr" and (o_.a[0], o_.a[1]) == self.atmout)
            ob("atmosphere", ok, "the atmospheric correction is not computed once for the observation's time, the receiver and the state found")

        # at convergence: header state and result agree
        vl = [g.initial(vg.State(), ("arg", 4), 8 * i, 8, "f") for i in range(3)] if n == "sim" else None

        def at_end(seed):
            q = pit.Point(seed, snap=snap)
            pos, vel, clk = ([pit.D(q.rnd()) for _ in range(c_)] for c_ in (3, 3, 2))
            val = {}
            for x in rec + [T, TH] + (vl or []):
                val[x] = pit.D(q.rnd())
            for k, s_ in (("pos", pos), ("vel", vel), ("clk", clk)):
                for i, x in enumerate(s_):
                    if head[k][i] is not None:
                        val[head[k][i]] = x
                    val[vg.mk("call", ("sat:%s%d" % (k, i), want, X), "f")] = x
            io, tr = pit.D(q.rnd()), pit.D(q.rnd())
            val[vg.mk("call", ("atm:ionospheric_delay_m", vg.c(0, 32)), "f")] = io
            val[vg.mk("call", ("atm:tropospheric_delay_m", vg.c(0, 32)), "f")] = tr
            q.atom = atoms(val, lambda t: None)
            R = [val[x] for x in rec]
            c_, o_ = K(snap(CL)), K(snap(OM))
            los = [a - b for a, b in zip(pos, R)]
            sag = o_ * (pos[0] * R[1] - pos[1] * R[0]) / c_
            rho = (los[0] * los[0] + los[1] * los[1] + los[2] * los[2]).sqrt() + sag
            if n != "sim":
                t = g.mem(g.final, self.sag[0], self.sag[1], 8, "f")
                return q(after(t)) == sag
            V = [val[x] for x in vl]
            cb = [q(g.initial(vg.State(), ("arg", 0), self.clk + 8 * i, 8, "f")) for i in (0, 1)]
            wr = rho + io + tr + c_ * (cb[0] - clk[0])
            wd = sum(((a - b) * e for a, b, e in zip(vel, V, los)), K(0)) / rho + o_ / c_ * (vel[1] * R[0] + pos[1] * V[0] - vel[0] * R[1] - pos[0] * V[1]) + c_ * (cb[1] - clk[1])
            gr, gd = (q(after(g.mem(g.final, ("arg", i), 0, 8, "f"))) for i in (5, 6))
            return (gr == wr) + 2 * (gd == wd)
        if n in ("cache", "prange"):
            ob("earth rotation", self.holds(at_end), "the earth-rotation term kept is not that of the receiver and the state found")
        if n == "sim":
            try:
                r = pit.points(3, at_end)
            except vg.Broken as e:
                r = [0]
            ob("range", all(x & 1 for x in r), "the simulated pseudorange is not range, earth rotation, atmosphere and clock difference")
            ob("range rate", all(x & 2 for x in r), "the simulated range rate is not that of receiver, satellite, earth rotation and clocks")

    def read_init(self, L, O, off):
        d = {}
        rd = lambda k, i: L.initcells.get((O, off + self.st[k][0] + 8 * i, 8))
        a, b = rd("t", 0), rd("t", 1)
        d["t"] = a.a[1] if a is not None and b is not None and a.op == b.op == "call" and a.a[0] == "tm0" and b.a[0] == "tm1" and a.a[1] is b.a[1] else None
        for k in ("pos", "vel"):
            d[k] = [rd(k, i) for i in range(3)]
        return d

    def holds(self, f):
        try:
            return all(pit.points(3, f))
        except vg.Broken as e:
            self.ctx.add("undecided", "%s: %s" % (self.n, str(e)[:200]))
            return False


def run(ctx):
    m = ir.load(SRC, ["^vs_"], inline=ir.DEFAULT_INLINE + [r"std::|__gnu_cxx", r"mc::"], keep=[r"computeAtmCorrection", r"mc::UTCTime::", r"mc::check\("], extra=["-fno-access-control", "-fstandalone-debug"])
    clk = {k: o for k, o, s, _ in m.fields("mc::sim::sensors::GnssSim")}["clock_bias_"]
    for n in PLACES:
        p = Place(ctx, m, n)
        p.clk = clk
        p.check()
