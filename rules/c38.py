import re
from fractions import Fraction
import ir, vg, prop
TITLE = "The simulator never calls an unset callback"
TECH = "value graphs of the simulator's step and of each sensor's sampling function: guards of every callback call, specialised to unset callbacks and to times on both sides of the sampling period (LLVM IR)"
RULE = """In a step every callback is called at most once, with what its sensor delivered in that step, under a condition that is false when the callback is empty or the sensor delivered nothing and true when neither is the case; registering a callback
sets exactly the one that is called with that kind of measurement. A sensor delivers exactly when at least its own period has passed since its last sample, keeps that time, changes neither it nor the output otherwise, and stamps what it delivers with
the time asked for; observations replace those of the last sample and carry their satellite's constellation and number. An ephemeris is delivered when its time has come, the oldest first and each once; an empty queue is not read."""
ASSUME = ("time differences and comparisons are exact (C01, C02)", "times to the exact nanosecond of a period are not told apart")
H = ir.VERIF + "/harness/sim.cxx"
SENS = {"gnss": ("sim/sensors/gnss.cxx GnssSim::sample", "GnssSim::sample("), "imu": ("sim/sensors/imu.cxx ImuSim::sample", "ImuSim::sample(")}
SENS.update({k: ("sim/sensors/gnss.cxx GnssSim::sample%sEph" % k.title(), "GnssSim::sample%sEph(" % k.title()) for k in ("gps", "glo", "gal")})
EPH = {"gps": "GPSEphemeris", "glo": "GlonassEphemeris", "gal": "GalileoEphemeris"}
ARG = {"gnss": "std::vector<mc::meas::GnssObservation", "imu": "mc::meas::ImuSample", "gps": "mc::ephemeris::GPSEphemeris", "glo": "mc::ephemeris::GlonassEphemeris", "gal": "mc::ephemeris::GalileoEphemeris"}
STEP = "sim/sim.cxx Sim::step"


def pair(g, st, p):
    return g.load(st, p, 8, 64), g.load(st, g.ptr_add(p, 8, []), 8, 64)


def timeop(name, n):
    """n: number of time operands; the rest is numbers"""
    def f(g, st, ins, args):
        k = len(args) - n
        if name in ("T+", "T-d"):
            k = len(args) - 2
            ops = list(pair(g, st, args[k])) + [args[k + 1]]
        else:
            ops = [x for a in args[k:] for x in pair(g, st, a)]
        if name == "Tsec":
            return vg.mk("call", (name,) + tuple(ops), "f")
        t = [vg.mk("call", (name, i) + tuple(ops), 64) for i in (0, 1)]
        if k == 1:
            for i in (0, 1):
                g.store(st, g.ptr_add(args[0], 8 * i, []), 8, t[i])
            return vg.c(0, 32)
        return vg.mk("agg", tuple(t), None)
    return f


def assign(g, st, ins, args):
    """a pose is assigned: only its own storage changes"""
    for i in range(8):
        g.store(st, g.ptr_add(args[0], 8 * i, []), 8, g.load(st, g.ptr_add(args[1], 8 * i, []), 8, 64))
    return args[0]


def draw(g, st, ins, args):
    """a random number: changes only the distribution and the generator"""
    g.uid += 1
    return vg.mk("sym", ("random", g.uid), "f")


def measure(g, st, ins, args):
    """GnssSim::range: changes only its outputs (that it leaves the last sample time is decided below)"""
    g.event(g.cur, ins, st, args, None)
    for a in args[1:]:
        if a.op == "ptr" and a.a[0][0] == "alloca" and a is not args[1]:
            g.havoc(st, a.a[0], "range")
    return vg.c(0, 32)


SUM = [(r"normal_distribution<double>::operator\(\)", draw), (r"GnssSim::range\(", measure), (r"DQuat<double>::operator=\(", assign), (r"UTCTime::operator-\(mc::UTCTime", timeop("T-", 2)), (r"UTCTime::toSec\(", timeop("Tsec", 1)), (r"UTCTime::operator\+\(double", timeop("T+", 2)), (r"UTCTime::operator-\(double", timeop("T-d", 2))]


class Num:
    """values of terms for given times and members"""
    def __init__(self, look):
        self.look, self.memo = look, {}

    def __call__(self, t):
        return vg.rewrite(t, self.f, self.memo)

    def f(self, x):
        v = self.look(x)
        if v is not None:
            return v
        if x.op == "call" and str(x.a[0]).startswith("T"):
            a = [vg.rewrite(y, self.f, self.memo) for y in x.a[1:] if isinstance(y, vg.T)]
            if any(y.op not in ("c", "cf") for y in a):
                return None
            sg = lambda y: vg.fval(y) if y.op == "cf" else y.a[0] - (1 << 64) if y.a[0] >> 63 else y.a[0]
            a = [sg(y) for y in a]
            ns = lambda s, n: int(s) * 10**9 + int(n)
            if x.a[0] == "Tsec":
                return vg.cf(float(Fraction(ns(*a), 10**9)))
            r = ns(*a[:2]) - ns(*a[2:]) if x.a[0] == "T-" else ns(*a[:2]) + (1 if x.a[0] == "T+" else -1) * round(a[2] * 1e9)
            return vg.c(divmod(r, 10**9)[x.a[1]], 64)
        return None


def num(v, w):
    return vg.cf(v) if w == "f" else vg.c(int(v), w)


def effects(g, objs):
    return [e for e in g.events if e.kind != "check" and any(isinstance(a, vg.T) and any(y.op == "ptr" and y.a[0] in objs or y.op == "init" and y.a[0] in objs for y in vg.subterms(a)) for a in e.args)]


def run(ctx):
    names = "GnssSim::sample|ImuSim::sample|GnssSim::range|WaypointFollower::follow|SimCar::controller|Dynamics::step".split("|")
    vec = r"vector<mc::meas::GnssObs[^(]*::(emplace_back|push_back|clear|~vector|vector|operator=|resize|swap)[<(]"
    common = [r"GnssSim::range", r"randomNormal", r"UTCTime::operator[-+]\(", r"UTCTime::toSec", vec, r"normal_distribution", r"DQuat", r"Quat<", r"^[^(]*vector<[^(]*::erase"]
    m = ir.load([H, "sim/sim.cxx", "common/utctime.cxx"], ["^vs_step", "^vs_reg"], inline=[r".*"], keep=names + common + [r"std::function<[^(]*\(.*\)>::operator=", r"std::function<[^(]*\(.*\)>::operator\(\)", r"std::function<[^(]*\(.*\)>::swap", r"::~?function\("])
    step(ctx, m)
    m = ir.load([H, "sim/sensors/imu.cxx", "sim/sensors/gnss.cxx", "common/utctime.cxx"], ["^vs_(imu|gnss|gps|glo|gal)$"], inline=[r".*"], keep=common)
    for k in ("imu", "gnss"):
        sensor(ctx, m, k)
    for k in EPH:
        ephem(ctx, m, k)


def step(ctx, m):
    ctx.add("functions", "Sim::step, Sim::register*")
    g = vg.VG(m, m.find("^vs_step$"), summaries=SUM)
    calls = {}
    for e in g.events:
        r = re.search(r"std::function<void \((.*)\)>::operator\(\)", e.dem)
        if r:
            calls.setdefault(next((k for k, a in ARG.items() if r.group(1).startswith(a)), r.group(1)), []).append(e)
    ctx.ob("callbacks", set(calls) == set(ARG), STEP, "callbacks called: %s" % ", ".join(sorted(calls)))
    member = {}
    for k, es in calls.items():
        if k not in SENS:
            continue
        ss = [e for e in g.events if SENS[k][1] in e.dem]
        if not ss:
            ctx.ob("called/" + k, False, STEP, "the sensor is not sampled in the step")
            continue
        bad = None
        for i, e in enumerate(es):
            for o in es[:i]:
                if prop.sat(vg.AND(e.guard, o.guard)):
                    bad = bad or "it may be called twice"
            p = e.args[0]
            if p.op != "ptr" or p.a[0] != ("arg", 0):
                bad = bad or "the callback called is %s" % vg.show(p, 3)
                continue
            member.setdefault(k, set()).add(p.a[1])
            # set when called: its manager pointer at that point
            mgr = [g.mem(x.state, p.a[0], p.a[1] + 16, 8, 64) for x in es + ss]
            mgr += [t for t in vg.subterms(e.guard) if t.op == "init" and t.a[0] == p.a[0] and t.a[1] == p.a[1] + 16]
            got = [t for t in vg.subterms(e.guard) if t.op == "sym" and SENS[k][1] in str(t.a[0])]
            isnull = lambda x: x.op == "init" and x.a[0] == p.a[0] and x.a[1] == p.a[1] + 16
            null = vg.rewrite(e.guard, lambda x: vg.c(0, 64) if isnull(x) and x.w == 64 else vg.mk("null", (), "p") if isnull(x) else None, {})
            if prop.sat(null):
                bad = bad or "it may be called when empty"
            none = vg.rewrite(e.guard, lambda x: vg.FALSE if x in got else None, {})
            if prop.sat(none):
                bad = bad or "it may be called when the sensor delivered nothing"
            # payload
            src = None
            for s in ss:
                q = s.args[-1]
                t = g.mem(s.state, q.a[0], q.a[1], 8, "p") if q.op == "ptr" and not q.a[2] and q.a[0][0] == "alloca" else q
                src = (s, t if t.op == "ptr" and t.a[0][0] == "alloca" else q)
            s, t = src
            a = e.args[-1]
            same = a is t
            if not same and a.op == "ptr" and t.op == "ptr":
                cp = [c for c in g.events if s.seq < c.seq < e.seq and c.args and c.args[0] is a and any(x is t for x in c.args[1:] if isinstance(x, vg.T))]
                size = m.type("mc::meas::ImuSample")["size"] if k == "imu" else 0
                same = bool(cp) or size and all(g.mem(e.state, a.a[0], a.a[1] + 8 * i, 8, 64) is g.mem(e.state, t.a[0], t.a[1] + 8 * i, 8, 64) for i in range(size // 8))
            if not same:
                bad = bad or "it is not given what the sensor delivered"
        live = vg.FALSE
        for e in es:
            p = e.args[0]
            live = vg.OR(live, vg.rewrite(e.guard, lambda x: notnull(x, p) if x.op == "icmp" else vg.TRUE if x.op == "sym" and SENS[k][1] in str(x.a[0]) else None, {}))
        if bad is None and prop.sat(vg.NOT(live)):
            bad = "it may be left out although it is set and the sensor delivered"
        ctx.ob("called/" + k, bad is None, STEP, "callback of %s: %s" % (k, bad))
    for k in ARG:
        g = vg.VG(m, m.find("^vs_reg_%s$" % k), summaries=SUM)
        off = member.get(k, {None})
        hit = [e for e in g.events if e.kind == "call" and any(isinstance(a, vg.T) and a.op == "ptr" and a.a[0] == ("arg", 0) and a.a[1] in off for a in e.args)]
        others = [e for e in g.events if e.kind == "call" and any(isinstance(a, vg.T) and a.op == "ptr" and a.a[0] == ("arg", 0) and a.a[1] not in off for a in e.args)]
        direct = [o for o, c in g.final.mem.items() if o == ("arg", 0) and any(x in off or x - 24 in off or x - 16 in off for x in c)]
        ok = bool(direct) or any(not prop.sat(vg.NOT(e.guard)) for e in hit)
        ctx.ob("registers/" + k, ok and not others, "sim/sim.h Sim::register*", "registering a callback for %s does not set the one that is called" % k)


def notnull(x, p):
    """a comparison of the callback's manager pointer with null: it is set"""
    if x.op == "icmp" and x.a[0] in ("eq", "ne"):
        for a, b in ((x.a[1], x.a[2]), (x.a[2], x.a[1])):
            if a.op == "init" and a.a[0] == p.a[0] and a.a[1] == p.a[1] + 16 and (b.op == "null" or b.op == "c" and b.a[0] == 0):
                return vg.b(x.a[0] == "ne")
    return None


def other(g, ev, want):
    """may the function return anything but want"""
    for gd, st, rv in g.rets:
        v = ev(rv) if rv.w == 1 else ev(vg.mk("icmp", ("ne", rv, vg.c(0, rv.w)), 1))
        if prop.sat(vg.AND(ev(gd), vg.NOT(v) if want else v)):
            return True
    return False


def leaves(v):
    return leaves(v.a[1]) | leaves(v.a[2]) if v.op == "ite" else {v}


def settle(g, ev, t):
    """the value of a memory cell after merges of paths and block copies"""
    t = ev(t)
    while t.op == "init" and isinstance(t.a[3], tuple):
        o, off, sz, tag = t.a[:4]
        if tag[0] == "mrg":
            c = ev(tag[1])
            if c not in (vg.TRUE, vg.FALSE):
                return t
            t = vg.mk("init", (o, off, sz, tag[2 if c is vg.TRUE or c == vg.TRUE else 3]), t.w)
        elif tag[:2] == ("hav", "memcpy"):
            e = sorted((e for e in g.events if e.kind == "memcpy" and e.seq <= tag[2]), key=lambda e: -e.seq)
            if not e or e[0].args[0].op != "ptr" or e[0].args[0].a[0] != o or e[0].args[0].a[2]:
                return t
            t = ev(g.load(e[0].state, g.ptr_add(e[0].args[1], off - e[0].args[0].a[1], []), sz, t.w))
        else:
            return t
    return t


def sensor(ctx, m, k):
    w, cls = SENS[k][0], {"imu": "mc::sim::sensors::ImuSim", "gnss": "mc::sim::sensors::GnssSim"}[k]
    ctx.add("functions", w.split()[-1])
    g = vg.VG(m, m.find("^vs_%s$" % k), summaries=SUM)
    F = {n: o for n, o, s, _ in m.fields(cls)}
    O = {n: o for n, o, s, _ in m.fields(cls + "::Options")}
    rate = [o for n, o in O.items() if "rate" in n]
    ctx.need("prev_t_" in F and len(rate) == 1, "last sample time and rate of " + cls)
    rate = F["options_"] + rate[0]
    prev = F["prev_t_"]
    S, T, Z = ("arg", 0), ("arg", 1), ("arg", 3)
    bad = {}
    n = 0
    for r in (1.0, 5.0, 250.0, 0.5, 7.0):
        for base in (0, 100 * 10**9 + 999_999_000, 1_400_000_000 * 10**9 + 5):
            for f in (Fraction(-3), Fraction(0), Fraction(1, 2), Fraction(999, 1000), Fraction(1001, 1000), Fraction(3, 2), Fraction(40)):
                d = int(Fraction(10**9) * f / Fraction(r))
                p0, t0 = divmod(base, 10**9), divmod(base + d, 10**9)

                def look(x):
                    if x.op == "init" and x.a[0] == S and x.a[1] == rate:
                        return num(r, x.w)
                    if x.op == "init" and x.a[0] == S and x.a[1] in (prev, prev + 8):
                        return num(p0[(x.a[1] - prev) // 8], x.w)
                    if x.op == "init" and x.a[0] == T and x.a[1] in (0, 8):
                        return num(t0[x.a[1] // 8], x.w)
                    return None
                ev = Num(look)
                want = f >= 1
                n += 1
                where = "%g of the period of %g Hz after the last sample" % (f, r)
                if other(g, ev, want):
                    bad.setdefault("rate", "%s it reports %s" % (where, "none" if want else "a sample"))
                    continue
                # the time kept
                now = t0 if want else p0
                for i in (0, 1):
                    v = ev(g.mem(g.final, S, prev + 8 * i, 8, 64))
                    if any(x != vg.c(now[i], 64) for x in leaves(v)):
                        bad.setdefault("time kept", "%s the time of the last sample becomes %s" % (where, vg.show(v, 4)))
                zt = {a: b for a, b, _, _ in m.fields("mc::meas::ImuSample")}["t"]
                if k == "imu":
                    for i in (0, 1):
                        v = ev(g.mem(g.final, Z, zt + 8 * i, 8, 64))
                        if want and v != vg.c(now[i], 64):
                            bad.setdefault("stamp", "the sample's time is %s" % vg.show(v, 4))
                if not want:
                    for off, cell in list(g.final.mem.get(Z, {}).items()):
                        v = ev(cell[1])
                        if not (v.op == "init" and v.a[0] == Z and v.a[1] == off):
                            bad.setdefault("untouched", "%s the output is written" % where)
                    for e in g.events:
                        if any(isinstance(a, vg.T) and a.op == "ptr" and a.a[0] == Z for a in e.args) and prop.sat(ev(e.guard)):
                            bad.setdefault("untouched", "%s the output is changed by %s" % (where, e.dem[:60]))
    if k == "gnss":
        r = ir.load(["sim/sensors/gnss.cxx"], ["GnssSim::range\\("], inline=[r".*"], keep=[r"normal_distribution"])
        h = vg.VG(r, r.find(r"GnssSim::range\("), summaries=SUM)
        for i in (0, 1):
            v = h.mem(h.final, S, prev + 8 * i, 8, 64)
            if not (v.op == "init" and v.a[:2] == (S, prev + 8 * i) and v.a[3] == 0):
                bad.setdefault("time kept", "GnssSim::range makes the time of the last sample %s" % vg.show(v, 4))
    for key in ["rate", "time kept", "untouched"] + (["stamp"] if k == "imu" else []):
        ctx.ob("%s/%s" % (k, key), key not in bad, w, bad.get(key, ""))
    ctx.add("times", "%d times and rates of the %s sensor" % (n, k))
    if k == "gnss":
        observations(ctx, m, g, w)


def observations(ctx, m, g, w):
    O = {n: (o, s) for n, o, s, _ in m.fields("mc::meas::GnssObservation")}
    B = {n: o for n, o, s, _ in m.fields("mc::satellite::SatelliteBase")}
    size = m.type("mc::meas::GnssObservation")["size"]
    Z, T = ("arg", 3), ("arg", 1)
    add = [e for e in g.events if re.search(r"vector<mc::meas::GnssObs[^(]*::(emplace_back|push_back)[<(]", e.dem)]
    ctx.ob("gnss/adds", len(add) >= 1, w, "no observation is added")
    old = [e for e in g.events if re.search(r"vector<mc::meas::GnssObs[^(]*::(clear|operator=|swap|resize)", e.dem) and not e.loops and e.args and any(y.op == "init" and y.a[0] == Z or y.op == "ptr" and y.a[0] == Z for a in e.args if isinstance(a, vg.T) for y in vg.subterms(a))]
    ctx.ob("gnss/fresh", bool(add) and all(any(o.seq < e.seq and prop.entails(e.guard, o.guard) for o in old) for e in add), w, "the observations of earlier samples are not dropped first")
    rng = [e for e in g.events if "GnssSim::range(" in e.dem]
    sats = {e.args[2] for e in rng}
    ctx.ob("gnss/one satellite", len(sats) == 1 and len(rng) == len(add) == 1, w, "ranges of %d satellites for %d observations" % (len(sats), len(add)))
    if not add or len(sats) != 1:
        return
    sat = sats.pop()

    def field(n, k, sz):
        off = O[n][0] + k
        for e in add:
            if len(e.args) > 1 and isinstance(e.args[-1], vg.T) and e.args[-1].op == "ptr" and e.args[-1].a[0][0] == "alloca":
                a = e.args[-1]
                return g.mem(e.state, a.a[0], a.a[1] + off, sz, 8 * sz)
        for l in g.loops.values():
            for o, c in l.bst.mem.items():
                if o[0] == "deref" and any(y.op == "init" and y.a[0] == Z for y in vg.subterms(o[1])) and off - size in c:
                    return c[off - size][1]
        return None
    for i in (0, 1):
        t = field("t", 8 * i, 8)
        ctx.ob("gnss/stamp%d" % i, t is not None and t.op == "init" and t.a[0] == T and t.a[1] == 8 * i, w, "the time of an observation is %s" % (vg.show(t, 4) if t is not None else "not set"))
    for n, b in (("gnss_id", "gnss_id_"), ("sat_num", "sat_")):
        t = field(n, 0, 1)
        ok = False
        if t is not None:
            for x in vg.subterms(t):
                if x.op == "init" and x.a[0][0] == "deref" and x.a[0][1] is sat and x.a[1] == B.get(b, -1):
                    ok = True
        ctx.ob("gnss/" + n, ok, w, "%s of an observation is %s" % (n, vg.show(t, 4) if t is not None else "not set"))


def ephem(ctx, m, k):
    w = SENS[k][0]
    ctx.add("functions", w.split()[-1])
    g = vg.VG(m, m.find("^vs_%s$" % k), summaries=SUM)
    F = {n: o for n, o, s, _ in m.fields("mc::sim::sensors::GnssSim")}
    S, T, Z = ("arg", 0), ("arg", 1), ("arg", 2)
    es = m.type("mc::ephemeris::" + EPH[k])["size"]
    q = F.get(k + "_ephemerides_")
    ctx.need(q is not None, "queue of %s ephemerides" % k)
    tup = (es + 7) // 8 * 8 + 16
    beg = [t for e in g.events for a in [e.guard] + [x for x in e.args if isinstance(x, vg.T)] for t in vg.subterms(a) if t.op == "init" and t.a[0] == S and t.a[1] == q]
    ctx.ob(k + "/queue", bool(beg), w, "the queue of its own ephemerides is not looked at")
    if not beg:
        return
    bad = None
    er = [e for e in g.events if "::erase(" in e.dem]
    for name, qt, due in (("empty", None, False), ("due", (100, 5), True), ("due now", (100, 600), True), ("due, other second", (99, 900), True), ("a nanosecond early", (100, 601), False), ("early", (101, 0), False)):
        def look(x):
            if x.op == "init" and x.a[0] == T and x.a[1] in (0, 8):
                return num((100, 600)[x.a[1] // 8], x.w)
            if x.op == "init" and x.a[0] == S and x.a[1] in (q, q + 8) and x.w != "p":
                return vg.c(4096 if x.a[1] == q or qt is None else 4096 + 2 * tup, x.w)
            if x.op == "init" and x.a[0] == S and x.a[1] in (q, q + 8):
                return vg.mk("ptr", (("queue",), 0 if x.a[1] == q or qt is None else 2 * tup, ()), "p")
            if qt and x.op == "init" and x.a[0][0] == "deref" and x.a[0][1] in beg and x.a[1] in (tup - 16, tup - 8):
                return num(qt[(x.a[1] - tup + 16) // 8], x.w)
            return None
        ev = Num(look)
        if other(g, ev, due):
            bad = bad or "front %s: it reports %s" % (name, "none" if due else "one")
        live = [e for e in er if prop.sat(ev(e.guard))]
        if (len(live) != 1) if due else live:
            bad = bad or "front %s: %d are removed" % (name, len(live))
        for e in live:
            if len(e.args) < 2 or not any(a in beg for a in e.args[1:]):
                bad = bad or "not the oldest is removed"
        if qt is None:
            for rw, p, n_, cond, ins in g.accesses:
                if p.op in ("ptr", "init") and any(y in beg for y in vg.subterms(p)) and (p.op != "ptr" or p.a[0][0] == "deref" and p.a[0][1] in beg) and prop.sat(ev(cond)):
                    bad = bad or "an empty queue is read"
        for off in range(0, es // 4 * 4, 4):
            v = settle(g, ev, g.mem(g.final, Z, off, 4, 32))
            if v.op in ("trunc", "lshr") or v.op == "trunc" and v.a[0].op == "lshr":
                inner = [y for y in vg.subterms(v) if y.op == "init" and y.a[0][0] != "arg" or y.op == "init" and y.a[0] == Z]
                v = inner[0] if len(inner) == 1 and inner[0].a[1] in (off, off - 4) else v
                v = vg.mk("init", (v.a[0], off) + v.a[2:], v.w) if v.op == "init" else v
            ok = v.op == "init" and (v.a[0] == Z if not due else v.a[0][0] == "deref" and v.a[0][1] in beg) and v.a[1] == off
            if not ok:
                bad = bad or "front %s: byte %d of the output is %s" % (name, off, vg.show(v, 4))
                break
    ctx.ob(k + "/due", bad is None, w, bad or "")
