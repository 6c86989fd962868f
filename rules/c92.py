import math, random
from fractions import Fraction
import ir, vg, pit
from pit import K, D
TITLE = "Look angles and atmospheric delays follow the published models"
TECH = "value graphs of the corrections, split at their branches, compared with the published formulas by algebraic identity testing (LLVM IR)"
RULE = """Azimuth and elevation must be the direction of the line of sight in the receiver's north-east-down frame. The tropospheric delay must be Saastamoinen's model over the standard atmosphere between -100 m and 10 km for a satellite above the
horizon and zero otherwise; the ionospheric delay must be Klobuchar's model with the 2004 coefficients, with its limits on latitude, amplitude, period and phase. Every combination of branches reachable at the sampled places (including both sides of
each limit) is compared as a formula, with every input free. The correction applied to an observation must be these at the receiver's geodetic position and the satellite's look angles."""
ASSUME = ("exact arithmetic; constants are compared to twelve digits", "the second of the day is taken from the library's second of the GPS week plus its leap seconds")
H = ir.VERIF + "/harness/atm.cxx"
SRC = [H, "common/satellite/atm_correction.cxx", "common/satellite/azel.cxx", "utils/wgs84.cxx", "common/utctime.cxx"]
W = "common/satellite/"
ION = [0.1118e-07, -0.7451e-08, -0.5961e-07, 0.1192e-06, 0.1167e+06, -0.2294e+06, -0.1311e+06, 0.1049e+07]
PI = Fraction(math.pi)


def snap(v):
    """constants the compiler rounded: multiples of pi, and decimals of twelve digits"""
    for d in (1, 2, 3, 4, 6, 180, 43200):
        for k in (v / math.pi * d, v * math.pi * d):
            n = round(k)
            if n and abs(n) < 1 << 20 and abs(k - n) < 1e-13 * abs(k):
                return Fraction(n, d) * (PI if k == v / math.pi * d else 1 / PI)
    return Fraction("%.12e" % v)


def C(x):
    return K(Fraction(str(x)))


class Num(pit.FPoint):
    def fn(self, name, args):
        x = [a.v for a in args]
        try:
            return pit.F({"exp": math.exp, "floor": math.floor, "pow": math.pow, "ceil": math.ceil, "trunc": math.trunc, "log": math.log, "hypot": math.hypot, "fmod": math.fmod, "fmin": min, "fmax": max}[name](*x))
        except (KeyError, OverflowError, ValueError, TypeError):
            raise vg.Broken("no numerical value for " + name)

    def truth(self, t):
        if t not in self.__dict__.setdefault("tm", {}):
            self.tm[t] = pit.FPoint.truth(self, t)
        return self.tm[t]


class Exact(pit.Point):
    """exact point in which whole-number functions have the value they have at the numerical one"""

    def __init__(self, seed, num):
        pit.Point.__init__(self, seed, snap=snap, guard=num.truth)
        self.num = num

    def fn(self, name, args):
        if name == "hypot":
            r = K(0)
            for a in args:
                r = r + a * a
            return r.sqrt()
        return pit.Point.fn(self, name, args)

    def pick(self, t):
        """whole-number functions, and the larger or smaller of two"""
        if t.op == "call" and t.a[0] in ("floor", "ceil", "trunc"):
            return K(int(self.num(t).v))
        if t.op == "call" and t.a[0] == "fmod":
            x, y = t.a[1:3]
            return self(x) - self(y) * K(int(math.trunc(self.num(x).v / self.num(y).v)))
        if t.op == "call" and t.a[0] in ("fmin", "fmax"):
            v = sorted(t.a[1:3], key=lambda u: self.num(u).v)
            return self(v[t.a[0] == "fmax"])
        if t.op == "call" and t.a[0] == "fabs":
            x = self(t.a[1])
            return -x if self.num(t.a[1]).v < 0 else x
        return None


def iono(p, flag, lla, az, el, tow):
    """Klobuchar; flag(name, value) tells which side of a limit the numerical place is on"""
    pi = K(PI)
    psi = C(0.0137) / (el / pi + C(0.11)) - C(0.022)
    sa, ca = p.trig(az)
    phi = flag("latitude", lla[0] / pi + psi * ca)
    lam = lla[1] / pi + psi * sa / p.trig(phi * pi)[1]
    pm = phi + C(0.064) * p.trig((lam - C(1.617)) * pi)[1]
    t = flag("day", C(43200) * lam + tow + C(18))
    i = [C(x) for x in ION]
    amp = flag("amplitude", i[0] + pm * (i[1] + pm * (i[2] + pm * i[3])))
    per = flag("period", i[4] + pm * (i[5] + pm * (i[6] + pm * i[7])))
    x = K(2) * pi * (t - C(50400)) / per
    u = C(0.53) - el / pi
    f = K(1) + K(16) * u * u * u
    r = C(5e-9) + flag("phase", amp * (K(1) - x * x / K(2) + x * x * x * x / K(24)))
    return C(299792458) * f * r


def tropo(p, flag, lla, az, el):
    if flag("none", None):
        return K(0)
    h = flag("height", lla[2])
    pres = C(1013.25) * p.fn("pow", [K(1) - C(2.2557e-5) * h, C(5.2568)])
    temp = C(15) - C(6.5e-3) * h + C(273.16)
    e = C(6.108) * C(0.7) * p.fn("exp", [(C(17.15) * temp - C(4684)) / (temp - C(38.45))])
    cz = p.trig(el)[0]
    s, c = p.trig(lla[0])
    dry = C(0.0022768) * pres / (K(1) - C(0.00266) * (c * c - s * s) - C(0.00028) * h / K(1000)) / cz
    return dry + C(0.002277) * (C(1255) / temp + C(0.05)) * e / cz


def limits(lla, az, el, tow):
    """the numerical side of every limit: flag for the formulas above"""
    psi = 0.0137 / (el / math.pi + 0.11) - 0.022
    phi = lla[0] / math.pi + psi * math.cos(az)
    cl = max(-0.416, min(0.416, phi))
    lam = lla[1] / math.pi + psi * math.sin(az) / math.cos(cl * math.pi)
    pm = cl + 0.064 * math.cos((lam - 1.617) * math.pi)
    amp = ION[0] + pm * (ION[1] + pm * (ION[2] + pm * ION[3]))
    per = ION[4] + pm * (ION[5] + pm * (ION[6] + pm * ION[7]))
    raw = 43200 * lam + tow + 18
    day = math.floor(raw / 86400)
    x = 2 * math.pi * (raw - 86400 * day - 50400) / max(per, 72000)
    none = lla[2] < -100 or lla[2] > 1e4 or el <= 0

    def flag(n, v):
        if n == "none":
            return none
        if n == "latitude":
            return v if cl == phi else C(cl)
        if n == "day":
            return v - C(86400) * K(day)
        if n == "amplitude":
            return v if amp > 0 else K(0)
        if n == "period":
            return v if per > 72000 else C(72000)
        if n == "phase":
            return v if abs(x) <= 1.57 else K(0)
        if n == "height":
            return v if lla[2] > 0 else K(0)
    return flag, (cl == phi, cl > phi, amp > 0, per > 72000, abs(x) <= 1.57, none, lla[2] > 0), (phi, amp, per - 72000, abs(x) - 1.57)


def samples():
    """places on both sides of every limit, near and far"""
    rng = random.Random(7)
    out = []

    def draw():
        return [rng.uniform(-1.57, 1.57), rng.uniform(-3.1, 3.1), rng.choice([rng.uniform(-99, 0), rng.uniform(0, 9999), 300.0])], rng.uniform(-3.1, 3.1), rng.uniform(0.02, 1.55), rng.uniform(0, 604000)
    seen = {}
    for _ in range(6000):
        s = draw()
        k = limits(*s)[1]
        if seen.setdefault(k, 0) < 3:
            seen[k] += 1
            out.append(s)
    # close to the limits, by bisection between places on either side
    base = [draw() for _ in range(40)]

    def mix(a, b, u):
        return [x + (y - x) * u for x, y in zip(a[0], b[0])], a[1] + (b[1] - a[1]) * u, a[2] + (b[2] - a[2]) * u, a[3] + (b[3] - a[3]) * u
    for j in range(5):
        found = 0
        for a in base:
            for b in base[:10]:
                ka, kb = limits(*a)[1][j], limits(*b)[1][j]
                if ka != kb and found < 6:
                    lo, hi = 0.0, 1.0
                    for _ in range(30):
                        mid = (lo + hi) / 2
                        if limits(*mix(a, b, mid))[1][j] == ka:
                            lo = mid
                        else:
                            hi = mid
                    out += [mix(a, b, max(0, lo - 1e-6)), mix(a, b, min(1, hi + 1e-6))]
                    found += 1
    for h in (-100.5, -99.5, -0.5, 0.5, 9999.5, 10000.5, 2e5):
        out.append(([0.7, 1.0, h], 0.5, 0.6, 40000.0))
    for el in (1e-4, 0.01, 1.57):
        out.append(([0.7, 1.0, 10.0], 0.5, el, 40000.0))
    return out


def ecef(la, lo, h):
    e2 = 0.0066943799901
    N = 6378137.0 / math.sqrt(1 - e2 * math.sin(la) ** 2)
    return [(N + h) * math.cos(la) * math.cos(lo), (N + h) * math.cos(la) * math.sin(lo), (N * (1 - e2) + h) * math.sin(la)]


def axes(la, lo):
    s, c, sl, cl = math.sin(la), math.cos(la), math.sin(lo), math.cos(lo)
    return [-s * cl, -s * sl, c], [-sl, cl, 0.0], [-c * cl, -c * sl, -s]


def run(ctx):
    m = ir.load(SRC, ["^vs_", "__cxx_global_var_init"], inline=ir.DEFAULT_INLINE + [r"std::|__gnu_cxx"], keep=[r"WGS84::ecef2lla\(", r"GpsTow"], extra=["-fno-access-control"])

    glob = {}
    for f in m.find(r"__cxx_global_var_init", unique=False):
        for ob, cells in vg.VG(m, f).final.mem.items():
            if ob[0] == "glob":
                for o, (_, t) in cells.items():
                    glob[ob, o] = t

    def geo(g, st, ins, args):
        two = "*)" in ins.get("cdem", "")
        i, o = (args[0], args[1]) if two else (args[1], args[0])
        v = [g.load(st, g.ptr_add(i, 8 * j, []), 8, "f") for j in range(3)]
        for j in range(3):
            g.store(st, g.ptr_add(o, 8 * j, []), 8, vg.mk("call", ("L%d" % j,) + tuple(v), "f"))
        return vg.c(0, 32)

    def tow(g, st, ins, args):
        return vg.mk("sym", (("tow",), 0), "f") if args[0].op == "ptr" and args[0].a[0] == ("arg", 0) and args[0].a[1] == 0 and not args[0].a[2] else NotImplemented
    fn = {}
    for n in ("azel", "azelv", "azels", "tropo", "iono", "atm"):
        f = m.find("^vs_%s$" % n)
        ctx.add("functions", n)
        g = vg.VG(m, f, summaries=[(r"WGS84::ecef2lla\(", geo), (r"GpsTow", tow)])
        k = len(f["args"]) - 1
        fn[n] = [g.mem(g.final, ("arg", k), 8 * i, 8, "f") for i in range(1 if n in ("tropo", "iono") else 2)], k

    def close(a, b):
        return abs(a.v - b) <= 1e-3 * max(1.0, abs(b))

    def place(n, s, seed):
        """(results, reference) of one function at a sampled place"""
        ts, k = fn[n]
        lla, az, el, tw = s
        flag = limits(*s)[0]
        whole = n not in ("tropo", "iono")
        rec = ecef(*lla)
        N, E, Dn = axes(lla[0], lla[1])
        dr = [math.cos(el) * math.cos(az) * a + math.cos(el) * math.sin(az) * b - math.sin(el) * c for a, b, c in zip(N, E, Dn)]
        los = [2.2e7 * x for x in dr]
        one = rec if whole else lla
        two = (los if n in ("azel", "azelv") else [a + b for a, b in zip(rec, los)]) if whole else [az, el]

        def natom(t):
            if t.op == "init" and t.w == "f" and t.a[0] in (("arg", k - 2), ("arg", k - 1)) and t.a[1] % 8 == 0:
                v = one if t.a[0] == ("arg", k - 2) else two
                return pit.F(v[t.a[1] // 8]) if t.a[1] // 8 < len(v) else None
            if t.op == "init" and (t.a[0], t.a[1]) in glob:
                return num(glob[t.a[0], t.a[1]])
            if t.op == "sym" and t.a[0] == ("tow",):
                return pit.F(tw)
            if t.op == "call" and t.a[0] in ("L0", "L1", "L2"):
                if all(close(num(x), y) for x, y in zip(t.a[1:4], rec)):
                    return pit.F(lla[int(t.a[0][1])])
                raise vg.Broken("geodetic position of another place")
            return None
        num = Num(natom)
        p = Exact(seed, num)
        u, w = D(p.rnd()), D(p.rnd())
        p.angle(value=w.v)
        p.angle(value=u.v)
        la, lo = u + u, w + w
        (s1, c1), (s2, c2) = p.trig(la), p.trig(lo)
        p.ang.append(((la + la).v, (K(2) * s1 * c1).v, (c1 * c1 - s1 * s1).v))
        q = K(PI / 4)
        su, cu = p.trig(u)
        r = D(pit.root((K(1) / K(2)).v))
        x = (-q - u).v
        p.ang.append((x, (-(su + cu) * r).v, ((cu - su) * r).v))
        p.ang.append((2 * x % pit.Q, (-c1).v, (-s1).v))
        L = [la, lo, D(p.rnd())]
        tow_ = D(p.rnd())
        if whole:
            a = [D(p.rnd()) for _ in range(3)]
            b = [D(p.rnd()) for _ in range(3)]
            d = b if n in ("azel", "azelv") else [y - z for y, z in zip(b, a)]
            nn = (d[0] * d[0] + d[1] * d[1] + d[2] * d[2]).sqrt()
            d = [y / nn for y in d]
            no = -s1 * c2 * d[0] - s1 * s2 * d[1] + c1 * d[2]
            ea = -s2 * d[0] + c2 * d[1]
            do = -c1 * c2 * d[0] - c1 * s2 * d[1] - s1 * d[2]
            A = p.atan2(ea, no)
            El = p.atan2(-do, (no * no + ea * ea).sqrt())
        else:
            a, b = L, [D(p.rnd()), p.angle()]
            A, El = b
        se, ce = p.trig(El)
        p.ang.append(((K(PI / 2) - El).v, ce.v, se.v))
        want = [A, El] if n.startswith("azel") else [iono(p, flag, L, A, El, tow_)] if n == "iono" else [tropo(p, flag, L, A, El)] if n == "tropo" else [iono(p, flag, L, A, El, tow_), tropo(p, flag, L, A, El)]

        def atom(t):
            if t.op == "init" and t.w == "f" and t.a[0] in (("arg", k - 2), ("arg", k - 1)) and t.a[1] % 8 == 0:
                v = a if t.a[0] == ("arg", k - 2) else b
                return v[t.a[1] // 8] if t.a[1] // 8 < len(v) else None
            if t.op == "init" and (t.a[0], t.a[1]) in glob:
                return p(glob[t.a[0], t.a[1]])
            if t.op == "sym" and t.a[0] == ("tow",):
                return tow_
            if t.op == "call" and t.a[0] in ("L0", "L1", "L2"):
                return L[int(t.a[0][1])] if [p(y) for y in t.a[1:4]] == a else D(p.rnd())
            return p.pick(t)
        p.atom = atom
        return [p(t) == y for t, y in zip(ts, want)]

    def tell(s):
        return "latitude %.4f, longitude %.4f, height %.1f, azimuth %.3f, elevation %.4f, second of week %.1f" % (s[0][0], s[0][1], s[0][2], s[1], s[2], s[3])
    S = samples()
    kinds = {limits(*s)[1] for s in S}
    ctx.add("cases", "%d places, %d combinations of sides of the limits" % (len(S), len(kinds)))
    for n, names in (("azel", ("azimuth", "elevation")), ("azelv", ("azimuth", "elevation")), ("azels", ("azimuth", "elevation")), ("iono", ("ionospheric delay",)), ("tropo", ("tropospheric delay",)), ("atm", ("ionospheric delay", "tropospheric delay"))):
        bad = [[] for _ in names]
        for s in S if n in ("iono", "tropo") else S[::4] if n == "atm" else S[:6]:
            try:
                r = pit.points(1, lambda sd: place(n, s, sd))[0]
            except vg.Broken as e:
                r = [False] * len(names)
                bad[0].append(str(e)[:150])
                break
            for b, ok in zip(bad, r):
                if not ok:
                    b.append(tell(s))
        for nm, b in zip(names, bad):
            file = "azel.cxx" if n.startswith("azel") else "atm_correction.cxx"
            ctx.ob("%s/%s" % (n, nm.split()[0]), not b, W + file, "the %s differs from the model at %s" % (nm, "; ".join(b[:2])))
    # below the horizon nothing is added by the troposphere
    for el in (-0.3, -1e-4, 0.0):
        s = ([0.7, 1.0, 10.0], 0.5, el, 40000.0)
        ts, k = fn["tropo"]
        num = Num(lambda t: pit.F((s[0] if t.a[0] == ("arg", k - 2) else [s[1], s[2]])[t.a[1] // 8]) if t.op == "init" else None)
        try:
            v = num(ts[0]).v
        except vg.Broken:
            v = None
        ctx.ob("tropo/horizon %g" % el, v == 0.0, W + "atm_correction.cxx", "a satellite %s the horizon gets a tropospheric delay" % ("below" if el else "on"))
