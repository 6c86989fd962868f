import math
from fractions import Fraction
import ir, vg, pit
from pit import K, D
from lielib import qmul, rotm, tr, mat, sub, add, conj, pure, unitq, vec
TITLE = "Geodetic conversions round-trip"
TECH = "value graphs of the conversions (loop as a fixed point) compared with the ellipsoid's definition by algebraic identity testing (LLVM IR)"
RULE = """Geodetic to earth-centred must be the WGS-84 formula identically. The iteration of the way back must keep the solution z = (N+h) sin(lat), keep nothing else and not end while its step is above a centimetre (the error left is below
1/100 of the step outside the core, where the map contracts); what it returns at the solution must be latitude, longitude and height of the point the formula gives, for both signs of each coordinate, and at the poles. The local-level
rotation must have north, east and down as its axes, its pose must sit at the point, and the pose conversions, lla2ned and ned2lla must be that pose applied to the converted points."""
ASSUME = ("exact arithmetic; the ellipsoid constants are taken as the library's A and B, which are those of WGS-84 to 1e-9", "the iteration's contraction factor, e2*N/(N+h), is below 0.01 outside the core")
H = ir.VERIF + "/harness/geo.cxx"
W = "utils/wgs84.cxx WGS84::"
A, B = Fraction(6378137), Fraction(6356752.314245)
E2 = 1 - (B / A) ** 2
KNOWN = [A, B, E2, 1 - E2, A * A, B * B, A * E2, A * (1 - E2), E2 / (1 - E2), 1 / (1 - E2), A / B, B / A, (A - B) / A, A * A * E2, 1 / A, 1 / B, B * E2 / (1 - E2)]
LOAD = dict(inline=ir.DEFAULT_INLINE + [r"^v3\(", r"^d8\(", r"^put\b", r"std::|__gnu_cxx"], extra=["-fno-access-control"])


def snap(v):
    """constants of the ellipsoid, rounded by the compiler"""
    for k in KNOWN:
        if abs(Fraction(v) - k) <= k * Fraction(1, 10 ** 9):
            return k
    return Fraction(v)


KA, KE = K(A), K(E2)


def ecef(p, la, lo, h):
    (s, c), (sl, cl) = p.trig(la), p.trig(lo)
    v = KA / (K(1) - KE * s * s).sqrt()
    return [(v + h) * c * cl, (v + h) * c * sl, (v * (K(1) - KE) + h) * s], v


class Lib:
    def __init__(self, ctx):
        self.ctx = ctx
        self.full = ir.load([H, "utils/wgs84.cxx"], ["^vs_(ecef2llap?|lla2ecefp?)$"], **LOAD)
        self.m = ir.load([H, "utils/wgs84.cxx"], ["^vs_", "__cxx_global_var_init"], keep=[r"WGS84::(ecef2lla|lla2ecef)\("], **LOAD)
        self.glob = {}
        for f in self.m.find(r"__cxx_global_var_init", unique=False):
            g = vg.VG(self.m, f)
            for ob, cells in g.final.mem.items():
                if ob[0] == "glob":
                    for o, (s, t) in cells.items():
                        self.glob[ob, o] = t

    def fn(self, name, full=False, unroll=300):
        m = self.full if full else self.m
        f = m.find(r"^vs_%s$" % name)
        self.ctx.add("functions", name)

        def conv(k):
            def h(g, st, ins, args):
                two = "*)" in ins.get("cdem", "")
                i, o = (args[0], args[1]) if two else (args[1], args[0])
                v = [g.load(st, g.ptr_add(i, 8 * j, []), 8, "f") for j in range(3)]
                for j in range(3):
                    g.store(st, g.ptr_add(o, 8 * j, []), 8, vg.mk("call", ("%s%d" % (k, j),) + tuple(v), "f"))
                return vg.c(0, 32)
            return h
        g = vg.VG(m, f, unroll=unroll, summaries=[] if full else [(r"WGS84::ecef2lla\(", conv("L")), (r"WGS84::lla2ecef\(", conv("E"))])
        return g

    def out(self, g, n):
        return [g.mem(g.final, ("arg", 2), 8 * i, 8, "f") for i in range(n)]


def run(ctx):
    lib = Lib(ctx)

    def inputs(p, a, b=()):
        def at(t):
            if t.op == "init" and t.w == "f":
                if t.a[0] in (("arg", 0), ("arg", 1)) and t.a[1] % 8 == 0:
                    v = (a, b)[t.a[0][1]]
                    return v[t.a[1] // 8] if t.a[1] // 8 < len(v) else None
                c = lib.glob.get((t.a[0], t.a[1]))
                if c is not None:
                    return p(c)
            if t.op == "call" and t.a[0] in ("E0", "E1", "E2"):
                return ecef(p, *[p(x) for x in t.a[1:4]])[0][int(t.a[0][1])]
            return None
        p.atom = at

    def lla(p, sl=None, cl=None, h=None, s=None):
        """a place, with the half angles the rotation uses"""
        u, w = D(p.rnd()), D(p.rnd())
        p.angle(value=w.v)
        p.angle(value=u.v)
        la, lo = u + u, w + w
        s1, c1 = p.trig(la)
        if not pit.issq(c1.v) or s is not None and pit.issq(s1.v) != s:
            raise pit.Resample
        s2, c2 = p.trig(lo)
        if sl is not None and (pit.issq(s2.v), pit.issq(c2.v)) != (sl, cl):
            raise pit.Resample
        # half of -(90 degrees + latitude)
        q = K(Fraction(math.pi / 4))
        su, cu = p.trig(u)
        r = pit.root(inv2)
        x = (-q - u).v
        p.ang.append((x, (-(su + cu) * D(r)).v, ((cu - su) * D(r)).v))
        p.ang.append((2 * x % pit.Q, (-c1).v, (-s1).v))
        hh = D(p.rnd())
        return la, lo, hh
    inv2 = (K(1) / K(2)).v
    # geodetic to earth-centred
    for name in ("lla2ecef", "lla2ecefp"):
        ts = lib.out(lib.fn(name, full=True), 3)

        def fwd(seed):
            p = pit.Point(seed, snap=snap)
            x = lla(p)
            inputs(p, x)
            want = ecef(p, *x)[0]
            return [p(t) for t in ts] == want
        ctx.ob(name, all(pit.points(3, fwd)), W + "lla2ecef", "the coordinates are %s" % [vg.show(t, 9)[:160] for t in ts])
    for name in ("ecef2lla", "ecef2llap"):
        back(ctx, lib, name, lla, inputs)
    # local level
    lev = {}

    def level(p, x):
        """north, east, down and the origin"""
        (s, c), (sl, cl) = p.trig(x[0]), p.trig(x[1])
        return [-s * cl, -s * sl, c, -sl, cl, K(0), -c * cl, -c * sl, -s], ecef(p, *x)[0]
    ts = lib.out(lib.fn("qe2n"), 4)

    def q(seed):
        p = pit.Point(seed, snap=snap)
        x = lla(p)
        inputs(p, x)
        o = [p(t) for t in ts]
        return passive(o) == level(p, x)[0]
    ctx.ob("q_e2n", all(pit.points(3, q)), W + "q_e2n", "the axes of the rotation are not north, east and down")
    for name in ("dq", "dqp"):
        td = lib.out(lib.fn(name), 8)

        def dq(seed):
            p = pit.Point(seed, snap=snap)
            x = lla(p)
            e = [D(p.rnd()) for _ in range(3)]
            inputs(p, e)
            at = p.atom

            def atom(t):
                if t.op == "call" and t.a[0] in ("L0", "L1", "L2"):
                    if [p(y) for y in t.a[1:4]] == e:
                        return x[int(t.a[0][1])]
                    return D(p.rnd())
                return at(t)
            p.atom = atom
            o = [p(t) for t in td]
            return passive(o[:4]) == level(p, x)[0] and trans(o) == e
        ctx.ob(name, all(pit.points(3, dq)), W + "dq_ecef2ned", "the pose is not the local level at the point")
    for name in ("ned2ecef", "ned2ecefp", "ecef2ned", "ecef2nedp"):
        to = lib.out(lib.fn(name), 3)

        def tf(seed):
            p = pit.Point(seed, snap=snap)
            r, t = unitq(p), vec(p, 3)
            Q = r + [x / K(2) for x in qmul(pure(t), r)]
            v = vec(p, 3)
            inputs(p, Q, v)
            R = rotm(r, K(1))
            want = add(mat(R, v), t) if name.startswith("ned") else mat(tr(R), sub(v, t))
            return [p(x) for x in to] == want
        ctx.ob(name, all(pit.points(3, tf)), W + name.rstrip("p"), "is not the pose applied to the point")
    for name in ("lla2ned", "lla2nedp"):
        tn = lib.out(lib.fn(name), 3)

        def l2n(seed):
            p = pit.Point(seed, snap=snap)
            x, y = lla(p), lla(p)
            inputs(p, x, y)
            R, t = level(p, x)
            return [p(z) for z in tn] == mat(R, sub(ecef(p, *y)[0], t))
        ctx.ob(name, all(pit.points(3, l2n)), W + "lla2ned", "is not the second point in the local level frame of the first")
    for name in ("ned2lla", "ned2llap"):
        tl = lib.out(lib.fn(name), 3)
        ok = all(t.op == "call" and t.a[0] == "L%d" % i and t.a[1:] == tl[0].a[1:] for i, t in enumerate(tl))

        def n2l(seed):
            p = pit.Point(seed, snap=snap)
            x, v = lla(p), vec(p, 3)
            inputs(p, x, v)
            R, t = level(p, x)
            return [p(z) for z in tl[0].a[1:4]] == add(mat(tr(R), v), t)
        ctx.ob(name, ok and all(pit.points(3, n2l)), W + "ned2lla", "is not the geodetic form of the point the pose gives: %s" % [vg.show(t, 6)[:150] for t in tl])


def passive(q):
    return tr(rotm(q, K(1)))


def trans(o):
    t = qmul(o[4:], conj(o[:4]))
    return [K(2) * x for x in t[1:]]


def back(ctx, lib, name, lla, inputs):
    g = lib.fn(name, full=True, unroll=0)
    ts = lib.out(g, 3)
    Ls = [L for L in g.loops.values() if any(x.op == "lphi" and x.a[0] == L.tag for t in ts for x in vg.subterms(t)) or
          any(x in L.next.values() for t in ts for x in vg.subterms(t))]
    w = W + "ecef2lla"
    ctx.ob(name + "/iteration", len(Ls) == 1, w, "the result comes from %d loops" % len(Ls))
    if len(Ls) != 1:
        return
    L = Ls[0]
    phi = {k: vg.mk("lphi", (L.tag, k), v.w) for k, v in L.next.items()}
    fl = [k for k in phi if phi[k].w == "f"]
    ctx.need(len(fl) <= 4, "more state in the loop than the rule can name")
    names = ["z", "N", "sin", "lat"]

    def place(seed, guard=None, sg=None, kinds=None):
        p = pit.Point(seed, snap=snap, guard=guard)
        x = lla(p, *(sg or ()))
        e, v = ecef(p, *x)
        if not pit.issq((v + x[2]).v):
            raise pit.Resample
        inputs(p, e)
        sp = p.trig(x[0])[0]
        val = {"z": (v + x[2]) * sp, "N": v, "sin": sp, "lat": x[0]}
        if kinds:
            at = p.atom
            p.atom = lambda t: val[kinds[t.a[1]]] if t.op == "lphi" and t.a[0] == L.tag and t.a[1] in kinds else at(t)
        return p, x, val

    # numeric places, to decide branches
    def num(la, lo, h):
        e2 = float(E2)
        N = float(A) / math.sqrt(1 - e2 * math.sin(la) ** 2)
        e = [(N + h) * math.cos(la) * math.cos(lo), (N + h) * math.cos(la) * math.sin(lo), (N * (1 - e2) + h) * math.sin(la)]
        return e, {"z": (N + h) * math.sin(la), "N": N, "sin": math.sin(la), "lat": la}

    def fpoint(e, val, kinds):
        def at(t):
            if t.op == "init" and t.a[0] == ("arg", 0):
                return pit.F(e[t.a[1] // 8])
            if t.op == "lphi" and t.a[0] == L.tag:
                return pit.F(val[kinds[t.a[1]]] if t.a[1] in kinds else 5.0)
            return None
        return pit.FPoint(at)
    # which quantity each variable of the loop holds
    import itertools
    ref = num(0.7, 0.4, 100.0)
    found = []
    for c in itertools.product(names, repeat=len(fl)):
        kinds = dict(zip(fl, c))
        gd = memo(fpoint(*ref, kinds).truth)
        try:
            if all(pit.points(2, lambda sd: keeps(place(sd, gd, None, kinds), L, kinds, phi))):
                found.append(kinds)
        except vg.Broken:
            pass
    ctx.ob(name + "/solution is kept", len(found) >= 1, w, "latitude and height of the point are not kept by the iteration: %s" % "; ".join(vg.show(L.next[k], 9)[:200] for k in fl))
    if not found:
        return
    kinds = found[0]
    main = [k for k in fl if any(x is phi[k] for x in vg.subterms(L.next[k]))] or fl
    gd = memo(fpoint(*ref, kinds).truth)

    def other(seed):
        p, x, val = place(seed, gd)
        r = {k: D(p.rnd()) for k in fl}
        at = p.atom
        p.atom = lambda t: r[t.a[1]] if t.op == "lphi" and t.a[0] == L.tag and t.a[1] in r else at(t)
        return all(p(L.next[k]) == r[k] for k in main)
    ctx.ob(name + "/only the solution is kept", not any(pit.points(3, other)), w, "the iteration keeps a value that does not belong to the point")
    steps = {}

    def isstep(t):
        """the change of a variable in one round"""
        if t not in steps:
            def eq(seed, k):
                p, x, val = place(seed, gd)
                r = {j: D(p.rnd()) for j in fl}
                at = p.atom
                p.atom = lambda u: r[u.a[1]] if u.op == "lphi" and u.a[0] == L.tag and u.a[1] in r else at(u)
                d = p(L.next[k]) - r[k]
                return p(t) in (d, -d)
            steps[t] = next((kinds[k] for k in main if all(pit.points(2, lambda s: eq(s, k)))), None)
        return steps[t]
    TOL = {"z": (1e-8, 1e-2), "N": (1e-8, 1e-2), "sin": (1e-15, 1e-9), "lat": (1e-15, 1e-9)}

    def decide(big):
        def f(t):
            if t.op == "fcmp" and t.a[0] in ("olt", "ole"):
                for x, y, r in ((t.a[1], t.a[2], 1), (t.a[2], t.a[1], 0)):
                    if x.op == "cf" and y.op == "call" and y.a[0] == "fabs":
                        k = isstep(y.a[1])
                        if k and TOL[k][0] <= vg.fval(x) <= TOL[k][1]:
                            return vg.TRUE if bool(r) == big else vg.FALSE
            return None
        return f
    cnt = [k for k in phi if phi[k].w != "f"]
    early, late = [], True
    for k in range(10):
        out = vg.FALSE
        for (_, _), (cd, *_) in L.exits:
            c = vg.rewrite(cd, lambda t: vg.c(k, t.w) if t in phi.values() and t.w != "f" else None, {})
            if vg.rewrite(c, decide(True), {}) is not vg.FALSE:
                early.append("round %d: %s" % (k + 1, vg.show(c, 8)[:200]))
            if vg.rewrite(c, decide(False), {}) is vg.TRUE:
                out = vg.TRUE
        late = late and (k == 0 or out is vg.TRUE)
    ctx.ob(name + "/ends converged", not early, w, "the iteration may end while its step is above a centimetre: %s" % "; ".join(early[:2]))
    ctx.ob(name + "/ends", late, w, "the iteration does not end when its step is below 1e-8 m")
    # what is returned at the solution
    bad = []
    n = 0
    for la in (0.7, -0.7, 1e-9, -1.2, math.pi / 2 - 1e-6, -math.pi / 2 + 1e-8, math.pi / 2 - 1.7e-10):
        for lo in (0.4, 2.0, -2.5, -0.4):
            for h in (-1000.0, 0.5, 8000.0, 2e7):
                f = num(la, lo, h)
                gd = memo(fpoint(*f, kinds).truth)
                n += 1

                def outs(seed):
                    p, x, val = place(seed, gd, (lo > 0, abs(lo) < math.pi / 2, None, la > 0), kinds)
                    return [p(t) == y for t, y in zip(ts, x)]
                r = pit.points(1, outs)[0]
                if not all(r):
                    bad.append("at latitude %g, longitude %g, height %g: %s" % (la, lo, h, ", ".join(q for q, k in zip(("latitude", "longitude", "height"), r) if not k)))
    ctx.add("points", "%s: %d places" % (name, n))
    ctx.ob(name + "/result", not bad, w, "differs from the point the conversion started from %s" % "; ".join(bad[:2]))
    bad = []
    for sg in (1, -1):
        for h in (0.0, 100.0, 2e7):
            f = num(sg * math.pi / 2, 0.0, h)
            f[0][0] = f[0][1] = 0.0
            p = fpoint(*f, kinds)
            o = [p(t).v for t in ts]
            if not (abs(o[0] - sg * math.pi / 2) < 1e-10 and abs(o[2] - h) < 1e-4 and o[1] == o[1]):
                bad.append("height %g: %s" % (h, o))
    ctx.ob(name + "/poles", not bad, w, "; ".join(bad[:2]))


def memo(f):
    m = {}

    def g(c):
        if c not in m:
            m[c] = f(c)
        return m[c]
    return g


def keeps(pl, L, kinds, phi):
    p, x, val = pl
    return all(p(L.next[k]) == val[kinds[k]] for k in kinds)
