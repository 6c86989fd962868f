from fractions import Fraction
import vg, pit
from pit import K, D
from orblib import Orb, eccentric, SRC
TITLE = "Satellite states follow the broadcast orbit model"
TECH = "value graph of eph2Sat compared with the interface document's equations by algebraic identity testing with dual numbers (LLVM IR)"
RULE = """The term each position and velocity component of eph2Sat (Keplerian) returns is compared with the interface document's equations (mean motion, Kepler's equation, harmonic corrections, rotating node) and with their
time derivative, by evaluating both terms, with derivatives, at random points of a prime field (sin/cos as points of the circle, atan2 as its half angle). The anomaly must be a fixed point of the iteration exactly when it solves
Kepler's equation, and the iteration must not end in its first nine rounds while the step is above 1e-8. glonassOrbit must equal the interface document's equations of motion, RK4 the classical step, and GLONASS propagation must,
for each of 26 intervals, be steps of that method of at most 60 s, all of one sign, adding up to the interval, starting from the ephemeris (first use) or the state held."""
ASSUME = ("random evaluation in a field of about 2^61 elements decides equality of terms", "the velocity may use the correction rates at the corrected argument of latitude (the NGS algorithm the code cites)",
          "GPS values of GM and earth rotation for every Kepler constellation, as the library has them")
GM, OM, C = K(Fraction(3.986005e14)), K(Fraction(7.2921151467e-5)), K(Fraction(299792458.0))

# products of these the compiler folds into one constant are rounded
SNAP = pit.snapper([Fraction(3.986005e14), Fraction(7.2921151467e-5), Fraction(299792458)])


class Kepler:
    """the broadcast model at one evaluation point"""

    def __init__(s, o, E, seed):
        def atom(t):
            if t is E:
                return s.E
            if t.op == "sym" and isinstance(t.a[0], tuple) and t.a[0][0] == "secs":
                (a, b) = t.a[0][1]
                r = s.p.free("secs", rate=1) if {a, b} == {(o.T, 0), (o.E, o.eph["toe"][0])} else s.p.free("clk", rate=1) if {a, b} == {(o.T, 0), (o.E, o.eph["toc"][0])} else None
                return r if r is None or a == (o.T, 0) else -r
            if t.op == "init" and t.a[0] == o.E and t.w == "f" and t.a[1] == o.eph["sqrta"][0]:
                return s.p.free("sqrta", positive=True)
            return None
        s.p = p = pit.Point(seed, atom, SNAP)
        par = lambda n: p(o.par(n))
        s.dt, s.cdt = p.free("secs", rate=1), p.free("clk", rate=1)
        s.e, s.A = par("ecc"), par("sqrta") * par("sqrta")
        s.Md = (GM / (s.A * s.A * s.A)).sqrt() + par("delta_n")
        s.M = par("m0") + s.Md * s.dt
        s.E = D(p.rnd())
        se, ce = p.trig(s.E)
        if not pit.issq((K(1) - s.e * ce).v):
            raise pit.Resample
        s.E = D(s.E.v, (s.Md / (K(1) - s.e * ce)).v)
        s.se, s.ce = p.trig(s.E)
        q = (K(1) - s.e * s.e).sqrt()
        phi = p.atan2(q * s.se, s.ce - s.e) + par("w")
        s2, c2 = p.trig(phi + phi)
        du, dr, di = par("cus") * s2 + par("cuc") * c2, par("crs") * s2 + par("crc") * c2, par("cis") * s2 + par("cic") * c2
        u, r, i = phi + du, s.A * (K(1) - s.e * s.ce) + dr, par("i0") + par("idot") * s.dt + di
        om = par("omega0") + (par("omegadot") - OM) * s.dt - OM * par("toes")
        s.pos = place(p, u, r, i, om)
        # rates of the corrections taken at the corrected argument of latitude (the NGS velocity algorithm)
        s2, c2 = p.trig(u + u)
        w = K(2) * D(phi.d)
        u = D(u.v, (phi.d + ((par("cus") * c2 - par("cuc") * s2) * w).v))
        r = D(r.v, ((s.A * s.e * s.se) * D(s.E.d) + (par("crs") * c2 - par("crc") * s2) * w).v)
        i = D(i.v, (par("idot") + (par("cis") * c2 - par("cic") * s2) * w).v)
        s.pos2 = place(p, u, r, i, om)
        s.poly = par("af0") + par("af1") * s.cdt + par("af2") * s.cdt * s.cdt
        s.rel = K(2) * (GM * s.A).sqrt() * s.e * s.se / (C * C)


def place(p, u, r, i, om):
    (su, cu), (si, ci), (so, co) = p.trig(u), p.trig(i), p.trig(om)
    x, y = r * cu, r * su
    return [x * co - y * so * ci, x * so + y * co * ci, y * si]


def run(ctx):
    o = Orb(ctx, r"eph2Sat\(.*Kepler")
    g = o.g
    W = "%s eph2Sat(Keplerian)" % SRC
    pos, vel = [o.out("pos", i) for i in range(3)], [o.out("vel", i) for i in range(3)]
    es = eccentric(g, pos + vel)
    ctx.ob("kepler/one anomaly", len(es) == 1, W, "candidates for the eccentric anomaly: %s" % [vg.show(e)[:100] for e in es])
    if len(es) != 1:
        return
    ms = pit.points(3, lambda seed: go(o, es[0], seed, pos + vel))
    for k in range(3):
        ctx.ob("kepler/position %s" % "xyz"[k], all(m.p(pos[k]) == m.pos[k] for m in ms), W, "position is %s" % vg.show(pos[k], 14)[:300])
        ctx.ob("kepler/velocity %s" % "xyz"[k], all(m.p(vel[k]) in (m.pos[k].rate(), m.pos2[k].rate()) for m in ms), W, "velocity is %s" % vg.show(vel[k], 14)[:300])
    kepler_loop(ctx, o, es[0], W)
    glonass(ctx, o.m)


def kepler_loop(ctx, o, E, W):
    g = o.g
    Ls = [L for L in g.loops.values() if any(x.op == "lphi" and x.a[0] == L.tag for x in vg.subterms(E))]
    ctx.ob("kepler/iteration", len(Ls) == 1, W, "the anomaly comes from %d loops" % len(Ls))
    if len(Ls) != 1:
        return
    L = Ls[0]
    fl = [k for k, v in L.next.items() if v.w == "f"]
    cn = [k for k, v in L.next.items() if v.w != "f"]
    phi = {k: vg.mk("lphi", (L.tag, k), L.next[k].w) for k in L.next}

    def at(seed, solved):
        p = pit.Point(seed, None, SNAP)
        x = D(p.rnd())
        par = {n: o.par(n) for n in ("ecc", "sqrta", "m0", "delta_n")}
        sx = p.trig(x)[0]

        def atom(t):
            if t in phi.values() and t.w == "f":
                return x
            if t is par["sqrta"]:
                return p.free("sqrta", positive=True)
            if t is par["m0"] and solved:
                A = p.free("sqrta", positive=True) * p.free("sqrta", positive=True)
                return x - p(par["ecc"]) * sx - ((GM / (A * A * A)).sqrt() + p(par["delta_n"])) * p(o.since("toe"))
            return None
        p.atom = atom
        return [p(L.next[k]) == x for k in fl]
    ok = fl and all(all(r) for r in pit.points(3, lambda s: at(s, True)))
    ctx.ob("kepler/solution is kept", bool(ok), W, "a solution of Kepler's equation E - e sin E = M is not kept by the iteration: %s" % "; ".join(vg.show(L.next[k], 9)[:200] for k in fl))
    ctx.ob("kepler/only solutions are kept", not any(any(r) for r in pit.points(3, lambda s: at(s, False))), W, "the iteration keeps a value that does not solve Kepler's equation")
    # leaving the loop: only with a small step or after enough iterations
    bad = []
    for (p_, s_), (cd, *_) in L.exits:
        for k in range(9):
            c = vg.rewrite(cd, lambda t: vg.c(k, t.w) if t in phi.values() and t.w != "f" else None, {})
            c = vg.rewrite(c, lambda t: small(t), {})
            if c is not vg.FALSE:
                bad.append("after iteration %d the loop may end with a step above 1e-8: %s" % (k + 1, vg.show(c, 9)[:200]))
                break
    ctx.ob("kepler/ends converged", not bad, W, "; ".join(bad))


def small(t):
    """comparisons while the step is large"""
    if t.op == "fcmp" and t.a[0] in ("olt", "ole"):
        x, y = t.a[1], t.a[2]
        if x.op == "cf" and 0 < vg.fval(x) <= 1e-8 and y.op == "call" and y.a[0] == "fabs":
            return vg.TRUE
        if y.op == "cf" and 0 < vg.fval(y) <= 1e-8 and x.op == "call" and x.a[0] == "fabs":
            return vg.FALSE
    return None


def glonass(ctx, m):
    W = "%s eph2Sat(Glonass)" % SRC
    # the orbit's equations of motion (GLONASS ICD, appendix J.1 simplified algorithm)
    f = m.find(r"^mc::satellite::glonassOrbit\(")
    g = vg.VG(m, f)
    ctx.add("functions", f["dem"])
    O, X, AC = (("arg", i) for i in range(3))
    x = [g.initial(vg.State(), X, 8 * i, 8, "f") for i in range(6)]
    a = [g.initial(vg.State(), AC, 8 * i, 8, "f") for i in range(3)]
    out = [g.mem(g.final, O, 8 * i, 8, "f") for i in range(6)]
    k = lambda v: K(Fraction(v))

    def orbit(p):
        X, A = [p(t) for t in x], [p(t) for t in a]
        mu, j2, re, w = k(3.9860044E14), k(1.0826257E-3), k(6378136.0), k(7.292115E-5)
        r2 = X[0] * X[0] + X[1] * X[1] + X[2] * X[2]
        r = r2.sqrt()
        c = k(1.5) * j2 * mu * re * re / (r2 * r2 * r)
        b = k(5) * X[2] * X[2] / r2
        n = -(mu / (r2 * r))
        return X[3:] + [(n - c * (k(1) - b) + w * w) * X[0] + k(2) * w * X[4] + A[0], (n - c * (k(1) - b) + w * w) * X[1] - k(2) * w * X[3] + A[1], (n - c * (k(3) - b)) * X[2] + A[2]]

    # coefficients the compiler folds into one constant are rounded
    snap = pit.snapper([Fraction(3.9860044E14), Fraction(1.0826257E-3), Fraction(6378136.0), Fraction(7.292115E-5)])

    def both(seed):
        p = pit.Point(seed, snap=snap)
        return orbit(p), [p(t) for t in out]
    rs = pit.points(3, both)
    for i in range(6):
        ctx.ob("glonass/motion %d" % i, all(w_[i] == o_[i] for w_, o_ in rs), "%s glonassOrbit" % SRC, "component %d of the motion is %s" % (i, vg.show(out[i], 12)[:300]))
    # the integration step
    fs = m.find(r"\bRK4<", unique=False)
    ctx.need(len(fs) == 1, "RK4 instantiations: %s" % [f["dem"][:80] for f in fs])
    f = fs[0]
    ctx.add("functions", f["dem"][:120])

    def deriv(g, st, ins, args):
        fp = g.val(ins["fp"])
        if fp != g.env[f["args"][1]["id"]] or len(args) != 3:
            return NotImplemented
        v = [g.mem(st, args[1].a[0], args[1].a[1] + 8 * i, 8, "f") for i in range(6)]
        ctx.ob("glonass/step argument", args[2] == g.env[f["args"][4]["id"]], "common/math/rk4.h RK4", "the derivative is not given the step's own extra argument")
        for i in range(6):
            g.store(st, g.ptr_add(args[0], 8 * i, []), 8, vg.mk("call", ("f%d" % i,) + tuple(v), "f"))
        return vg.c(0, 32)
    g = vg.VG(m, f, summaries=[("<indirect>", deriv)])
    X0 = ("arg", 3)
    x = [g.initial(vg.State(), X0, 8 * i, 8, "f") for i in range(6)]
    h = g.env[f["args"][2]["id"]]
    out = [g.mem(g.final, ("arg", 0), 8 * i, 8, "f") for i in range(6)]

    def rk(seed):
        p = pit.Point(seed)
        F = lambda v: [p.fn("f%d" % i, v) for i in range(6)]
        X, H = [p(t) for t in x], p(h)
        k1 = F(X)
        k2 = F([u + d * H / K(2) for u, d in zip(X, k1)])
        k3 = F([u + d * H / K(2) for u, d in zip(X, k2)])
        k4 = F([u + d * H for u, d in zip(X, k3)])
        want = [u + H / K(6) * (a_ + K(2) * b_ + K(2) * c_ + d_) for u, a_, b_, c_, d_ in zip(X, k1, k2, k3, k4)]
        return all(p(t) == w_ for t, w_ in zip(out, want))
    ctx.ob("glonass/step", all(pit.points(3, rk)), "common/math/rk4.h RK4", "the step is not the classical fourth-order Runge-Kutta step")
    # the whole propagation: steps of at most a minute that add up to the time asked for, from the right start
    STEP = r"\bRK4<"

    def step(g, st, ins, args):
        rd = lambda q, n: [g.mem(st, q.a[0], q.a[1] + 8 * i, 8, "f") for i in range(n)]
        if any(q.op != "ptr" or q.a[2] for q in (args[0], args[3], args[4])):
            return NotImplemented
        v = rd(args[3], 6) + rd(args[4], 3)
        for i in range(6):
            g.store(st, g.ptr_add(args[0], 8 * i, []), 8, vg.mk("call", ("rk%d" % i, args[1], args[2]) + tuple(v), "f"))
        return vg.c(0, 32)
    o = Orb(ctx, r"eph2Sat\(.*Glonass", m=m)
    T, E, S = o.T, o.E, o.S
    toe, ts = o.eph["toe"][0], o.st["t"][0]
    inv_ = None
    st0 = vg.State()
    fresh, again = vg.State(), vg.State()
    again.wcells(S)[ts] = (8, vg.c(1000, 64))
    again.wcells(S)[ts + 8] = (8, vg.c(5, 64))
    lo = -(1 << 63)
    fresh.wcells(S)[ts] = (8, vg.c(lo, 64))
    fresh.wcells(S)[ts + 8] = (8, vg.c(0, 64))
    bad = []
    n = 0
    for total in (0.0, 1.0, 59.5, 60.0, 61.0, 119.5, 150.25, 1800.0, -0.5, -60.0, -60.5, -150.25, -900.0):
        for name, st, key in (("first use", fresh, ((T, 0), (E, toe))), ("later use", again, ((T, 0), (S, ts)))):
            cs = {((T, 0), (E, toe)): total if key[1] == (E, toe) else total + 77.0, ((T, 0), (S, ts)): total if key[1] == (S, ts) else 33.0}
            o = Orb(ctx, r"eph2Sat\(.*Glonass", m=m, consts=cs, entry=st.copy(), more=[(STEP, step)])
            g = o.g
            n += 1
            ini = lambda ob, off: g.initial(vg.State(), ob, off, 8, "f")
            acc = [ini(E, o.eph["acc"][0] + 8 * i) for i in range(3)]
            src = [ini(E, o.eph[q][0] + 8 * i) if name == "first use" else ini(S, o.st[q][0] + 8 * i) for q in ("pos", "vel") for i in range(3)]
            x = [o.out(q, i) for q in ("pos", "vel") for i in range(3)]
            hs = []
            msg = "%s, %g s: " % (name, total)
            while x[0].op == "call" and str(x[0].a[0]).startswith("rk") and x != src:
                h, prev = x[0].a[2], list(x[0].a[3:9])
                if any(t.op != "call" or t.a[0] != "rk%d" % i or t.a[1:] != x[0].a[1:] for i, t in enumerate(x)):
                    bad.append(msg + "components come from different steps")
                    break
                if h.op != "cf" or x[0].a[1].op != "fn" or "glonassOrbit" not in str(x[0].a[1].a) or list(x[0].a[9:]) != acc:
                    bad.append(msg + "a step uses function %s, length %s, acceleration %s" % (x[0].a[1], h, [vg.show(t) for t in x[0].a[9:]]))
                    break
                hs.append(vg.fval(h))
                x = prev
            else:
                if [unb(t) for t in x] != [unb(t) for t in src]:
                    bad.append(msg + "starts from %s" % [vg.show(t)[:40] for t in x])
                if abs(sum(hs) - total) > 1e-6 or any(abs(h) > 60.0001 or h * total < 0 for h in hs):
                    bad.append(msg + "the %d steps add up to %g s, the longest is %g s" % (len(hs), sum(hs), max(map(abs, hs), default=0)))
    ctx.add("propagations", "%d GLONASS propagation intervals" % n)
    ctx.ob("glonass/propagation", not bad, W, "; ".join(bad[:3]))


def unb(t):
    return t.a[0] if t.op == "bitcast" else t


def go(o, E, seed, ts):
    m = Kepler(o, E, seed)
    for t in ts:
        m.p(t)
    return m
