import vg, pit, ekflib
from pit import D
from ekflib import *
from ekfeq import *
TITLE = "Filter residuals are measurement minus predicted measurement"
TECH = "value graphs of the filter's measurement models compared with independently written models by algebraic identity testing (LLVM IR, regenerated types)"
RULE = """The residual of each measurement model must equal, as a real function of the state, input and observation, the measurement minus the reference prediction: antenna position and velocity in ECEF; range with Sagnac, ionosphere,
troposphere and the clock of that observation's constellation, and Doppler with earth rotation; single differences one by one. Rows beyond those in use are zero. In the dynamics, the rates of attitude, position, biases, clocks and
constants must equal the reference."""
ASSUME = ("exact arithmetic", "one, two or three observations, zero to thirty single differences")


def run(ctx):
    m = ekflib.load2()
    lay = Layout(m)
    gps, gal, glo = ids(m)
    model(ctx, m, lay, "pp", "pointPosMeas", 6, dict(u=4, z=1), lambda w: w.pp())
    for k, obs, clocks in (("gps", (gps,), ("gpsclk",)), ("gal", (gal,), ("galclk",)), ("glo", (glo,), ("gloclk",)), ("two", (gal, glo), ("galclk", "gloclk")), ("mixed", (glo, gps, gal), ("gloclk", "gpsclk", "galclk"))):
        model(ctx, m, lay, "obs/" + k, "obsMeas", 2 * len(obs), dict(u=4, nobs=len(obs)), lambda w: w.obs(clocks), obs=obs)
    for n in (0, 1, 2, 30):
        model(ctx, m, lay, "fh/%d" % n, "fixAndHoldMeas", n, dict(nz=n), lambda w: [a - b for a, b in zip(w.z or (), w.x["sd"])], n=n, nz=n)
    rates(ctx, m, lay)


def compare(ctx, m, lay, make, res, ref):
    guard = branch(m, lay, make)

    def build(seed):
        p = pit.Point(seed, snap=SNAP, guard=guard)
        w = make(p, FieldAlg(p))
        want = ref(w)
        return [a == p(b) for a, b in zip(want, res)]
    return pit.points(1, build)[0]


def model(ctx, m, lay, key, typ, rows, kw, ref, n=1, obs=(), nz=0):
    g = case(ctx, m, lay, key.split("/")[0], 2, n, obs, nz)
    size = m.type("Eigen::Matrix<double, %d, 1, 0, %d, 1>" % ((6, 6) if rows == 6 and not obs and not nz else (60, 60) if obs else (30, 30)))["size"] // 8
    res = [g.mem(g.final, ("arg", 0), 8 * i, 8, "f") for i in range(size)]
    ok = compare(ctx, m, lay, lambda p, a: World(m, lay, p, a, 2, **kw), res[:rows], ref)
    for i, r in enumerate(ok):
        ctx.ob("%s/%d" % (key, i), r, IMPL + "h<%s>" % typ, "row %d of the residual is not the measurement minus its prediction" % i)
    bad = [i for i in range(rows, size) if not (res[i].op == "cf" and vg.fval(res[i]) == 0)]
    ctx.ob(key + "/rest", not bad, IMPL + "h<%s>" % typ, "row %s of the residual is not in use but not zero" % bad[:1])


def rates(ctx, m, lay):
    n = 2
    g = case(ctx, m, lay, "dyn", 1, n)
    for c, e in lay.pairs:
        k = e.dof if c.kind != "array" else c.r * n
        if c.key == "vel":
            continue            # see DESIGN.md
        res = [g.mem(g.final, ("arg", 0), e.off + 8 * i, 8, "f") for i in range(k)]

        def ref(w):
            z = w.a.k(0)
            x = w.x
            if c.key == "pose":
                return [a - b for a, b in zip(w.u["gyro"], x["gyrobias"])] + x["vel"]
            if c.key.endswith("clk"):
                return [x[c.key][1], z]
            return [z] * k
        ok = compare(ctx, m, lay, lambda p, a: World(m, lay, p, a, 1, u=2), res, ref)
        ctx.ob("rate/" + c.key, all(ok), IMPL + "dynamics", "the rate of %s differs from the reference" % c.n)
