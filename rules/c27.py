import vg, pit, ekflib, ekfeq
from pit import D
from ekflib import *
from ekfeq import *
TITLE = "Jacobians cover every dependency of the filter's equations"
TECH = "value graphs of the filter's equations and measurement models: declared Jacobian blocks against forward derivatives of the residual and rate terms themselves, by algebraic identity testing with dual numbers (LLVM IR, regenerated types)"
RULE = """For each measurement model, every constellation and every component of the state: the declared Jacobian block times a random direction (for poses: the tangent of x*exp(y)) is the derivative of the residual term in that direction,
and where no block is declared that derivative is zero; the Doppler row may hold the line of sight and drop the earth-rotation terms. For the dynamics: the state and input Jacobian blocks, declared or not, are the derivatives of the
error-state dynamics in every component, and for vector components also of the dynamics themselves."""
ASSUME = ("exact arithmetic", "the linearisation of the dynamics in the pose is the one errorStateDynamics documents")


def run(ctx):
    m = ekflib.load2()
    lay = Layout(m)
    gps, gal, glo = ids(m)
    ctx.ob("constellations", len({gps, gal, glo}) == 3, "GnssID", "two constellations share a number")
    meas(ctx, m, lay, "pp", "pointPosMeas", 6, dict(u=4, z=1))
    for k, ck, i in (("gps", "gpsclk", gps), ("gal", "galclk", gal), ("glo", "gloclk", glo)):
        meas(ctx, m, lay, "obs/" + k, "obsMeas", 2, dict(u=4, nobs=1), obs=(i,), clocks=(ck,))
    meas(ctx, m, lay, "obs/mixed", "obsMeas", 6, dict(u=4, nobs=3), obs=(glo, gps, gal), clocks=("gloclk", "gpsclk", "galclk"))
    for n in (0, 1, 2, 30):
        meas(ctx, m, lay, "fh/%d" % n, "fixAndHoldMeas", n, dict(nz=n), n=n, nz=n)
    dynamics(ctx, m, lay)


def meas(ctx, m, lay, key, typ, rows, kw, n=1, obs=(), nz=0, clocks=None):
    g = case(ctx, m, lay, key.split("/")[0], 2, n, obs, nz)
    res = [g.mem(g.final, ("arg", 0), 8 * i, 8, "f") for i in range(rows)]
    J = {norm(c.n[1:]): c for c in comps(m, typ + "::Jac")}
    for k in J:
        ctx.ob("%s/declared/%s" % (key, k), any(c.key == k for c in lay.vars), "generated %s::Jac" % typ, "no state component of that name")
    make = lambda p, a: World(m, lay, p, a, 2, **kw)
    guard = branch(m, lay, make)
    for c in lay.vars:
        nc = c.r * n if c.kind == "array" else c.dof
        if not nc or not rows:
            continue
        j = J.get(c.key)
        jac = [[g.mem(g.final, ("arg", 3), j.off + 8 * (k * j.r + i), 8, "f") for k in range(nc)] for i in range(rows)] if j else None

        def build(seed):
            p = pit.Point(seed, snap=SNAP, guard=guard)
            w = make(p, FieldAlg(p))
            dx = vec(p, nc)
            got = [dot([p(x) for x in r], dx) for r in jac] if j else [D(0)] * rows
            hold = w.lines() if clocks else None
            p2 = pit.Point(0, snap=SNAP, guard=guard)
            p2.rng, p2.ang, p2.fns, p2.var = p.rng, p.ang, p.fns, p.var
            p2.atom = p.atom
            w.p, w.V.p = p2, p2
            w.move(c, dx)
            want = [[p2(x).rate() for x in res]]
            if clocks:
                w.a = FieldAlg(p2)
                want.append([x.rate() for x in w.obs(clocks, hold)])
            return got, want
        got, want = pit.points(1, build)[0]
        for r in range(rows):
            ctx.ob("%s/%s/%d" % (key, c.key, r), any(w[r] == got[r] for w in want), IMPL + "h<%s>" % typ, "Jacobian of row %d in %s is not the residual's derivative%s" % (r, c.n, "" if j else " (none is declared)"))


def dynamics(ctx, m, lay):
    n = 2
    g = case(ctx, m, lay, "dyn", 1, n)
    ge = case(ctx, m, lay, "edyn", 2, n)
    cell = lambda gr, o, off: gr.mem(gr.final, o, off, 8, "f")
    out = [(e, [cell(g, ("arg", 0), e.off + 8 * i) for i in range(e.dof if c.kind != "array" else c.r * n)], [cell(ge, ("arg", 0), e.off + 8 * i) for i in range(e.dof if c.kind != "array" else c.r * n)]) for c, e in lay.pairs]
    A, B = ({parts2(c): c for c in comps(m, t)} for t in ("StateJac", "InputJac"))

    def world(p, a):
        w = World(m, lay, p, a, 1, u=2)
        V = w.V
        # the same state, an error and noise for the error dynamics (whose arguments are numbered differently)
        for c in lay.vars:
            V.put(("e", 2), c.off + (lay.dq["buf_"] if c.kind == "group" else 0), w.x[c.key])
        for c in lay.inp:
            V.put(("e", 3), c.off, w.u[c.key])
        w.dx = V.obj(lay, ("e", 1), lay.err)
        w.eta = V.obj(lay, ("e", 4), lay.inp)
        base = V.cells

        def other(t):
            return base.get((("e", t.a[0][1]), t.a[1])) if t.op == "init" and t.w == "f" and not t.a[3] and t.a[0][0] == "arg" else None
        w.other = other
        return w
    guard = branch(m, lay, world)
    for kind, cols, J, where in (("state", [(c.key, e) for c, e in lay.pairs], A, 3), ("input", [(c.key, c) for c in lay.inp], B, 4)):
        for ck, cc in cols:
            vector = kind == "input" or next(c for c in lay.vars if c.key == ck).kind != "group"
            sc = next((c for c in lay.vars if kind == "state" and c.key == ck), None)
            nc = sc.r * n if sc is not None and sc.kind == "array" else cc.dof
            for e, rates, errs in out:
                j = J.get((e.key, ck))
                jac = [[cell(g, ("arg", where), j.off + 8 * (k * j.r + i)) for k in range(nc)] for i in range(len(rates))] if j else None

                def build(seed):
                    p = pit.Point(seed, snap=SNAP, guard=guard)
                    w = world(p, FieldAlg(p))
                    d = vec(p, nc)
                    got = [dot([p(x) for x in r], d) for r in jac] if j else [D(0)] * len(rates)
                    q = pit.Point(0, snap=SNAP, guard=guard, atom=w.other)
                    # the error dynamics in the error (or noise)
                    for i, y in enumerate(d):
                        k = (("e", 1 if kind == "state" else 4), cc.off + 8 * i)
                        w.V.cells[k] = D(w.V.cells[k].v, y.v)
                    want = [q(x).rate() for x in errs]
                    direct = None
                    if vector:
                        if kind == "state":
                            c = next(c for c in lay.vars if c.key == ck)
                            w.move(c, d)
                        else:
                            for i, y in enumerate(d):
                                w.V.cells[("arg", 2), cc.off + 8 * i].d = y.v
                        r = pit.Point(0, snap=SNAP, guard=guard, atom=p.atom)
                        direct = [r(x).rate() for x in rates]
                    return got, want, direct
                got, want, direct = pit.points(1, build)[0]
                key = "%s/%s/%s" % (kind, e.key, ck)
                ctx.ob(key, got == want or all(a.v == b.v for a, b in zip(got, want)), IMPL + "dynamics", "the Jacobian of the rate of %s in %s is not the error dynamics' derivative%s" % (e.n, cc.n, "" if j else " (none is declared)"))
                if direct is not None:
                    ctx.ob(key + "/direct", all(a.v == b.v for a, b in zip(got, direct)), IMPL + "dynamics", "the Jacobian of the rate of %s in %s is not its derivative%s" % (e.n, cc.n, "" if j else " (none is declared)"))


def parts2(c):
    a = re.match(r"d(\w+?)_d([A-Z]\w*)$", re.sub(r"_buf_?$", "", c.n))
    return norm(a.group(1)), norm(a.group(2))
