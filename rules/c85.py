import itertools
import numpy as np
import re
import ir, cxxmat
from ekfgenlib import *
TITLE = "Sparse covariance propagation equals the dense product"
TECH = "random interpretation of the regenerated filter source in matrices over a prime field, compared with the dense Kalman equations for every number of ambiguities"
RULE = """The C++ the generator writes from the working tree (prediction and every measurement update) is interpreted in matrices over a prime field with unwritten memory arbitrary: with Abar = I + A dt + A^2 dt^2/2 and
Bbar = (I + A dt/2) B dt, the predicted covariance must be Abar P Abar' + Bbar Qu Bbar' + Qx and the state x + xdot dt at t + dt; an update must use S = H P H' + R, gate on res' S^-1 res alone leaving the snapshot untouched, and otherwise
apply dx = P H' S^-1 res and P - P H' S^-1 H P; a disabled or empty measurement must change nothing. update<> must pass the negated residual with the model's Jacobian and return the residual, or the error."""
ASSUME = ("exact arithmetic; equality in the field implies identity of the rational functions except with probability below 1e-15", "the current covariance is symmetric")


def run(ctx):
    full = ctx.tier == "thorough"
    for config in ("rtk_ekf", "example_ekf"):
        decide(ctx, Gen(config), config, full)


def decide(ctx, g, config, full):
    caps = [r for k, r in g.replicated()]
    few = {tuple(min(v, c) for v, c in zip(vs, caps)) for vs in ((0, 0), (1, 1), (2, 2), (0, 3), (2, 0), (3, 2), tuple(caps)) for vs in [vs[:len(caps)] + (1,) * (len(caps) - 2)]}
    if full:
        few |= set(itertools.product(*(range(c + 1) for c in caps)))
    few = sorted(few)
    for num in few:
        guarded(ctx, g, "%s/dense/%s" % (config, tag(num)), "dense", lambda k: forms(ctx, g, k, g.counts(*num)))
        guarded(ctx, g, "%s/predict/%s" % (config, tag(num)), "predict", lambda k: predict(ctx, g, k, g.counts(*num)))
    for mname in g.meas():
        c = g.cls[mname]
        rep = "vector" in c.alias.get("ZType", "")
        cap = int(c.const["MAX_SIZE"]) // unit(c)
        top = tuple(caps)
        if not rep:
            pairs = [(1, n) for n in few]
        else:
            pairs = [(0, few[-1]), (1, few[0]), (1, few[1]), (2, few[-2]), (3, few[2]), (cap, top)]
            if full:
                pairs += [(a, n) for a in range(cap + 1) for n in few if a < 4 or n in (few[0], few[1], few[-1], top)]
        for nz, num in pairs:
            for kind in ("accept", "gate"):
                guarded(ctx, g, "%s/%s/%d/%s/%s" % (config, mname, nz, tag(num), kind), "doUpdate<%s>" % mname, lambda k: update(ctx, g, k, mname, rep, nz, g.counts(*num), kind))
        guarded(ctx, g, config + "/update/" + mname, "update", lambda k: wrapper(ctx, g, k, mname))


def tag(num):
    return "x".join(map(str, num))


def guarded(ctx, g, key, fn, f):
    try:
        f(key)
    except Bad as e:
        ctx.ob(key, False, g.where + fn, str(e))
    except ZeroDivisionError:
        raise ir.Broken("singular sample at " + key)


def unit(c):
    """rows of residual per observation"""
    m = re.match(r"Vec<(\d+)>", c.alias["Covariance"].replace(" ", ""))
    return int(m.group(1))


def one(text, name, targ):
    fs = [f for f in functions(text, name) if f[0] == targ or targ is None]
    if len(fs) != 1:
        raise ir.Broken("%d definitions of %s<%s>" % (len(fs), name, targ))
    return fs[0]


def predict(ctx, g, key, num):
    t, ps, body = one(g.cxx, "predict", None)
    ctx.add("functions", key)
    st = {}

    def dynamics(w, targ, a):
        if a[0] is not st["x"] or a[1] is not st["u"]:
            st["badcall"] = True
        for o, k in ((a[2], "A"), (a[3], "B")):
            for n, v in o.f.items():
                v.a[...] = w.junk(*v.a.shape)
            st[k] = o
        st["xdot"] = opaque()
        return st["xdot"]
    w = World(g, 7 + sum(num.values()), num, forced=dict(dynamics=dynamics))
    sl, n = g.slices(num)
    P0 = symm(w, n)
    cov = g.cov(w, P0, num)
    x = opaque(t=Sc(w.rnd.randrange(P)), **g.members(num))
    u = opaque()
    st.update(x=x, u=u)
    snap, out = Obj(None, "snap", x=x, cov=cov, u=opaque()), Obj(None, "out", x=opaque(**g.members({k: 0 for k in num})), cov=w.fresh(g.cls["Covariance"]), u=opaque())
    tn = Sc(w.rnd.randrange(P))
    Qx, Qu = w.fresh(g.cls["ProcessCovariance"]), w.fresh(g.cls["InputCovariance"])
    want = [snap, tn, u, Qx, Qu, out]
    ret = w.body(body, dict(zip(ps, want)))
    where = g.where + "predict"
    ok = isinstance(ret, Obj) and ret.f.get("isok") is True
    ctx.ob(key + "/returns", ok and not w.passed and not st.get("badcall"), where, "a prediction from a valid snapshot does not succeed, or is made from another state or input")
    if "A" not in st or not ok:
        ctx.ob(key + "/jacobians", False, where, "the dynamics are not evaluated")
        return
    dt = (tn.v - x.f["t"].v) % P
    xo = out.f["x"]
    s = xo.f.get("sum")
    sc = s and s[1].f.get("scaled") if s and isinstance(s[1], Obj) else None
    ctx.ob(key + "/state", bool(s and s[0] is x and sc and sc[0] is st["xdot"] and cxxmat.Sc(w.scalar(sc[1])).v == dt), where, "the predicted state is not x + xdot * dt")
    ctx.ob(key + "/time", isinstance(xo.f.get("t"), Sc) and xo.f["t"].v == tn.v, where, "the time of the predicted state is not the requested one")
    ctx.ob(key + "/input", out.f["u"] is u, where, "the snapshot does not keep the input")
    usl, nu = g.usl()
    A = g.jac(st["A"], g.cls["StateJac"], num, sl, n, sl, n)
    B = g.jac(st["B"], g.cls["InputJac"], num, usl, nu, sl, n)
    h = inv(2)
    Ab = (eye(n) + A * dt + mm(A, A) * (dt * dt % P * h % P)) % P
    Bb = mm((eye(n) + A * (dt * h % P)) % P, B) * dt % P
    Q = g.diag(Qx, g.cls["ProcessCovariance"], sl, n)
    U = g.diag(Qu, g.cls["InputCovariance"], usl, nu)
    ref = (mm(Ab, P0, Ab.T) + mm(Bb, U, Bb.T) + Q) % P
    got = g.read(out.f["cov"], num)
    for k in sl:
        for l in sl:
            if list(sl).index(k) <= list(sl).index(l):
                ctx.ob("%s/%s_%s" % (key, k, l), same(got[sl[k], sl[l]], ref[sl[k], sl[l]]), where, "covariance block %s/%s is not that of Abar P Abar' + Bbar Qu Bbar' + Qx" % (k, l))
    ctx.ob(key + "/const", same(g.read(cov, num), P0), where, "the prediction changes the snapshot it starts from")


def update(ctx, g, key, mname, rep, nz, num, kind):
    c = g.cls[mname]
    t, ps, body = one(g.cxx, "doUpdate", mname)
    ctx.add("functions", key)
    where = g.where + "doUpdate<%s>" % mname
    base = key
    for force in ([False, None] if c.const["DISABLED"] == "true" else [None]):
        seen = []

        def answer(gate):
            seen.append(gate)
            return kind == "gate"
        forced = {} if force is None else {mname + "::DISABLED": force}
        w = World(g, 91 + 31 * sum(num.values()) + nz, num, forced=forced, answer=answer)
        sl, n = g.slices(num)
        P0 = symm(w, n)
        cov = g.cov(w, P0, num)
        x = opaque(t=Sc(3), **g.members(num))
        snap = Obj(None, "snap", x=x, cov=cov, u=opaque())
        J = w.fresh(c.inner["Jac"])
        for v in J.f.values():
            v.a[...] = w.junk(*v.a.shape)
        un = unit(c)
        rows = un * nz if rep else int(c.const["MAX_SIZE"])
        R = M(w.junk(*dims(c.alias["Covariance"])))
        res = M(w.junk(*dims(c.alias["Residual"])))
        z = Obj(None, "z", size=lambda: nz, empty=lambda: nz == 0) if rep else M(w.junk(rows, 1))
        keep = cxxmat.copy(cov)
        key = base + ("" if force is None else "/enabled")
        ret = w.body(body, dict(zip(ps, [snap, z, J, R, res])))
        ok = isinstance(ret, Obj) and ret.f.get("isok")
        untouched = not w.log and snap.f["x"] is x and snap.f["cov"] is cov and all(same(cov.f[k].a, keep.f[k].a) for k in keep.f)
        if rep and not nz:
            ctx.ob(key, ok is False and untouched, where, "an empty measurement is not refused without effect")
            continue
        H = g.jac(J, c.inner["Jac"], num, sl, n, None, rows)
        Rd = np.zeros((rows, rows), dtype=object)
        for i in range(rows):
            Rd[i, i] = R.a[i % R.a.shape[0], 0]
        S = (mm(H, P0, H.T) + Rd) % P
        Si = inverse(S)
        r = res.a[:rows]
        mah = int(mm(r.T, Si, r)[0, 0]) % P
        good = len(seen) == 1 and gated(w, seen[0], mname, mah)
        ctx.ob(key + "/gate", good, where, "the measurement is not gated on res' (HPH' + R)^-1 res alone")
        if kind == "gate":
            ctx.ob(key + "/refused", ok is False and untouched, where, "a gated measurement is not refused without effect")
            continue
        ctx.ob(key + "/returns", ok is True, where, "an accepted measurement is reported as an error")
        if c.const["DISABLED"] == "true" and force is None:
            ctx.ob(key + "/disabled", untouched, where, "a disabled measurement changes the snapshot")
            continue
        K = mm(P0, H.T, Si)
        good = len(w.log) == 1 and w.log[0][1] is x
        ctx.ob(key + "/dx", good and same(g.dx(w.log[0][2], num) % P, mm(K, r)), where, "the correction is not K res")
        ref = (P0 - mm(K, H, P0)) % P
        got = g.read(snap.f["cov"], num) % P
        for k in sl:
            for l in sl:
                if list(sl).index(k) <= list(sl).index(l):
                    ctx.ob("%s/%s_%s" % (key, k, l), same(got[sl[k], sl[l]], ref[sl[k], sl[l]]), where, "covariance block %s/%s is not that of P - K H P" % (k, l))


def gated(w, gate, mname, mah):
    a, b = w.val(gate.x), w.val(gate.y)
    op = gate.op
    if isinstance(a, Named):
        a, b, op = b, a, {">": "<", "<": ">", ">=": "<=", "<=": ">="}.get(op)
    if gate.n:
        op = {">": "<=", "<": ">=", ">=": "<", "<=": ">"}.get(op)
    return op in (">",) and isinstance(b, Named) and b.n == mname + "::MAX_MAHAL" and w.scalar(a) == mah


def wrapper(ctx, g, key, mname):
    t, ps, body = one(g.hdr.replace("...", " "), "update", None)
    where = g.where + "update<%s>" % mname
    c = g.cls[mname]
    for kind in (True, False):
        st = {}

        def h(w, targ, a):
            st["h"] = a[:2]
            for v in a[2].f.values():
                v.a[...] = w.junk(*v.a.shape)
            st["J"] = cxxmat.copy(a[2])
            st["res"] = M(w.junk(*dims(c.alias["Residual"])))
            st["rest"] = a[3:]
            return M(st["res"].a.copy())

        def do(w, targ, a):
            st["do"] = [a[0], a[1], cxxmat.copy(a[2]), a[3], M(a[4].a.copy())]
            st["targ"] = targ
            return error(kind)
        w = World(g, 5, None, forced=dict(h=h, doUpdate=do))
        w.types = {"Meas::Jac": mname + "::Jac", "Meas::Residual": c.alias["Residual"], "typenameMeas::Jac": mname + "::Jac"}
        x, extra = opaque(), opaque()
        snap = Obj(None, "snap", x=x, cov=opaque(), u=opaque())
        z, R = opaque(), M(w.junk(*dims(c.alias["Covariance"])))
        ret = w.body(body, dict(zip(ps, [snap, z, R, extra])))
        d = st.get("do")
        ctx.ob("%s/%s/model" % (key, kind), bool(d) and st["h"][0] is z and st["h"][1] is x and len(st["rest"]) == 1 and st["rest"][0] is extra, where, "the measurement model is not evaluated on the measurement at the current state")
        if not d:
            continue
        okJ = all(same(d[2].f[k].a, st["J"].f[k].a) for k in st["J"].f)
        ctx.ob("%s/%s/pass" % (key, kind), d[0] is snap and d[1] is z and okJ and same(d[3].a, R.a), where, "the update is not made with the model's Jacobian and the measurement's covariance")
        ctx.ob("%s/%s/sign" % (key, kind), same(d[4].a % P, -st["res"].a % P), where, "the update is not made with the negated residual, which is what its Jacobian corrects")
        if kind:
            ctx.ob(key + "/result", isinstance(ret, M) and same(ret.a % P, st["res"].a % P), where, "the update does not return the residual")
        else:
            ctx.ob(key + "/error", isinstance(ret, Obj) and ret.f.get("isok") is False, where, "a failed update is not reported")
        ctx.add("functions", "update<%s>" % mname)


def forms(ctx, g, key, num):
    """the dense forms and the covariance made of a process covariance, which relate the blocks to the matrices they stand for"""
    sl, n = g.slices(num)
    usl, nu = g.usl()
    w = World(g, 5 + sum(num.values()), num)
    C = g.cls
    ps = g.members(num)

    def dense(name, o, src, ref, **more):
        fs = functions(g.src[src], name + "::dense")
        if len(fs) != 1:
            raise ir.Broken("%d definitions of %s::dense" % (len(fs), name))
        args = dict(ps, **more)
        ctx.add("functions", name + "::dense")
        want = [args.get(p, more.get("rows")) for p in fs[0][1]]
        if None in want:
            raise ir.Broken("%s::dense takes other arguments" % name)
        r = w.method(o, fs[0][2], dict(zip(fs[0][1], want)))
        ctx.ob("%s/%s" % (key, name), isinstance(r, M) and same(r.a % P, ref), g.where + name + "::dense", "the dense form does not have each block in its place and zeros elsewhere")
    o = g.rand(w, C[g.es])
    dense(g.es, o, "_state.cxx", g.dx(o, num))
    P0 = symm(w, n)
    dense("Covariance", g.cov(w, P0, num), "_state.cxx", P0)
    q = g.rand(w, C["ProcessCovariance"])
    dense("ProcessCovariance", q, "_state.cxx", g.diag(q, C["ProcessCovariance"], sl, n))
    q = g.rand(w, C["InputCovariance"])
    dense("InputCovariance", q, "_state.cxx", g.diag(q, C["InputCovariance"], usl, nu))
    for j, cols, nc in (("StateJac", sl, n), ("InputJac", usl, nu)):
        o = g.rand(w, C[j])
        dense(j, o, "_types.cxx", g.jac(o, C[j], num, cols, nc, sl, n))
    for mname in g.meas():
        c = C[mname]
        rep = "vector" in c.alias.get("ZType", "")
        o = g.rand(w, c.inner["Jac"])
        for nz in (1, 2, int(c.const["MAX_SIZE"]) // unit(c)) if rep else (1,):
            rows = unit(c) * nz if rep else int(c.const["MAX_SIZE"])
            dense(mname + "::Jac", o, "_types.cxx", g.jac(o, c.inner["Jac"], num, sl, n, None, rows), rows=nz)
    q = g.rand(w, C["ProcessCovariance"])
    fs = [f for f in functions(g.src["_state.cxx"], "Covariance::Covariance") if len(f[1]) == 1 and re.search(r"\b%s\s*\.\s*\w" % f[1][0], f[2])]
    if len(fs) != 1:
        raise ir.Broken("covariance from process covariance: %d definitions" % len(fs))
    o = g.rand(w, C["Covariance"])
    w.method(o, fs[0][2], {fs[0][1][0]: q})
    ctx.ob(key + "/from-process", same(g.read(o, num) % P, g.diag(q, C["ProcessCovariance"], sl, n)), g.where + "Covariance(ProcessCovariance)", "the covariance is not the diagonal it is made from")
