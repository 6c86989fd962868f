import random
import numpy as np
import ir, vg, ekflib, estlib
from estlib import Lay as EstLay, Case, UNIT, parallel
from ekflib import *
from ekfeq import *
from ekfgenlib import Gen, World as GenWorld, M, Obj, Sc, P, symm, opaque, functions, dims, norm, Bad
from c28 import verdict
TITLE = "Variable-size measurements stay within their fixed storage"
TECH = "value graphs of the estimator's and the measurement models' memory accesses (LLVM IR); the regenerated filter source interpreted twice in matrices over a prime field with different contents of unwritten memory"
RULE = """The estimator refuses, without a predict, update or changed cell, every observation bundle and fix-and-hold measurement of more than the capacity. In the measurement models no residual or Jacobian cell outside the rows and columns in
use is anything but zero, and every cell in use is written. In the generated prediction and updates every block lies inside its matrix for each number of rows and states up to the capacity, and neither what the finiteness checks test nor
any element in use afterwards depends on memory that was never written."""
ASSUME = ("the estimator touches sizes only through arithmetic and comparison (sizes 29 to 64 and up to 2^31 stand for all)", "value equality in the field implies identity except with probability below 1e-15")
WHERE = "RtkEkfEstimator::addMeasurement"
IMPL = "core/ekf/rtk_ekf_impl.cxx h<%s>"


def run(ctx):
    capacity(ctx)
    models(ctx)
    for config in ("rtk_ekf", "example_ekf"):
        generated(ctx, Gen(config), config)


def capacity(ctx):
    m = estlib.load()
    lay = EstLay(m)
    U = UNIT
    h = ((0, U, 2 * U), ((U, "imu"), (2 * U, "pp")))
    jobs = [(t, k, n, sd) for t in (0, U, 2 * U, 3 * U) for k, n, sd in [("obs", n, 2) for n in (29, 30, 31, 32, 61, 64)] + [("fh", n, sd) for n, sd in ((29, 29), (30, 30), (31, 30), (31, 31), (32, 32), (64, 64))]]

    def work(j):
        t, k, n, sd = j
        return verdict(Case(m, lay, h, t, k, nobs=n if k == "obs" else 1, nfh=n if k == "fh" else 2, num_sd=sd), n <= 30)
    for j, v in zip(jobs, parallel(jobs, work)):
        ctx.ob("capacity/%s/%d/%d/%g" % (j[1], j[2], j[3], j[0]), v[1], WHERE, "%s, %d entries: %s" % (v[0], j[2], v[2]))
    ctx.add("functions", WHERE)


def models(ctx):
    m = ekflib.load2()
    lay = Layout(m)
    gps, gal, glo = ids(m)
    for n in (1, 2, 3, 29, 30):
        obs = [(gps, gal, glo)[i % 3] for i in range(n)]
        used(ctx, m, lay, "obs", "obsMeas", 60, 2 * n, None, obs=obs)
    for n in (0, 1, 2, 29, 30):
        used(ctx, m, lay, "fh", "fixAndHoldMeas", 30, n, n, n=n, nz=n)


def used(ctx, m, lay, name, typ, cap, rows, sd, n=1, obs=(), nz=0):
    key = "%s/%d" % (name, rows)
    g = case(ctx, m, lay, name, 2, n, obs, nz)
    zero = lambda t: t.op == "cf" and vg.fval(t) == 0
    res = [g.mem(g.final, ("arg", 0), 8 * i, 8, "f") for i in range(cap)]
    bad = [i for i in range(cap) if (i >= rows) != zero(res[i])]
    ctx.ob(key + "/residual", not bad, IMPL % typ, "row %s of the residual with %d rows in use is %s" % (bad[:1], rows, "written" if bad and bad[0] >= rows else "not written"))
    for c in comps(m, typ + "::Jac"):
        off = []
        for j in range(c.c):
            for i in range(c.r):
                if i >= rows or sd is not None and j >= sd:
                    t = g.mem(g.final, ("arg", 3), c.off + 8 * (j * c.r + i), 8, "f")
                    if not zero(t):
                        off.append((i, j))
        ctx.ob("%s/%s" % (key, c.n), not off, IMPL % typ, "element %s of %s with %d rows in use is not zero" % (off[:1], c.n, rows))
    end = dict(g.osz)
    end.update({("arg", 0): 8 * cap, ("arg", 3): m.type(NS + typ + "::Jac")["size"]})
    over = [(o, k) for o, cells in g.final.mem.items() if end.get(o) for k, (size, t) in cells.items() if k < 0 or k + size > end[o]]
    ctx.ob(key + "/end", not over, IMPL % typ, "writes beyond the end of its storage: %s" % (over[:2],))


def generated(ctx, g, config):
    caps = tuple(r for k, r in g.replicated())
    nums = sorted({tuple(min(v, c) for v, c in zip(vs, caps)) for vs in ((0,) * 9, (1,) * 9, (2, 3) * 4, (29, 4) * 4, (99,) * 9, (99, 0) * 4, (0, 99) * 4)})
    for num in nums:
        tag = "x".join(map(str, num))
        twice(ctx, g, "%s/predict/%s" % (config, tag), "predict", lambda w, d: predict(g, w, d), g.counts(*num))
        for mn in g.meas():
            c = g.cls[mn]
            rep = "vector" in c.alias.get("ZType", "")
            un = int(dims(c.alias["Covariance"])[0])
            cap = int(c.const["MAX_SIZE"]) // un
            for nz in sorted({0, 1, 2, cap - 1, cap}) if rep else (1,):
                for dis in {c.const["DISABLED"] == "true", False}:
                    twice(ctx, g, "%s/%s/%d/%s%s" % (config, mn, nz, tag, "/disabled" if dis else ""), "update<%s>" % mn, lambda w, d: update(g, w, d, mn, rep, nz, un, dis), g.counts(*num))


class Inputs:
    """the same random numbers in both runs"""

    def __init__(self, seed):
        self.r = random.Random(seed)

    def fill(self, a, rows=None, cols=None):
        for i in range(a.shape[0] if rows is None else rows):
            for j in range(a.shape[1] if cols is None else cols):
                a[i, j] = self.r.randrange(P)


def twice(ctx, g, key, fn, f, num):
    ctx.add("functions", key)
    outs = []
    try:
        for junk in (1, 2):
            w = GenWorld(g, junk, num)
            outs.append(f(w, Inputs(7)))
    except Bad as e:
        ctx.ob(key, False, g.where + fn, str(e))
        return
    a, b = outs
    for k in a:
        x, y = a[k], b.get(k)
        ok = y is not None and len(x) == len(y) and all(p.shape == q.shape and not ((p - q) % P).any() for p, q in zip(x, y))
        ctx.ob("%s/%s" % (key, k), ok, g.where + fn, "%s depends on memory that was never written" % k)


def mats(o):
    return [v.a % P for k, v in sorted(o.f.items()) if isinstance(v, M)]


def state(g, w, d, num):
    """a snapshot whose covariance was built by the library: buffers start out zero, the elements in use are set"""
    sl, n = g.slices(num)
    z = symm(w, n)
    d.fill(z)
    for i in range(n):
        for j in range(i):
            z[i, j] = z[j, i]
    cov = g.cov(w, z, num)
    zeroed = {n_: z_ for t, n_, z_ in g.cls["Covariance"].members}
    for k, v in cov.f.items():
        if isinstance(v, M) and zeroed.get(k):
            r, c = [norm_dim(g, x, num) for x in (k[:-5] if k.endswith("_buf_") else k).split("_")]
            v.a[r:, :] = 0
            v.a[:, c:] = 0
    return cov


def norm_dim(g, name, num):
    sl, n = g.slices(num)
    s = sl[norm(name)]
    return s.stop - s.start


def checked(w):
    out = []
    for x in w.checked:
        if isinstance(x, M):
            out.append(x.a % P)
        elif isinstance(x, Obj) and x.cls is not None:
            out += mats(x)
    return out


def jac(g, w, d, cls, num, rows=None):
    """a Jacobian object as its class and the model leave it: the blocks in use written"""
    o = w.fresh(cls)
    jacfill(g, d, o, cls, num, rows)
    return o


def jacfill(g, d, o, cls, num, rows):
    for t, name, z in cls.members:
        a = o.f[name].a
        if not name.endswith("_buf_"):
            d.fill(a)
            continue
        b = name[:-5].split("_d") if rows is None else [None, name[1:-5]]
        hr = rows if rows is not None else used_dim(g, b[0][1:], num, a.shape[0])
        wc = used_dim(g, b[1], num, a.shape[1])
        d.fill(a, min(hr, a.shape[0]), wc)


def used_dim(g, name, num, cap):
    sl, n = g.slices(num)
    k = norm(name)
    return sl[k].stop - sl[k].start if k in sl else cap


def predict(g, w, d):
    num = w.num
    ps, body = one(g.cxx, "predict")
    w.forced["dynamics"] = lambda w_, targ, a: (jacfill(g, d, a[2], g.cls["StateJac"], num, None), jacfill(g, d, a[3], g.cls["InputJac"], num, None), opaque())[2]
    cov = state(g, w, d, num)
    Q = [w.fresh(g.cls[c]) for c in ("ProcessCovariance", "InputCovariance")]
    for q in Q:
        for v in q.f.values():
            d.fill(v.a)
    x = opaque(t=Sc(5), **g.members(num))
    snap, out = Obj(None, "snap", x=x, cov=cov, u=opaque()), Obj(None, "out", x=opaque(**g.members(num)), cov=w.fresh(g.cls["Covariance"]), u=opaque())
    w.body(body, dict(zip(ps, [snap, Sc(77), opaque(), Q[0], Q[1], out])))
    return {"the predicted covariance": mats(out.f["cov"]), "what the checks test": checked(w)}


def one(text, name, targ=None):
    fs = [f for f in functions(text, name) if f[0] == targ]
    if len(fs) != 1:
        raise ir.Broken("%d definitions of %s" % (len(fs), name))
    return fs[0][1], fs[0][2]


def update(g, w, d, mn, rep, nz, un, dis):
    """update<> with the model's results, calling doUpdate"""
    num = w.num
    c = g.cls[mn]
    rows = un * nz if rep else int(c.const["MAX_SIZE"])
    cov = state(g, w, d, num)
    x = opaque(t=Sc(5), **g.members(num))
    snap = Obj(None, "snap", x=x, cov=cov, u=opaque())
    z = Obj(None, "z", size=lambda: nz, empty=lambda: nz == 0) if rep else opaque()
    R = M(w.junk(*dims(c.alias["Covariance"])))
    d.fill(R.a)

    def h(w_, targ, a):
        jacfill(g, d, a[2], c.inner["Jac"], num, rows)
        r = M(w_.junk(*dims(c.alias["Residual"])))
        r.a[...] = 0
        d.fill(r.a, rows)
        return r

    def do(w_, targ, a):
        ps, body = one(g.cxx, "doUpdate", mn)
        return w_.body(body, dict(zip(ps, a)))
    w.forced.update({"h": h, "doUpdate": do, mn + "::DISABLED": dis})
    asked = []

    def answer(gate):
        asked.append([w.scalar(v) for v in (w.val(gate.x), w.val(gate.y)) if isinstance(v, (Sc, M, int)) and not isinstance(v, bool)])
        return False
    w.answer = answer
    w.types = {"Meas::Jac": mn + "::Jac", "Meas::Residual": c.alias["Residual"]}
    ps, body = one(g.hdr.replace("...", " "), "update")
    ret = w.body(body, dict(zip(ps, [snap, z, R, opaque()])))
    out = {"the covariance": mats(snap.f["cov"]), "what the checks test": checked(w), "the gate": [np.array([[v] for v in g_], dtype=object).reshape((len(g_), 1)) for g_ in asked]}
    if isinstance(ret, M):
        out["the result"] = [ret.a % P]
    for i, e in enumerate(w.log):
        out["the correction"] = mats(e[2])
    return out
