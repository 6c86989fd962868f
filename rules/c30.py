import math
import numpy as np
import vg, pit
import ekflib
from ekflib import *
TITLE = "Composite filter state operations cover every component"
TECH = "value graphs of every operation of the regenerated filter types, compared component by component with the type's own layout (LLVM IR and debug info)"
RULE = """The components are read from the types' debug information. For every operation and for 0, 1, 2 and all single differences the value of each scalar of each component after the operation must be the one its kind of
component requires (copy; sum; group product with the exponential; logarithm of the quotient; zero; identity), where the dense forms place each component on one index range of its own, the same one everywhere, and the
finiteness tests must be false with any scalar in use NaN or infinite and true when all are finite."""
ASSUME = ("exact arithmetic", "the objects of one call do not overlap, except where the operation is in place", "the generic branch of the exponential and logarithm (C80 decides the others)")
COUNTS = (0, 1, 2, 30)
X, Y, Z = ("arg", 0), ("arg", 1), ("arg", 2)
W = "generated %s"
BAD = (("NaN", math.nan), ("infinity", math.inf), ("minus infinity", -math.inf))


def run(ctx):
    m = ekflib.load()
    lay = Layout(m)
    for c, e in lay.pairs:
        ctx.ob("layout/" + c.key, e is not None and e.dof == c.dof, W % "ErrorState", "component %s of the state has no error of its size" % c.n)
    ctx.ob("layout/extra", {e.key for e in lay.err} == {c.key for c in lay.vars}, W % "ErrorState", "errors without a component")
    if not ctx.obl[-1][1] or any(e is None for _, e in lay.pairs):
        return
    ctx.add("components", *["%s::%s" % (t, c.n) for t, cs in (("State", lay.state), ("ErrorState", lay.err), ("Input", lay.inp)) for c in cs])
    for n in COUNTS:
        copies(ctx, m, lay, n)
        perturb(ctx, m, lay, n)
    identity(ctx, m, lay)
    linear(ctx, m, lay)
    dense(ctx, m, lay)
    finite(ctx, m, lay)


def used(lay, c, n):
    return n if c.kind == "array" and "num" + c.key in lay.count else c.num


def place(o, t):
    return t.op == "ptr" and t.a[0] == o and not t.a[2]


def views(ctx, lay, g, o, base, key, what):
    for c in lay.vars:
        if c.kind == "group":
            b = base + c.off + lay.dq["buf_"]
            v = lay.views(g, g.final, o, base, c)
            ctx.ob("%s/%s/views" % (key, c.key), all(place(o, p) and p.a[1] == b + k for p, k in zip(v, (0, 0, 32))), W % what, "%s of the result refers to other memory than its own" % c.n)


def copies(ctx, m, lay, n):
    for name, what, base in (("assign", "State::operator=", 0), ("copy", "State(const State&)", 0), ("snap", "Snapshot::operator=", None)):
        sb = [o for k, o, s, i in m.fields(NS + "Snapshot") if i["t"].endswith("ekf::State")][0] if base is None else 0
        typ = "State" if base == 0 else "Snapshot"
        g = ekflib.run(ctx, m, lay, "%s_%d" % (name, n), ((1, typ),) + (((0, typ),) if name != "copy" else ()))
        key = "%s/%d" % (name, n)
        src = vg.VG.mem
        for c in lay.state:
            if c.kind in ("mat", "group", "array"):
                got = lay.read(g, g.final, X, sb, c, used(lay, c, n))
                at = sb + c.off + (lay.dq["buf_"] if c.kind == "group" else 0)
                ok = all(is_init(t, Y, at + 8 * i) for i, t in enumerate(got))
            elif c.kind == "time":
                got = [g.mem(g.final, X, sb + c.off + 8 * i, 8, 64) for i in range(c.size // 8)]
                ok = all(is_init(t, Y, sb + c.off + 8 * i) for i, t in enumerate(got))
            elif c.kind == "count":
                t = g.mem(g.final, X, sb + c.off, c.size, 8 * c.size)
                ok = is_init(t, Y, sb + c.off) or t.op == "c" and t.a[0] == n
            else:
                ok = False
            ctx.ob("%s/%s" % (key, c.key), ok, W % what, "%s is not copied%s" % (c.n, " with %d single differences" % n if c.kind == "array" else ""))
        views(ctx, lay, g, X, sb, key, what)
        if base is None:      # the rest of the snapshot
            for k, o, s, i in m.fields(NS + "Snapshot"):
                if not i["t"].endswith("ekf::State"):
                    lost = [d for d in range(0, s, 8) if not is_init(g.mem(g.final, X, o + d, 8, "f"), Y, o + d)]
                    ctx.ob("%s/%s" % (key, k), not lost, W % what, "%s is not copied (byte %s)" % (k, lost[:3]))


def is_init(t, o, off):
    return t.op == "init" and t.a[0] == o and t.a[1] == off and not t.a[3]


def numbers(seed, fill, terms, cond=None):
    """[got == want]: fill(V) returns the expected numbers for the values V it chooses"""
    def floats():
        for s in range(200):
            p = pit.FPoint(None)
            p.rng.seed(s + 7)
            V = Values(p, FloatAlg(p))
            try:
                fill(V)
            except pit.Resample:
                continue
            memo = {}

            def guard(c):
                if c not in memo:
                    memo[c] = p.truth(c)
                return memo[c]
            return guard
        raise vg.Broken("no ordinary point found")
    guard = floats()

    def build(s):
        p = pit.Point(s, guard=guard)
        V = Values(p, FieldAlg(p))
        want = fill(V)
        return [a == p(t) for a, t in zip(want, terms)]
    return pit.points(seed, build)[0]


def positive(p, x):
    if isinstance(x, pit.F):
        if x.v < 0.2:
            raise pit.Resample
    elif not pit.issq(x.v):
        raise pit.Resample


def perturb(ctx, m, lay, n):
    # x + d
    for name, what, src, dlt, objs in (("plus", "State::operator+", Y, Z, ((1, "State"),)), ("pluseq", "State::operator+=", X, Y, ((0, "State"),))):
        g = ekflib.run(ctx, m, lay, "%s_%d" % (name, n), objs)
        out, tags = [], []
        for c, e in lay.pairs:
            ts = lay.read(g, g.final, X, 0, c, used(lay, c, n))
            out += ts
            tags += [c] * len(ts)

        def fill(V):
            xs, ds = V.obj(lay, src, lay.state), V.obj(lay, dlt, lay.err)
            want = []
            for c, e in lay.pairs:
                x, d = xs[c.key], ds[e.key]
                if c.kind == "group":
                    want += dqmul(x, exp6f(V.p, d))
                else:
                    want += [a + b for a, b in zip(x[:c.r * c.c * used(lay, c, n)], d)]
            return want
        report(ctx, "%s/%d" % (name, n), W % what, tags, numbers(1, fill, out), "%s is not perturbed by its error")
        views(ctx, lay, g, X, 0, "%s/%d" % (name, n), what)
        for c in lay.state:
            if c.kind == "count":
                t = g.mem(g.final, X, c.off, c.size, 8 * c.size)
                ctx.ob("%s/%d/%s" % (name, n, c.key), t.op == "c" and t.a[0] == n, W % what, "%s changes" % c.n)
            elif c.kind == "time" and name == "pluseq":
                ctx.ob("%s/%d/%s" % (name, n, c.key), all(is_init(g.mem(g.final, X, c.off + d, 8, 64), X, c.off + d) for d in range(0, c.size, 8)), W % what, "%s changes" % c.n)
    # x - y
    g = ekflib.run(ctx, m, lay, "minus_%d" % n, ((1, "State"), (2, "State")))
    out, tags = [], []
    for c, e in lay.pairs:
        k = e.r * e.c * e.num if c.kind != "array" else c.r * used(lay, c, n)
        out += [g.mem(g.final, X, e.off + 8 * i, 8, "f") for i in range(k)]
        tags += [c] * k

    def fill(V):
        xs, ys = V.obj(lay, Y, lay.state), V.obj(lay, Z, lay.state)
        want = []
        for c, e in lay.pairs:
            x, y = xs[c.key], ys[c.key]
            if c.kind == "group":
                q = dqmul(dqinv(y), x)
                positive(V.p, q[0])
                want += log6(V.p, q)
            else:
                want += [a - b for a, b in zip(x[:c.r * c.c * used(lay, c, n)], y)]
        return want
    report(ctx, "minus/%d" % n, W % "State::operator-", tags, numbers(1, fill, out), "the difference of %s is not the error between the two")


def exp6f(p, d):
    if isinstance(d[0], pit.F):
        return [pit.F(0.0)] * 8      # only branches are decided with floating-point numbers
    return exp6(p, d)


def report(ctx, key, where, tags, ok, text):
    for c in dict.fromkeys(tags):
        ctx.ob("%s/%s" % (key, c.key), all(o for o, t in zip(ok, tags) if t is c), where, text % c.n)


def identity(ctx, m, lay):
    for name, what, objs in (("ident", "State::setIdentity", ((0, "State"),)), ("identity", "State::Identity", ())):
        g = ekflib.run(ctx, m, lay, name, objs)
        for c in lay.vars:
            # an array may be limited to the entries in use
            got = lay.read(g, g.final, X, 0, c)
            if name == "identity" and c.kind == "array" and "num" + c.key in lay.count:
                k = lay.count["num" + c.key]
                t = g.mem(g.final, X, k.off, k.size, 8 * k.size)
                if t.op == "c":
                    got = got[:c.r * t.a[0]]
            want = [1.0] + [0.0] * 7 if c.kind == "group" else [0.0] * len(got)
            ctx.ob("%s/%s" % (name, c.key), all(t.op == "cf" and vg.fval(t) == w for t, w in zip(got, want)), W % what, "%s is not the identity" % c.n)
        views(ctx, lay, g, X, 0, name, what)


def linear(ctx, m, lay):
    add, sub, mul, div = (lambda a, b: a + b), (lambda a, b: a - b), (lambda a, s: a * s), (lambda a, s: a / s)
    for cs, typ, ops in ((lay.err, "ErrorState", (("eadd", "+", add, Y, Z), ("esub", "-", sub, Y, Z), ("eaddeq", "+=", add, X, Y), ("emul", "*", mul, Y, None), ("ediv", "/", div, Y, None))),
                         (lay.inp, "Input", (("iadd", "+", add, Y, Z), ("iaddeq", "+=", add, X, Y), ("imul", "*", mul, Y, None)))):
        for name, sym, op, a, b in ops:
            g = ekflib.run(ctx, m, lay, name)
            out, tags = [], []
            for c in cs:
                out += [g.mem(g.final, X, c.off + 8 * i, 8, "f") for i in range(c.dof)]
                tags += [c] * c.dof

            def fill(V):
                A = V.obj(lay, a, cs)
                if b is None:
                    s = V.cells[Z] = V.a.vals(1)[0]
                    return [op(x, s) for c in cs for x in A[c.key]]
                B = V.obj(lay, b, cs)
                return [op(x, y) for c in cs for x, y in zip(A[c.key], B[c.key])]
            report(ctx, name, W % "%s::operator%s" % (typ, sym), tags, numbers(1, fill, out), "%s is wrong in the result")
    for name, what, typ, v in (("ezero", "ErrorState::Zero", "ErrorState", 0.0), ("esetzero", "ErrorState::setZero", "ErrorState", 0.0), ("econst", "ErrorState::Constant", "ErrorState", None),
                               ("izero", "Input::Zero", "Input", 0.0), ("isetzero", "Input::setZero", "Input", 0.0), ("qzero", "ProcessCovariance::Zero", "ProcessCovariance", 0.0),
                               ("qident", "ProcessCovariance::Identity", "ProcessCovariance", 1.0), ("uzero", "InputCovariance::Zero", "InputCovariance", 0.0)) + tuple(
                                   (p + s, "%s::%s" % (t, w), t, 0.0) for p, t in JACS for s, w in (("zero", "Zero"), ("setzero", "setZero"))):
        g = ekflib.run(ctx, m, lay, name)
        for c in comps(m, typ):
            got = [g.mem(g.final, X, c.off + 8 * i, 8, "f") for i in range(c.dof)]
            ok = all(t.op == "cf" and vg.fval(t) == v if v is not None else t.op == "arg" and t.a[0] == 1 for t in got)
            ctx.ob("%s/%s" % (name, c.key), ok, W % what, "%s is not %s everywhere" % (c.n, "the constant" if v is None else "%g" % v))
    for name, what in (("cident", "Covariance::Identity"), ("csetident", "Covariance::setIdentity")):
        g = ekflib.run(ctx, m, lay, name)
        for c in comps(m, "Covariance"):
            bad = [i for i in range(c.dof) if not isconst(g.mem(g.final, X, c.off + 8 * i, 8, "f"), 1.0 if len(set(parts(c))) == 1 and i % c.r == i // c.r else 0.0)]
            ctx.ob("%s/%s" % (name, c.key), not bad, W % what, "%s is not the identity's block" % c.n)
    # a diagonal of variances
    g = ekflib.run(ctx, m, lay, "cctor")
    q = {c.key: c for c in comps(m, "ProcessCovariance")}
    for c in comps(m, "Covariance"):
        a, b = parts(c)
        bad = []
        for i in range(c.dof):
            r, k = i % c.r, i // c.r
            t = g.mem(g.final, X, c.off + 8 * i, 8, "f")
            if a == b and r == k:
                if not is_init(t, Y, q[a].off + 8 * (r % q[a].r)):
                    bad.append((r, k))
            elif not isconst(t, 0.0):
                bad.append((r, k))
        ctx.ob("cctor/" + c.key, not bad, W % "Covariance(const ProcessCovariance&)", "%s is not the diagonal matrix's block at %s" % (c.n, bad[:2]))


JACS = (("j", "StateJac"), ("uj", "InputJac"), ("pp", "pointPosMeas::Jac"), ("obs", "obsMeas::Jac"), ("fh", "fixAndHoldMeas::Jac"))


def isconst(t, v):
    return t.op == "cf" and vg.fval(t) == v


def parts(c):
    a, b = re.sub(r"_buf_?$", "", c.n).split("_")
    return norm(a), norm(b)


def dense(ctx, m, lay):
    for n in COUNTS:
        # the order of the error components is what ErrorState::dense makes it
        g = ekflib.run(ctx, m, lay, "dense_%d" % n)
        size = sum(e.dof if c.kind != "array" else c.r * used(lay, c, n) for c, e in lay.pairs)
        at = {}
        for i in range(64):
            t = g.mem(g.final, X, 8 * i, 8, "f")
            if t.op == "init" and t.a[0] == Y and not t.a[3]:
                at.setdefault(t.a[1], []).append(i)
            elif i < size:
                at.setdefault(None, []).append(i)
        idx, ok = {}, None not in at and all(len(v) == 1 for v in at.values())
        for c, e in lay.pairs:
            k = e.dof if c.kind != "array" else c.r * used(lay, c, n)
            rows = [at.get(e.off + 8 * i, [None])[0] for i in range(k)]
            good = None not in rows and rows == list(range(rows[0], rows[0] + k)) if k else True
            ctx.ob("dense/%d/%s" % (n, c.key), good, W % "ErrorState::dense", "%s does not occupy one range of its own (%s)" % (c.n, rows[:7]))
            idx[c.key] = rows
            ok = ok and good
        ctx.ob("dense/%d/tiling" % n, ok and sorted(r for v in idx.values() for r in v) == list(range(size)), W % "ErrorState::dense", "the ranges do not tile the error state")
        if not ok:
            return
        if n == 30:
            g = ekflib.run(ctx, m, lay, "efrom")
            for c, e in lay.pairs:
                ctx.ob("efrom/" + c.key, all(is_init(g.mem(g.final, X, e.off + 8 * i, 8, "f"), Y, 8 * r) for i, r in enumerate(idx[c.key])), W % "ErrorState::fromDense", "%s is not read from its range" % c.n)
            t = vg.VG(m, m.find("^ve_dof$")).ret
            ctx.ob("dof", t.op == "c" and t.a[0] == size, W % "State::DOF", "is not the number of error components")
        cells = lambda cs, key: {c.key: c for c in cs}
        # covariance: symmetric
        want = {}
        for c in comps(m, "Covariance"):
            a, b = parts(c)
            for i, r in enumerate(idx[a]):
                for j, k in enumerate(idx[b]):
                    want[r, k] = want[k, r] = c.off + 8 * (j * c.r + i)
            if a == b:      # symmetric itself: either triangle
                for i, r in enumerate(idx[a]):
                    for j, k in enumerate(idx[a]):
                        want[r, k] = (c.off + 8 * (j * c.r + i), c.off + 8 * (i * c.r + j))
        square(ctx, m, lay, "cdense_%d" % n, "Covariance::dense", size, want)
        q = {c.key: c for c in comps(m, "ProcessCovariance")}
        square(ctx, m, lay, "qdense_%d" % n, "ProcessCovariance::dense", size, {(r, r): q[k].off + 8 * (i % q[k].r) for k, v in idx.items() for i, r in enumerate(v)})
        jac = lambda typ, row, col, shape: {(row[parts2(c)[0]][i], col[parts2(c)[1]][j]): c.off + 8 * (j * c.r + i) for c in comps(m, typ) for i in range(len(row[parts2(c)[0]])) for j in range(len(col[parts2(c)[1]]))}
        square(ctx, m, lay, "jdense_%d" % n, "StateJac::dense", size, jac("StateJac", idx, idx, None))
        inp, o = {}, 0
        gi = ekflib.run(ctx, m, lay, "idense")
        pos = {}
        for i in range(64):
            t = gi.mem(gi.final, X, 8 * i, 8, "f")
            if t.op == "init" and t.a[0] == Y:
                pos[t.a[1]] = i
        for c in lay.inp:
            inp[c.key] = [pos.get(c.off + 8 * i, -1) for i in range(c.dof)]
        ni = sum(c.dof for c in lay.inp)
        ctx.ob("idense", sorted(r for v in inp.values() for r in v) == list(range(ni)), W % "Input::dense", "the components do not tile the input")
        if n == 0:
            gf = ekflib.run(ctx, m, lay, "ifrom")
            for c in lay.inp:
                ctx.ob("ifrom/" + c.key, all(is_init(gf.mem(gf.final, X, c.off + 8 * i, 8, "f"), Y, 8 * r) for i, r in enumerate(inp[c.key])), W % "Input::fromDense", "%s is not read from its range" % c.n)
            u = {c.key: c for c in comps(m, "InputCovariance")}
            square(ctx, m, lay, "ucdense", "InputCovariance::dense", ni, {(r, r): u[k].off + 8 * i for k, v in inp.items() for i, r in enumerate(v)})
        square(ctx, m, lay, "udense_%d" % n, "InputJac::dense", (size, ni), jac("InputJac", idx, inp, None))
        # measurement Jacobians
        for name, typ, rows in (("ppdense", "pointPosMeas::Jac", None), ("obsdense", "obsMeas::Jac", 4), ("fhdense", "fixAndHoldMeas::Jac", n)):
            cs = comps(m, typ)
            nr = rows if rows is not None else cs[0].r
            want = {(i, idx[norm(c.n[1:])][j]): c.off + 8 * (j * c.r + i) for c in cs for i in range(nr) for j in range(len(idx[norm(c.n[1:])]))}
            if nr:
                square(ctx, m, lay, "%s_%d" % (name, n), typ + "::dense", (nr, size), want)


def parts2(c):
    a, b = c.n.split("_d", 1)
    return norm(a[1:]), norm(b)


def square(ctx, m, lay, name, what, size, want):
    """every entry of the dense matrix is the wanted cell, or zero"""
    g = ekflib.run(ctx, m, lay, name)
    R, C = size if isinstance(size, tuple) else (size, size)
    bad = []
    for i in range(R):
        for j in range(C):
            t = g.mem(g.final, X, 8 * (j * 64 + i), 8, "f")
            w = want.get((i, j))
            if not (isconst(t, 0.0) if w is None else any(is_init(t, Y, x) for x in (w if isinstance(w, tuple) else (w,)))):
                bad.append((i, j))
    ctx.ob(name, not bad, W % what, "entries %s are not those of their block" % bad[:4])


def finite(ctx, m, lay):
    tests = [("finite_%d" % n, "State", n) for n in COUNTS] + [("efinite", "ErrorState", None), ("ifinite", "Input", None), ("cfinite", "Covariance", None), ("qfinite", "ProcessCovariance", None),
                                                              ("ufinite", "InputCovariance", None)] + [(p + "finite", t, None) for p, t in JACS]
    for name, typ, n in tests:
        g = ekflib.run(ctx, m, lay, name, ((0, typ),) if typ == "State" else ())
        cells, own = [], {}
        for c in comps(m, typ):
            if c.kind in ("mat", "group", "array"):
                o = c.off + (lay.dq["buf_"] if c.kind == "group" else 0)
                k = 8 if c.kind == "group" else c.r * c.c * (used(lay, c, n) if n is not None else c.num)
                own[c.key] = [o + 8 * i for i in range(k)]
                cells += own[c.key]

        def given(case):
            """the function's answer for cases of (cells, value) pairs, all other scalars being ordinary"""
            def leaf(t):
                if t.w != "f" or t.a[0] != X:
                    return None
                r = np.full(len(case), 0.5)
                for i in at.get(t.a[1], ()):
                    r[i] = case[i][1]
                return r
            at = {}
            for i, (cs, v) in enumerate(case):
                for o in cs:
                    at.setdefault(o, []).append(i)
            r = np.broadcast_to(np.asarray(ekflib.batch(g.ret, len(case), leaf)), (len(case),))
            return [bool(int(x) & 1) for x in r]
        ok = given([((), 0.0)] + [(cells, v) for _, v in BAD])
        ctx.ob("%s/true" % name, ok[0], W % "isFinite(%s)" % typ, "finite values are refused")
        ctx.ob("%s/false" % name, not any(ok[1:]) or not cells, W % "isFinite(%s)" % typ, "passes with every value NaN or infinite")
        for key, offs in own.items():
            bad = []
            for j in range(0, len(offs), 128):
                case = [((o,), v, what) for o in offs[j:j + 128] for what, v in BAD]
                bad += ["%s at %d" % (x[2], (x[0][0] - offs[0]) // 8) for x, y in zip(case, given([x[:2] for x in case])) if y]
            ctx.ob("%s/%s" % (name, key), not bad, W % "isFinite(%s)" % typ, "%s: %s passes" % (key, "; ".join(bad[:3])))
