import vg, pit, modref, modlib
from pit import D, K, F
from lielib import qmul, conj, add, sub, cross, dot, mat, rotm, matmul, vec, unitq, expq, pure
from imulib import *
TITLE = "IMU preintegration follows the IMU's motion model"
TECH = "value graphs of ImuModel::integrate, computeEndState and the ImuState operators compared with the motion model by algebraic identity testing (LLVM IR)"
RULE = """The record integrate appends must carry the sample, the preintegrated position, velocity and rotation advanced by the mean of the last and the new sample with the bias removed, the covariance A P A' + B R B' and the bias Jacobian
A J + B, with A the second-order transition matrix I + F dt + F^2 dt^2/2 of the error state and B = G dt. The end state computeEndState returns must make the factor's residual zero at the bias of integration. Adding an error state
multiplies by its exponential on the right, subtracting is its inverse, and += agrees with +. All identically, at random points of a prime field."""
ASSUME = ("exact arithmetic", "generic branch of the quaternion exponential and logarithm (C80 decides the others)", "a record appended to the history is stored as given")


def tr(M, n):
    return [M[j * n + i] for i in range(n) for j in range(len(M) // n)]


class Base:
    """model memory with one last record; alg chooses the numbers"""

    def __init__(self, m, alg):
        self.m, self.a = m, alg
        self.H, self.S, self.Z, self.Q = offsets(m)
        M = self.M = modref.Model(m, "imu", alg)
        self.last = 2 * M.size
        self.cov, self.R = alg.vals(81), alg.vals(6)
        self.z0, self.z1 = alg.vals(6), alg.vals(6)
        M.hist.put(self.last + self.H["covariance"], self.cov)
        M.hist.put(self.last + self.H["z"] + self.Z["accel"], self.z0[:3]).put(self.last + self.H["z"] + self.Z["gyro"], self.z0[3:])
        M.ob.c[M.member("R_", 1)] = (Obj().put(0, self.R), 0)
        self.sample = Obj().put(self.Z["accel"], self.z1[:3]).put(self.Z["gyro"], self.z1[3:])
        self.dt, = alg.vals(1)
        self.res = modlib.resolver({0: M.ob, 1: self.sample})

    def atom(self, globs):
        zt = self.H["z"] + self.Z["t"]

        def f(t):
            if t.op == "init" and t.w == "f":
                if t.a[0][0] == "glob":
                    g = globs.get((t.a[0], t.a[1]))
                    return self.a.k(modref.SNAP(vg.fval(g)) if isinstance(self.a, modref.FieldAlg) else vg.fval(g)) if g is not None and g.op == "cf" else None
                return self.res(t)
            if t.op == "call" and t.a[0] == "seconds":
                a, b = (self.res.ptr(x) for x in t.a[1:3])
                if a and b and a[0] is self.sample and a[1] == self.Z["t"] and b[0] is self.M.hist and b[1] == self.last + zt:
                    return self.dt
            return None
        return f

    def ref(self):
        k, M, dt = self.a.k, self.M, self.dt
        half, one, z = k(1) / k(2), k(1), k(0)
        mean = [half * (x + y) for x, y in zip(self.z0, self.z1)]
        a, w = sub(mean[:3], M.b0[:3]), sub(mean[3:], M.b0[3:])
        R = rotm(M.ga, one)
        st = add(M.al, [dt * x for x in M.be]) + add(M.be, [dt * x for x in mat(R, a, 3)]) + qmul(M.ga, expq(self.a.p, [dt * x for x in w]))
        Ff = [z] * 81
        sk = lambda v: [z, -v[2], v[1], v[2], z, -v[0], -v[1], v[0], z]
        G = [z] * 54

        def put(Mx, n, r, c, B, s):
            for i in range(3):
                for j in range(3):
                    Mx[(r + i) * n + c + j] = s * B[3 * i + j]
        I3 = [one if i == j else z for i in range(3) for j in range(3)]
        put(Ff, 9, 0, 3, I3, one)
        put(Ff, 9, 3, 6, matmul(R, sk(a), 3), -one)
        put(Ff, 9, 6, 6, sk(w), -one)
        put(G, 6, 3, 0, R, -one)
        put(G, 6, 6, 3, I3, -one)
        Fd = [dt * x for x in Ff]
        F2 = matmul(Fd, Fd, 9)
        A = [(one if i // 9 == i % 9 else z) + x + half * y for i, (x, y) in enumerate(zip(Fd, F2))]
        B = [dt * x for x in G]
        P = tr(self.cov, 9)
        BR = [B[i] * self.R[i % 6] for i in range(54)]
        cov = add(matmul(matmul(A, P, 9), tr(A, 9), 9), matmul(BR, tr(B, 6), 6))
        J = add(matmul(A, tr(M.J, 9), 9), B)
        return st, cov, J


def run(ctx):
    m, globs = load()
    integrate(ctx, m, globs)
    end(ctx, m, globs)
    operators(ctx, m)


def guard(point):
    memo = {}

    def g(c):
        if c not in memo:
            memo[c] = point.truth(c)
        return memo[c]
    return g


def integrate(ctx, m, globs):
    g = graph(ctx, m, "integrate")
    w = W % "integrate"
    ap = appends(g)
    ctx.ob("append", len(ap) == 1, w, "integrate appends %d records" % len(ap))
    if len(ap) != 1:
        return
    e = ap[0]
    H, S, Z, Q = offsets(m)
    st, p = e.state, e.args[1] if len(e.args) > 1 else None
    if p is None:
        ctx.ob("record", False, w, "an empty record is appended")
        return
    at = lambda off, sz=8, ty="f": g.load(st, g.ptr_add(p, off, []), sz, ty)
    al = [at(H["state"] + S["alpha"] + 8 * i) for i in range(3)]
    be = [at(H["state"] + S["beta"] + 8 * i) for i in range(3)]
    arr = at(H["state"] + S["gamma"] + Q["arr_"], 8, "p")
    ga = [g.load(st, g.ptr_add(arr, 8 * i, []), 8, "f") for i in range(4)]
    cov = [at(H["covariance"] + 8 * i) for i in range(81)]
    J = [at(H["dstate_dbias"] + 8 * i) for i in range(54)]
    for n in ("accel", "gyro"):
        for i in range(3):
            t = at(H["z"] + Z[n] + 8 * i)
            ctx.ob("sample/%s/%d" % (n, i), t.op == "init" and t.a[0] == ("arg", 1) and t.a[1] == Z[n] + 8 * i, w, "the sample kept is not the one given")
    for i in range(2):
        t = at(H["z"] + Z["t"] + 8 * i, 8, 64)
        ctx.ob("sample/t/%d" % i, t.op == "init" and t.a[0] == ("arg", 1) and t.a[1] == Z["t"] + 8 * i, w, "the time kept is not the sample's")
    fp = pit.FPoint(None)
    fb = Base(m, modref.FloatAlg(fp))
    fp.atom = fb.atom(globs)
    gd = guard(fp)

    def build(seed):
        p_ = pit.Point(seed, snap=modref.SNAP, guard=gd)
        b = Base(m, modref.FieldAlg(p_))
        s_, c_, j_ = b.ref()
        p_.atom = b.atom(globs)
        got = [p_(x) for x in al + be + ga]
        neg = [-x for x in got[6:]]
        return (got[:6] == s_[:6], got[6:] == s_[6:] or neg == s_[6:], [p_(x) for x in cov] == tr(c_, 9), [p_(x) for x in J] == tr(j_, 6))
    for n, ok in zip(("preintegrated position and velocity", "preintegrated rotation", "covariance", "bias Jacobian"), pit.points(1, build)[0]):
        ctx.ob("step/" + n.split()[-1], ok, w, "the %s of the appended record is not the motion model's" % n)


def end(ctx, m, globs):
    g = graph(ctx, m, "end")
    w = W % "computeEndState"
    out = [g.mem(g.final, ("arg", 3), 8 * i, 8, "f") for i in range(8)]
    ov = [g.mem(g.final, ("arg", 4), 8 * i, 8, "f") for i in range(3)]

    def zero(cond):
        """the test for an interval of no length is false"""
        def truth(c):
            for x in vg.subterms(c):
                if x.op == "sym":
                    return False
            return cond(c)
        return truth

    def atoms(M, start, vel):
        at = M.atom([start, vel], globs)
        ids = {1: start, 2: vel}

        def f(t):
            if t.op == "init" and t.w == "f" and t.a[0][0] == "arg" and t.a[0][1] in ids:
                return ids[t.a[0][1]][t.a[1] // 8]
            return at(t)
        return f
    fp = pit.FPoint(None)
    fm = modref.Model(m, "imu", modref.FloatAlg(fp))
    fp.atom = atoms(fm, fm.P[0], fm.P[2])
    gd = zero(guard(fp))

    def build(seed):
        p = pit.Point(seed, snap=modref.SNAP, guard=gd)
        M = modref.Model(m, "imu", modref.FieldAlg(p))
        p.atom = atoms(M, M.P[0], M.P[2])
        X, v = [p(x) for x in out], [p(x) for x in ov]
        # residual with the bias of integration
        k = M.a.k
        Xi, vi, dt = M.P[0], M.P[2], M.dt
        g_ = [k(0), k(0), k(modref.G0)]
        Ri = tr(rotm(Xi[:4], k(1)), 3)
        half = k(1) / k(2)
        dp = sub(modref.trans(k, X), modref.trans(k, Xi))
        r1 = mat(Ri, [x - half * y * dt * dt for x, y in zip(dp, g_)], 3)
        r1 = [x - y * dt - u for x, y, u in zip(r1, vi, M.al)]
        r2 = [x - y - z * dt - u for x, y, z, u in zip(mat(rotm(M.ga, k(1)), v, 3), vi, mat(Ri, g_, 3), M.be)]
        e = qmul(conj(M.ga), qmul(conj(Xi[:4]), X[:4]))
        z = [k(0)] * 3
        return r1 == z, r2 == z, e[1:] == z and dot(X[:4], X[:4]) == k(1)
    for n, ok in zip(("position", "velocity", "attitude"), pit.points(1, build)[0]):
        ctx.ob("end/" + n, ok, w, "the residual of the %s at the end state is not zero" % n)


def state(m, S, Q, off, vals):
    o = Obj()
    o.put(S["alpha"], vals[:3]).put(S["beta"], vals[3:6])
    o.c[S["gamma"] + Q["arr_"]] = (Obj().put(0, vals[6:]), 0)
    return o


def operators(ctx, m):
    H, S, Z, Q = offsets(m)
    w = "models/imu_state.cxx ImuState::%s"
    ops = {n: graph(ctx, m, n) for n in ("plus", "pluseq", "minus", "identity")}

    def run_(p, n, A, B, k):
        g = ops[n]
        outs = [g.mem(g.final, ("arg", 2 if n != "identity" else 0), 8 * i, 8, "f") for i in range(k)]
        roots = {}
        if A is not None:
            roots[0] = state(m, S, Q, 0, A)
        if n == "minus":
            roots[1] = state(m, S, Q, 0, B)
        elif B is not None:
            roots[1] = Obj().put(0, B)
        r = modlib.resolver(roots)
        p.atom = lambda t: r(t) if t.op == "init" and t.w == "f" else None
        p.memo = {}
        return [p(x) for x in outs]

    def build(seed, n):
        fp = pit.FPoint(None)
        fa = modref.FloatAlg(fp)
        if n in ("plus", "pluseq"):
            fr = lambda: fp
            x, d = fa.vals(6) + fa.pose()[:4], fa.vals(9)
        gd = {}

        def branch(c):
            raise AssertionError
        p = pit.Point(seed, snap=modref.SNAP, guard=lambda c: None)
        a = modref.FieldAlg(p)
        X = a.vals(6) + unitq(p)
        if n in ("plus", "pluseq"):
            r = modlib.resolver({0: state(m, S, Q, 0, x), 1: Obj().put(0, d)})
            fp.atom = lambda t: r(t) if t.op == "init" and t.w == "f" else None
            p.guard = guard(fp)
            dv = a.vals(9)
            want = add(X[:6], dv[:6]) + qmul(X[6:], expq(p, dv[6:]))
            got = run_(p, n, X, dv, 10)
            return got == want or got[:6] + [-y for y in got[6:]] == want
        if n == "minus":
            fx, fy = fa.vals(6) + fa.pose()[:4], fa.vals(6) + fa.pose()[:4]
            r = modlib.resolver({0: state(m, S, Q, 0, fx), 1: state(m, S, Q, 0, fy)})
            fp.atom = lambda t: r(t) if t.op == "init" and t.w == "f" else None
            p.guard = guard(fp)
            Y = a.vals(6) + unitq(p)
            e = qmul(conj(Y[6:]), X[6:])
            fe = qmul(conj(fy[6:]), fx[6:])
            pos = fe[0].v > 0
            if pit.issq(e[0].v) != pos:
                raise pit.Resample
            want = sub(X[:6], Y[:6]) + modref.log3(p, e if pos else [-q for q in e])
            return run_(p, n, X, Y, 9) == want
        got = run_(p, "identity", None, None, 10)
        return got == [K(0)] * 6 + [K(1)] + [K(0)] * 3
    names = {"plus": "operator+", "pluseq": "operator+=", "minus": "operator-", "identity": "setIdentity"}
    for n in names:
        ok = pit.points(1, lambda s: build(s, n))[0]
        ctx.ob("state/" + n, ok, w % names[n], {"minus": "is not the logarithm of the relative state", "identity": "is not the neutral element"}.get(n, "is not the state times the exponential of the error state"))
