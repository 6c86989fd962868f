import math
import vg, pit
from pit import D, K, S, F
from lielib import *
TITLE = "Lie group maps are mutually inverse"
TECH = "value graphs of the exponential and logarithm maps: algebraic identity testing over a prime field with derivatives, power-series comparison in the small-angle branches (LLVM IR)"
RULE = """For Quat, DQuat, SO3 and SE3, on every branch the code takes (found along rotation angles from 1e-12 to pi about four axes, both signs of the quaternion, and angles just below pi): exp of a tangent vector must be the exponential and
exp(log(x)) must be x, log(exp(v)) must be v for rotations below half a turn, identically, by evaluating the returned terms at random points of a prime field; the left and right Jacobians must be the derivatives of those maps (dual
numbers). Branches that use a series must agree with the closed form to 1e-9 of the value over the angles for which they are taken (power series of both)."""
ASSUME = ("exact arithmetic within a branch (cancellation inside a closed-form branch is not bounded)", "elements have unit norm", "branch conditions change only along the rotation angle, the sign of the quaternion and the order of the axis components sampled")
W = "common/math/%s %s"
FILE = {"q": "quat.h", "d": "dquat.h", "r": "so3.h", "s": "se3.h"}
NAME = {"q": "Quat", "d": "DQuat", "r": "SO3", "s": "SE3"}
DIM = {"q": 3, "d": 6, "r": 3, "s": 6}
NEL = {"q": 4, "d": 8, "r": 9, "s": 12}
TOL = 1e-9
V0 = (0.7, -1.1, 0.4)


def run(ctx):
    lib = Lib(ctx)
    for t in "qdrs":
        for fn in ("exp", "expl", "expr") if t in "qd" else ("exp", "expl"):
            maps(ctx, lib, t, fn, False)
        for fn in ("log", "logl", "logr") if t in "qd" else ("log", "logl"):
            maps(ctx, lib, t, fn, True)


def regimes(ts, make, grid):
    """[(truth of the conditions, smallest, largest scale, guard)] along the family make(scale)"""
    cs = conditions(ts)
    out = []

    def key(s):
        g = guard(make(s))
        return tuple(bool(g(c)) for c in cs), g
    for s in grid:
        k, g = key(s)
        if out and out[-1][0] == k:
            out[-1][2] = s
        else:
            if out:     # locate the boundary
                lo, hi = out[-1][2], s
                for _ in range(40):
                    mid = math.sqrt(lo * hi) if lo > 0 else hi / 2
                    if key(mid)[0] == out[-1][0]:
                        lo = mid
                    else:
                        hi = mid
                out[-1][2] = lo
            out.append([k, s, s, g])
    return out


SMALL = [10 ** (-12 + i * 0.25) for i in range(43)]
WIDE = [10 ** (-12 + i * 0.25) for i in range(46)] + [0.5, 1.0, 2.0, 2.5, 3.0, 3.1]


def fam(t, n, neg=False):
    """input of the logarithm at rotation vector s n"""
    def f(s):
        w = [s * x for x in n]
        q = fexpq(w)
        if neg:
            q = [-x for x in q]
        d = [x / 2 for x in (y.v for y in qmul([F(0)] + [F(x) for x in V0], [F(x) for x in q]))]
        return q if t == "q" else q + d if t == "d" else frot(q) + (list(V0) if t == "s" else [])
    return f


def maps(ctx, lib, t, fn, log):
    n = DIM[t]
    nin, nout = (NEL[t], n) if log else (n, NEL[t])
    side = fn[3:4]
    terms = lib.terms("%s_%s" % (t, fn), 1, nout)
    jac = lib.terms("%s_%s" % (t, fn), 2, n * n) if side else []
    where = W % (FILE[t], "%s::%s" % (NAME[t], {"": "%s" % fn[:3], "l": "%s with left Jacobian", "r": "%s with right Jacobian"}[side] % fn[:3] if side else fn))
    bad = {}
    cnt = 0

    def miss(k, msg):
        bad.setdefault(k, []).append(msg)
    for ax in AX:
        fams = []
        if log:
            fams.append(("rotation by", fam(t, ax), WIDE if t in "qd" else WIDE, 1))
            if t in "qd":
                fams.append(("minus the rotation by", fam(t, ax, True), WIDE, -1))
            else:
                fams.append(("rotation by pi less", lambda s, f=fam(t, ax): f(math.pi - s), WIDE, 0))
        else:
            fams.append(("vector of length", lambda s, ax=ax: [s * x for x in ax] + ([] if n == 3 else list(V0)), WIDE + [4.0, 6.0, 7.0], 1))
        for what, make, grid, kind in fams:
            for k, lo, hi, g in regimes(terms + jac, make, grid):
                cnt += 1
                msg = "%s %.3g to %.3g about %s: " % (what, lo, hi, ax)
                r = exact(t, log, side, terms, jac, g, kind, ax)
                if r and hi < 0.2 and kind:
                    r2 = series(t, log, side, terms, jac, g, kind, ax, hi)
                    r = {a: b for a, b in r2.items()}
                for a, b in r.items():
                    miss(a, msg + b)
    ctx.add("regimes", "%s: %d" % (where, cnt))
    for k in ("value",) + (("jacobian",) if side else ()):
        b = bad.get(k, [])
        ctx.ob("%s/%s/%s" % (NAME[t], fn, k), not b, where, "%d regimes, e.g. %s" % (len(b), "; ".join(b[:2])))


def element(t, r, d, p):
    """library representation of a pose given as dual quaternion"""
    if t == "q":
        return r
    if t == "d":
        return r + d
    R = rotm(r, p.const(1))
    if t == "r":
        return R
    two = p.const(2)
    return R + [two * x for x in qmul(d, conj(r))[1:]]


def same(t, p, X, r, d):
    """is X the pose (r, d), up to the sign of the quaternion"""
    if t in "rs":
        return X == element(t, r, d, p)
    Y = element(t, r, d, p)
    return X == Y or [-x for x in X] == Y


def exact(t, log, side, terms, jac, g, kind, ax):
    """what fails of the identities over the reals, on the branch g"""
    def build(seed):
        p = pit.Point(seed, guard=g)
        th = D(p.rnd() ** 2)
        # the branch's own angle: sine of the half angle positive
        s_, c_ = None, None
        big = kind == -1
        p.angle(sin=1, cos=-1 if big else 1, value=(th / K(2)).v)
        if kind == 0:
            pass
        n = axis(p)
        # components named positive or negative as at the representative axis
        if any(pit.issq(x.v) != (a > 0) for x, a in zip(n, ax)):
            raise pit.Resample
        w = [th * x for x in n]
        v = vec(p, 3)
        r, d = expd(p, w, v)
        fails = {}
        if not log:
            inp = w + (v if DIM[t] == 6 else [])
            p.atom = atom(inp)
            out = [p(x) for x in terms]
            if [x.v for x in out] != [x.v for x in element(t, r, d, p)]:
                fails["value"] = "exp differs from the exponential"
        else:
            X = element(t, r, d, p)
            p.atom = atom(X)
            out = [p(x) for x in terms]
            r2, d2 = expd(p, out[:3], out[3:] if DIM[t] == 6 else v)
            if not same(t, p, X, r2, d2 if DIM[t] == 6 else d):
                fails["value"] = "exp(log(x)) is not x"
            elif kind == 1 and out != inp_of(t, w, v):
                fails["value"] = "log(exp(v)) is not v"
        if side:
            y = vec(p, DIM[t])
            p2 = pit.Point(0, guard=g)
            p2.rng, p2.ang, p2.fns = p.rng, p.ang, p.fns
            J = [p(x) for x in jac]
            if not log:
                p2.atom = atom([D(a.v, b.v) for a, b in zip(w + (v if DIM[t] == 6 else []), y)])
                dX = [p2(x).rate() for x in terms]
                z = mat(J, y)
                want = deriv(t, side, [p(x) for x in terms], z)
                if dX != want:
                    fails["jacobian"] = "is not the derivative of exp"
            else:
                X = element(t, r, d, p)
                dX = deriv(t, side, X, y)
                p2.atom = atom([D(a.v, b.v) for a, b in zip(X, dX)])
                if [p2(x).rate() for x in terms] != mat(J, y):
                    fails["jacobian"] = "is not the derivative of log"
        return fails
    try:
        return pit.points(1, build)[0]
    except vg.Broken as e:
        return {"value": str(e)}


def inp_of(t, w, v):
    return w + (v if DIM[t] == 6 else [])


def deriv(t, side, X, z):
    """derivative of exp(e z) X (left) or X exp(e z) (right)"""
    h = K(1) / K(2)
    om = [h * x for x in z[:3]]
    u = [h * x for x in z[3:]]
    if t in "qd":
        mul = (lambda a, b: qmul(a, b)) if side == "l" else (lambda a, b: qmul(b, a))
        r = mul(pure(om), X[:4])
        if t == "q":
            return r
        return r + add(mul(pure(om), X[4:]), mul(pure(u), X[:4]))
    R = X[:9]
    cols = [cross(z[:3], [R[j], R[3 + j], R[6 + j]]) for j in range(3)]
    dR = [cols[j][i] for i in range(3) for j in range(3)]
    return dR if t == "r" else dR + add(cross(z[:3], X[9:]), z[3:])


def series(t, log, side, terms, jac, g, kind, ax, hi):
    """what fails by more than TOL for scales up to hi, on the branch g"""
    fails = {}
    s = lambda x: S([0.0, x])
    p = pit.SPoint(None, g)
    w = [s(x) for x in ax]
    v = [S([x]) for x in V0]
    r, d = expd_s(p, w, v)
    if kind == -1:
        r, d = [-x for x in r], [-x for x in d]

    def far(A, B):
        e = 0.0
        for a, b in zip(A, B):
            e = max(e, sum(abs(x - y) * hi ** i for i, (x, y) in enumerate(zip(a.c[:8], b.c[:8]))))
        return e
    try:
        if not log:
            inp = inp_of(t, w, v)
            p.atom = atom(inp)
            e = far([p(x) for x in terms], element(t, r, d, p))
            if e > TOL * max(hi, 1e-3):
                fails["value"] = "exp is off by up to %.2g" % e
        else:
            X = element(t, r, d, p)
            p.atom = atom(X)
            out = [p(x) for x in terms]
            e = far(out, inp_of(t, w, v))
            if e > TOL * max(hi, 1e-3) * 10:
                fails["value"] = "log is off by up to %.2g" % e
        if side:
            # reference Jacobians by their series
            J = [p(x) for x in jac]
            e = far(J, refjac(p, w, v, log, side, DIM[t]))
            if e > TOL:
                fails["jacobian"] = "is off by up to %.2g" % e
    except ZeroDivisionError:
        fails["value"] = "the branch divides by a vanishing number"
    return fails


def refjac(p, w, v, log, side, n):
    """left or right Jacobian of exp or log as a series in ad"""
    c = p.const
    z = c(0)
    sk = lambda a: [z, -a[2], a[1], a[2], z, -a[0], -a[1], a[0], z]
    if n == 3:
        A = sk(w)
    else:
        A_, B_ = sk(w), sk(v)
        A = []
        for i in range(3):
            A += A_[3 * i:3 * i + 3] + [z] * 3
        for i in range(3):
            A += B_[3 * i:3 * i + 3] + A_[3 * i:3 * i + 3]
    I = [c(1) if i == j else z for i in range(n) for j in range(n)]
    sg = 1 if side == "l" else -1
    # sum ad^k / (k+1)!  or  sum B_k ad^k / k!
    bern = [1, -1 / 2, 1 / 6, 0, -1 / 30, 0, 1 / 42, 0, -1 / 30, 0, 5 / 66]
    out, P = [z] * (n * n), I
    for k in range(10):
        f = (bern[k] / math.factorial(k) if log else 1 / math.factorial(k + 1)) * sg ** k
        out = [a + c(f) * b for a, b in zip(out, P)]
        P = matmul(P, A, n)
    return out
