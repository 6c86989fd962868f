import modlib, modref, pit, vg, lielib, c80
from pit import D, K
from c88 import setup, guard
TITLE = "Factor Jacobians are the derivatives of the residuals"
TECH = "value graphs of every factor's Evaluate: the returned Jacobian blocks against forward derivatives of the residual terms themselves, by algebraic identity testing with dual numbers (LLVM IR)"
RULE = """For each factor and parameter block, the Jacobian block times a random direction (for poses: the tangent of x*exp(y)) must be the derivative of the residual in that direction, identically in all parameters and members (random points
of a prime field, dual numbers). Two documented approximations are accepted as alternatives: the Doppler row with the line of sight held and the earth-rotation terms dropped, and the carrier phase with its earth-rotation term held."""
ASSUME = ("exact arithmetic", "the generic branch of the quaternion exponential and logarithm", "only the action on tangent vectors of pose parameters is compared")


def run(ctx):
    m, globs = setup(ctx)
    for name in modlib.MODELS:
        T = modlib.Terms(ctx, m, name)
        gv = T.given(set())
        res = [gv(t) for t in T.rawres]
        jac = [[gv(t) for t in b] for b in T.raw]
        g = guard(m, globs, T)
        for i, n in enumerate(T.ps):
            def build(seed):
                p = pit.Point(seed, snap=modref.SNAP, guard=g)
                M = modref.Model(m, name, modref.FieldAlg(p))
                M.ref(M.P)
                if name == "imu" and not pit.issq(M.err[0].v) or name == "pose" and not pit.issq(lielib.qmul(lielib.conj(M.anc[:4]), M.P[0][:4])[0].v):
                    raise pit.Resample
                p.atom = M.atom(M.P, globs)
                if n == 8:
                    dx = c80.deriv("d", "r", M.P[i], lielib.vec(p, 6))
                else:
                    dx = lielib.vec(p, n)
                J = [p(x) for x in jac[i]]
                got = [lielib.dot(J[r * n:r * n + n], dx) for r in range(T.nr)]
                P = list(M.P)
                P[i] = [D(a.v, b.v) for a, b in zip(M.P[i], dx)]
                p2 = pit.Point(0, snap=modref.SNAP, guard=g)
                p2.rng, p2.ang, p2.fns, p2.var = p.rng, p.ang, p.fns, p.var
                p2.atom = M.atom(P, globs)
                want = [[p2(x).rate() for x in res]]
                if name in ("prange", "relcp"):
                    want.append([x.rate() for x in M.ref(P, M.P)])
                return got, want
            got, want = pit.points(1, build)[0]
            for r in range(T.nr):
                ctx.ob("%s/%d/%d" % (name, i, r), any(w[r] == got[r] for w in want), "%s %s::Evaluate Jacobian of residual %d in parameter block %d" % (T.file, T.cls, r, i), "is not the derivative of the residual")
