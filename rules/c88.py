import modlib, modref, pit, vg, lielib
TITLE = "Factor residuals are the measurement models"
TECH = "value graphs of every factor's Evaluate compared with independently written measurement models by algebraic identity testing (LLVM IR)"
RULE = """The residual terms of each factor (pseudorange and Doppler with its switch, relative carrier phase, pose prior, clock and switch dynamics, preintegrated IMU) must equal, as real functions of all parameters and of all members of
the factor, the reference written from the measurement model: evaluated at random points of a prime field, on the branch taken at ordinary values."""
ASSUME = ("exact arithmetic", "the generic branch of the quaternion exponential and logarithm (C80 decides the others)", "the switch scales carrier phase by its wavelength factor in the library's convention (lambda times metres)")


def setup(ctx):
    m = modlib.load(roots=("^v[sn]_", "__cxx_global_var_init"))
    return m, modlib.globals_of(m)


def guard(mod, globs, T):
    """decides branches at an ordinary floating-point point"""
    p = pit.FPoint(None)
    M = modref.Model(mod, T.name, modref.FloatAlg(p))
    p.atom = M.atom(M.P, globs)
    memo = {}

    def g(c):
        if c not in memo:
            memo[c] = p.truth(c)
        return memo[c]
    return g


def run(ctx):
    m, globs = setup(ctx)
    for name in modlib.MODELS:
        T = modlib.Terms(ctx, m, name)
        gv = T.given(set())
        res = [gv(t) for t in T.rawres]
        g = guard(m, globs, T)

        def build(seed):
            p = pit.Point(seed, snap=modref.SNAP, guard=g)
            M = modref.Model(m, name, modref.FieldAlg(p))
            want = M.ref(M.P)
            p.atom = M.atom(M.P, globs)
            if name == "imu" and not pit.issq(M.err[0].v) or name == "pose" and not pit.issq(lielib.qmul(lielib.conj(M.anc[:4]), M.P[0][:4])[0].v):
                raise pit.Resample
            return [a == p(b) for a, b in zip(want, res)]
        ok = pit.points(1, build)[0]
        for i, r in enumerate(ok):
            ctx.ob("%s/%d" % (name, i), r, "%s %s::Evaluate residual %d" % (T.file, T.cls, i), "differs from the measurement model")
