import modlib, modref, pit, vg
from c88 import setup, guard
TITLE = "Factors tolerate any subset of requested Jacobians"
TECH = "value graphs of every factor's Evaluate specialised to each pattern of null Jacobian pointers: effects and equality of terms (LLVM IR)"
RULE = """With a null Jacobian array, and with any block not requested (each alone, all but each, all), Evaluate must not write memory reached through the null pointers or any memory other than the residual and the requested blocks, and the
residual and the requested blocks must be the terms obtained when everything is requested (same terms, or equal at random points of a prime field)."""
ASSUME = ("parameter, residual and Jacobian memory do not overlap", "where terms differ, the generic branch of the quaternion logarithm (C80 decides that the others agree)")


def run(ctx):
    m, globs = setup(ctx)
    for name in modlib.MODELS:
        T, N = modlib.Terms(ctx, m, name), modlib.Terms(ctx, m, name, null=True)
        where = "%s %s::Evaluate" % (T.file, T.cls)
        n = len(T.ps)
        full = T.given(set())
        res = [full(t) for t in T.rawres]
        jac = [[full(t) for t in b] for b in T.raw]
        eq = equal(m, name, T, globs)
        for g, k, outs in ((T.g, "requested", {T.R, *T.J}), (N.g, "null", {N.R})):
            stray = sorted({str(o) for o in g.final.mem if o[0] != "alloca" and o not in outs})
            ctx.ob("%s/effects/%s" % (name, k), not stray and not g.events and not g.rets[1:], where, "effects other than writing residual and Jacobians: %s %s" % (stray, [e.dem for e in g.events][:3]))
            for o in sorted(outs):
                size = 8 * T.nr * (1 if o == T.R else T.ps[T.J.index(o)])
                wild = [c for c in g.final.wcells(o) if c < 0 or c >= size] if o in g.final.mem else []
                ctx.ob("%s/extent/%s/%s" % (name, k, o[1]), not wild, where, "writes outside the block of argument %d at byte %s" % (o[1], wild[:1]))
        ctx.ob("%s/null/residual" % name, eq(N.rawres, res), where, "the residual depends on whether a Jacobian array is given")
        ctx.ob("%s/null/result" % name, N.g.ret is full(T.g.ret), where, "the result depends on whether a Jacobian array is given")
        sets = {frozenset([i]) for i in range(n)} | {frozenset(range(n)) - {i} for i in range(n)} | {frozenset(range(n))}
        for nulls in sorted(sets, key=sorted):
            gv = T.given(nulls)
            tag = "%s/without %s" % (name, ",".join(map(str, sorted(nulls))))
            for i in range(n):
                b = [gv(t) for t in T.raw[i]]
                if i in nulls:
                    ctx.ob("%s/block %d untouched" % (tag, i), all(t.op == "init" and t.a[0] == T.J[i] and t.a[1] == 8 * k for k, t in enumerate(b)), where, "writes block %d when it is not requested" % i)
                else:
                    ctx.ob("%s/block %d" % (tag, i), eq(b, jac[i]), where, "block %d depends on which others are requested" % i)
            ctx.ob("%s/residual" % tag, eq([gv(t) for t in T.rawres], res), where, "the residual depends on which blocks are requested")
            ctx.ob("%s/result" % tag, gv(T.g.ret) is full(T.g.ret), where, "the result depends on which blocks are requested")


def equal(m, name, T, globs):
    """same terms, or equal values at a random point"""
    def eq(a, b):
        if all(x is y for x, y in zip(a, b)):
            return True
        g = guard(m, globs, T)

        def build(seed):
            p = pit.Point(seed, snap=modref.SNAP, guard=g)
            M = modref.Model(m, name, modref.FieldAlg(p))
            at = M.atom(M.P, globs)
            outs = {T.R, *T.J}
            p.atom = lambda t: p.free(("cell", t.a[0], t.a[1])) if t.op == "init" and t.a[0] in outs else at(t)
            return [p(x) == p(y) for x, y in zip(a, b)]
        return all(pit.points(1, build)[0])
    return eq
