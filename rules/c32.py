import modlib, vg
from c88 import setup
TITLE = "Factors fill every residual and requested Jacobian entry"
TECH = "value graphs of every factor's Evaluate: output cells as functions of the inputs only, for each pattern of requested blocks (LLVM IR)"
RULE = """Whenever Evaluate returns true, the value of every residual cell and of every cell of each requested Jacobian block must be a term over parameters and members: no cell keeps, or is computed from, what the output memory held
before. Decided with no Jacobian array, with all blocks, and with each block alone."""
ASSUME = ("parameter, residual and Jacobian memory do not overlap", "a local variable's uninitialised memory is seen as the compiler's undefined value")


def run(ctx):
    m, globs = setup(ctx)
    for name in modlib.MODELS:
        T, N = modlib.Terms(ctx, m, name), modlib.Terms(ctx, m, name, null=True)
        where = "%s %s::Evaluate" % (T.file, T.cls)
        n = len(T.ps)
        outs = {T.R, *T.J}
        cells(ctx, "%s/null" % name, where, "residual", [good(N.g.ret)(t) for t in N.rawres], outs)
        for tag, nulls in [("all", set())] + [("only %d" % i, set(range(n)) - {i}) for i in range(n)]:
            gv = T.given(nulls)
            ok = good(gv(T.g.ret))
            cells(ctx, "%s/%s" % (name, tag), where, "residual", [ok(gv(t)) for t in T.rawres], outs)
            for i in range(n):
                if i not in nulls:
                    cells(ctx, "%s/%s" % (name, tag), where, "block %d" % i, [ok(gv(t)) for t in T.raw[i]], outs)


def good(ret):
    """rewriting under the assumption that Evaluate returned true"""
    if ret.op == "c" and ret.a[0] & 1 or ret.op == "c":
        return lambda t: t
    memo = {}

    def f(t):
        if t is ret:
            return vg.b(True)
        if t.op == "not" and t.a[0] is ret:
            return vg.b(False)
        return None
    return lambda t: vg.rewrite(t, f, memo)


def cells(ctx, tag, where, what, terms, outs):
    bad = []
    for i, t in enumerate(terms):
        if any(x.op in ("undef", "poison") or x.op == "init" and (x.a[0] in outs or x.a[0][0] == "alloca") for x in vg.subterms(t)):
            bad.append(i)
    ctx.ob("%s/%s" % (tag, what), not bad, where, "%s: cells %s keep or use what the output memory held" % (what, bad[:6]))
