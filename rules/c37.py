import re
import ir, vg, prop
from ir import VERIF
TITLE = "Error and result types report failure faithfully"
TECH = "value-graph evaluation of the error types and propagation macros in instantiated witnesses, and of the check functions (LLVM IR); type-level assertions"
RULE = """Witness functions instantiate Error, ErrorResult<T> (for a scalar, a pointer and an aggregate), RETURN_IF_NOT_OK and RETURN_OR_ASSIGN. From their value graphs: ok() is equivalent to 'no message',
none() has none, create() has one, copies keep it, ==/!= compare the message; a result built from a value reports ok and returns that value, built from an error reports not ok and returns that
error, is refused when the error is none, and neither accessor returns normally for the wrong alternative. The macros evaluate their operand exactly once, return exactly its error exactly when
there is one, and otherwise run what follows (with the value). check() calls exit or abort exactly when the condition is false, and otherwise has no effect; weak_check() always returns."""
ASSUME = ("std::variant of the installed standard library is analysed as inlined, exceptions as non-returning", "built without DISABLE_CHECK, as in the project's default configuration")
WH, WR, WC = "common/error.h", "common/error_result.h", "common/check.cxx"
TYPES = {"int": 4, "dbl": 8, "ptr": 8, "big": 32}


def ev(g, rx):
    return [e for e in g.events if re.search(rx, e.dem)]


def norm(t):
    """null written either way"""
    return vg.rewrite(t, lambda x: vg.c(0, 64) if x.op == "null" else x)


def same(a, b):
    return a is not None and b is not None and (a == b or norm(a) == norm(b))


def run(ctx):
    m = ir.load([VERIF + "/harness/err.cxx"], ["^vh_"], inline=ir.DEFAULT_INLINE + [r"std::|\bmade<|\$_\d+::operator"], keep=["^vs_"])
    G = {}

    def g(n):
        if n not in G:
            G[n] = vg.VG(m, m.find(r"^vh_%s\([^()]*\)$" % n))
            ctx.add("witness functions", n)
        return G[n]

    msg = lambda i, r: r.initial(vg.State(), ("arg", i), 0, 8, "p")
    isnull = lambda t: vg.icmp("eq", t, vg.mk("null", (), "p"))
    r = g("ok")
    ctx.ob("ok/no message", prop.equivalent(r.ret, isnull(msg(0, r))), WH, "ok() is %s" % vg.show(r.ret)[:200])
    r = g("what")
    ctx.ob("what/message", same(r.ret, msg(0, r)), WH, "what() is %s" % vg.show(r.ret)[:200])
    for n, neg, str_ in (("eq", 0, 0), ("ne", 1, 0), ("eqs", 0, 1), ("nes", 1, 1)):
        r = g(n)
        other = vg.mk("ptr", (("arg", 1), 0, ()), "p") if str_ else msg(1, r)
        w = [vg.icmp("eq", a, b) for a, b in ((msg(0, r), other), (other, msg(0, r)))]
        w = [vg.NOT(x) for x in w] if neg else w
        ctx.ob(n + "/compares messages", any(prop.equivalent(r.ret, x) for x in w), WH, "is %s" % vg.show(r.ret)[:200])
    ctx.ob("none/no message", g("none").ret is not None and g("none").ret.op == "null", WH, "none().what() is %s" % vg.show(g("none").ret)[:100])
    r = g("create").ret
    ctx.ob("create/has its message", r is not None and r.op == "ptr" and r.a[0][0] == "glob" and r.a[1] == 0 and not r.a[2], WH, "create(..).what() is %s" % vg.show(r)[:100])
    r = g("copy")
    ctx.ob("copy/keeps the message", same(r.ret, msg(0, r)), WH, "is %s" % vg.show(r.ret)[:100])
    for t, size in TYPES.items():
        r = g(t + "_value_ok")
        ctx.ob(t + "/value is ok", r.ret == vg.TRUE or r.ret == vg.c(1, 1), WR, "ok() of a value is %s" % vg.show(r.ret)[:100])
        r = g(t + "_value_res")
        cells, bad = 0, []
        step = 8 if size >= 8 else size
        for o in range(0, size, step):
            a = r.mem(r.final, ("arg", 1), o, step, step * 8)
            b = r.mem(r.final, ("arg", 0), o, step, step * 8)
            if not yields(a, vg.TRUE, b):
                bad.append("%d: %s" % (o, vg.show(a)[:100]))
        ctx.ob(t + "/value returned", not bad and all(p for p, _, _ in r.rets[:1]), WR, "bytes of res() differ from the value: %s" % bad)
        ctx.ob(t + "/value has no error", not g(t + "_value_err").rets, WR, "err() of a value returns normally")
        r = g(t + "_error_ok")
        ctx.ob(t + "/error is not ok", r.ret == vg.FALSE or r.ret == vg.c(0, 1), WR, "ok() of an error is %s" % vg.show(r.ret)[:100])
        r = g(t + "_error_err")
        ctx.ob(t + "/error returned", same(r.ret, msg(0, r)), WR, "err() is %s" % vg.show(r.ret)[:100])
        chk = [e for e in r.events if e.kind == "check"]
        ctx.ob(t + "/none refused", any(prop.entails(vg.AND(e.guard, e.args[0]), vg.NOT(isnull(msg(0, r)))) and e.guard is vg.TRUE for e in chk), WR, "a result made from Error::none() is not refused")
        ctx.ob(t + "/error has no value", not g(t + "_error_res").rets, WR, "res() of an error returns normally")
        r = g(t + "_assigned_ok")
        ctx.ob(t + "/assignment", r.ret == vg.TRUE or r.ret == vg.c(1, 1), WR, "ok() after assigning a value is %s" % vg.show(r.ret)[:100])
    # macros
    for n, k in (("ret", 1), ("ret2", 2)):
        r = g(n)
        ops = ev(r, r"^vs_op")
        nx = ev(r, r"^vs_next")
        ctx.ob("RETURN_IF_NOT_OK/%d/evaluated once" % k, [e.args[0].a[0] for e in ops] == list(range(1, k + 1)), WH, "operands evaluated: %s" % [vg.show(e.args[0]) for e in ops])
        if len(ops) != k or len(nx) != 1:
            ctx.ob("RETURN_IF_NOT_OK/%d/continues" % k, False, WH, "the following statement runs %d times" % len(nx))
            continue
        okall = vg.TRUE
        want = vg.mk("null", (), "p")
        for e in reversed(ops):
            want = vg.ITE(isnull(e.ret), want, e.ret)
        for e in ops:
            ctx.ob("RETURN_IF_NOT_OK/%d/operand %d reached" % (k, e.args[0].a[0]), prop.equivalent(e.guard, okall), WH, "evaluated if %s" % vg.show(e.guard)[:200])
            okall = vg.AND(okall, isnull(e.ret))
        ctx.ob("RETURN_IF_NOT_OK/%d/continues" % k, prop.equivalent(nx[0].guard, okall), WH, "continues if %s" % vg.show(nx[0].guard)[:200])
        ctx.ob("RETURN_IF_NOT_OK/%d/returns the error" % k, agree(r, okall, ops), WH, "returns %s" % vg.show(r.ret)[:200])
    for n, size in (("roa", 8), ("roa_big", 32)):
        r = g(n)
        nx, fl = ev(r, r"^vs_next"), ev(r, r"^vs_flag")
        one = len(nx) == 1 and nx[0].guard is vg.TRUE and len(fl) == 1
        ctx.ob("RETURN_OR_ASSIGN/%s/evaluated once" % n, one, WR, "the operand is evaluated %d times" % len(nx))
        if not one:
            continue
        bad = fl[0].ret
        err = r.initial(vg.State(), ("arg", 1), 0, 8, "p")
        iserr = vg.AND(bad, vg.NOT(isnull(err)))
        ctx.ob("RETURN_OR_ASSIGN/%s/error returned" % n, yields(r.ret, iserr, err), WR, "returns %s" % vg.show(r.ret)[:300])
        ctx.ob("RETURN_OR_ASSIGN/%s/continues" % n, yields(r.ret, vg.NOT(bad), vg.mk("null", (), "p")), WR, "returns %s" % vg.show(r.ret)[:300])
        diff = []
        for o in range(0, size, 8):
            a = r.mem(r.final, ("arg", 2), o, 8, 64)
            old = r.initial(vg.State(), ("arg", 2), o, 8, 64)
            src = r.initial(vg.State(), ("arg", 0), o, 8, 64)
            if not yields(a, vg.NOT(bad), src) or not yields(a, iserr, old):
                diff.append(vg.show(a)[:200])
        ctx.ob("RETURN_OR_ASSIGN/%s/value assigned" % n, not diff, WR, "value stored is %s" % diff)
    # check
    mc = ir.load(["common/check.cxx"], [r"^mc::(weak_)?check\("], inline=[], keep=[r"."])
    for f in ("check", "weak_check"):
        fn = mc.find(r"^mc::%s\(" % f)
        r = vg.VG(mc, fn, summaries=[(r"^(exit|abort|_exit|quick_exit|std::terminate)", lambda g, st, i, a: ("ev", None))])
        ctx.add("witness functions", "mc::" + f)
        cond = r.env[fn["args"][0]["id"]]
        end = [e for e in r.events if re.match(r"(exit|abort|_exit|quick_exit|std::terminate)\b", e.dem) or e.ins.get("noreturn")]
        if f == "check":
            gd = vg.FALSE
            for e in end:
                gd = vg.OR(gd, e.guard)
            ctx.ob("check/terminates exactly when false", prop.equivalent(gd, vg.NOT(cond)), WC, "terminates if %s" % vg.show(gd)[:200])
            st = [e.args[0] for e in end if e.dem.startswith(("exit", "_exit", "quick_exit"))]
            ctx.ob("check/failure status", all(a.op == "c" and a.a[0] & 0xff for a in st), WC, "exit status %s" % [vg.show(a) for a in st])
            quiet = [e.dem[:60] for e in r.events if prop.sat(vg.AND(e.guard, cond)) and not e.dem.startswith(("llvm.", "std::"))]
            ctx.ob("check/no effect when true", not quiet, WC, "calls %s although the condition holds" % quiet)
        else:
            ctx.ob("weak_check/returns", not end, WC, "terminates: %s" % [e.dem[:60] for e in end])
            rep = [e for e in r.events if re.search(r"\bfatal\(", e.dem)]
            gd = vg.FALSE
            for e in rep:
                gd = vg.OR(gd, e.guard)
            ctx.ob("weak_check/reports exactly when false", prop.equivalent(gd, vg.NOT(cond)), WC, "reports if %s" % vg.show(gd)[:200])


def strip(t):
    while t.op in ("bitcast", "inttoptr", "ptrtoint"):
        t = t.a[0]
    return t


def agree(r, okall, ops):
    """return value: none when all operands are ok, the first failing operand's error otherwise"""
    t = r.ret
    ok = prior = vg.TRUE
    for e in ops:
        bad = vg.AND(prior, vg.NOT(vg.icmp("eq", e.ret, vg.mk("null", (), "p"))))
        if not yields(t, bad, e.ret):
            return False
        prior = vg.AND(prior, vg.icmp("eq", e.ret, vg.mk("null", (), "p")))
    return yields(t, prior, vg.mk("null", (), "p")) or yields(t, prior, ops[-1].ret)


def yields(t, cond, want):
    """under cond the decision tree t gives want"""
    t = strip(t)
    if t.op == "ite":
        return ((not prop.sat(vg.AND(cond, t.a[0])) or yields(t.a[1], vg.AND(cond, t.a[0]), want)) and
                (not prop.sat(vg.AND(cond, vg.NOT(t.a[0]))) or yields(t.a[2], vg.AND(cond, vg.NOT(t.a[0])), want)))
    return same(strip(t), strip(want)) or strip(t).op == "init" == strip(want).op and strip(t).a == strip(want).a
