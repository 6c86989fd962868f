from timelib import *
TITLE = "UTC time arithmetic is exact and keeps nanoseconds normalised"
RULE = """For +,-,+=,-= with a time, a double and an int operand and for the constructors, the result's (sec,nsec)
value graphs are evaluated in the disjunctive polyhedra domain with symbolic inputs (normalised nsec); every
feasible case must satisfy sec*1e9+nsec = exact result (for a double: less than one nanosecond off) and
0 <= nsec < 1e9; compound and binary forms must agree, also when the operand is the object itself."""
ASSUME = ("no integer overflow of the 64-bit second/nanosecond counts", "doubles modelled as reals")


def run(ctx):
    t = Time(ctx)

    def check(name, opi, sgn, kind, selfop=False, out0=True):
        g, f = t.g(name)
        ctx.add("functions", f["dem"])
        compound = "eq_" in name
        ai = 0 if compound else 1
        e, s, n = t.inputs(ai, "a")
        F = t.norm(Facts(), n)
        env = dict(e)
        bi = ai + 1
        exact = True
        if selfop:
            A = s * E9 + n
            want = A + A * sgn
        elif kind == "t":
            e2, s2, n2 = t.inputs(bi, "b")
            env.update(e2)
            F = t.norm(F, n2)
            want = s * E9 + n + (s2 * E9 + n2) * sgn
        elif kind == "i":
            i = ivar("i")
            env[vg.mk("arg", (bi,), 32)] = i
            want = s * E9 + n + i * E9 * sgn
        else:
            x = rvar("x")
            env[vg.mk("arg", (bi,), "f")] = x
            want = s * E9 + n + x * E9 * sgn
            exact = False
        D = Dom(env)
        so, no = t.out(g)
        cs = cases(D, [so, no], F)
        ctx.add("cases", *["%s#%d" % (name, i) for i in range(len(cs))])
        ok = okn = True
        why = whyn = ""
        for F1, (ls, ln) in cs:
            d = ls * E9 + ln - want
            if exact:
                good = F1.entails_eq(d)
            else:
                good = F1.entails_gt(d + 1) and F1.entails_gt(1 - d)
            if not good:
                ok, why = False, "result - exact = %s when %s" % (d, describe(F1))
            if not (F1.entails_ge(ln) and F1.entails_ge(E9 - 1 - ln)):
                okn, whyn = False, "nsec = %s can leave [0,1e9) when %s" % (ln, describe(F1))
        w = impl_where(g, "utctime")
        ctx.ob(name[3:] + "/value", ok and bool(cs), w, why)
        ctx.ob(name[3:] + "/normalised", okn and bool(cs), w, whyn)
        return g, D, F

    for k in ("t", "i", "d"):
        for op, sg in (("add", 1), ("sub", -1)):
            check("vh_%s_%s" % (op, k), 0, sg, k)
            check("vh_%seq_%s" % (op, k), 0, sg, k)
    check("vh_addeq_self", 0, 1, "t", selfop=True)
    check("vh_subeq_self", 0, -1, "t", selfop=True)
    # compound == binary for the double forms (the others are both exact, hence equal)
    for op in ("add", "sub"):
        gb, _ = t.g("vh_%s_d" % op)
        gc, _ = t.g("vh_%seq_d" % op)
        sub = {vg.mk("init", (("arg", 1), o, 8, 0), 64): vg.mk("init", (("arg", 0), o, 8, 0), 64) for o in (t.so, t.no)}
        sub[vg.mk("arg", (2,), "f")] = vg.mk("arg", (1,), "f")
        e, s, n = t.inputs(0, "a")
        env = dict(e)
        env[vg.mk("arg", (1,), "f")] = rvar("x")
        D = Dom(env)
        tb = [vg.rewrite(x, sub.get) for x in t.out(gb)]
        tc = list(t.out(gc))
        ok = all(F.entails_eq(l[0] - l[2]) and F.entails_eq(l[1] - l[3]) for F, l in cases(D, tb + tc, t.norm(Facts(), n)))
        ctx.ob("%s_d/compound-agrees" % op, ok, impl_where(gc, "utctime"), "operator%s= and operator%s give different results" % (("+", "+") if op == "add" else ("-", "-")))
    # constructors and toSec
    g, f = t.g("vh_ctor_sn")
    s, n = ivar("s"), ivar("n")
    D = Dom({vg.mk("arg", (1,), 64): s, vg.mk("arg", (2,), 64): n})
    for nm, F in (("nonneg", Facts().ge(n)), ("neg", Facts().gt(-n))):
        bad = ""
        for F1, (ls, ln) in cases(D, list(t.out(g)), F):
            if not F1.entails_eq(ls * E9 + ln - s * E9 - n):
                bad = "value changes: %s" % (ls * E9 + ln - s * E9 - n)
            if nm == "nonneg" and not (F1.entails_ge(ln) and F1.entails_ge(E9 - 1 - ln)):
                bad = "nsec %s not normalised" % ln
        ctx.ob("ctor_sec_nsec/" + nm, not bad, impl_where(g, "utctime"), bad)
    g, f = t.g("vh_ctor_d")
    x = rvar("x")
    D = Dom({vg.mk("arg", (1,), "f"): x})
    bad = ""
    for F1, (ls, ln) in cases(D, list(t.out(g)), Facts().ge(x)):
        d = ls * E9 + ln - x * E9
        if not (F1.entails_gt(d + 1) and F1.entails_gt(1 - d) and F1.entails_ge(ln) and F1.entails_ge(E9 - 1 - ln)):
            bad = "sec*1e9+nsec - 1e9*x = %s, nsec = %s" % (d, ln)
    ctx.ob("ctor_double", not bad, impl_where(g, "utctime"), bad)
    g, f = t.g("vh_tosec")
    e, s, n = t.inputs(0, "a")
    D = Dom(e)
    r = D.lin(g.ret, t.norm(Facts(), n))
    ok = bool(r) and all(F1.entails_eq(l - s - n * Fraction(1, E9)) for F1, l in r)
    ctx.ob("toSec", ok, impl_where(g, "utctime"), "toSec() = %s" % (r and r[0][1]))
