import ir, vg, ralg
from poly import Facts
from ralg import lin
TITLE = "PID output is saturated and free of integrator windup"
TECH = "value graph of the controller, case analysis over its decisions, exact real algebra and linear entailment (LLVM IR)"
RULE = """The value graphs of both run() overloads give the returned output and the integrator left behind. For every combination of decisions (comparisons read over the reals) the output must be the sum of
the terms or the limit that sum exceeds, provably within [-max, max] from the comparisons made; the filtered derivative must be the documented first-order filter of the measured rate; the integrator must be unchanged when the controller was told not to integrate or has no integral gain; and whenever the output was clipped, the
integral term left behind must provably be no larger in magnitude than the part of the limit the other terms leave for it, unless the integrator did not move at all."""
ASSUME = ("gains, limit and inputs are finite numbers and the limit is positive", "arithmetic is read over the reals")
WHERE = "sim/controllers/pid.cxx PID::run"


def run(ctx):
    m = ir.load(["sim/controllers/pid.cxx"], ["PID::run"], inline=[r"PID::", r"\bstd::(min|max|clamp|abs|fabs)\b"], extra=["-fstandalone-debug"])
    T = "mc::sim::controllers::PID"
    oo = m.field(T, "options_")[0]
    opt = {n: o + oo for n, o, _, _ in m.fields(T + "::Options")}
    off = {n: m.field(T, n)[0] for n in ("integrator_", "differentiator_", "prev_x_")}
    fns = m.find(r"PID::run\(", unique=False)
    ctx.need(fns, "PID::run vanished")
    for f in fns:
        g = vg.VG(m, f)
        name = "run/%d arguments" % (len(f["args"]) - 1)
        ctx.add("functions", f["dem"])
        bad = [e.dem for e in g.events]
        ctx.ob(name + "/self-contained", not bad, WHERE, "calls %s" % bad)
        I = ("arg", 0)
        ini = lambda o: g.initial(vg.State(), I, o, 8, "f")
        fin = lambda o: unbits(g.mem(g.final, I, o, 8, "f"))
        M, kp, ki, kd = (ini(opt[k]) for k in ("max", "kp", "ki", "kd"))
        dt, x, xc, upd = (g.env[f["args"][i]["id"]] for i in (1, 2, 3, 4))
        zero = vg.cf(0.0)
        if len(f["args"]) > 5:
            xdot = g.env[f["args"][5]["id"]]
        else:
            xdot = vg.ITE(g.fcmp("olt", vg.cf(0.0001), dt), fin(off["differentiator_"]), zero)
        e = g.fbin("fsub", xc, x)
        on = vg.AND(g.fcmp("olt", zero, ki), upd if upd.w == 1 else g.f and vg.NOT(vg.icmp("eq", upd, vg.c(0, upd.w))))
        I1 = g.fbin("fadd", ini(off["integrator_"]), g.fbin("fmul", e, dt))
        d = vg.ITE(g.fcmp("olt", zero, kd), g.fbin("fmul", kd, xdot), zero)
        base = g.fbin("fsub", g.fbin("fmul", kp, e), d)
        iterm = vg.ITE(on, g.fbin("fmul", ki, I1), zero)
        flag = vg.ITE(on, vg.cf(1.0), zero)
        terms = [g.ret, fin(off["integrator_"]), base, iterm, flag]
        alg = ralg.Alg(opaque_div=True)
        n = 0
        if len(f["args"]) <= 5:
            a2 = ralg.Alg()
            tau = ini(opt["tau"])
            t2 = g.fbin("fmul", vg.cf(2.0), tau)
            den = g.fbin("fadd", t2, dt)
            want = g.fbin("fadd", g.fbin("fmul", g.fbin("fdiv", g.fbin("fsub", t2, dt), den), ini(off["differentiator_"])),
                          g.fbin("fdiv", g.fbin("fmul", vg.cf(2.0), g.fbin("fsub", x, ini(off["prev_x_"]))), den))
            gd = g.fcmp("olt", vg.cf(0.0001), dt)
            got = fin(off["differentiator_"])
            bad = []
            for dec, (w, o, k) in ralg.cases([want, got, gd]):
                if k == vg.TRUE and a2(w) != a2(o) or k not in (vg.TRUE, vg.FALSE):
                    bad.append("filtered derivative becomes %s" % vg.show(o)[:200])
            ctx.ob(name + "/filtered derivative", not bad, WHERE, "; ".join(bad[:1]))
            px = fin(off["prev_x_"])
            ctx.ob(name + "/previous measurement", a2(px) == a2(x), WHERE, "the remembered measurement becomes %s" % vg.show(px)[:200])
        res = {"sum of the terms": [], "upper limit": [], "lower limit": [], "integrates only when told": [], "accumulates the error": [], "no windup": []}

        def facts(dec):
            F = ralg.facts_of(alg, dec, Facts().gt(lin(alg(M))))
            return ralg.fabs_facts(alg, F)

        def feas(dec):
            return not facts(dec).feasible()
        for dec, (v, i2, b, it, fl) in ralg.cases(terms, prune=feas):
            F = facts(dec)
            n += 1
            V, Mx, B, IT = alg(v), alg(M), alg(b), alg(it)
            why = "case %s" % ", ".join("%s%s" % ("" if t else "not ", vg.show(a)[:70]) for a, t in dec)[:600]

            def ge(r):
                if r.iszero():
                    return True
                l = lin(r)
                return l is not None and F.entails_ge(l)
            if not ge(Mx - V):
                res["upper limit"].append("output %s; %s" % (vg.show(v)[:100], why))
            if not ge(Mx + V):
                res["lower limit"].append("output %s; %s" % (vg.show(v)[:100], why))
            def same(a, b):
                return a == b or ge(a - b) and ge(b - a)
            if not same(V, B + IT) and not (same(V, Mx) and ge(B + IT - Mx)) and not (same(V, -Mx) and ge(-Mx - B - IT)):
                res["sum of the terms"].append("output %s, neither the sum of the terms nor the limit it exceeds; %s" % (vg.show(v)[:200], why))
            I2, I0 = alg(i2), alg(ini(off["integrator_"]))
            if same(V, B + IT) and not same(V, Mx) and not same(V, -Mx) and vg.fval(fl) == 1.0 and I2 != alg(I1):
                res["accumulates the error"].append("integrator becomes %s; %s" % (vg.show(i2)[:120], why))
            if I2 == I0:
                continue
            if vg.fval(fl) == 0.0:
                res["integrates only when told"].append("integrator becomes %s; %s" % (vg.show(i2)[:100], why))
                continue
            left = V - B
            K = alg(ki) * I2
            if same(K, left):
                continue
            U = B + IT
            if I2 == alg(I1) and same(U, V):
                continue
            # |ki I2| <= |V - B|
            A, Z = alg.fn("fabs", K) if ("fabs", 1) not in alg.fns or not neg(alg, K) else neg(alg, K), alg.fn("fabs", left) if not neg(alg, left) else neg(alg, left)
            if not ge(Z - A):
                res["no windup"].append("integrator becomes %s with output %s; %s" % (vg.show(i2)[:120], vg.show(v)[:60], why))
        ctx.add("cases", "%s: %d combinations of decisions" % (name, n))
        for k, b in res.items():
            ctx.ob("%s/%s" % (name, k), not b, WHERE, "; ".join(b[:2]))


def neg(alg, x):
    for i, y in enumerate(alg.fns.get(("fabs", 1), [])):
        if y[0] == -x:
            return ralg.R(ralg.V("fabs#%d" % i))
    return None


def unbits(t):
    if t.op == "bitcast":
        return t.a[0]
    return t
