import itertools
import re
import ir, vg, prop
TITLE = "Integer least squares refuses inconsistent or indefinite problems"
TECH = "value graphs of the solver's stages: guards of every return and of every write to the caller's results, specialised to all small consistent and inconsistent sizes; the factorisation unrolled for orders 1 to 4 (LLVM IR)"
RULE = """lambda() neither returns nor touches its outputs when the float solution is empty, the covariance or the fixed solution have other sizes, or fewer than two candidates are asked for, and goes on to reduce and search otherwise. The reduction always factorises the
covariance it was given, and the factorisation returns exactly when every element of the diagonal it computed is greater than zero (so not for NaN). The factorisation, the reduction and the search refuse operands whose sizes differ from each other."""
ASSUME = ("a failed check() ends the process", "what a check decides for the sizes 0 to 4 it decides for larger ones: the code compares sizes and branches on nothing else of them")
W = "core/solver/lambda.cxx"
KEEP = [r"^mc::check", r"basic_string", r"fmt::v9", r"solver::(lambda|reduction|search|LTDL|permute|integerGauss\w*)\(", r"inverse\(|compute_inverse|PartialPivLU", r"mc::modf", r"::resize\(", r"argsort"]


def shape(m, f):
    """rows and columns of each matrix argument: [(index, is matrix)]"""
    sig = m_args(f["dem"])
    out = []
    for i, a in enumerate(sig):
        if "Eigen::" in a:
            out.append((i, bool(re.search(r"Matrix<double, -1, -1", a)), "Ref<" in a))
        else:
            out.append((i, None, None))
    return out


def m_args(dem):
    s = dem[dem.index("(") + 1:dem.rindex(")")]
    out, d, cur = [], 0, ""
    for ch in s:
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
            continue
        d += ch in "<(" 
        d -= ch in ">)"
        cur += ch
    return out + [cur.strip()]


def graph(m, f, sizes, ints=None, unroll=64):
    """sizes: per argument (rows, cols) or None"""
    sh = shape(m, f)

    def hook(o, off, sz, w, gen):
        if o[0] == "arg" and o[1] < len(sizes) and sizes[o[1]]:
            r, c = sizes[o[1]]
            if off == 0:
                return vg.mk("ptr", (("data%d" % o[1],), 0, ()), "p")
            if off == 8:
                return vg.c(r, 64)
            if sh[o[1]][1] and off == 16:
                return vg.c(c, 64)
            if sh[o[1]][1] and sh[o[1]][2] and off == 24:
                return vg.c(r, 64)
        return None
    return vg.VG(m, f, init_hook=hook, unroll=unroll, args={k: vg.c(v, 32) for k, v in (ints or {}).items()})


def touched(g, outs):
    """guards under which the caller's results change"""
    objs = {("arg", i) for i in outs} | {("data%d" % i,) for i in outs}
    hit = lambda p: isinstance(p, vg.T) and any(y.op == "ptr" and y.a[0] in objs for y in vg.subterms(p))
    for rw, p, n, cond, ins in g.accesses:
        if rw == "w" and p.op == "ptr" and (p.a[0][0].startswith("data") and p.a[0] in objs or p.a[0] in objs):
            yield cond, "a write"
    for e in g.events:
        if e.kind != "check" and any(hit(a) for a in e.args) and "~" not in e.dem:
            yield e.guard, e.dem[:60]


def run(ctx):
    m = ir.load(["core/solver/lambda.cxx"], [r"solver::(lambda|LTDL|reduction|search)\("], inline=[r".*"], keep=KEEP)
    top(ctx, m)
    stage(ctx, m, "reduction")
    ldl(ctx, m)
    search(ctx, m)


def top(ctx, m):
    f = m.find(r"solver::lambda\(")
    ctx.add("functions", "lambda")
    sh = shape(m, f)
    ctx.need(len(sh) >= 5 and [x[1] for x in sh[:3]] == [False, True, False], "lambda(a, Q, a_fixed, ratio, candidates)")
    bad = {}
    n = 0
    for a, qr, qc, fx, k in itertools.product((0, 1, 2, 3), (0, 1, 2, 3), (0, 1, 2, 3), (0, 1, 2, 3), (-1, 0, 1, 2, 3)):
        ok = a > 0 and qr == qc == fx == a and k >= 2
        why = "empty" if a == 0 and qr == qc == fx == 0 else "covariance" if (qr, qc) != (a, a) else "result" if fx != a else "candidates"
        if not ok and sum((a == 0, (qr, qc) != (a, a), fx != a, k < 2)) > 1 and (a, qr, qc) != (0, 0, 0):
            continue
        g = graph(m, f, [(a, 1), (qr, qc), (fx, 1)], {4: k} if sh[4][1] is None else None, unroll=0)
        n += 1
        where = "%d ambiguities, covariance %dx%d, room for %d, %d candidates" % (a, qr, qc, fx, k)
        if ok:
            for s in ("reduction", "search"):
                es = [e for e in g.events if "solver::%s(" % s in e.dem]
                if not es or prop.sat(vg.NOT(es[0].guard)):
                    bad.setdefault("accepts", "%s: the %s is left out" % (where, s))
            continue
        for gd, st, rv in g.rets:
            if prop.sat(gd):
                bad.setdefault(why, "%s: it returns" % where)
        for gd, what in touched(g, (2, 3)):
            if prop.sat(gd):
                bad.setdefault(why, "%s: the result changes (%s)" % (where, what))
    for key in ("accepts", "empty", "covariance", "result", "candidates"):
        ctx.ob("lambda/" + key, key not in bad, W + " lambda", bad.get(key, ""))
    ctx.add("sizes", "%d combinations of sizes of lambda()" % n)


def stage(ctx, m, name):
    f = m.find(r"solver::%s\(" % name)
    ctx.add("functions", name)
    bad = {}
    n = 0
    for qr, qc, a, lr, lc, d, zr, zc in itertools.product((1, 2), repeat=8):
        ok = len({qr, qc, a, lr, lc, d, zr, zc}) == 1
        g = graph(m, f, [(qr, qc), (a, 1), (a, 1), (lr, lc), (d, 1), (zr, zc)], unroll=8 if ok else 0)
        n += 1
        es = [e for e in g.events if "solver::LTDL(" in e.dem]
        where = "Q %dx%d, a %d, L %dx%d, D %d, Z %dx%d" % (qr, qc, a, lr, lc, d, zr, zc)
        if ok:
            if not es or prop.sat(vg.NOT(es[0].guard)):
                bad.setdefault("factorises", "%s: the covariance may not be factorised" % where)
                continue
            e = es[0]
            data = [g.mem(e.state, x.a[0], x.a[1], 8, "p") if x.op == "ptr" else x for x in e.args]
            want = [vg.mk("ptr", (("data%d" % i,), 0, ()), "p") for i in (0, 3, 4)]
            if data != want:
                bad.setdefault("factorises", "it factorises %s" % ", ".join(vg.show(x, 3) for x in data))
        elif any(prop.sat(gd) for gd, st, rv in g.rets):
            # sizes of the factorisation's own operands are refused there
            if not (es and len({lr, lc, d, zr, zc, a}) == 1 and (qr, qc) != (lr, lr)):
                bad.setdefault("sizes", "%s: it returns" % where)
    for key in ("factorises", "sizes"):
        ctx.ob("%s/%s" % (name, key), key not in bad, W + " " + name, bad.get(key, ""))
    ctx.add("sizes", "%d combinations of sizes of %s()" % (n, name))


def ldl(ctx, m):
    f = m.find(r"solver::LTDL\(")
    ctx.add("functions", "LTDL")
    bad = {}
    for n in (1, 2, 3, 4):
        g = graph(m, f, [(n, n), (n, n), (n, 1)])
        pos = vg.TRUE
        for gd, st, rv in g.rets:
            for i in range(n):
                d = g.mem(st, ("data2",), 8 * i, 8, "f")
                pos = vg.AND(pos, vg.mk("fcmp", ("olt", vg.cf(0.0), d), 1))
        ret = vg.FALSE
        for gd, st, rv in g.rets:
            ret = vg.OR(ret, gd)
        if not g.rets or not prop.entails(ret, pos):
            bad.setdefault("definite", "order %d: it returns although an element of D may not be greater than zero" % n)
        if not prop.entails(pos, ret):
            bad.setdefault("accepts", "order %d: it refuses a positive definite covariance" % n)
        ctx.add("sizes", "factorisation of order %d" % n)
    k = 0
    for qr, qc, lr, lc, d in itertools.product((1, 2, 3), repeat=5):
        if len({qr, qc, lr, lc, d}) == 1:
            continue
        k += 1
        g = graph(m, f, [(qr, qc), (lr, lc), (d, 1)], unroll=0)
        if any(prop.sat(gd) for gd, st, rv in g.rets) or any(prop.sat(gd) for gd, _ in touched(g, (1, 2))):
            bad.setdefault("sizes", "covariance %dx%d, L %dx%d, D %d: it goes on" % (qr, qc, lr, lc, d))
    for key in ("definite", "accepts", "sizes"):
        ctx.ob("LTDL/" + key, key not in bad, W + " LTDL", bad.get(key, ""))
    ctx.add("sizes", "%d combinations of sizes of LTDL()" % k)


def search(ctx, m):
    f = m.find(r"solver::search\(")
    ctx.add("functions", "search")
    bad = None
    k = 0
    for a, lr, lc, d in itertools.product((1, 2, 3), repeat=4):
        ok = len({a, lr, lc, d}) == 1
        k += 1
        g = graph(m, f, [(a, 1), (lr, lc), (d, 1), None, (a, 2), (2, 1)], {3: 2}, unroll=0)
        t = [gd for gd, _ in touched(g, (4, 5))]
        if not ok and (any(prop.sat(x) for x in t) or any(prop.sat(gd) for gd, st, rv in g.rets)):
            bad = bad or "a %d, L %dx%d, D %d: it goes on" % (a, lr, lc, d)
        if ok and not any(prop.sat(x) for x in t):
            bad = bad or "it never writes a candidate"
    ctx.ob("search/sizes", bad is None, W + " search", bad or "")
    ctx.add("sizes", "%d combinations of sizes of search()" % k)
