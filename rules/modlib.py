"""the factor models: terms of residuals and Jacobian blocks, with every block an object of its own"""
import re
import ir, vg
SRC = ["models/%s_model.cxx" % x for x in ("gnss_dynamics", "imu", "pose_error", "prange", "relative_carrier_phase")] + ["models/imu_state.cxx"]
H = ir.VERIF + "/harness/models.cxx"
# name: (class, parameter sizes, residual size, file)
MODELS = {"prange": ("PseudorangeModel", [8, 3, 2, 8, 1, 3], 3, "models/prange_model.cxx"),
          "relcp": ("RelativeCarrierPhase", [8, 8, 2, 2, 1, 1, 8, 3], 1, "models/relative_carrier_phase_model.cxx"),
          "pose": ("PoseError", [8], 6, "models/pose_error_model.cxx"),
          "dyn": ("GnssDynamics", [2, 2, 1, 1], 3, "models/gnss_dynamics_model.cxx"),
          "imu": ("ImuModel", [8, 8, 3, 3, 6], 9, "models/imu_model.cxx")}
KEEP = [r"mc::UTCTime::", r"general_matrix_(matrix|vector)_product<.*>::run\(", r"::stableNorm\("]


def load(roots=("^v[sn]_",), more=(), src=SRC, keep=KEEP):
    return ir.load([H] + list(src), list(roots), inline=ir.DEFAULT_INLINE + [r"std::|__gnu_cxx", r"mc::models::"], keep=list(keep), extra=["-fno-access-control", "-fstandalone-debug"])


def num(t):
    if t.op != "c":
        return None
    return t.a[0]


def gemm(g, st, ins, args):
    """Eigen's blocked product: res += alpha * lhs * rhs"""
    mm = re.search(r"general_matrix_matrix_product<long, double, (\d), false, double, (\d), false, (\d), (\d)>", ins.get("cdem", ""))
    if not mm:
        return NotImplemented
    lr, rr, sr, inc = (int(x) for x in mm.groups())
    rows, cols, depth = (num(a) for a in args[:3])
    lhs, ls, rhs, rs, res, ri, s, alpha = args[3:11]
    ls, rs, ri, s = num(ls), num(rs), num(ri), num(s)
    if None in (rows, cols, depth, ls, rs, ri, s) or ri != 1:
        return NotImplemented
    el = lambda p, r, st_, i, j: g.ptr_add(p, 8 * (i * st_ + j if r else j * st_ + i), [])
    rd = lambda p: g.load(st, p, 8, "f")
    A = [[rd(el(lhs, lr, ls, i, k)) for k in range(depth)] for i in range(rows)]
    B = [[rd(el(rhs, rr, rs, k, j)) for j in range(cols)] for k in range(depth)]
    out = []
    for i in range(rows):
        for j in range(cols):
            a = None
            for k in range(depth):
                x = vg.fbin("fmul", A[i][k], B[k][j])
                a = x if a is None else vg.fbin("fadd", a, x)
            p = el(res, sr, s, i, j)
            out.append((p, vg.fbin("fadd", rd(p), vg.fbin("fmul", alpha, a))))
    for p, v in out:
        g.store(st, p, 8, v)
    return vg.c(0, 32)


def stable(g, st, ins, args):
    if "Matrix<double, 3, 1, 0, 3, 1>>::stableNorm" not in ins.get("cdem", "") or len(args) != 1:
        return NotImplemented
    v = [g.load(st, g.ptr_add(args[0], 8 * i, []), 8, "f") for i in range(3)]
    a = None
    for x in v:
        y = vg.fbin("fmul", x, x)
        a = y if a is None else vg.fbin("fadd", a, y)
    return vg.mk("call", ("sqrt", a), "f")


EIGEN = [(r"general_matrix_matrix_product<", gemm), (r"::stableNorm\(", stable)]


class Obj:
    """memory of the model object at an evaluation point: offset -> value or (Obj, offset) for a pointer"""

    def __init__(self, m=None, typ=None, **fields):
        self.m, self.c = m, {}
        self.f = {}
        if typ:
            self.f = {n: (o, s) for n, o, s, _ in m.fields(typ)}
            self.order = [o for n, o, s, _ in m.fields(typ)]

    def put(self, off, vals):
        for i, v in enumerate(vals):
            self.c[off + 8 * i] = v
        return self

    def at(self, name, index):
        """offset of a member, by name or, if it was renamed, by position"""
        return self.f[name][0] if name in self.f else self.order[index]


def quat_at(m, ob, off, vals):
    f = {n: o for n, o, s, _ in m.fields("mc::math::Quat<double>")}
    buf = Obj().put(0, vals)
    ob.c[off + f["arr_"]] = (buf, 0)


def dquat(m, vals):
    f = {n: o for n, o, s, _ in m.fields("mc::math::DQuat<double>")}
    ob = Obj()
    buf = Obj().put(0, vals)
    ob.c[f["arr_"]] = (buf, 0)
    q = {n: o for n, o, s, _ in m.fields("mc::math::Quat<double>")}
    ob.c[f["r_"] + q["arr_"]] = (buf, 0)
    ob.c[f["d_"] + q["arr_"]] = (buf, 32)
    return ob


def embed(dst, off, src):
    for o, v in src.c.items():
        dst.c[off + o] = v      # a map's buffer may be any memory holding the value


def resolver(roots, const=None):
    """value of an initial-memory term: roots maps argument numbers to Obj"""
    def obj(k):
        if k[0] == "arg":
            return (roots[k[1]], 0) if k[1] in roots else None
        if k[0] == "deref":
            t = k[1]
            if t.op == "ptr":
                o = obj(t.a[0])
                return (o[0], o[1] + t.a[1]) if o and not t.a[2] else None
            v = val(t)
            return v if isinstance(v, tuple) else None
        return None

    def ptr(t):
        """the memory a pointer term points to"""
        if t.op == "ptr":
            o = obj(t.a[0])
            return (o[0], o[1] + t.a[1]) if o and not t.a[2] else None
        v = val(t)
        return v if isinstance(v, tuple) else None

    def val(t):
        if t.op != "init":
            return None
        o = obj(t.a[0])
        if o is None:
            return None
        return o[0].c.get(o[1] + t.a[1])
    val.ptr = ptr
    return val


class Terms:
    """residual and Jacobian terms of one model"""

    def __init__(self, ctx, m, name, null=False):
        self.cls, self.ps, self.nr, self.file = MODELS[name]
        self.name = name
        f = m.find("^v%s_%s$" % ("n" if null else "s", name))
        ctx.add("functions", "%s::Evaluate%s" % (self.cls, " without Jacobians" if null else ""))
        self.g = g = vg.VG(m, f, summaries=EIGEN + [(r"UTCTime::operator-\(", timediff), (r"UTCTime::toSec\(", seconds)])
        n = len(self.ps)
        self.R = ("arg", n + 1)
        self.J = [("arg", n + 2 + i) for i in range(n)] if not null else []
        self.raw = [[g.mem(g.final, o, 8 * i, 8, "f") for i in range(self.nr * p)] for o, p in zip(self.J, self.ps)]
        self.rawres = [g.mem(g.final, self.R, 8 * i, 8, "f") for i in range(self.nr)]

    def given(self, nulls):
        """assignment of the null tests: nulls = set of blocks not requested"""
        memo = {}
        isnull = {o: i in nulls for i, o in enumerate(self.J)}

        def f(t):
            if t.op == "icmp" and t.a[0] in ("eq", "ne"):
                x, y = t.a[1], t.a[2]
                for u, v in ((x, y), (y, x)):
                    if v.op == "null" and u.op == "ptr" and u.a[0] in isnull and u.a[1] == 0 and not u.a[2]:
                        return vg.b(isnull[u.a[0]] == (t.a[0] == "eq"))
            return None
        return lambda t: vg.rewrite(t, f, memo)


def origin(g, st, p):
    """the memory a time was copied from"""
    a, b = g.load(st, p, 8, 64), g.load(st, g.ptr_add(p, 8, []), 8, 64)
    if a.op == "init" and b.op == "init" and a.a[0] == b.a[0] and b.a[1] == a.a[1] + 8 and not a.a[3] and not b.a[3]:
        return vg.mk("ptr", (a.a[0], a.a[1], ()), "p")
    return p


def timediff(g, st, ins, args):
    a, b = (origin(g, st, x) for x in args[-2:])
    if any(x.op != "ptr" or x.a[2] for x in (a, b)) and not (a.op == "ptr" or b.op in ("ptr", "init")):
        return NotImplemented
    t = [vg.mk("call", ("timediff%d" % i, a, b), 64) for i in (0, 1)]
    if len(args) == 3:
        for i in (0, 1):
            g.store(st, g.ptr_add(args[0], 8 * i, []), 8, t[i])
        return vg.c(0, 32)
    return vg.mk("agg", tuple(t), None)


def seconds(g, st, ins, args):
    t = g.load(st, args[0], 8, 64)
    u = g.load(st, g.ptr_add(args[0], 8, []), 8, 64)
    if t.op == "call" and u.op == "call" and (t.a[0], u.a[0]) == ("timediff0", "timediff1") and t.a[1:] == u.a[1:]:
        return vg.mk("call", ("seconds",) + t.a[1:], "f")
    return NotImplemented


def globals_of(m):
    """floating-point globals set by dynamic initialisers"""
    out = {}
    for f in m.find(r"__cxx_global_var_init", unique=False):
        g = vg.VG(m, f)
        for ob, cells in g.final.mem.items():
            if ob[0] == "glob":
                for o, (s, t) in cells.items():
                    out[ob, o] = t
    return out
