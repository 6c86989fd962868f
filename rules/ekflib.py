"""the generated filter types: layout of their components, values of their memory and functions as terms"""
import re
import numpy as np
import ir, vg, modlib, pit
from pit import D, K, F
from lielib import qmul, conj, expd, pure
from modref import FieldAlg, FloatAlg, log6
H = ir.VERIF + "/harness/ekf.cxx"
NS = "mc::ekf::"


def load(roots=("^ve_",), more=(), gen=("rtk_ekf_state.cxx", "rtk_ekf_types.cxx"), keep=()):
    d = ir.ekf_dir() + "/core/ekf/"
    return ir.load([H] + [d + x for x in gen] + list(more), list(roots), inline=ir.DEFAULT_INLINE + [r"std::|__gnu_cxx", r"^(static )?(void )?out<"],
                   keep=modlib.KEEP + list(keep), gen=True, extra=["-fno-access-control", "-fstandalone-debug"])


def load2():
    """the filter's equations and measurement models"""
    d = ir.ekf_dir() + "/core/ekf/"
    return ir.load([ir.VERIF + "/harness/ekfh.cxx", "core/ekf/rtk_ekf_impl.cxx"] + [d + x for x in ("rtk_ekf_state.cxx", "rtk_ekf_types.cxx")], ["^vh_"], inline=ir.DEFAULT_INLINE + [r"std::|__gnu_cxx"],
                   keep=modlib.KEEP, gen=True, extra=["-fno-access-control", "-fstandalone-debug"])


def norm(n):
    return re.sub(r"_buf_?$", "", n).replace("_", "").lower()


class Comp:
    """one member: kind mat (rows x cols doubles), group (dual quaternion), array (n vectors), count, time or other"""

    def __init__(self, n, off, size, t):
        self.n, self.off, self.size, self.key = n, off, size, norm(n)
        self.num = 1
        mm = re.match(r"Eigen::Matrix<double, (\d+), (\d+)", t)
        ma = re.match(r"std::array<Eigen::Matrix<double, (\d+), 1.*, (\d+)(UL|ul)?>$", t)
        if mm:
            self.kind, self.r, self.c = "mat", int(mm.group(1)), int(mm.group(2))
        elif ma:
            self.kind, self.r, self.c, self.num = "array", int(ma.group(1)), 1, int(ma.group(2))
        elif t.startswith("mc::math::DQuat<double>"):
            self.kind, self.r, self.c = "group", 6, 1
        elif t in ("unsigned long", "size_t", "int"):
            self.kind, self.r, self.c = "count", 0, 0
        elif t.endswith("QuantizedTime") or t.endswith("UTCTime"):
            self.kind, self.r, self.c = "time", 0, 0
        else:
            self.kind, self.r, self.c = "other", 0, 0

    @property
    def dof(self):
        return self.r * self.c * self.num


def comps(m, typ):
    return [Comp(n, o, s, i["t"]) for n, o, s, i in m.fields(NS + typ)]


class Layout:
    def __init__(self, m):
        self.m = m
        self.dq = {n: o for n, o, s, _ in m.fields("mc::math::DQuat<double>")}
        self.q = {n: o for n, o, s, _ in m.fields("mc::math::Quat<double>")}
        self.state, self.err, self.inp = comps(m, "State"), comps(m, "ErrorState"), comps(m, "Input")
        self.vars = [c for c in self.state if c.kind in ("mat", "group", "array")]
        self.count = {c.key: c for c in self.state if c.kind == "count"}
        e = {c.key: c for c in self.err}
        self.pairs = [(c, e.get(c.key)) for c in self.vars]
        # dual quaternions of an object of a type, with offsets
        self.groups = {"State": [c.off for c in self.state if c.kind == "group"]}
        self.groups["Snapshot"] = [o + g for n, o, s, i in m.fields(NS + "Snapshot") if i["t"].endswith("ekf::State") for g in self.groups["State"]]

    def entry(self, objs, st=None):
        """a state in which the dual quaternions of these objects refer to their own storage"""
        st = st or vg.State()
        for o, typ, base in objs:
            for off in self.groups[typ]:
                w = st.wcells(o)
                b = base + off
                for at, to in ((self.dq["arr_"], 0), (self.dq["r_"] + self.q["arr_"], 0), (self.dq["d_"] + self.q["arr_"], 32)):
                    w[b + at] = (8, vg.mk("ptr", (o, b + self.dq["buf_"] + to, ()), "p"))
        return st

    def read(self, g, st, o, base, c, used=None):
        """the component's scalars as terms"""
        P = lambda off: vg.mk("ptr", (o, off, ()), "p")
        if c.kind == "group":
            p = g.load(st, P(base + c.off + self.dq["arr_"]), 8, "p")
            return [g.load(st, g.ptr_add(p, 8 * i, []), 8, "f") for i in range(8)]
        n = c.r * c.c * (c.num if used is None else used)
        return [g.load(st, P(base + c.off + 8 * i), 8, "f") for i in range(n)]

    def views(self, g, st, o, base, c):
        """where the three views of a dual quaternion point: its whole, its real and its dual part"""
        P = lambda off: vg.mk("ptr", (o, off, ()), "p")
        b = base + c.off
        return [g.load(st, P(b + at), 8, "p") for at in (self.dq["arr_"], self.dq["r_"] + self.q["arr_"], self.dq["d_"] + self.q["arr_"])]


def run(ctx, m, lay, name, objs=(), summaries=()):
    ctx.add("functions", name)
    return vg.VG(m, m.find("^ve_%s$" % name), summaries=list(modlib.EIGEN) + list(summaries), entry=lay.entry([(("arg", i), t, 0) for i, t in objs]), unroll=1000)


FCMP = {"eq": np.equal, "ne": np.not_equal, "lt": np.less, "le": np.less_equal, "gt": np.greater, "ge": np.greater_equal}


def batch(t, n, leaf):
    """the term's values in n cases at once; leaf(init term) -> array or number"""
    order, seen, stack = [], set(), [(t, False)]
    while stack:
        x, done = stack.pop()
        if done:
            order.append(x)
        elif x not in seen:
            seen.add(x)
            stack.append((x, True))
            stack += [(a, False) for a in x.a if isinstance(a, vg.T)]
    v = {}
    with np.errstate(all="ignore"):
        for x in order:
            a = [v.get(y) if isinstance(y, vg.T) else y for y in x.a]
            if any(y is None for y in a):
                continue
            v[x] = one(x, a, leaf)
    return v[t]


def one(x, a, leaf):
    o = x.op
    if o == "c":
        return np.uint64(x.a[0] & ((1 << x.w) - 1)) if x.w not in (1, "b") else bool(x.a[0] & 1)
    if o == "cf":
        return np.float64(vg.fval(x))
    if o == "init":
        return leaf(x)
    if o in ("fadd", "fsub", "fmul", "fdiv"):
        return {"fadd": np.add, "fsub": np.subtract, "fmul": np.multiply, "fdiv": np.divide}[o](*a)
    if o == "fneg":
        return -a[0]
    if o == "call" and a[0] == "fabs":
        return np.abs(a[1])
    if o == "fcmp":
        p, l, r = a
        if p in ("ord", "uno"):
            u = np.isnan(l) | np.isnan(r)
            return u if p == "uno" else ~u
        c = FCMP[p[1:]](l, r)
        u = np.isnan(l) | np.isnan(r)
        return c | u if p[0] == "u" else c & ~u
    if o in ("band", "bor"):
        r = a[0]
        for y in a[1:]:
            r = np.logical_and(r, y) if o == "band" else np.logical_or(r, y)
        return r
    if o == "not":
        return np.logical_not(a[0])
    if o == "ite":
        return np.where(a[0], a[1], a[2])
    if o in ("zext", "trunc"):
        return np.asarray(a[0]).astype(np.uint64) & np.uint64((1 << min(x.w, x.a[0].w if x.a[0].w != "b" else 1)) - 1) if x.w != 1 else np.asarray(a[0]).astype(np.uint64) & np.uint64(1) != 0
    if o == "icmp" and a[0] in ("eq", "ne"):
        return (a[1] == a[2]) == (a[0] == "eq")
    if o in ("and", "or", "xor") and x.w == 1:
        return {"and": np.logical_and, "or": np.logical_or, "xor": np.logical_xor}[o](*a)
    if o in ("and", "or", "xor"):
        return {"and": np.bitwise_and, "or": np.bitwise_or, "xor": np.bitwise_xor}[o](*a)
    raise vg.Broken("no value for %s" % o)


class Values:
    """numbers for the scalars of typed arguments at one evaluation point"""

    def __init__(self, p, alg):
        self.p, self.a, self.cells = p, alg, {}
        p.atom = self.atom

    def atom(self, t):
        if t.op == "init" and t.w == "f" and not t.a[3]:
            return self.cells.get((t.a[0], t.a[1]))
        if t.op == "arg" and t.w == "f":
            return self.cells.get(("arg", t.a[0]))
        return None

    def put(self, o, off, vals):
        for i, v in enumerate(vals):
            self.cells[o, off + 8 * i] = v
        return vals

    def comp(self, lay, o, base, c, used=None):
        if c.kind == "group":
            return self.put(o, base + c.off + lay.dq["buf_"], self.a.pose())
        return self.put(o, base + c.off, self.a.vals(c.r * c.c * (c.num if used is None else used)))

    def obj(self, lay, o, cs, base=0):
        """values of every component, by key"""
        return {c.key: self.comp(lay, o, base, c) for c in cs if c.kind in ("mat", "group", "array")}


def dqmul(a, b):
    return qmul(a[:4], b[:4]) + [x + y for x, y in zip(qmul(a[:4], b[4:]), qmul(a[4:], b[:4]))]


def dqinv(a):
    return conj(a[:4]) + conj(a[4:])


def exp6(p, v):
    q, d = expd(p, v[:3], v[3:])
    return q + d
