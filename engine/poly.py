"""Disjunctive convex-polyhedra domain over value-graph terms (exact rationals, integer tightening).

Terms are evaluated abstractly into linear forms over atoms; every ite / div / rem / trunc splits the
state into convex pieces, infeasible pieces are dropped by Fourier-Motzkin elimination.
Assumptions of the domain: no integer overflow, doubles behave as reals and double literals denote
their shortest decimal."""
from fractions import Fraction
from math import gcd
import vg
from vg import T


class Lin:
    __slots__ = ("d", "k")

    def __init__(self, d=None, k=0):
        self.d = {a: v for a, v in (d or {}).items() if v}
        self.k = Fraction(k)

    def __add__(self, o):
        o = L(o)
        d = dict(self.d)
        for a, v in o.d.items():
            d[a] = d.get(a, 0) + v
        return Lin(d, self.k + o.k)

    def __neg__(self):
        return self * -1

    def __sub__(self, o):
        return self + (-L(o))

    def __rsub__(self, o):
        return L(o) - self

    __radd__ = __add__

    def __mul__(self, c):
        c = Fraction(c)
        return Lin({a: v * c for a, v in self.d.items()}, self.k * c)

    __rmul__ = __mul__

    def key(self):
        return (frozenset(self.d.items()), self.k)

    def isint(self):
        return self.k.denominator == 1 and all(v.denominator == 1 and isint(a) for a, v in self.d.items())

    def __repr__(self):
        return " + ".join(["%s*%s" % (v, nm(a)) for a, v in self.d.items()] + [str(self.k)])


_ak = {}


def akey(a):
    r = _ak.get(a)
    if r is None:
        r = _ak[a] = len(_ak)
    return r


def nm(a):
    if isinstance(a, T):
        return vg.show(a, 4)
    if a[0] == "var":
        return str(a[1])
    if a[0] == "q":
        return "%s((%s)/%s)" % ("floor" if a[3] == "floor" else "trunc", " + ".join("%s*%s" % (v, nm(x)) for x, v in a[1][0]) + " + %s" % a[1][1], a[2])
    return str(a)


def L(x):
    return x if isinstance(x, Lin) else Lin({}, x)


def isint(a):
    if isinstance(a, T):
        return isinstance(a.w, int)
    return a[0] in ("q", "ivar") or (a[0] == "var" and a[2])


def ivar(name):
    return Lin({("var", name, True): Fraction(1)})


def rvar(name):
    return Lin({("var", name, False): Fraction(1)})


def norm(l, strict):
    """normalise l >= 0 / l > 0; integer tightening"""
    if l.d and all(isint(a) for a in l.d):
        den = 1
        for v in l.d.values():
            den = den * v.denominator // gcd(den, v.denominator)
        l = l * den
        g = 0
        for v in l.d.values():
            g = gcd(g, abs(v.numerator))
        k = l.k
        # sum + k >= 0  <=> sum/g >= -k/g -> floor
        if strict:
            # sum > -k  -> sum >= floor(-k)+1
            m = (-k).__floor__() + 1
        else:
            m = (-k).__ceil__()
        m = -(-m // g)  # ceil(m/g)
        return Lin({a: v / g for a, v in l.d.items()}, -m), False
    if l.d:
        s = max(abs(v) for v in l.d.values())
        l = l * (1 / s)
    return l, strict


class Facts:
    __slots__ = ("cs", "bools", "_inf", "defs")

    def __init__(self, cs=(), bools=None):
        self.cs = tuple(cs)
        self.bools = dict(bools or {})
        self._inf = None
        self.defs = {}

    def add(self, l, strict=False):
        l, strict = norm(L(l), strict)
        if not l.d:
            if l.k > 0 or (l.k == 0 and not strict):
                return self
        f = Facts(self.cs + ((l, strict),), self.bools)
        return f

    def ge(self, a, b_=0):
        return self.add(L(a) - b_)

    def gt(self, a, b_=0):
        return self.add(L(a) - b_, True)

    def eq(self, a, b_=0):
        l = L(a) - b_
        return self.add(l).add(-l)

    def withbool(self, t, v):
        f = Facts(self.cs, self.bools)
        f.bools[t] = v
        return f

    def feasible(self):
        if self._inf is None:
            self._inf = not fm(self.cs)
        return not self._inf

    def entails_ge(self, l):
        return not self.add(-L(l), True).feasible()

    def entails_gt(self, l):
        return not self.add(-L(l)).feasible()

    def entails_eq(self, l):
        l = L(l)
        return self.entails_ge(l) and self.entails_ge(-l)


_fmc = {}


def fm(cs):
    """True if satisfiable (rationals + integer tightening)"""
    key = frozenset((l.key(), s) for l, s in cs)
    r = _fmc.get(key)
    if r is None:
        r = _fm(dict(((l.key(), s), (l, s)) for l, s in cs).values())
        _fmc[key] = r
    return r


def _fm(cs):
    cs = list(cs)
    while True:
        best = {}
        for l, s in cs:
            if not l.d:
                if l.k < 0 or (l.k == 0 and s):
                    return False
                continue
            k = frozenset(l.d.items())
            o = best.get(k)
            if o is None or l.k < o[0].k or (l.k == o[0].k and s):
                best[k] = (l, s)
        cs = list(best.values())
        if not cs:
            return True
        # direct contradiction l>=0 and -l<0
        cnt = {}
        for l, s in cs:
            for a, v in l.d.items():
                p = cnt.setdefault(a, [0, 0, 0 if isint(a) else -1])
                p[v < 0] += 1
                if p[2] >= 0 and abs(v) != 1:
                    p[2] = 1
        # prefer equality substitution (both bounds) -> just choose the cheapest
        a = min(cnt, key=lambda x: (0 if 0 in cnt[x][:2] else 1, cnt[x][2], cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1], akey(x)))
        pos, neg, rest = [], [], []
        for l, s in cs:
            v = l.d.get(a)
            (rest if v is None else pos if v > 0 else neg).append((l, s))
        new = rest
        for lp, sp in pos:
            for ln, sn in neg:
                c = lp * (1 / lp.d[a]) + ln * (-1 / ln.d[a])
                c.d.pop(a, None)
                l, s = norm(c, sp or sn)
                if not l.d:
                    if l.k < 0 or (l.k == 0 and s):
                        return False
                    continue
                new.append((l, s))
        if len(new) > 4000:
            return True  # give up: treat as satisfiable (sound for proofs)
        cs = new


class Dom:
    """Evaluator. `env`: term -> Lin for leaf atoms the rule names (inputs)."""

    def __init__(self, env=None, atom=None):
        self.env = env or {}
        self.atom = atom or (lambda t: None)
        self.limit = 4000

    def lin(self, t, F):
        """[(F', Lin)]"""
        e = self.env.get(t)
        if e is not None:
            return [(F, e)]
        e = self.atom(t)
        if e is not None:
            return [(F, e)]
        op = t.op
        if op == "c":
            return [(F, Lin({}, t.a[0]))]
        if op == "cf":
            return [(F, Lin({}, Fraction(repr(vg.fval(t)))))]
        if op in ("add", "fadd", "sub", "fsub"):
            sg = -1 if op in ("sub", "fsub") else 1
            return [(F2, x + y * sg) for F1, x in self.lin(t.a[0], F) for F2, y in self.lin(t.a[1], F1)]
        if op in ("mul", "fmul"):
            out = []
            for F1, x in self.lin(t.a[0], F):
                for F2, y in self.lin(t.a[1], F1):
                    if not y.d:
                        out.append((F2, x * y.k))
                    elif not x.d:
                        out.append((F2, y * x.k))
                    else:
                        out.append((F2, self.opaque(("mul", x.key(), y.key()), t)))
            return out
        if op == "fdiv":
            out = []
            for F1, x in self.lin(t.a[0], F):
                for F2, y in self.lin(t.a[1], F1):
                    if not y.d and y.k:
                        out.append((F2, x * (1 / y.k)))
                    else:
                        out.append((F2, self.opaque(("fdiv", x.key(), y.key()), t)))
            return out
        if op == "shl" and t.a[1].op == "c":
            return [(F1, x * (1 << t.a[1].a[0])) for F1, x in self.lin(t.a[0], F)]
        if op == "ashr" and t.a[1].op == "c" and t.a[0].op == "shl" and t.a[0].a[1] is t.a[1]:
            return self.lin(t.a[0].a[0], F)  # sign extension of the low half
        if op in ("ashr", "lshr") and t.a[1].op == "c":
            k = 1 << t.a[1].a[0]
            out = []
            for F1, x in self.lin(t.a[0], F):
                if op == "lshr" and not F1.entails_ge(x):
                    out.append((F1, Lin({t: Fraction(1)})))
                    continue
                q = Lin({("q", x.key(), k, "floor"): Fraction(1)})
                out.append((F1.ge(x - q * k).ge(k - 1 - x + q * k), q))
            return out
        if op == "and" and t.a[1].op == "c" and t.a[1].a[0] > 0 and (t.a[1].a[0] & (t.a[1].a[0] + 1)) == 0:
            k = t.a[1].a[0] + 1
            out = []
            for F1, x in self.lin(t.a[0], F):
                q = Lin({("q", x.key(), k, "floor"): Fraction(1)})
                out.append((F1.ge(x - q * k).ge(k - 1 - x + q * k), x - q * k))
            return out
        if op == "or" and t.a[1].op == "c" and t.a[0].op == "shl" and t.a[0].a[1].op == "c" and 0 <= t.a[1].a[0] < (1 << t.a[0].a[1].a[0]):
            return [(F1, x + t.a[1].a[0]) for F1, x in self.lin(t.a[0], F)]
        if op == "fneg":
            return [(F1, -x) for F1, x in self.lin(t.a[0], F)]
        if op in ("sext", "sitofp", "trunc", "fptrunc", "fpext"):
            return self.lin(t.a[0], F)
        if op in ("zext", "uitofp"):
            out = []
            for F1, x in self.lin(t.a[0], F):
                if F1.entails_ge(x):
                    out.append((F1, x))
                else:
                    a = Lin({t: Fraction(1)})
                    out.append((F1.ge(a), a))
            return out
        if op == "ite":
            out = []
            for F1, v in self.bool(t.a[0], F):
                out += self.lin(t.a[1] if v else t.a[2], F1)
            return out
        if op in ("sdiv", "srem", "udiv", "urem") and t.a[1].op == "c" and t.a[1].a[0] != 0:
            k = t.a[1].a[0]
            ak = abs(k)
            out = []
            for F1, x in self.lin(t.a[0], F):
                for Fs, pos in ((F1.ge(x), True), (F1.gt(-x), False)):
                    if not Fs.feasible():
                        continue
                    if not pos and op[0] == "u":
                        out.append((Fs, Lin({t: Fraction(1)})))
                        continue
                    if not x.d:
                        q = Lin({}, vg.sdiv(int(x.k), ak))
                        F2 = Fs
                    else:
                        q = Lin({("q", x.key(), ak, pos): Fraction(1)})
                        r = x - q * ak
                        F2 = Fs.ge(r).ge(ak - 1 - r) if pos else Fs.ge(-r).ge(ak - 1 + r)
                        F2 = F2.ge(q) if pos else F2.ge(-q)
                    if op.endswith("div"):
                        out.append((F2, q if k > 0 else -q))
                    else:
                        out.append((F2, x - q * ak))
            return out
        if op == "fptosi" or (op == "call" and t.a[0] in ("floor", "trunc", "ceil", "round")):
            kind = "trunc" if op == "fptosi" else t.a[0]
            out = []
            for F1, x in self.lin(t.a[0] if op == "fptosi" else t.a[1], F):
                if x.isint():
                    out.append((F1, x))
                    continue
                sides = ((F1.ge(x), True), (F1.gt(-x), False)) if kind == "trunc" else ((F1, None),)
                for Fs, pos in sides:
                    if not Fs.feasible():
                        continue
                    q = Lin({("q", x.key(), kind, pos): Fraction(1)})
                    if kind == "floor" or pos is True:
                        F2 = Fs.ge(x - q).gt(q + 1 - x)
                    elif kind == "ceil" or pos is False:
                        F2 = Fs.ge(q - x).gt(x - q + 1)
                    else:
                        F2 = Fs.ge(x - q + Fraction(1, 2)).ge(q + Fraction(1, 2) - x)
                    if pos is True:
                        F2 = F2.ge(q)
                    if pos is False:
                        F2 = F2.ge(-q)
                    out.append((F2, q))
            return out
        if op == "call" and t.a[0] == "fabs":
            out = []
            for F1, x in self.lin(t.a[1], F):
                for F2, r in ((F1.ge(x), x), (F1.gt(-x), -x)):
                    if F2.feasible():
                        out.append((F2, r))
            return out
        return [(F, Lin({t: Fraction(1)}))]

    def opaque(self, key, t):
        return Lin({("ivar" if isinstance(t.w, int) else "rvar", key): Fraction(1)})

    def bool(self, t, F):
        """[(F', bool)]"""
        if t is vg.TRUE:
            return [(F, True)]
        if t is vg.FALSE:
            return [(F, False)]
        if t in F.bools:
            return [(F, F.bools[t])]
        op = t.op
        if op == "not":
            return [(f, not v) for f, v in self.bool(t.a[0], F)]
        if op == "band":
            out = []
            for f, v in self.bool(t.a[0], F):
                out += self.bool(t.a[1], f) if v else [(f, False)]
            return out
        if op == "bor":
            out = []
            for f, v in self.bool(t.a[0], F):
                out += [(f, True)] if v else self.bool(t.a[1], f)
            return out
        if op == "ite":
            out = []
            for f, v in self.bool(t.a[0], F):
                out += self.bool(t.a[1] if v else t.a[2], f)
            return out
        if op == "trunc" and t.w == 1:
            return self.opaque_bool(t, F)
        if op == "icmp" and t.a[1].w not in ("p",) and isinstance(t.a[1].w, int):
            p = t.a[0]
            out = []
            for F1, x in self.lin(t.a[1], F):
                for F2, y in self.lin(t.a[2], F1):
                    d = y - x
                    if p[0] == "u":
                        nx, ny = F2.entails_ge(x), F2.entails_ge(y)
                        if nx and ny:
                            pp = "s" + p[1:]
                        else:
                            # unsigned compare of possibly negative x with non-negative y (range idiom)
                            if ny and p in ("ult", "ule"):
                                W = t.a[1].w
                                for F3, neg in ((F2.ge(x), False), (F2.gt(-x), True)):
                                    if not F3.feasible():
                                        continue
                                    if neg:
                                        out.append((F3, False))
                                    else:
                                        out += self._cmp("s" + p[1:], d, F3)
                                continue
                            if nx and p in ("ult", "ule"):
                                for F3, neg in ((F2.ge(y), False), (F2.gt(-y), True)):
                                    if not F3.feasible():
                                        continue
                                    if neg:
                                        out.append((F3, True))
                                    else:
                                        out += self._cmp("s" + p[1:], d, F3)
                                continue
                            out += self.opaque_bool(t, F2)
                            continue
                    else:
                        pp = p
                    out += self._cmp(pp, d, F2)
            return out
        if op == "fcmp":
            p = t.a[0]
            if p == "uno":
                return [(F, False)]
            out = []
            for F1, x in self.lin(t.a[1], F):
                for F2, y in self.lin(t.a[2], F1):
                    d = y - x
                    out += self._cmp({"olt": "slt", "ole": "sle", "oeq": "eq", "one": "ne"}[p], d, F2)
            return out
        return self.opaque_bool(t, F)

    def opaque_bool(self, t, F):
        return [(F.withbool(t, True), True), (F.withbool(t, False), False)]

    def _cmp(self, p, d, F):
        out = []
        if p in ("slt", "sle"):
            st = p == "slt"
            a = F.add(d, st)
            bneg = F.add(-d, not st)
            if a.feasible():
                out.append((a, True))
            if bneg.feasible():
                out.append((bneg, False))
            return out
        for f, v in ((F.add(d, True), False), (F.add(-d, True), False), (F.eq(d), True)):
            if f.feasible():
                out.append((f, v == (p == "eq")))
        return out
