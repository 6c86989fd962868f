"""Exact algebra of floating-point terms read over the reals: rational functions over opaque atoms, and case analysis over the decisions inside terms."""
from fractions import Fraction
import vg, prop
from vg import T, mk, TRUE, FALSE, NOT
from poly import Facts, Lin, rvar, L


class P:
    """polynomial: {sorted tuple of atom keys: coefficient}"""
    __slots__ = ("d", "_k")

    def __init__(self, d=None):
        self.d = d or {}
        self._k = None

    def __add__(self, o):
        r = dict(self.d)
        for m, v in o.d.items():
            v = r.get(m, 0) + v
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return P(r)

    def __neg__(self):
        return P({m: -v for m, v in self.d.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        r = {}
        for a, x in self.d.items():
            for b, y in o.d.items():
                m = tuple(sorted(a + b))
                v = r.get(m, 0) + x * y
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        return P(r)

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.d.items()))
        return self._k

    def __eq__(self, o):
        return isinstance(o, P) and self.d == o.d

    def __hash__(self):
        return hash(self.key())

    def const(self):
        return self.d.get((), Fraction(0)) if all(m == () for m in self.d) else None

    def atoms(self):
        return {a for m in self.d for a in m}

    def diff(self, a):
        r = P()
        for m, v in self.d.items():
            n = m.count(a)
            if n:
                q = list(m)
                q.remove(a)
                r = r + P({tuple(q): v * n})
        return r

    def __repr__(self):
        return " + ".join("%s*%s" % (v, "*".join(map(str, m))) for m, v in self.d.items()) or "0"


ONE = P({(): Fraction(1)})
ZERO = P()


def C(v):
    v = Fraction(v)
    return P({(): v}) if v else P()


def V(name):
    return P({(name,): Fraction(1)})


class R:
    """rational function"""
    __slots__ = ("n", "d")

    def __init__(self, n, d=ONE):
        c = d.const()
        if c is not None and c != 0 and c != 1:
            n, d = n * C(1 / c), ONE
        elif n == d:
            n, d = ONE, ONE
        self.n, self.d = n, d

    def __add__(self, o):
        if self.d == o.d:
            return R(self.n + o.n, self.d)
        return R(self.n * o.d + o.n * self.d, self.d * o.d)

    def __neg__(self):
        return R(-self.n, self.d)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if self.n == o.d:
            return R(o.n, self.d)
        if self.d == o.n:
            return R(self.n, o.d)
        return R(self.n * o.n, self.d * o.d)

    def __truediv__(self, o):
        if self.n == ZERO:
            return R(ZERO)
        if self.d == o.d:
            return R(self.n, o.n)
        return R(self.n * o.d, self.d * o.n)

    def __eq__(self, o):
        return isinstance(o, R) and self.n * o.d == o.n * self.d

    def __hash__(self):
        return 0

    def iszero(self):
        return self.n == ZERO

    def atoms(self):
        return self.n.atoms() | self.d.atoms()

    def __repr__(self):
        return "(%s)" % self.n if self.d == ONE else "(%s)/(%s)" % (self.n, self.d)


class Alg:
    """Terms to rational functions.  atom(term) may name a term; everything else that is not arithmetic becomes an opaque atom."""

    def __init__(self, atom=None, opaque_div=False):
        self.atom, self.memo, self.names, self.fns, self.opaque_div = atom or (lambda t: None), {}, {}, {}, opaque_div

    def __call__(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self.memo[t.id] = self.conv(t)
        return r

    def opaque(self, t):
        n = "t%d" % t.id
        self.names[n] = t
        return R(V(n))

    def fn(self, name, *args):
        """an opaque function of rational arguments: same name and equal arguments give the same atom"""
        l = self.fns.setdefault((name, len(args)), [])
        for i, a in enumerate(l):
            if all(x == y for x, y in zip(a, args)):
                return R(V("%s#%d" % (name, i)))
        l.append(args)
        return R(V("%s#%d" % (name, len(l) - 1)))

    def conv(self, t):
        a = self.atom(t)
        if a is not None:
            return a if isinstance(a, R) else R(V(a))
        o = t.op
        if o == "cf":
            v = vg.fval(t)
            if v == v and abs(v) != float("inf"):
                return R(C(Fraction(v)))
            return self.opaque(t)
        if o == "fadd":
            return self(t.a[0]) + self(t.a[1])
        if o == "fsub":
            return self(t.a[0]) - self(t.a[1])
        if o == "fmul":
            return self(t.a[0]) * self(t.a[1])
        if o == "fdiv":
            d = self(t.a[1])
            if d.iszero():
                return self.opaque(t)
            if self.opaque_div and (d.d != ONE or len(d.n.d) > 1):
                return self.fn("fdiv", self(t.a[0]), d)
            return self(t.a[0]) / d
        if o == "fneg":
            return -self(t.a[0])
        if o == "bitcast" and isinstance(t.a[0], T) and t.a[0].op == "bitcast":
            return self(t.a[0].a[0])
        if o in ("fpext", "fptrunc"):
            return self(t.a[0])
        if o in ("sitofp", "uitofp") and t.a[0].op == "c":
            v, w = t.a[0].a[0], t.a[0].w
            return R(C(v - (1 << w) if o == "sitofp" and v >> (w - 1) else v))
        if o == "call" and isinstance(t.a[0], str):
            x = [self(y) for y in t.a[1:]]
            n = t.a[0]
            if n == "fabs" and x[0].d == ONE and x[0].n.const() is not None:
                return R(C(abs(x[0].n.const())))
            if n == "fabs" or n in ("cos",):
                f = self.fns.setdefault((n, 1), [])
                for i, y in enumerate(f):
                    if y[0] == -x[0]:
                        x = [y[0]]
                        break
            if n == "pow" and x[1].d == ONE and x[1].n.const() is not None and x[1].n.const().denominator == 1 and 0 <= x[1].n.const() <= 8:
                r = R(ONE)
                for _ in range(int(x[1].n.const())):
                    r = r * x[0]
                return r
            return self.fn(n, *x)
        if o == "fabs":
            return self.conv(mk("call", ("fabs", t.a[0]), "f"))
        return self.opaque(t)


def decisions(ts):
    """an undecided atom of some decision inside the terms, innermost first"""
    seen = set()
    for t in ts:
        st = [t]
        order = []
        while st:
            x = st.pop()
            if not isinstance(x, T) or x.id in seen:
                continue
            seen.add(x.id)
            order.append(x)
            for a in x.a:
                if isinstance(a, T):
                    st.append(a)
        best = None
        for x in order:
            if x.op == "ite":
                k = x.a[0]
                if not any(s.op == "ite" for s in vg.subterms(k)):
                    return next(iter(prop.atoms(prop.canon(k)).values()))
                best = best or k
        if best is not None:
            for s in vg.subterms(best):
                if s.op == "ite" and not any(q.op == "ite" for q in vg.subterms(s.a[0])):
                    return next(iter(prop.atoms(prop.canon(s.a[0])).values()))
    return None


def assign(ts, a, v):
    """the terms with atom a set to v"""
    lit = TRUE if v else FALSE
    memo = {}

    def f(x):
        if x is a or x == a:
            return lit
        if x.w == 1 and x.op in ("fcmp", "icmp"):
            y = prop.canon(x)
            if y is not x:
                if y == a:
                    return lit
                if y.op == "not" and y.a[0] == a:
                    return NOT(lit)
        return None
    return [vg.rewrite(t, f, memo) for t in ts]


def cases(ts, facts=(), limit=4096, prune=None):
    """(decided atoms, terms without decisions) for every combination of the decisions in the terms"""
    n = [0]

    def go(ts, facts):
        n[0] += 1
        if n[0] > limit:
            raise OverflowError("too many cases")
        if prune and prune(facts):
            return
        a = decisions(ts)
        if a is None:
            yield facts, ts
            return
        for v in (True, False):
            yield from go(assign(ts, a, v), facts + ((a, v),))
    memo = {}
    yield from go([vg.rewrite(t, _minmax, memo) for t in ts], tuple(facts))


def _minmax(x):
    if x.op == "call" and x.a[0] in ("maxnum", "minnum", "fmax", "fmin") and len(x.a) == 3:
        a, b = (vg.rewrite(y, _minmax, {}) for y in x.a[1:])
        c = mk("fcmp", ("olt", a, b), 1)
        return vg.ITE(c, b, a) if x.a[0] in ("maxnum", "fmax") else vg.ITE(c, a, b)
    return None


def lin(r):
    """linear form over the monomials of a polynomial (None for a true fraction)"""
    if r.d != ONE:
        return None
    l = Lin({}, r.n.d.get((), Fraction(0)))
    for m, v in r.n.d.items():
        if m:
            l = l + rvar("*".join(map(str, m))) * v
    return l


def facts_of(alg, decided, F=None):
    """linear facts that the decided comparisons give, NaN excluded"""
    F = F or Facts()
    for a, v in decided:
        if a.op != "fcmp" or a.a[0] not in ("olt", "ole", "oeq", "one"):
            continue
        d = lin(alg(a.a[1]) - alg(a.a[2]))
        if d is None:
            continue
        p = a.a[0]
        if p == "olt":
            F = F.gt(-d) if v else F.ge(d)
        elif p == "ole":
            F = F.ge(-d) if v else F.gt(d)
        elif (p == "oeq") == v:
            F = F.eq(d)
    return F


def fabs_facts(alg, F):
    """|x| >= x, |x| >= -x, |x| >= 0 for every magnitude met so far"""
    for i, (x,) in enumerate(alg.fns.get(("fabs", 1), [])):
        a = rvar("fabs#%d" % i)
        F = F.ge(a)
        l = lin(x)
        if l is not None:
            F = F.ge(a - l).ge(a + l)
    return F
