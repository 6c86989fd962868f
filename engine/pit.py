"""Identity testing for floating-point terms read over the reals: every term is evaluated at random points of a prime field (duals carry a derivative).
Equal expressions always agree; different ones agree with probability below 2^-50.  Squares of the field stand for positive numbers, so that
sqrt and fabs obey their usual laws; sin and cos of an angle are a random point of the unit circle."""
import math
import random
from fractions import Fraction
import vg
from vg import T

Q = (1 << 61) - 1      # prime, 3 mod 4


class Resample(Exception):
    pass


def inv(x):
    if x % Q == 0:
        raise Resample
    return pow(x, Q - 2, Q)


def issq(x):
    return pow(x, (Q - 1) // 2, Q) == 1


def root(x):
    """the root that is itself a square"""
    if x == 0:
        return 0
    if not issq(x):
        raise Resample
    r = pow(x, (Q + 1) // 4, Q)
    return r if issq(r) else Q - r


class D:
    """dual number over the field"""
    __slots__ = ("v", "d")

    def __init__(self, v, d=0):
        self.v, self.d = v % Q, d % Q

    def __add__(s, o):
        return D(s.v + o.v, s.d + o.d)

    def __sub__(s, o):
        return D(s.v - o.v, s.d - o.d)

    def __neg__(s):
        return D(-s.v, -s.d)

    def __mul__(s, o):
        return D(s.v * o.v, s.v * o.d + s.d * o.v)

    def __truediv__(s, o):
        i = inv(o.v)
        return D(s.v * i, (s.d - s.v * i * o.d) * i)

    def __eq__(s, o):
        return isinstance(o, D) and s.v == o.v

    def __hash__(s):
        return s.v

    def sqrt(s):
        r = root(s.v)
        return D(r, s.d * inv(2 * r) if s.d else 0)

    def rate(s):
        return D(s.d)


def K(x):
    x = Fraction(x)
    return D(x.numerator * inv(x.denominator))


class Point:
    """one random evaluation point; atom(term) may give a D, rate(name) the derivative of an opaque atom"""

    def __init__(self, seed, atom=None, snap=None, guard=None):
        self.snap, self.guard = snap, guard
        self.rng = random.Random(seed)
        self.atom = atom or (lambda t: None)
        self.memo, self.fns, self.ang, self.var = {}, {}, [], {}

    def rnd(self):
        return self.rng.randrange(1, Q)

    def free(self, name, positive=False, rate=0):
        """a named free variable"""
        x = self.var.get(name)
        if x is None:
            v = self.rnd()
            if positive:
                v = v * v % Q
            x = self.var[name] = D(v, rate)
        return x

    def trig(self, x):
        """(sin, cos)"""
        for v, s, c in self.ang:
            if v == x.v:
                break
            if (v + x.v) % Q == 0:
                s = Q - s
                break
        else:
            if x.v == 0:
                s, c = 0, 1
            else:
                t = self.rnd()
                i = inv(1 + t * t)
                s, c = 2 * t * i % Q, (1 - t * t) * i % Q
                self.ang.append((x.v, s, c))
                # double and half angles of this one
                self.ang.append((2 * x.v % Q, 2 * s * c % Q, (c * c - s * s) % Q))
        return D(s, c * x.d), D(c, -s * x.d)

    def angle(self, name=None, sin=None, cos=None, value=None):
        """an angle whose sine and cosine are known (of the given sign, if told)"""
        while True:
            t = self.rnd()
            i = inv(1 + t * t)
            s, c = 2 * t * i % Q, (1 - t * t) * i % Q
            if (sin is None or issq(s) == (sin > 0)) and (cos is None or issq(c) == (cos > 0)):
                break
        v = self.rnd() if value is None else value
        self.ang.append((v, s, c))
        self.ang.append((2 * v % Q, 2 * s * c % Q, (c * c - s * s) % Q))
        return D(v)

    def arc(self, x, cosine):
        """asin, acos"""
        o = root((1 - x.v * x.v) % Q)
        s, c = (o, x.v) if cosine else (x.v, o)
        for v, s_, c_ in self.ang:
            if (s_, c_) == (s, c):
                break
        else:
            v = self.rnd()
            self.ang.append((v, s, c))
        return D(v, (-x.d if cosine else x.d) * inv(o) if x.d else 0)

    def atan2(self, y, z):
        for v, s, c in self.ang:
            if (y.v * c - z.v * s) % Q == 0 and issq((y.v * s + z.v * c) % Q):
                return D(v, (y.d * z.v - z.d * y.v) * inv(y.v * y.v + z.v * z.v))
        k = ("atan2", y.v * inv(z.v) % Q, issq(z.v))
        v = self.fns.get(k)
        if v is None:
            v = self.fns[k] = self.rnd()
            r = root((y.v * y.v + z.v * z.v) % Q)
            i = inv(r)
            self.ang.append((v, y.v * i % Q, z.v * i % Q))
            self.ang.append((2 * v % Q, 2 * y.v * z.v * i * i % Q, (z.v * z.v - y.v * y.v) * i * i % Q))
        return D(v, (y.d * z.v - z.d * y.v) * inv(y.v * y.v + z.v * z.v))

    def fn(self, name, args):
        k = (name,) + tuple(a.v for a in args)
        v = self.fns.get(k)
        if v is None:
            v = self.fns[k] = self.rnd()
        return D(v)

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            st = [t]
            while st:
                x = st[-1]
                if x in self.memo:
                    st.pop()
                    continue
                a = self.atom(x)
                if a is not None:
                    self.memo[x] = a
                    st.pop()
                    continue
                if x.op == "ite" and self.guard:
                    k = self.guard(x.a[0])
                    if k is not None:
                        y = x.a[1 if k else 2]
                        if y in self.memo:
                            self.memo[x] = self.memo[y]
                            st.pop()
                        else:
                            st.append(y)
                        continue
                todo = [y for y in x.a if isinstance(y, T) and y not in self.memo] if x.op in ("fadd", "fsub", "fmul", "fdiv", "fneg", "call", "fpext", "fptrunc", "bitcast") else []
                if todo:
                    st += todo
                    continue
                self.memo[x] = self.ev(x)
                st.pop()
            r = self.memo[t]
        return r

    def ev(self, t):
        o = t.op
        A = [self.memo[y] for y in t.a if isinstance(y, T) and y in self.memo]
        if o == "cf":
            v = vg.fval(t)
            if v == v and abs(v) != float("inf"):
                return self.const(Fraction(v) if self.snap is None else self.snap(v))
        elif o == "fadd":
            return A[0] + A[1]
        elif o == "fsub":
            return A[0] - A[1]
        elif o == "fmul":
            return A[0] * A[1]
        elif o == "fdiv":
            return A[0] / A[1]
        elif o == "fneg":
            return -A[0]
        elif o in ("fpext", "fptrunc", "bitcast") and A:
            return A[0]
        elif o in ("sitofp", "uitofp") and t.a[0].op == "c":
            return self.const(t.a[0].a[0] if o == "sitofp" else vg.unsigned(t.a[0].a[0], t.a[0].w))
        elif o == "call" and isinstance(t.a[0], str):
            n = t.a[0]
            if n in ("sin", "cos"):
                return self.trig(A[0])[n == "cos"]
            if n == "tan":
                s, c = self.trig(A[0])
                return s / c
            if n == "sqrt":
                return A[0].sqrt()
            if n == "fabs":
                return -A[0] if self.negative(A[0]) else A[0]
            if n in ("acos", "asin"):
                return self.arc(A[0], n == "acos")
            if n == "copysign":
                return A[0] if self.negative(A[0]) == self.negative(A[1]) else -A[0]
            if n == "atan2":
                return self.atan2(*A)
            if n == "atan":
                return self.atan2(A[0], self.const(1))
            if n == "pow" and t.a[2].op == "cf" and vg.fval(t.a[2]) == int(vg.fval(t.a[2])) and 0 <= vg.fval(t.a[2]) <= 16:
                r = self.const(1)
                for _ in range(int(vg.fval(t.a[2]))):
                    r = r * A[0]
                return r
            return self.fn(n, A)
        return self.opaque(t)

    def opaque(self, t):
        return D(self.rnd())

    const = staticmethod(K)

    def negative(self, x):
        return x.v != 0 and not issq(x.v)


class FPoint(Point):
    """the same walk over floating-point numbers (used to find out which branch holds where)"""

    def __init__(self, atom):
        Point.__init__(self, 0, atom, guard=self.truth)

    @staticmethod
    def const(x):
        return F(float(x))

    def trig(self, x):
        return F(math.sin(x.v)), F(math.cos(x.v))

    def arc(self, x, cosine):
        v = max(-1.0, min(1.0, x.v))
        return F(math.acos(v) if cosine else math.asin(v))

    def atan2(self, y, z):
        return F(math.atan2(y.v, z.v))

    def fn(self, name, args):
        raise vg.Broken("no numerical value for " + name)

    def opaque(self, t):
        raise vg.Broken("no numerical value for " + vg.show(t, 3))

    def negative(self, x):
        return x.v < 0

    def truth(self, t):
        o = t.op
        if o == "c":
            return t.a[0] & 1
        if o == "not":
            return not self.truth(t.a[0])
        if o == "band":
            return self.truth(t.a[0]) and self.truth(t.a[1])
        if o == "bor":
            return self.truth(t.a[0]) or self.truth(t.a[1])
        if o == "ite":
            return self.truth(t.a[1 if self.truth(t.a[0]) else 2])
        if o == "fcmp":
            a, b = self(t.a[1]).v, self(t.a[2]).v
            p = t.a[0]
            nan = a != a or b != b
            if p in ("ord", "uno"):
                return nan == (p == "uno")
            if nan:
                return p[0] == "u"
            return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p[1:]]
        raise vg.Broken("no truth value for " + vg.show(t, 4))


class F:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __add__(s, o):
        return F(s.v + o.v)

    def __sub__(s, o):
        return F(s.v - o.v)

    def __neg__(s):
        return F(-s.v)

    def __mul__(s, o):
        return F(s.v * o.v)

    def __truediv__(s, o):
        return F(s.v / o.v if o.v else math.copysign(math.inf, o.v) * s.v if s.v else math.nan)

    def sqrt(s):
        return F(math.sqrt(s.v)) if s.v >= 0 else F(math.nan)


class S:
    """power series in the scale of the input, over floating-point coefficients"""
    N = 10
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = (list(c) + [0.0] * S.N)[:S.N]

    def __add__(s, o):
        return S([a + b for a, b in zip(s.c, o.c)])

    def __sub__(s, o):
        return S([a - b for a, b in zip(s.c, o.c)])

    def __neg__(s):
        return S([-a for a in s.c])

    def __mul__(s, o):
        r = [0.0] * S.N
        for i, a in enumerate(s.c):
            if a:
                for j in range(S.N - i):
                    r[i + j] += a * o.c[j]
        return S(r)

    def low(s):
        m = max(map(abs, s.c))
        return next((i for i, a in enumerate(s.c) if abs(a) > 1e-9 * m), None) if m else None

    def __truediv__(s, o):
        k = o.low()
        if k is None:
            raise ZeroDivisionError
        if any(abs(a) > 1e-9 for a in s.c[:k]):
            raise ZeroDivisionError
        n, d = s.c[k:] + [0.0] * k, o.c[k:] + [0.0] * k
        r = []
        for i in range(S.N):
            r.append((n[i] - sum(r[j] * d[i - j] for j in range(i))) / d[0])
        return S(r)

    def sqrt(s):
        k = s.low()
        if k is None:
            return S([])
        if k % 2 or s.c[k] < 0:
            raise ZeroDivisionError
        c = s.c[k:] + [0.0] * k
        r = [math.sqrt(c[0])]
        for i in range(1, S.N):
            r.append((c[i] - sum(r[j] * r[i - j] for j in range(1, i))) / (2 * r[0]))
        return S([0.0] * (k // 2) + r)

    def at(s, x):
        return sum(a * x ** i for i, a in enumerate(s.c))


class SPoint(Point):
    """the same walk over power series"""

    def __init__(self, atom, guard):
        Point.__init__(self, 0, atom, guard=guard)

    @staticmethod
    def const(x):
        return S([float(x)])

    def compose(self, x, derivs):
        h = S([0.0] + x.c[1:])
        r, p, f = S([]), S([1.0]), 1.0
        for n in range(S.N):
            r = r + S([derivs(n) / f]) * p
            p, f = p * h, f * (n + 1)
        return r

    def trig(self, x):
        s, c = math.sin(x.c[0]), math.cos(x.c[0])
        return self.compose(x, lambda n: (s, c, -s, -c)[n % 4]), self.compose(x, lambda n: (c, -s, -c, s)[n % 4])

    def integral(self, c0, d):
        return S([c0] + [a / (i + 1) for i, a in enumerate(d.c[:-1])])

    def diff(self, x):
        return S([a * i for i, a in enumerate(x.c)][1:])

    def atan2(self, y, z):
        return self.integral(math.atan2(y.c[0], z.c[0]), (self.diff(y) * z - self.diff(z) * y) / (y * y + z * z))

    def arc(self, x, cosine):
        d = self.diff(x) / (self.const(1) - x * x).sqrt()
        return self.integral((math.acos if cosine else math.asin)(x.c[0]), -d if cosine else d)

    def fn(self, name, args):
        raise vg.Broken("no series for " + name)

    def opaque(self, t):
        raise vg.Broken("no series for " + vg.show(t, 3))

    def negative(self, x):
        k = x.low()
        return k is not None and x.c[k] < 0


def snapper(consts):
    """maps a compiler-folded (rounded) product of the given constants to the exact product"""
    mons = [Fraction(1)]
    for c in consts:
        mons = [m * Fraction(c) ** k for m in mons for k in ((0, 1, 2, 3))]
    small = [Fraction(n, d) for n in (1, 2, 3, 4, 5, 6, 15) for d in (1, 2, 3, 4)]
    tab = {}
    for m in mons:
        for q in small:
            try:
                tab.setdefault("%.13e" % float(m * q), m * q)
            except OverflowError:
                pass
    memo = {}

    def snap(v):
        if v == 0 or float(v) == int(v) and abs(v) < 1 << 20:
            return Fraction(v)
        if v not in memo:
            r = Fraction(v)
            k = "%.13e" % abs(v)
            if k in tab and Fraction(v) not in consts:
                r = tab[k] if v > 0 else -tab[k]
            memo[v] = r
        return memo[v]
    return snap


def points(n, build):
    """n results of build(seed), resampling points where a square root or division is not defined"""
    out, seed = [], 1
    while len(out) < n:
        try:
            out.append(build(seed))
        except Resample:
            pass
        seed += 1
        if seed > 5000:
            raise vg.Broken("no evaluation point found")
    return out
