"""the rotation and pose types: terms of the library's functions, and an independent algebra to compare them with"""
import math, random
import ir, vg, pit
from pit import D, K, S, F
H = ir.VERIF + "/harness/lie.cxx"


class Lib:
    def __init__(self, ctx):
        self.ctx = ctx
        self.m = ir.load([H], ["^vs_"], inline=ir.DEFAULT_INLINE + [r"^v3\(", r"^v6\(", r"^m3\(", r"^q4\(", r"^d8\(", r"^s12\(", r"^(static )?(void )?put\b", r"std::|__gnu_cxx"], extra=["-fno-access-control"])
        self.memo = {}

    def terms(self, name, arg, n):
        k = name, arg, n
        if k not in self.memo:
            if name not in self.memo:
                f = self.m.find(r"^vs_%s$" % name)
                self.ctx.add("functions", name)
                self.memo[name] = vg.VG(self.m, f)
            g = self.memo[name]
            self.memo[k] = [g.mem(g.final, ("arg", arg), 8 * i, 8, "f") for i in range(n)]
        return self.memo[k]


def atom(A, B=()):
    def f(t):
        if t.op == "init" and t.w == "f" and t.a[0] in (("arg", 0), ("arg", 1)):
            v = (A, B)[t.a[0][1]]
            i = t.a[1] // 8
            return v[i] if t.a[1] % 8 == 0 and i < len(v) else None
        return None
    return f


def conditions(ts):
    """the branch conditions in the terms"""
    out, seen, st = [], set(), list(ts)
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            out.append(x.a[0])
        st += [y for y in x.a if isinstance(y, vg.T)]
    return out


def flo(A):
    return [F(float(x)) for x in A]


def guard(A, B=()):
    """decides conditions at the point where the inputs have these values"""
    p = pit.FPoint(atom(flo(A), flo(B)))
    memo = {}

    def g(c):
        if c not in memo:
            memo[c] = p.truth(c)
        return memo[c]
    g.point = p
    return g


# ---- an independent algebra (works over any of the number types)
def qmul(a, b):
    w, x, y, z = a
    W, X, Y, Z = b
    return [w * W - x * X - y * Y - z * Z, w * X + x * W + y * Z - z * Y, w * Y - x * Z + y * W + z * X, w * Z + x * Y - y * X + z * W]


def conj(q):
    return [q[0], -q[1], -q[2], -q[3]]


def add(a, b):
    return [x + y for x, y in zip(a, b)]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def dot(a, b):
    r = a[0] * b[0]
    for x, y in zip(a[1:], b[1:]):
        r = r + x * y
    return r


def mat(M, v, n=None):
    n = n or len(v)
    return [dot(M[i * n:i * n + n], v) for i in range(len(M) // n)]


def rotm(q, one):
    """active rotation matrix, row by row"""
    w, x, y, z = q
    two = one + one
    return [one - two * (y * y + z * z), two * (x * y - w * z), two * (x * z + w * y),
            two * (x * y + w * z), one - two * (x * x + z * z), two * (y * z - w * x),
            two * (x * z - w * y), two * (y * z + w * x), one - two * (x * x + y * y)]


def tr(M):
    return [M[3 * j + i] for i in range(3) for j in range(3)]


def matmul(A, B, n):
    k = len(A) // n
    return [dot(A[i * n:i * n + n], [B[r * (len(B) // n) + j] for r in range(n)]) for i in range(k) for j in range(len(B) // n)]


def expq(p, w):
    th = dot(w, w).sqrt()
    s, c = p.trig(th / p.const(2))
    return [c] + [s * x / th for x in w]


def expd(p, w, v):
    """dual quaternion: the quaternion exponential over dual numbers"""
    q = expq(p, [D(a.v, b.v) for a, b in zip(w, v)])
    return [D(x.v) for x in q], [x.rate() for x in q]


def expd_s(p, w, v):
    """the same over power series, by the closed form"""
    one, two = p.const(1), p.const(2)
    th2 = dot(w, w)
    th = th2.sqrt()
    s, c = p.trig(th / two)
    k = s / th
    g = dot(w, v)
    # d/de |w + e v| = g / th
    dth = g / th
    ds, dc = c * dth / two, -s * dth / two
    dk = (ds * th - s * dth) / th2
    return [c] + [k * x for x in w], [dc] + [dk * x + k * y for x, y in zip(w, v)]


def axis(p):
    a, b = D(p.rnd()), D(p.rnd())
    n = K(1) + a * a + b * b
    return [K(2) * a / n, K(2) * b / n, (K(1) - a * a - b * b) / n]


def unitq(p):
    """a unit quaternion of the field"""
    t = D(p.rnd())
    n = axis(p)
    k = K(1) + t * t
    return [(K(1) - t * t) / k] + [K(2) * t / k * x for x in n]


def vec(p, n):
    return [D(p.rnd()) for _ in range(n)]


def pure(v):
    return [v[0] - v[0]] + list(v)


AX = [(0.6, -0.48, 0.64), (-0.2, 0.3, 0.932737905308882), (0.1, 0.9, -0.4242640687119285), (0.9, 0.1, 0.4242640687119285)]


def fexpq(w):
    th = math.sqrt(sum(x * x for x in w))
    k = math.sin(th / 2) / th if th else 0.5
    return [math.cos(th / 2)] + [k * x for x in w]


def frot(q):
    return [x.v for x in rotm([F(x) for x in q], F(1.0))]
