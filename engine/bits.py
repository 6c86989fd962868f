"""Bit-provenance and exact-linear domain over value-graph terms.

An integer is a vector of bits, each 0, 1 or an atom naming where the bit came from (a bit of an input byte, a bit of a
leaf, or an opaque gate).  A number (integer or real) is an affine form  k + sum coef*atom  over those atoms, so
"bits 88..119, two's complement, times 2^-31*pi" is one canonical form however it is written.  Conditions that the
assumptions do not decide are split (cases)."""
from fractions import Fraction
import vg
from vg import T, mk

OPAQUE = object()


class Undecided(Exception):
    def __init__(self, cond, eqs=None):
        self.cond, self.eqs = cond, eqs      # condition term (width 1); eqs: {atom: 0/1} it means when true


class Bits:
    def __init__(self, known=None, conds=None, decide=None, leafint=()):
        self.known = dict(known or {})      # atom -> 0/1
        self.conds = dict(conds or {})      # condition term -> bool
        self.decide = decide                # f(term) -> bool/None for conditions; or tuple of bits for ints
        self.mb, self.ml = {}, {}

    # ---- bits
    def atom(self, a):
        return self.known.get(a, ("b",) + a)

    def sub(self, x):
        if isinstance(x, tuple) and x and x[0] == "b":
            return self.known.get(x[1:], x)
        return x

    def bits(self, t):
        r = self.mb.get(t)
        if r is None:
            r = self.mb[t] = tuple(self._bits(t))
        return r

    def opaque(self, t):
        return [self.atom(("x", t.id, i)) for i in range(t.w)]

    def _bits(self, t):
        w, op = t.w, t.op
        if w == 1 and op not in ("init", "c", "trunc"):
            return [self.cond(t)]
        if op == "c":
            return [(t.a[0] >> i) & 1 for i in range(w)]
        if op == "init":
            if t in self.leafforms:
                r = self.tobits(self.leafforms[t], w, False)
                if r is not None:
                    return r
            o, off, size, gen = t.a
            return [self.atom(("in", o, off + i // 8, i % 8, gen)) for i in range(w)]
        if op == "zext":
            x = self.bits(t.a[0])
            return list(x) + [0] * (w - len(x))
        if op == "sext":
            x = self.bits(t.a[0])
            return list(x) + [x[-1]] * (w - len(x))
        if op == "trunc":
            return self.bits(t.a[0])[:w]
        if op in ("and", "or", "xor"):
            x, y = self.bits(t.a[0]), self.bits(t.a[1])
            return [self.gate(op, a, b) for a, b in zip(x, y)]
        if op in ("shl", "lshr", "ashr"):
            x, k = self.bits(t.a[0]), self.cval(t.a[1])
            if k is None or not 0 <= k < w:
                return self.opaque(t)
            if op == "shl":
                return [0] * k + list(x[:w - k])
            return list(x[k:]) + [0 if op == "lshr" else x[-1]] * k
        if op == "add":
            x, y = self.bits(t.a[0]), self.bits(t.a[1])
            if all(a == 0 or b == 0 for a, b in zip(x, y)):
                return [a if b == 0 else b for a, b in zip(x, y)]
            return self.adder(t, x, y)
        if op == "sub" and self.cval(t.a[0]) == 0:
            return self.opaque(t)
        if op in ("mul", "udiv", "urem"):
            k = self.cval(t.a[1])
            x = t.a[0]
            if k is None and op == "mul":
                k, x = self.cval(t.a[0]), t.a[1]
            if k is not None and k > 0 and k & (k - 1) == 0:
                n = k.bit_length() - 1
                x = self.bits(x)
                if op == "mul":
                    return [0] * n + list(x[:w - n])
                if op == "udiv":
                    return list(x[n:]) + [0] * n
                return list(x[:n]) + [0] * (w - n)
            return self.opaque(t)
        if op == "ite":
            k = self.cond(t.a[0])
            if k == 1:
                return self.bits(t.a[1])
            if k == 0:
                return self.bits(t.a[2])
            x, y = self.bits(t.a[1]), self.bits(t.a[2])
            return [self.mux(k, a, b) for a, b in zip(x, y)]
        if op in ("fptosi", "fptoui"):
            f = self.lin(t.a[0])
            r = self.tobits(f, w, op == "fptosi")
            if r is not None:
                return r
        return self.opaque(t)

    def adder(self, t, x, y):
        """constant-time carry chain; unknown carries become opaque from the first undecidable position on"""
        out, cy = [], 0
        for i, (a, b) in enumerate(zip(x, y)):
            n1 = [v for v in (a, b, cy) if v not in (0,)]
            if len(n1) == 0:
                out.append(0)
                cy = 0
            elif len(n1) == 1:
                out.append(n1[0])
                cy = 0
            elif all(v in (0, 1) for v in (a, b, cy)):
                s = a + b + cy
                out.append(s & 1)
                cy = s >> 1
            else:
                out += self.opaque(t)[i:]
                return out
        return out

    def cval(self, t):
        if t.op == "c":
            return t.a[0]
        b = self.bits(t) if isinstance(t.w, int) else None
        if b and all(v in (0, 1) for v in b):
            v = sum(x << i for i, x in enumerate(b))
            return v - (1 << t.w) if t.w > 1 and b[-1] else v
        return None

    def gate(self, op, a, b):
        if a == b:
            return 0 if op == "xor" else a
        for p, q in ((a, b), (b, a)):
            if p == 0:
                return 0 if op == "and" else q
            if p == 1:
                return q if op == "and" else 1 if op == "or" else self.neg(q)
        x, y = sorted((a, b), key=repr)
        return ("g", op, x, y)

    def neg(self, a):
        if a in (0, 1):
            return 1 - a
        if a[0] == "n":
            return a[1]
        return ("n", a)

    def mux(self, k, a, b):
        if a == b:
            return a
        if (a, b) == (1, 0):
            return k
        if (a, b) == (0, 1):
            return self.neg(k)
        if a == k:
            a = 1
        if b == k:
            b = 0
        if (a, b) == (1, 0):
            return k
        if a == 1:
            return self.gate("or", k, b)
        if b == 0:
            return self.gate("and", k, a)
        return ("m", k, a, b)

    # ---- conditions: 0, 1 or a bit atom (opaque conditions are atoms ("q", id))
    def cond(self, t):
        if t in self.conds:
            return int(self.conds[t])
        if self.decide:
            d = self.decide(t)
            if d is not None:
                return int(d)
        r = self.mb.get(("cond", t))
        if r is None:
            r = self.mb[("cond", t)] = self._cond(t)
        return r

    def _cond(self, t):
        op = t.op
        if op == "c":
            return t.a[0] & 1
        if op == "not":
            return self.neg(self.cond(t.a[0]))
        if op in ("band", "bor"):
            r = [self.cond(x) for x in t.a]
            x = r[0]
            for y in r[1:]:
                x = self.gate("and" if op == "band" else "or", x, y)
            return x
        if op == "ite":
            k = self.cond(t.a[0])
            if k == 1:
                return self.cond(t.a[1])
            if k == 0:
                return self.cond(t.a[2])
            return self.mux(k, self.cond(t.a[1]), self.cond(t.a[2]))
        if op == "trunc":
            return self.bits(t.a[0])[0]
        if op == "init" and t.w == 1:
            return self.atom(("in", t.a[0], t.a[1], 0, t.a[3]))
        if op == "icmp" and isinstance(t.a[1].w, int):
            r = self.cmp(t)
            if r not in (0, 1) and (r[0] == "q" or self.leafforms and not (self.clean(self.bits(t.a[1])) and self.clean(self.bits(t.a[2])))):
                k = self.rcmp(t.a[0], t.a[1], t.a[2], True)
                r = r if k is None else k
            return r
        if op == "fcmp":
            k = self.rcmp(t.a[0], t.a[1], t.a[2], False)
            if k is not None:
                return k
        return ("q", t.id)

    def rcmp(self, pred, x, y, isint):
        """comparison decided by the range of the difference of two affine forms"""
        try:
            a, b = (self.ilin(z, pred[0] != "u") if isint else self.lin(z) for z in (x, y))
        except Undecided:
            return None
        if a is None or b is None:
            return None
        r = self.rng(self.plus(a, self.scale(b, -1)))
        if r is None:
            return None
        lo, hi = r
        p = pred[1:]
        if pred == "eq" or p == "eq":
            return 1 if lo == hi == 0 else 0 if lo > 0 or hi < 0 else None
        t = {"lt": (hi < 0, lo >= 0), "le": (hi <= 0, lo > 0), "gt": (lo > 0, hi <= 0), "ge": (lo >= 0, hi < 0)}.get(p)
        return None if t is None else 1 if t[0] else 0 if t[1] else None

    def cmp(self, t):
        pred, x, y = t.a
        a, b = self.bits(x), self.bits(y)
        if pred == "eq":
            if any({p, q} == {0, 1} for p, q in zip(a, b) if p in (0, 1) and q in (0, 1)):
                return 0
            diff = [(p, q) for p, q in zip(a, b) if p != q]
            if not diff:
                return 1
            if any(self.neg(p) == q for p, q in diff if p not in (0, 1) and q not in (0, 1)):
                return 0
            acc = 1
            for p, q in sorted(set(diff), key=repr):
                if q in (0, 1):
                    e = p if q else self.neg(p)
                elif p in (0, 1):
                    e = q if p else self.neg(q)
                else:
                    e = ("n", ("g", "xor") + tuple(sorted((p, q), key=repr)))
                acc = self.gate("and", acc, e)
            return acc
        sg = pred[0] == "s"

        def rng(v):
            lo = hi = 0
            for i, z in enumerate(v):
                k = -(1 << i) if sg and i == len(v) - 1 else 1 << i
                if z == 1:
                    lo += k
                    hi += k
                elif z != 0:
                    lo += min(k, 0)
                    hi += max(k, 0)
            return lo, hi
        (la, ha), (lb, hb) = rng(a), rng(b)
        if pred.endswith("lt"):
            if ha < lb:
                return 1
            if la >= hb:
                return 0
        else:
            if ha <= lb:
                return 1
            if la > hb:
                return 0
        if sg and pred == "slt" and all(z == 0 for z in b):
            return a[-1]
        if not sg:
            # u< 2^k : all high bits zero
            for p, q, inv, strict in ((a, b, False, pred == "ult"), (b, a, True, pred == "ule")):
                n = self._pow2(q) if strict else None
                if n is not None and pred == "ult" and not inv:
                    acc = 1
                    for z in p[n:]:
                        acc = self.gate("and", acc, self.neg(z))
                    return acc
        return ("q", t.id)

    @staticmethod
    def _pow2(v):
        if all(z in (0, 1) for z in v) and sum(v) == 1:
            return v.index(1)
        return None

    # ---- affine forms: dict atom -> Fraction/float, key 1 = constant
    def ofbits(self, b, signed):
        f = {}
        for i, z in enumerate(b):
            k = Fraction(-(1 << i) if signed and i == len(b) - 1 else 1 << i)
            if z == 0:
                continue
            if isinstance(z, tuple) and z[0] == "n":
                f[1] = f.get(1, 0) + k
                f[z[1]] = f.get(z[1], 0) - k
            else:
                key = 1 if z == 1 else z
                f[key] = f.get(key, 0) + k
        return {a: v for a, v in f.items() if v}

    def rng(self, f):
        lo = hi = f.get(1, 0)
        for a, v in f.items():
            if a == 1:
                continue
            if isinstance(a, tuple) and a[0] == "i":
                return None
            lo += min(v, 0)
            hi += max(v, 0)
        return lo, hi

    def tobits(self, f, w, signed):
        """integer-valued form -> bits, when it is a plain bit pattern"""
        if f is None or isinstance(f, list):
            return None
        out = [0] * w
        for a, v in f.items():
            v = Fraction(v)
            if v.denominator != 1:
                return None
            n = int(v)
            if a == 1:
                if n < 0:
                    return None
                for i in range(w):
                    if n >> i & 1:
                        if out[i] != 0:
                            return None
                        out[i] = 1
                continue
            if n <= 0 or n & (n - 1) or n.bit_length() > w:
                return None
            i = n.bit_length() - 1
            if out[i] != 0:
                return None
            out[i] = a
        return out

    @staticmethod
    def scale(f, k):
        return {a: v * k for a, v in f.items()} if k else {}

    @staticmethod
    def plus(f, g):
        r = dict(f)
        for a, v in g.items():
            r[a] = r.get(a, 0) + v
        return {a: v for a, v in r.items() if v}

    def ilin(self, t, signed):
        """integer term as exact affine form (no wrap), or None"""
        key = (t, signed)
        if key not in self.ml:
            self.ml[key] = self._ilin(t, signed)
        return self.ml[key]

    def clean(self, b):
        return all(z in (0, 1) or z[0] in ("b", "n") and not self.isx(z) for z in b)

    @staticmethod
    def isx(z):
        return z[0] == "b" and z[1] == "x" or z[0] == "n" and (z[1][0] != "b" or z[1][1] == "x")

    def _fits(self, f, w, signed):
        r = self.rng(f) if f is not None else None
        if r is None:
            return f          # whole-int atoms: overflow excluded by assumption
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        return f if lo <= r[0] and r[1] <= hi else None

    def divmod(self, f, k):
        """f = k*q + r exactly, 0 <= r < k for every value of the atoms"""
        q, r = {}, {}
        for a, v in f.items():
            v = Fraction(v)
            if v.denominator != 1:
                return None
            (q if v % k == 0 else r)[a] = v
        c = q.pop(1, 0) + r.pop(1, 0)
        g = self.rng(r)
        if g is None:
            return None
        n = (c + g[0]) // k
        r[1] = c - n * k
        q[1] = q.get(1, 0) + n * k
        if g[1] + r[1] >= k:
            return None
        return {a: v / k for a, v in q.items() if v}, {a: v for a, v in r.items() if v}

    def _ilin(self, t, signed):
        if t in self.leafforms:
            return self.leafforms[t]
        if t.op in ("init", "lphi", "lmem", "sym", "arg", "vload", "call", "extract") and not any(
                a in self.known for a in (self.rawatoms(t))):
            if not self.leafbits(t):
                return {("i", t.id): Fraction(1)}
        if t.op == "ite":
            k = self.cond(t.a[0])
            if k in (0, 1):
                return self.ilin(t.a[1] if k else t.a[2], signed)
        b = self.bits(t)
        if self.clean(b):
            return self.ofbits(b, signed)
        op, w = t.op, t.w
        if op in ("add", "sub"):
            for sg in (signed, not signed):
                x, y = self.ilin(t.a[0], sg), self.ilin(t.a[1], sg)
                if x is not None and y is not None:
                    r = self.plus(x, y if op == "add" else self.scale(y, -1))
                    r = self._fits(r, w, signed)
                    if r is not None:
                        return r
            return None
        if op == "mul" or op == "shl":
            for p, q in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
                k = self.cval(q)
                if k is not None:
                    x = self.ilin(p, signed)
                    if x is None:
                        x = self.ilin(p, not signed)
                    return None if x is None else self._fits(self.scale(x, k if op == "mul" else 1 << k), w, signed)
                if op == "shl":
                    break
            return None
        if op in ("sdiv", "srem", "udiv", "urem"):
            k = self.cval(t.a[1])
            x = self.ilin(t.a[0], op[0] == "s") if k and k > 0 else None
            if x is None:
                return None
            dm = self.divmod(x, k)
            if dm is None:
                return None
            r = self.rng(x)
            if set(dm[1]) and (r is None or r[0] < 0) and op[0] == "s":
                return None        # truncation would round up
            return dm[0] if op.endswith("div") else dm[1]
        if op == "sext":
            return self.ilin(t.a[0], True)
        if op == "zext":
            return self.ilin(t.a[0], False)
        if op == "trunc":
            x = self.ilin(t.a[0], signed)
            return self._fits(x, w, signed) if x is not None else None
        if op in ("fptosi", "fptoui"):
            x = self.lin(t.a[0])
            if x is not None and all(Fraction(v).denominator == 1 for v in x.values()):
                return self._fits(x, w, signed)
            return None
        if op == "ite":
            x, y = self.ilin(t.a[1], signed), self.ilin(t.a[2], signed)
            if x is not None and x == y:
                return x
            raise Undecided(t.a[0])
        return None

    def rawatoms(self, t):
        if t.op == "init" and isinstance(t.w, int):
            o, off, size, gen = t.a
            return [("in", o, off + i // 8, i % 8, gen) for i in range(t.w)]
        return []

    def leafbits(self, t):
        """leaves that are input bytes keep their bits; members are whole integers"""
        return t.op == "init" and self.bitobj is not None and t.a[0] == self.bitobj

    bitobj = None

    leafforms = {}

    def lin(self, t):
        """real-valued term as affine form, or None; raises Undecided on an undecided select"""
        if t in self.ml:
            return self.ml[t]
        r = self.ml[t] = self._lin(t)
        return r

    def _lin(self, t):
        op = t.op
        if t in self.leafforms:
            return self.leafforms[t]
        if isinstance(t.w, int):
            return self.ilin(t, True)
        if op == "cf":
            v = vg.fval(t)
            return {1: v} if v else {}
        if op in ("sitofp", "uitofp"):
            return self.ilin(t.a[0], op == "sitofp")
        if op == "fneg":
            x = self.lin(t.a[0])
            return None if x is None else self.scale(x, -1)
        if op in ("fadd", "fsub"):
            x, y = self.lin(t.a[0]), self.lin(t.a[1])
            return None if x is None or y is None else self.plus(x, y if op == "fadd" else self.scale(y, -1))
        if op in ("fmul", "fdiv"):
            x, y = self.lin(t.a[0]), self.lin(t.a[1])
            if x is None or y is None:
                return None
            if set(y) <= {1}:
                k = y.get(1, 0)
                if op == "fdiv":
                    return None if not k else {a: float(v) / float(k) for a, v in x.items()}
                return {a: float(v) * float(k) for a, v in x.items()} if k else {}
            if op == "fmul" and set(x) <= {1}:
                k = x.get(1, 0)
                return {a: float(v) * float(k) for a, v in y.items()} if k else {}
            return None
        if op == "call":
            n = t.a[0]
            if n in ("ldexp", "scalbn", "pow", "exp2") and all(isinstance(a, T) for a in t.a[1:]):
                xs = [self.lin(a) for a in t.a[1:]]
                if None in xs:
                    return None
                if n in ("ldexp", "scalbn") and set(xs[1]) <= {1}:
                    k = 2.0 ** float(xs[1].get(1, 0))
                    return {a: float(v) * k for a, v in xs[0].items()}
                if n == "pow" and all(set(x) <= {1} for x in xs):
                    return {1: float(xs[0].get(1, 0)) ** float(xs[1].get(1, 0))}
            return None
        if op == "ite":
            k = self.cond(t.a[0])
            if k in (0, 1):
                return self.lin(t.a[1] if k else t.a[2])
            x, y = self.lin(t.a[1]), self.lin(t.a[2])
            if x is not None and x == y:
                return x
            raise Undecided(t.a[0])
        if op == "init":
            return {("i", t.id): 1.0}
        return None


def cases(mkdom, t, real=True, signed=False, limit=4000):
    """[(dom, form-or-None)] over all splits of the conditions the assumptions leave open.
    mkdom(known, conds) -> Bits"""
    work, out = [({}, {})], []
    while work:
        known, conds = work.pop()
        d = mkdom(known, conds)
        try:
            out.append((d, d.lin(t) if real else d.ilin(t, signed)))
        except Undecided as e:
            k = pick(d, e.cond)
            for v in (0, 1):
                kn, co = dict(known), dict(conds)
                if split(d, k, v, kn, co):
                    work.append((kn, co))
        if len(out) + len(work) > limit:
            return None
    return out


def pick(d, cnd):
    """an undecided primitive condition inside cnd"""
    if cnd.op == "not":
        return pick(d, cnd.a[0])
    if cnd.op in ("band", "bor", "ite"):
        for x in cnd.a:
            if x.w == 1 and d.cond(x) not in (0, 1):
                return pick(d, x)
    return cnd


def split(d, cnd, v, known, conds):
    """assume condition cnd == v; returns False when contradictory"""
    k = d.cond(cnd)
    if k in (0, 1):
        return k == v
    conds[cnd] = bool(v)
    return force(k, v, known)


def force(k, v, known):
    if k in (0, 1):
        return k == v
    if k[0] == "b":
        known[k[1:]] = v
    elif k[0] == "n":
        return force(k[1], 1 - v, known)
    elif k[0] == "g" and k[1] == "and" and v == 1 or k[0] == "g" and k[1] == "or" and v == 0:
        return force(k[2], v, known) and force(k[3], v, known)
    return True


def same(f, g, rel=1e-12):
    if f is None or set(f) != set(g):
        return False
    return all(abs(float(f[a]) - float(g[a])) <= rel * abs(float(g[a])) for a in f)


def showform(f, n=6):
    if f is None:
        return "not a linear function of message bits"
    it = sorted(f.items(), key=lambda x: -abs(float(x[1])))
    s = " + ".join("%.17g*%s" % (float(v), "1" if a == 1 else "bit" + str(a[2:] if a[0] == "b" else a)) for a, v in it[:n])
    return s + (" + ... (%d terms)" % len(it) if len(it) > n else "") or "0"


class BDD:
    """reduced ordered decision diagrams; nodes are 0, 1 or interned (var, lo, hi)"""
    def __init__(self, limit=20000):
        self.order, self.uniq, self.memo, self.limit = {}, {}, {}, limit

    def node(self, v, lo, hi):
        if lo is hi:
            return lo
        k = (v, id(lo), id(hi))
        r = self.uniq.get(k)
        if r is None:
            if len(self.uniq) > self.limit:
                raise OverflowError
            r = self.uniq[k] = (v, lo, hi)
        return r

    def ite(self, c, a, b):
        if c == 1:
            return a
        if c == 0:
            return b
        if a is b:
            return a
        k = (id(c), id(a), id(b))
        r = self.memo.get(k)
        if r is None:
            v = min(x[0] for x in (c, a, b) if x not in (0, 1))
            s = lambda x, i: x[1 + i] if x not in (0, 1) and x[0] == v else x
            r = self.node(v, self.ite(s(c, 0), s(a, 0), s(b, 0)), self.ite(s(c, 1), s(a, 1), s(b, 1)))
            self.memo[k] = r
            self.keep = getattr(self, "keep", [])
            self.keep.append((c, a, b))
        return r

    def of(self, x, cache):
        if x in (0, 1):
            return x
        r = cache.get(id(x))
        if r is not None:
            return r[1]
        if x[0] == "g":
            a, b = self.of(x[2], cache), self.of(x[3], cache)
            r = self.ite(a, b, 0) if x[1] == "and" else self.ite(a, 1, b) if x[1] == "or" else self.ite(a, self.ite(b, 0, 1), b)
        elif x[0] == "n":
            r = self.ite(self.of(x[1], cache), 0, 1)
        elif x[0] == "m":
            r = self.ite(self.of(x[1], cache), self.of(x[2], cache), self.of(x[3], cache))
        else:
            v = self.order.setdefault(x, len(self.order))
            r = self.node(v, 0, 1)
        cache[id(x)] = (x, r)
        return r


def const_gate(x):
    """0/1 when the gate is constant (decision diagram), else the gate"""
    if x in (0, 1):
        return x
    try:
        r = BDD().of(x, {})
    except (OverflowError, RecursionError):
        return x
    return r if r in (0, 1) else x
