"""GF(2)-affine domain: an integer term is a tuple (lsb first) of xor-sets of atoms; the constant 1 is the atom 1."""
import vg

Z, ONE = frozenset(), frozenset([1])


class GF2:
    def __init__(self, mod, subst=None):
        self.m, self.memo = mod, {}
        self.subst = subst or {}          # term -> tuple of xor-sets

    def bits(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._bits(t)
        return r

    def const(self, t):
        b = self.bits(t)
        if b is None or any(x not in (Z, ONE) for x in b):
            return None
        return sum((x is ONE or x == ONE) << i for i, x in enumerate(b))

    def _bits(self, t):
        if t in self.subst:
            return self.subst[t]
        op, w = t.op, t.w
        if not isinstance(w, int):
            return None
        if op == "c":
            return tuple(ONE if t.a[0] >> i & 1 else Z for i in range(w))
        if op == "init":
            o, off, size, gen = t.a
            return tuple(frozenset([("in", o, off + i // 8, i % 8)]) for i in range(w))
        if op in ("zext", "sext", "trunc"):
            b = self.bits(t.a[0])
            if b is None:
                return None
            return b[:w] if op == "trunc" else b + ((Z,) if op == "zext" else (b[-1],)) * (w - len(b))
        if op in ("xor", "and", "or", "add"):
            a, b = self.bits(t.a[0]), self.bits(t.a[1])
            if a is None or b is None:
                return None
            out = []
            for x, y in zip(a, b):
                if op == "xor":
                    out.append(x ^ y)
                elif op == "and":
                    if x in (Z, ONE):
                        x, y = y, x
                    if y == ONE or x == y:
                        out.append(x)
                    elif y == Z:
                        out.append(Z)
                    else:
                        return None
                elif x == Z or y == Z:
                    out.append(x ^ y)
                elif op == "or" and (x == y or ONE in (x, y)):
                    out.append(x if x == y else ONE)
                else:
                    return None
            return tuple(out)
        if op in ("shl", "lshr"):
            a, k = self.bits(t.a[0]), self.const(t.a[1])
            if a is None or k is None or k >= w:
                return None
            return (Z,) * k + a[:w - k] if op == "shl" else a[k:] + (Z,) * k
        if op == "ite" or op in ("not", "icmp") and w == 1:
            if op == "ite":
                c, x, y = self.cond(t.a[0]), self.bits(t.a[1]), self.bits(t.a[2])
                if c is None or x is None or y is None:
                    return None
                out = []
                for p, q in zip(x, y):
                    d = p ^ q
                    if d == Z:
                        out.append(q)
                    elif d == ONE:
                        out.append(q ^ c)
                    else:
                        return None
                return tuple(out)
            c = self.cond(t)
            return None if c is None else (c,)
        if op == "vload":
            return self.table(t)
        return None

    def cond(self, t):
        """a one-bit condition as a xor-set"""
        if t.op == "c":
            return ONE if t.a[0] & 1 else Z
        if t.op == "not":
            c = self.cond(t.a[0])
            return None if c is None else c ^ ONE
        if t.op == "icmp" and t.a[0] == "eq":
            a, b = self.bits(t.a[1]), self.bits(t.a[2])
            if a is None or b is None:
                return None
            d = {x ^ y for x, y in zip(a, b)} - {Z}
            if ONE in d:
                return Z
            return ONE if not d else d.pop() ^ ONE if len(d) == 1 else None
        if t.op == "icmp" and t.a[0] in ("slt", "sle"):
            # sign tests
            b = self.bits(t.a[1])
            if t.a[0] == "slt" and b is not None and self.const(t.a[2]) == 0:
                return b[-1]
            b = self.bits(t.a[2])
            if t.a[0] == "slt" and b is not None and t.a[1].op == "c" and t.a[1].a[0] == -1:
                return b[-1] ^ ONE
            return None
        b = self.bits(t) if t.op in ("trunc", "init", "ite") else None
        return b[0] if b else None

    def table(self, t):
        """look-up in a constant table that is a linear map of its index"""
        o, off, var, size, gen, snap = t.a
        if o[0] != "glob" or snap or gen or len(var) != 1 or off:
            return None
        g = self.m.globals.get(o[1])
        if not g or not g["const"] or "init" not in g:
            return None
        idx, step = var[0]
        ib = self.bits(idx)
        if ib is None:
            return None
        live = [i for i, x in enumerate(ib) if x != Z]
        n = max(live, default=-1) + 1
        if n > 12:
            return None
        T = {}
        for e in g["init"]:
            eo, s, v = e
            if v["k"] == "z":
                for k in range(eo, eo + s):
                    T[k] = 0
            elif v["k"] == "i":
                x = int(v["v"]) & (1 << 8 * s) - 1
                for k in range(s):
                    T[eo + k] = x >> 8 * k & 255
        try:
            tab = [sum(T[i * step + k] << 8 * k for k in range(size)) for i in range(1 << n)]
        except KeyError:
            return None
        out = [ONE if tab[0] >> j & 1 else Z for j in range(t.w)]
        for v in range(1 << n):
            x = tab[0]
            for i in range(n):
                if v >> i & 1:
                    x ^= tab[1 << i] ^ tab[0]
            if x != tab[v]:
                return ("nonlinear", v, tab[v], x) and None
        for i in range(n):
            d = tab[1 << i] ^ tab[0]
            for j in range(t.w):
                if d >> j & 1:
                    out[j] = out[j] ^ ib[i]
        return tuple(out)
