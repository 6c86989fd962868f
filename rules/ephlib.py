import math, re
from fractions import Fraction
import ir, vg, bits
from ir import VERIF, Broken

SRC = [VERIF + "/harness/eph.cxx", "common/ephemeris/gps.cxx", "common/ephemeris/galileo.cxx", "common/ephemeris/glonass.cxx",
       "common/utctime.cxx"]
NS = "mc::ephemeris::"
PI = math.pi
_m = {}


def module(ctx=None):
    if "m" not in _m:
        _m["m"] = ir.load(SRC, [r"^vh_"])
    if ctx:
        ctx.add("units", *SRC)
    return _m["m"]


def timegm(g, st, ins, args):
    """calendar time of a constant tm"""
    if args[0].op != "ptr":
        return NotImplemented
    o, off, var = args[0].a
    v = [g.mem(st, o, off + 4 * i, 4, 32) for i in range(6)]
    if var or any(x.op != "c" for x in v):
        return NotImplemented
    s, m, h, d, mo, y = (x.a[0] for x in v)
    import calendar
    return vg.c(calendar.timegm((y + 1900, mo + 1, d, h, m, s)), 64)


class Con:
    """one constellation: how message bits map to bytes of the receiver's words"""
    def __init__(self, tag, cls, size):
        self.tag, self.cls, self.size = tag, NS + cls, size
        self.m = module()
        fs = self.m.find(r"^vh_%s\(" % tag)
        self.g = vg.VG(self.m, fs, summaries=[(r"^timegm$", timegm)])
        self.fs = fs
        self.off = {n: (o, s, i) for n, o, s, i in self.m.fields(self.cls)}
        # positive answers of the integrity check
        self.crcret = [e.ret for e in self.g.events if re.search(r"crc24|gloTest", e.dem)]
        self.file = {"gps": "gps.cxx", "gal": "galileo.cxx", "glo": "glonass.cxx"}[tag]

    def bit(self, p):
        if self.tag == "gps":
            k = 29 - p % 24
            return (p // 24 * 4 + k // 8, k % 8)
        if self.tag == "gal":
            p = p + 2 if p < 112 else p + 18
        return self.raw(p)

    def raw(self, B):
        i = B // 8
        return (i // 4 * 4 + 3 - i % 4, 7 - B % 8)

    def atom(self, by):
        return ("in", ("arg", 1), by[0], by[1], 0)

    def setbits(self, known, pos, n, v, raw=False):
        for i in range(n):
            known[self.atom((self.raw if raw else self.bit)(pos + i))] = v >> (n - 1 - i) & 1

    def field(self, name):
        if name not in self.off:
            raise Broken("field %s::%s vanished" % (self.cls, name))
        return self.off[name][:2]

    def decide(self, t):
        if t.op == "init" and t.w == 1 and t.a[0][0] == "glob" and t.a[0][1].startswith("_ZGV"):
            return False        # first use of a function-local static: its value is the initialiser's
        if self.crcret:
            if t in self.crcret:
                return True
            if t.op == "icmp" and t.a[0] == "eq" and any(x in self.crcret or x.op in ("and", "trunc", "zext") and x.a[0] in self.crcret for x in t.a[1:]):
                return True if not (t.a[2].op == "c" or t.a[1].op == "c") else (t.a[2].a[0] if t.a[2].op == "c" else t.a[1].a[0]) != 0
            if t.op == "trunc" and t.a[0] in self.crcret:
                return True
        return None

    def dom(self, base, known, conds):
        k = dict(base)
        k.update(known)
        d = bits.Bits(k, conds, self.decide)
        d.bitobj = ("arg", 1)
        return d

    def arg_known(self, size):
        t = vg.mk("arg", (2,), 64)
        return {("x", t.id, i): size >> i & 1 for i in range(64)}

    def member_known(self, name, v):
        o, s = self.field(name)
        return {("in", ("arg", 0), o + i // 8, i % 8, 0): v >> i & 1 for i in range(8 * s)}

    def form(self, pos, n, signed, scale, offset=0):
        f = {}
        for i in range(n):
            k = 1 << (n - 1 - i)
            if signed and i == 0:
                k = -k
            f[("b",) + self.atom(self.bit(pos + i))] = k * scale
        if offset:
            f[1] = offset
        return f

    def subst(self, f, d):
        """expected form under the case's assumptions"""
        r = {}
        for a, v in f.items():
            if a != 1 and a[0] == "b" and a[1:] in d.known:
                if d.known[a[1:]]:
                    r[1] = r.get(1, 0) + v
            else:
                r[a] = r.get(a, 0) + v
        return {a: v for a, v in r.items() if v}

    def value(self, name, sub=0, size=None):
        o, s = self.field(name)
        if size:
            o, s = o + sub * size, size
        real = s == 8
        t = self.g.mem(self.g.final, ("arg", 0), o, s, "f" if real else 8 * s)
        ini = vg.mk("init", (("arg", 0), o, s, 0), "f" if real else 8 * s)
        return t, ini, real

    def check(self, ctx, base, key, name, want, sub=0, size=None, special=None, skip=None, signed=False, alt=None):
        """want: form | None (unchanged)"""
        t, ini, real = self.value(name, sub, size)
        cs = bits.cases(lambda k, c: self.dom(base, k, c), t, real, signed)
        bad, n = "", 0
        for d, f in cs or []:
            if skip and skip(d):
                continue
            n += 1
            w = {("i", ini.id): 1} if want is None else self.subst(want, d)
            if want is None and not real and f == d.ofbits(d.bits(ini), signed):
                continue
            if alt and bits.same(f, self.subst(alt[1], d)):
                key += "#" + alt[0]
                bad = alt[2]
                break
            if not bits.same(f, w) and not (special and special(d, f)):
                bad = "decoded as %s, the interface document says %s" % (bits.showform(f), bits.showform(w) if want is not None else "unchanged by this message")
                break
        if not cs:
            bad = "too many cases to decide"
        if not n and not bad:
            bad = "the message is never accepted"
        ctx.ob(key, not bad, "common/ephemeris/" + self.file, bad)


def released(con):
    """skip cases in which this very message completes an ephemeris (derived values may then be adjusted)"""
    return lambda d: d.cond(con.g.ret) == 1


def formq(m, name, terms=None):
    """form of an int member's final value"""


def times(ctx, m, last, want, extra=None, statics=0):
    """the reference times written when part `last` completes an ephemeris.
    want: {(member, 'sec'|'nsec'): f(dom) -> form}; extra: {dom settings}"""
    con = m.con
    s = m.s
    others = 0
    for k in s["parts"]:
        b = m.base(k, 0)
        b.update(m.stored_high(k))
        f = m.flags(m.vals(b, k, 0))
        if k != last:
            others |= f or 0
    for v in m.pats()[:2]:
        b = m.base(last, others)
        b.update(m.stored_high(last))
        b = m.vals(b, last, v)
        ctx.ob("release by part %d/reached (issue %#x)" % (last, v), m.ret(b) == 1, "common/ephemeris/" + con.file, "a complete set is not released")
        for e in (extra or [{}]):
            kn = dict(b)
            kn.update(e.get("known", {}))
            for (mem, fld), w in want.items():
                o, sz = con.field(mem)
                fs = {n: (off, z) for n, off, z, i in con.m.fields("mc::UTCTime")}
                fo, fz = fs[fld] if fld else (0, sz)
                t = con.g.mem(con.g.final, ("arg", 0), o + fo, fz, 8 * fz)

                def mk(k2, c2):
                    d = con.dom(kn, k2, c2)
                    d.leafforms = e.get("leaf", {})
                    return d
                cs = bits.cases(mk, t, False, True)
                bad = ""
                for d, f in cs or []:
                    try:
                        x = w(d)
                    except bits.Undecided:
                        x = None
                    if x is None or not bits.same(f, x):
                        bad = "%s.%s is %s, expected %s" % (mem, fld, bits.showform(f), bits.showform(x))
                        break
                if not cs:
                    bad = "too many cases to decide"
                ctx.ob("release by part %d/%s%s%s" % (last, mem, "." + fld if fld else "", e.get("name", "")), not bad, "common/ephemeris/" + con.file, bad)


def imember(con, name):
    """final value of an int member"""
    o, s = con.field(name)
    return con.g.mem(con.g.final, ("arg", 0), o, s, 8 * s)


def leafform(con, name, nbits, scale, offset=0):
    """form of a stored member that was decoded earlier: nbits unsigned bits times scale"""
    o, s = con.field(name)
    flt = con.off[name][2].get("flt")
    t = vg.mk("init", (("arg", 0), o, s, 0), "f" if flt else 8 * s)
    f = {("b", "member", name, i): Fraction(scale << i) for i in range(nbits)}
    if offset:
        f[1] = Fraction(offset)
    return t, f


EPOCH = 315964818      # GPS time zero on the seconds count this code calls UTC (see C03)


def kepler_times(ctx, m, last, tscale, decoded):
    """toe and toc are (week, toes) and (week, tocs) on the GPS scale, for the week that is reported.
    decoded: real members set by this very part"""
    con = m.con
    leaf = {}
    for n in ("toes", "tocs"):
        t, f = leafform(con, n, 16 if m.tag == "gps" else 14, tscale)
        leaf[t] = f
    t, f = leafform(con, "week", *((10, 1, 2048) if m.tag == "gps" else (11, 1)))
    leaf[t] = f

    def w(src):
        def f(d):
            x = {}
            wk = d.ilin(imember(con, "week"), True)
            o, sz = con.field(src)
            ts = d.lin(con.g.mem(con.g.final, ("arg", 0), o, sz, "f" if con.off[src][2].get("flt") else 8 * sz))
            if wk is None or ts is None:
                return None
            return d.plus(d.plus(d.scale(wk, 604800), ts), {1: EPOCH})
        return f
    return leaf, {("toe", "sec"): w("toes"), ("toe", "nsec"): lambda d: {}, ("toc", "sec"): w("tocs"), ("toc", "nsec"): lambda d: {}}
