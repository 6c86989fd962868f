from ephlib import *
TITLE = "An ephemeris is released only when complete and of one issue"
TECH = "typestate exploration over a bit-precise abstract transformer of parse() (LLVM IR)"
RULE = """parse() is reduced to a value graph; with the collection flags concrete and everything else symbolic it is an abstract transformer of the collection state. All states
reachable from the constructor are explored with a ghost set of the parts received: the return value must be 0 unless the received parts are complete, 0 whenever two stored or incoming
issues of data differ in any bit, 1 once a complete set of one issue is in, and the state after release must be the initial one; accepting part k must store exactly part k's issue; a
rejected message (wrong id, preamble, page, checksum, satellite, length) must neither be released nor change flags or issues."""
ASSUME = ("checksum routines' answers are taken as given (C20 covers them)",)
WORDS = {
    "gps": dict(cls="GPSEphemeris", size=40, flags="collected_subframes", parts=(1, 2, 3), bits=8,
                iss={1: ("iode1", 0, 168), 2: ("iode2", 0, 48), 3: ("iode3", 0, 216)}, need=()),
    "gal": dict(cls="GalileoEphemeris", size=32, flags="collected_subframes", parts=(0, 1, 2, 3, 4, 5), bits=10,
                iss={1: ("iod", 0, 6), 2: ("iod", 1, 6), 3: ("iod", 2, 6), 4: ("iod", 3, 6)}, need=()),
    "glo": dict(cls="GlonassEphemeris", size=16, flags="frame_flags_", parts=(1, 2, 3, 4, 5), bits=0, iss={}, need=()),
}
SAT = 5


class Machine:
    def __init__(self, ctx, tag):
        self.ctx, self.tag, self.s = ctx, tag, WORDS[tag]
        self.con = Con(tag, self.s["cls"], self.s["size"])
        ctx.add("functions", self.con.fs["dem"])
        self.memo = {}
        self.fo, self.fs = self.con.field(self.s["flags"])

    def base(self, k, flags, valid=True):
        c, b = self.con, {}
        b.update(c.arg_known(self.s["size"]))
        b.update(c.member_known(self.s["flags"], flags))
        if self.tag == "gps":
            c.setbits(b, 0, 8, 0x8B)
            c.setbits(b, 43, 3, k)
        elif self.tag == "gal":
            for p, v in ((0, 0), (1, 0), (128, 1), (129, 0)):
                b[c.atom(c.raw(p))] = v
            c.setbits(b, 0, 6, k)
            b.update(c.member_known("sat", SAT))
            if k == 4:
                c.setbits(b, 16, 6, SAT)
        else:
            c.setbits(b, 1, 4, k)
            self.mark(b, 0x1234, 0x1234)
        return b

    def mark(self, b, stored, msg):
        """GLONASS: stored and received frame marker (bytes 12, 13 of the string)"""
        b.update(self.con.member_known("time_mark_", stored))
        self.con.setbits(b, 96, 16, msg)

    # issue of part j as seen after message k: list of atoms, msb first
    def issue(self, j, k):
        n = self.s["bits"]
        name, idx, pos = self.s["iss"][j]
        if j == k:
            return [self.con.atom(self.con.bit(pos + i)) for i in range(n)]
        o, s = self.con.field(name)
        if name == "iod":
            o += 4 * idx
        return [("in", ("arg", 0), o + (n - 1 - i) // 8, (n - 1 - i) % 8, 0) for i in range(n)]

    def stored_high(self, k):
        """high bytes of the stored issues (never written with anything but an issue)"""
        b = {}
        for j, (name, idx, pos) in self.s["iss"].items():
            o, s = self.con.field(name)
            w = 32 if name == "iod" else 8 * s
            for i in range(self.s["bits"], w):
                b[("in", ("arg", 0), o + (4 * idx if name == "iod" else 0) + i // 8, i % 8, 0)] = 0
        return b

    def ret(self, known):
        return bits.const_gate(self.con.dom(known, {}, {}).cond(self.con.g.ret))

    def flags(self, known):
        t = self.con.g.mem(self.con.g.final, ("arg", 0), self.fo, self.fs, 8 * self.fs)
        b = [bits.const_gate(x) for x in self.con.dom(known, {}, {}).bits(t)]
        if not all(x in (0, 1) for x in b):
            return None
        return sum(x << i for i, x in enumerate(b))

    def vals(self, known, k, v):
        r = dict(known)
        n = self.s["bits"]
        for j in self.s["iss"]:
            for i, a in enumerate(self.issue(j, k)):
                r[a] = v >> (n - 1 - i) & 1
        if self.tag == "gps":       # the last ephemeris issue seen and the clock issue are those of parts 1 and 2
            for f in ("iode", "iodc"):
                o, z = self.con.field(f)
                for i in range(8 * z):
                    r[("in", ("arg", 0), o + i // 8, i % 8, 0)] = v >> i & 1 if i < n else 0
        return r

    def pats(self):
        n = self.s["bits"]
        return [0, (1 << n) - 1, 0x155 & (1 << n) - 1] + [1 << i for i in range(n)] if n else [0]

    def differ(self, known, k, i, x):
        """bit i of the issues takes the values x (not all equal)"""
        r = dict(known)
        for j, v in zip(sorted(self.s["iss"]), x):
            r[self.issue(j, k)[i]] = v
        return r

    def mixes(self):
        n = len(self.s["iss"])
        return [tuple(v >> q & 1 for q in range(n)) for v in range(1, (1 << n) - 1)]


def explore(m):
    ctx, tag, s = m.ctx, m.tag, m.s
    where = "common/ephemeris/" + m.con.file
    parts = s["parts"]
    full = frozenset(parts)
    # constructor
    f = m.con.m.find(r"^vh_new_%s\(" % tag)
    g = vg.VG(m.con.m, f)
    t = g.mem(g.final, ("arg", 0), m.fo, m.fs, 8 * m.fs)
    if not ctx.ob(tag + "/initial", t.op == "c" and t.a[0] == 0, where, "a new %s does not start with an empty collection: %s" % (s["cls"], str(t)[:200])):
        return
    # flag transition per (state, part), not released / released
    trans = {}

    def step(st, k):
        if (st, k) in trans:
            return trans[st, k]
        b = m.base(k, st)
        b.update(m.stored_high(k))
        rs, fl = set(), {}
        for v in m.pats():                      # all issues equal
            kn = m.vals(b, k, v)
            r = m.ret(kn)
            rs.add(r)
            fl.setdefault(r, set()).add(m.flags(kn))
        mis = set()
        mf = set()
        if s["iss"]:
            for i in range(s["bits"]):
                for x in m.mixes():
                    kn = m.differ(b, k, i, x)
                    mis.add(m.ret(kn))
                    mf.add(m.flags(kn))
        trans[st, k] = (rs, fl, mis, mf)
        return trans[st, k]
    start = (0, frozenset(), frozenset())
    todo, seen = [start], {start}
    nob = 0
    bad = {}
    while todo:
        st, G, H = todo.pop()
        for k in parts:
            rs, fl, mis, mf = step(st, k)
            H0 = frozenset() if tag == "gal" and k == 2 else H
            G1, H1 = G | {k}, H0 | {k}
            nob += 1

            def fail(what, txt):
                bad.setdefault((what, k), "collected flags %#x, parts received %s: %s" % (st, sorted(G), txt))
            if None in fl.get(0, ()) or None in fl.get(1, ()) or None in mf or any(r not in (0, 1) for r in rs):
                fail("undetermined", "the outcome depends on more than flags and issues")
                continue
            if G1 != full and (rs != {0} or (s["iss"] and mis - {0} and any(x == 1 for x in mis))):
                fail("incomplete", "an ephemeris can be released before every part was received")
            if G1 != full and rs == {0} and mis - {0}:
                fail("incomplete", "an ephemeris may be released before every part was received")
            if G1 == full and mis - {0}:
                fail("mixed issues", "an ephemeris can be released although two parts carry different issues of data")
            if H1 == full and not (tag == "glo" and k != 5) and rs != {1}:
                fail("never released", "a complete set of one issue is not released")
            nxt = set()
            for f1 in fl.get(0, set()) | mf:
                nxt.add((f1, G1, H1))
            for f1 in fl.get(1, ()):
                if tag == "glo":
                    nxt.add((f1, G1, H1))
                else:
                    if f1 != 0:
                        fail("no restart", "the collection does not start over after a release (flags %#x)" % f1)
                    nxt.add((f1, frozenset(), frozenset()))
            for n in nxt - seen:
                seen.add(n)
                todo.append(n)
        if len(seen) > 20000:
            raise Broken("state space of %s does not close" % s["cls"])
    ctx.add("typestates", *["%s flags=%#x received=%s" % (tag, a, sorted(b)) for a, b, c in seen])
    for what in ("undetermined", "incomplete", "mixed issues", "never released", "no restart"):
        for k in parts:
            if what == "mixed issues" and not s["iss"] or what == "no restart" and tag == "glo":
                continue
            ctx.ob("%s/part %d/%s" % (tag, k, what), (what, k) not in bad, where, bad.get((what, k), ""))
    return sorted({x[0] for x in seen})


def issues(m):
    """the stored issue of part j is exactly part j's"""
    for k in m.s["parts"]:
        for j, (name, idx, pos) in m.s["iss"].items():
            b = m.base(k, 0)
            m.con.check(m.ctx, b, "%s/part %d/issue stored for part %d" % (m.tag, k, j), name,
                        m.con.form(pos, m.s["bits"], 0, 1) if j == k else None, sub=idx if name == "iod" else 0, size=4 if name == "iod" else None, signed=name == "iod")


def rejected(m, states):
    """messages that must be ignored"""
    ctx, tag, con, s = m.ctx, m.tag, m.con, m.s
    where = "common/ephemeris/" + con.file
    bad = []

    def variants():
        if tag == "gps":
            for k in (0, 4, 5, 6, 7):
                yield "subframe id %d" % k, k, {}, None
            for i in range(8):
                yield "preamble bit %d wrong" % i, None, {con.atom(con.bit(i)): 1 - (0x8B >> (7 - i) & 1)}, None
        elif tag == "gal":
            for k in list(range(7, 64)) + [6]:
                yield "word type %d" % k, k, {}, None
            for p, v, n in ((0, 1, "even page missing"), (1, 1, "alert page (first half)"), (128, 0, "odd page missing"), (129, 1, "alert page (second half)")):
                yield n, None, {con.atom(con.raw(p)): v}, None
            for i in range(6):
                yield "word 4 of another satellite (bit %d)" % i, 4, {con.atom(con.bit(16 + i)): 1 - (SAT >> (5 - i) & 1)}, None
            yield "checksum mismatch", None, {}, False
        else:
            for k in (0,) + tuple(range(6, 16)):
                yield "string %d" % k, k, {}, None
            yield "checksum mismatch", None, {}, False
    for name, k, over, crc in variants():
        txt = ""
        for kk in ([k] if k is not None else s["parts"]):
            for st in states:
                b = m.base(kk, st)
                b.update(over)
                b.update(m.stored_high(-1))
                sub = [b]
                if s["iss"] and st == max(states):
                    # a complete collection only persists while its issues differ
                    sub = [m.differ(b, -1, i, x) for x in m.mixes() for i in (0, s["bits"] - 1)]
                for b2 in sub:
                    dom = con.dom(b2, {}, {})
                    if crc is False:
                        dom.decide = lambda t: (None if con.decide(t) is None else not con.decide(t))
                    r = bits.const_gate(dom.cond(con.g.ret))
                    if r != 0:
                        txt = "a %s message (part %d) can release an ephemeris" % (name, kk)
                        break
                    for fn, off, sz in [(s["flags"], 0, None)] + [(n, 4 * i if n == "iod" else 0, 4 if n == "iod" else None) for n, i, p in s["iss"].values()] \
                            + ([("time_mark_", 0, None)] if tag == "glo" and crc is False else []):
                        o, z = con.field(fn)
                        o, z = o + off, sz or z
                        t = con.g.mem(con.g.final, ("arg", 0), o, z, 8 * z)
                        ini = vg.mk("init", (("arg", 0), o, z, 0), 8 * z)
                        if dom.bits(t) != dom.bits(ini):
                            txt = "a %s message (part %d) changes %s" % (name, kk, fn)
                            break
                    if txt:
                        break
                if txt:
                    break
            if txt:
                break
        ctx.ob("%s/ignored: %s" % (tag, name), not txt, where, txt)


def glonass_frame(m, states):
    ctx, con = m.ctx, m.con
    where = "common/ephemeris/" + con.file
    for k in m.s["parts"]:
        one = m.flags(m.base(k, 0))
        for i in range(16):
            txt = ""
            for st in states:
                b = m.base(k, st)
                m.mark(b, 0x1234, 0x1234 ^ 1 << i)
                if m.flags(b) != one:
                    txt = "strings of the previous frame are still counted after the frame marker changed (bit %d, flags %#x)" % (i, st)
                if m.ret(b) != 0:
                    txt = "released although the frame marker changed (bit %d, flags %#x)" % (i, st)
            ctx.ob("glo/string %d/new frame bit %d" % (k, i), not txt, where, txt)
        f = {}
        for i in range(16):
            f[("b",) + con.atom(con.raw(96 + i))] = 1 << (15 - i)
        b = con.arg_known(16)
        con.setbits(b, 1, 4, k)
        con.check(ctx, b, "glo/string %d/frame marker stored" % k, "time_mark_", f, signed=True)


def run(ctx):
    for tag in WORDS:
        m = Machine(ctx, tag)
        states = explore(m)
        if states is None:
            continue
        issues(m)
        rejected(m, states)
        if tag == "glo":
            glonass_frame(m, states)
