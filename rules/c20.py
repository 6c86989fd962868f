from ephlib import *
import gf2
TITLE = "Navigation message checksums implement the published codes"
TECH = "GF(2)-affine abstract interpretation of the checksum code and its constant tables (LLVM IR)"
RULE = """crc24: the loop starts from 0, visits buf[0..len-1] once each in order, and its one-byte step, as a GF(2)-affine map of the 24 register bits and 8 input bits (the
look-up table read as the linear map it must be), equals eight steps of division by 0x1864CFB. gloTest: each of its eight sums is the GLONASS ICD parity sum derived from the Hamming
positions, and the verdict over all 256 syndromes is 'all zero, or exactly one of C1..C7 and the overall sum'. parse(): the Galileo check covers exactly the 196 page bits and compares
with the 24 transmitted bits; the GLONASS check is applied to the 85 bits of the string."""
ASSUME = ("Galileo and GLONASS words arrive as the receiver's little-endian 32-bit words",)
POLY = 0x1864CFB


def affine(t, loop, k):
    """integer/pointer term as (leaf dict, coefficient of the iteration number)"""
    def rec(t):
        if t.op == "c":
            return {1: t.a[0]}
        if t in k:
            return dict(k[t])
        if t.op in ("zext", "sext", "trunc"):
            return rec(t.a[0])
        if t.op in ("add", "sub"):
            a, b = rec(t.a[0]), rec(t.a[1])
            s = 1 if t.op == "add" else -1
            for x, v in b.items():
                a[x] = a.get(x, 0) + s * v
            return {x: v for x, v in a.items() if v}
        if t.op == "ptr":
            o, off, var = t.a
            r = {("ptr", o): 1}
            if off:
                r[1] = off
            for v, s in var:
                for x, q in rec(v).items():
                    r[x] = r.get(x, 0) + s * q
            return {x: v for x, v in r.items() if v}
        return {t: 1}
    return rec(t)


def crc(ctx, m):
    f = m.find(r"crc24\(")
    ctx.add("functions", f["dem"])
    g = vg.VG(m, f)
    where = "utils/crc.cxx"
    loops = [L for L in g.loopruns]
    if not ctx.ob("crc24/one pass", len(loops) == 1, where, "%d data-dependent loops" % len(loops)):
        return
    L = loops[0]
    k = {}
    regs = []
    for pid, init in L.init.items():
        if init.op == "ptr" and L.next[pid].op == "ptr" and init.a[0] == L.next[pid].a[0] and not init.a[2]:
            n = L.next[pid]
            if len(n.a[2]) == 1 and n.a[2][0][1] == 1 and n.a[2][0][0].op == "lphi" and n.a[2][0][0].a[1] == pid and n.a[1] in (1, -1):
                k[n.a[2][0][0]] = {x: v for x, v in {1: init.a[1], "k": n.a[1]}.items() if v}
                continue
        p = vg.mk("lphi", (L.tag, pid), L.next[pid].w)
        d = affine(L.next[pid], L, {})
        step = d.get(1, 0)
        d.pop(1, None)
        if d == {p: 1} and step in (1, -1):
            a = affine(init, L, {})
            a["k"] = step
            k[p] = a
        else:
            regs.append((pid, p))
    if not ctx.ob("crc24/one register", len(regs) == 1, where, "the loop carries %d values besides its counters" % len(regs)):
        return
    pid, p = regs[0]
    i0 = L.init[pid]
    ctx.ob("crc24/starts at zero", i0.op == "c" and i0.a[0] == 0, where, "initial register is %s" % i0)
    # bytes read in the step
    bytes_ = {}
    for t in vg.subterms(L.next[pid]):
        if t.op == "vload" and t.a[0] == ("arg", 0) or t.op == "load" or t.op == "init" and t.w == 8:
            a = None
            if t.op == "vload" and t.a[3] == 1:
                o, off, var = t.a[0], t.a[1], t.a[2]
                a = affine(vg.mk("ptr", (o, off, var), "p"), L, k)
            bytes_[t] = a
        elif t.op == "init" or t.op == "vload" and t.a[0][0] not in ("glob",):
            bytes_[t] = None
    # loads through a pointer counter appear as a dereference of the counter
    for t in list(bytes_):
        if bytes_[t] is None and t.op == "init" and t.a[0][0] == "deref":
            a = affine(t.a[0][1], L, k) if isinstance(t.a[0][1], vg.T) else None
            if a is not None:
                a = dict(a)
                a[1] = a.get(1, 0) + t.a[1]
                bytes_[t] = {x: v for x, v in a.items() if v}
    base = [{("ptr", ("arg", 0)): 1, "k": 1}, {vg.mk("arg", (0,), "p"): 1, "k": 1}]
    ok = len(bytes_) == 1 and all(a in base for a in bytes_.values())
    if not ctx.ob("crc24/step k reads buf[k]", ok, where, "step k reads %s" % [(str(t), str(a)) for t, a in bytes_.items()][:3]):
        return
    by = next(iter(bytes_))
    dom = gf2.GF2(m, {by: tuple(frozenset([("b", i)]) for i in range(8)),
                      p: tuple(frozenset([("r", i)]) if i < 24 else gf2.Z for i in range(p.w))})
    got = dom.bits(L.next[pid])
    # reference: register as 24 xor-sets, eight msb-first shifts
    reg = [frozenset([("r", i)]) for i in range(24)]
    for j in range(7, -1, -1):
        fb = reg[23] ^ frozenset([("b", j)])
        reg = [gf2.Z] + reg[:23]
        for i in range(24):
            if POLY >> i & 1:
                reg[i] = reg[i] ^ fb
    if not ctx.ob("crc24/step is GF(2)-affine", got is not None, where, "the step (or its table) is not a linear map over GF(2)"):
        return
    for i in range(p.w):
        want = reg[i] if i < 24 else gf2.Z
        ctx.ob("crc24/step bit %d" % i, got[i] == want, where, "register bit %d after one byte is the sum of %s, CRC-24Q needs %s" % (i, sorted(map(str, got[i])), sorted(map(str, want))))
    # trip count
    lenform = {vg.mk("arg", (1,), 32): 1}

    def exits_after():
        """exit condition as: iterations completed == len"""
        for (u, v), (c1, c2, st) in L.exits:
            n, neg = c1, False
            if n.op == "not":
                n, neg = n.a[0], True
            if n.op != "icmp":
                return "exit condition %s" % str(c1)[:200]
            d = affine(n.a[1], L, k)
            for x, q in affine(n.a[2], L, k).items():
                d[x] = d.get(x, 0) - q
            d = {x: q for x, q in d.items() if q}
            s = 1 if d.get("k", 0) > 0 else -1
            d = {x: s * q for x, q in d.items()}
            pr = n.a[0]
            end = dict({"k": 1, next(iter(lenform)): -1})
            posts = [dict(end, **{}), ]
            full = dict(end)
            full[1] = 1
            # tested after the body: k + 1 against len; tested before the body: k against len
            if pr == "eq" and not neg and d in (full, end):
                return ("after" if d == full else "before")
            if pr in ("slt", "ult") and (neg and s == 1 or False) and d in (full, end):
                return ("after" if d == full else "before")
            if pr in ("sle", "ule") and not neg and s == -1 and d in (full, end):
                return ("after" if d == full else "before")
            return "exit condition %s" % str(c1)[:300]
        return "no exit"
    how = exits_after()
    ctx.ob("crc24/all len bytes", how in ("after", "before"), where, "the loop does not stop after exactly len bytes: " + how)
    r = g.ret
    while r.op == "ite" and (r.a[1].op == "c" or r.a[2].op == "c"):
        z, other = (r.a[1], r.a[2]) if r.a[1].op == "c" else (r.a[2], r.a[1])
        if z.a[0] != 0:
            break
        r = other
    want = L.next[pid] if how == "after" else p
    ctx.ob("crc24/returns the register", r is want, where, "returns %s" % str(r)[:200])


def glonass_sums():
    """C1..C7 and the overall sum as sets of string bits (1..85): check bits 1..8, data bits 9..85 at the Hamming positions that are not powers of two"""
    pos, n = {}, 3
    for b in range(9, 86):
        while n & n - 1 == 0:
            n += 1
        pos[b] = n
        n += 1
    s = [frozenset([c + 1] + [b for b in pos if pos[b] >> c & 1]) for c in range(7)]
    return s + [frozenset(range(1, 86))]


def hamming(ctx, m):
    f = m.find(r"gloTest")
    ctx.add("functions", f["dem"])
    g = vg.VG(m, f)
    where = "utils/crc.cxx"
    dom = gf2.GF2(m)
    sums = glonass_sums()
    at = lambda b: ("in", ("arg", 0), (85 - b) // 8, 7 - (85 - b) % 8)
    want = {frozenset(at(b) for b in s): i for i, s in enumerate(sums)}
    found = set()
    foreign = []
    leaf = {}

    def ev(t, env):
        """value of a term for one assignment of the eight sums"""
        key = (t, env)
        if key in leaf:
            return leaf[key]
        leaf[key] = r = ev2(t, env)
        return r

    def lin(t):
        if t.op in ("icmp", "not", "trunc") and t.w == 1:
            x = dom.cond(t)
        elif isinstance(t.w, int):
            x = dom.bits(t)
            if x is None:
                return None
            if any(y != gf2.Z for y in x[1:]):
                return None
            x = x[0]
        else:
            return None
        if x is None:
            return None
        n = x & gf2.ONE
        s = x - gf2.ONE
        if not s:
            return (None, 1 if n else 0)
        if s in want:
            return (want[s], 1 if n else 0)
        foreign.append(s)
        return None

    def ev2(t, env):
        op = t.op
        if op == "c":
            return t.a[0]
        l = lin(t) if op not in ("band", "bor") else None
        if l is not None:
            if l[0] is not None:
                found.add(l[0])
            return (env >> l[0] & 1 if l[0] is not None else 0) ^ l[1]
        if op == "not":
            return 1 - ev(t.a[0], env)
        if op in ("band", "bor"):
            r = [ev(x, env) for x in t.a]
            return (all if op == "band" else any)(r) + 0
        if op == "ite":
            return ev(t.a[1] if ev(t.a[0], env) else t.a[2], env)
        if op in ("zext", "trunc", "sext"):
            v = ev(t.a[0], env)
            return v if op != "sext" else (-v if t.a[0].w == 1 else v)
        if op in ("add", "sub", "xor", "and", "or"):
            a, b = ev(t.a[0], env), ev(t.a[1], env)
            return {"add": a + b, "sub": a - b, "xor": a ^ b, "and": a & b, "or": a | b}[op]
        if op == "icmp":
            a, b = ev(t.a[1], env), ev(t.a[2], env)
            return int({"eq": a == b, "slt": a < b, "sle": a <= b, "ult": a % (1 << 64) < b % (1 << 64), "ule": a % (1 << 64) <= b % (1 << 64)}[t.a[0]])
        raise Broken("gloTest: cannot interpret %s" % op)
    bad = []
    try:
        for env in range(256):
            n = bin(env).count("1")
            exp = n == 0 or (n == 2 and env >> 7 & 1)
            if bool(ev(g.ret, env)) != bool(exp):
                bad.append("sums %s: accepted %s" % (format(env, "08b"), not exp))
    except Broken as e:
        if not foreign:
            raise
        ctx.ob("gloTest/parity sums", False, where, "a parity sum over string bits %s is none of C1..C7 or the overall sum"
               % sorted(85 - (a[2] * 8 + 7 - a[3]) for a in foreign[0]))
        return
    for i in range(8):
        ctx.ob("gloTest/sum %d" % (i + 1), i in found and not foreign, where,
               "sum over string bits %s is used instead" % sorted(85 - (a[2] * 8 + 7 - a[3]) for a in foreign[0]) if foreign else "sum not examined")
    ctx.ob("gloTest/verdict for all 256 syndromes", not bad, where, "; ".join(bad[:4]))


def coverage(ctx):
    con = Con("gal", "GalileoEphemeris", 32)
    ctx.add("functions", con.fs["dem"])
    where = "common/ephemeris/galileo.cxx"
    ev = [e for e in con.g.events if "crc24(" in e.dem]
    if not ctx.ob("galileo/page is checked", len(ev) == 1, where, "%d calls of crc24" % len(ev)):
        return
    e = ev[0]
    d = con.dom(con.arg_known(32), {}, {})
    ptr, n = e.args[0], e.args[1]
    ln = n.a[0] if n.op == "c" else None
    ctx.ob("galileo/checksum length", ln == 25, where, "the checksum covers %s bytes; 4 padding bits and 196 page bits are 25" % ln)
    if ptr.op != "ptr" or ptr.a[2]:
        ctx.ob("galileo/checksum buffer", False, where, "not a local buffer")
        return
    o, off, _ = ptr.a
    for j in range(8 * (ln or 25)):
        t = con.g.mem(e.state, o, off + j // 8, 1, 8)
        b = d.bits(t)[7 - j % 8]
        if j < 4:
            want = 0
        elif j < 118:
            want = ("b",) + con.atom(con.raw(j - 4))
        else:
            want = ("b",) + con.atom(con.raw(128 + j - 118))
        ctx.ob("galileo/checksummed bit %d" % j, b == want, where, "bit %d of the checksummed data is %s" % (j, b))
    cmp_ = [t for t in vg.subterms(con.g.ret) if t.op == "icmp" and t.a[0] == "eq" and e.ret in t.a[1:]]
    if ctx.ob("galileo/compared", len(cmp_) == 1, where, "the checksum is compared %d times" % len(cmp_)):
        t = cmp_[0]
        other = t.a[2] if t.a[1] is e.ret else t.a[1]
        b = d.bits(other)
        for i in range(24):
            ctx.ob("galileo/transmitted checksum bit %d" % i, b[23 - i] == ("b",) + con.atom(con.raw(128 + 82 + i)), where, "compared with %s" % (b[23 - i],))
        ctx.ob("galileo/transmitted checksum width", all(x == 0 for x in b[24:]), where, "compared with more than 24 bits")
        for v in (False, True):
            k = con.arg_known(32)
            for p, x in ((0, 0), (1, 0), (128, 1), (129, 0)):
                k[con.atom(con.raw(p))] = x
            # a wrong checksum: nothing is stored, covered with C17's 'ignored: checksum mismatch'
    con = Con("glo", "GlonassEphemeris", 16)
    where = "common/ephemeris/glonass.cxx"
    ctx.add("functions", con.fs["dem"])
    ev = [e for e in con.g.events if "gloTest(" in e.dem]
    if not ctx.ob("glonass/string is checked", len(ev) == 1, where, "%d calls of gloTest" % len(ev)):
        return
    e = ev[0]
    ptr = e.args[0]
    if ptr.op != "ptr" or ptr.a[2]:
        ctx.ob("glonass/checked buffer", False, where, "not a local buffer")
        return
    d = con.dom(con.arg_known(16), {}, {})
    o, off, _ = ptr.a
    for j in range(85):
        b = d.bits(con.g.mem(e.state, o, off + j // 8, 1, 8))[7 - j % 8]
        ctx.ob("glonass/checked string bit %d" % (85 - j), b == ("b",) + con.atom(con.raw(j)), where, "checks %s" % (b,))


def run(ctx):
    m = ir.load(["utils/crc.cxx"], [r"crc24|gloTest"])
    ctx.add("units", "utils/crc.cxx")
    crc(ctx, m)
    hamming(ctx, m)
    coverage(ctx)
