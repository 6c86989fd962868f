from ephlib import *
TITLE = "GLONASS navigation string decoding follows the interface document"
TECH = "bit-provenance abstract interpretation of GlonassEphemeris::parse (LLVM IR)"
RULE = """GlonassEphemeris::parse is reduced to a value graph over the string bytes; assuming a valid Hamming code and string number k, the final value of every
parameter must be, for all other bits and all prior state, exactly the form over string bits that the GLONASS ICD (table 4.6) gives - sign and magnitude for signed
quantities, checked separately for both signs - and parameters of the other strings must keep their value."""
ASSUME = ("words arrive as the receiver's four 32-bit little-endian words, bit 85 first", "scale factors agree to 1e-12 relative")
P = lambda n: 2.0 ** -n
V = lambda i: ("vel", i, (21, 24, "g", P(20) * 1e3))
A = lambda i: ("acc", i, (45, 5, "g", P(30) * 1e3))
X = lambda i: ("pos", i, (50, 27, "g", P(11) * 1e3))
S = lambda n, *sp: (n, None, sp)
SPEC = {
    1: [V(0), A(0), X(0), S("tk_h_", 9, 5, 0, 1), S("tk_m_", 14, 6, 0, 1), S("tk_s_", 20, 1, 0, 30)],
    2: [V(1), A(1), X(1), S("svh", 5, 3, 0, 1), S("tb_", 9, 7, 0, 1), S("iode", 9, 7, 0, 1)],
    3: [V(2), A(2), X(2), S("gamn", 6, 11, "g", P(40))],
    4: [S("taun", 5, 22, "g", P(30)), S("dtaun", 27, 5, "g", P(30)), S("age", 32, 5, 0, 1), S("sva", 52, 4, 0, 1), S("NT_", 59, 11, 0, 1), S("slot", 70, 5, 0, 1)],
    5: [S("NA_", 5, 11, 0, 1), S("N4_", 49, 5, 0, 1)],
}


def run(ctx):
    con = Con("glo", "GlonassEphemeris", 16)
    ctx.add("functions", con.fs["dem"])
    ctx.need(con.crcret, "the Hamming check is no longer called by parse")
    allf = sorted({(n, i) for s in SPEC.values() for n, i, _ in s}, key=str)
    for k in range(16):
        base = con.arg_known(16)
        con.setbits(base, 1, 4, k)
        spec = {(n, i): sp for n, i, sp in SPEC.get(k, [])}
        for n, i in allf:
            key = "string%d/%s%s" % (k, n, "" if i is None else "[%d]" % i)
            sp = spec.get((n, i))
            sub, size = (i, 8) if i is not None else (0, None)
            sg = con.field(n)[1] == 4
            if sp is None:
                con.check(ctx, base, key, n, None, sub=sub, size=size, signed=sg)
            elif sp[2] == "g":
                for s in (0, 1):
                    b2 = dict(base)
                    con.setbits(b2, sp[0], 1, s)
                    con.check(ctx, b2, key + ("/negative" if s else "/positive"), n,
                              con.form(sp[0] + 1, sp[1] - 1, 0, -sp[3] if s else sp[3]), sub=sub, size=size)
            else:
                con.check(ctx, base, key, n, con.form(*sp), sub=sub, size=size, signed=sg)
    import c17
    m = c17.Machine(ctx, "glo")
    c2 = m.con
    leaf = {}
    for n, nb in (("NT_", 11), ("tb_", 7), ("tk_h_", 5), ("tk_m_", 6)):
        t, f = leafform(c2, n, nb, 1)
        leaf[t] = f
    t, f = leafform(c2, "tk_s_", 1, 30)
    leaf[t] = f
    g = lambda n: (lambda d: d.ilin(imember(c2, n), True))

    def comb(*terms):
        def w(d):
            x = {1: 820454400 - 126230400 - 86400 - 10800}      # 1996-01-01 00:00:00 Moscow time, N4 and N_T count from 1
            for n, k in (("N4_", 126230400), ("NT_", 86400)) + terms:
                y = g(n)(d)
                if y is None:
                    return None
                x = d.plus(x, d.scale(y, k))
            return x
        return w
    zero = lambda d: {}
    times(ctx, m, 5, {("toe", "sec"): comb(("tb_", 900)), ("toe", "nsec"): zero,
                      ("tof", "sec"): comb(("tk_h_", 3600), ("tk_m_", 60), ("tk_s_", 1)), ("tof", "nsec"): zero}, [{"leaf": leaf, "known": c2n4(c2)}])


def c2n4(con):
    k = {}
    con.setbits(k, 49, 1, 0)      # four-year intervals 1..15 (1996 to 2055); beyond that 32-bit seconds do not fit
    return k
