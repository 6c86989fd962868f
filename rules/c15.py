from ephlib import *
TITLE = "Galileo navigation message decoding follows the interface document"
TECH = "bit-provenance abstract interpretation of GalileoEphemeris::parse (LLVM IR)"
RULE = """GalileoEphemeris::parse is reduced to a value graph over the page bytes; assuming a nominal even/odd page pair with matching CRC and word type k,
the final value of every parameter must be, for all other bits and all prior state, exactly the affine form over word bits that the Galileo OS SIS ICD (word types 0..5)
gives, and parameters of the other word types must keep their value; alert pages, wrong part flags, and other word types change no parameter."""
ASSUME = ("words arrive as the receiver's eight 32-bit little-endian words (even page, odd page)", "the week is checked when this page does not complete an ephemeris (rollover is added then)",
          "scale factors agree to 1e-12 relative")
P = lambda n: 2.0 ** -n
SPEC = {
    0: {"week": (96, 12, 0, 1), "tow": (108, 20, 0, 1)},
    1: {"toes": (16, 14, 0, 60), "m0": (30, 32, 1, P(31) * PI), "ecc": (62, 32, 0, P(33)), "sqrta": (94, 32, 0, P(19))},
    2: {"omega0": (16, 32, 1, P(31) * PI), "i0": (48, 32, 1, P(31) * PI), "w": (80, 32, 1, P(31) * PI), "idot": (112, 14, 1, P(43) * PI)},
    3: {"omegadot": (16, 24, 1, P(43) * PI), "delta_n": (40, 16, 1, P(43) * PI), "cuc": (56, 16, 1, P(29)), "cus": (72, 16, 1, P(29)),
        "crc": (88, 16, 1, P(5)), "crs": (104, 16, 1, P(5))},
    4: {"cic": (22, 16, 1, P(29)), "cis": (38, 16, 1, P(29)), "tocs": (54, 14, 0, 60), "af0": (68, 31, 1, P(34)), "af1": (99, 21, 1, P(46)),
        "af2": (120, 6, 1, P(59))},
    5: {"bgd_e1_e5a": (47, 10, 1, P(32)), "bgd_e1_e5b": (57, 10, 1, P(32)), "e5b_hs": (67, 2, 0, 1), "e1b_hs": (69, 2, 0, 1),
        "e5b_dvs": (71, 1, 0, 1), "e1b_dvs": (72, 1, 0, 1), "ai0": (6, 11, 0, P(2)), "ai1": (17, 11, 1, P(8)), "ai2": (28, 14, 1, P(15))},
}


def odd_page(con, sp):
    """the listed defect: data bits 112..127 are read at bit 106 of the odd page (reserved/tail bits) instead of bit 2"""
    f = {}
    for a, v in con.form(*sp).items():
        p = [q for q in range(sp[0], sp[0] + sp[1]) if ("b",) + con.atom(con.bit(q)) == a][0]
        f[a if p < 112 else ("b",) + con.atom(con.raw(p + 122))] = v
    return "odd-page-data-read-at-bit-106", f, "bits 112..127 of the word are taken from bits 106..121 of the odd page instead of bits 2..17"


def run(ctx):
    con = Con("gal", "GalileoEphemeris", 32)
    ctx.add("functions", con.fs["dem"])
    names = sorted({n for s in SPEC.values() for n in s})
    variants = [("word%d" % k, k, {}) for k in range(0, 11)] + [("word%d/alert_even" % k, k, {1: 1}) for k in (1, 4)] + \
        [("word%d/alert_odd" % k, k, {129: 1}) for k in (2, 5)] + [("word%d/part_swapped" % k, k, {0: 1, 128: 0}) for k in (1, 4)] + \
        [("word%d/two_even" % k, k, {128: 0}) for k in (1, 3)]
    for tag, k, flags in variants:
        base = con.arg_known(32)
        con.setbits(base, 0, 6, k)
        for B, v in {**{0: 0, 1: 0, 128: 1, 129: 0}, **flags}.items():
            con.setbits(base, B, 1, v, raw=True)
        if k == 4:
            base.update(con.member_known("sat", 11))
            con.setbits(base, 16, 6, 11)
        for n in names:
            sp = SPEC.get(k, {}).get(n) if not flags else None
            con.check(ctx, base, tag + "/" + n, n, con.form(*sp) if sp else None, skip=released(con) if n == "week" else None,
                      alt=odd_page(con, sp) if sp and sp[0] + sp[1] > 112 else None)
    # word 4 of another satellite changes nothing that was collected
    base = con.arg_known(32)
    con.setbits(base, 0, 6, 4)
    for B, v in {0: 0, 1: 0, 128: 1, 129: 0}.items():
        con.setbits(base, B, 1, v, raw=True)
    base.update(con.member_known("sat", 11))
    con.setbits(base, 16, 6, 12)
    for n in names:
        con.check(ctx, base, "word4/other_satellite/" + n, n, None, skip=released(con) if n == "week" else None)
    # iod array: word types 1..4 carry the issue of data in bits 6..15
    for k in (1, 2, 3, 4):
        base = con.arg_known(32)
        con.setbits(base, 0, 6, k)
        for B, v in {0: 0, 1: 0, 128: 1, 129: 0}.items():
            con.setbits(base, B, 1, v, raw=True)
        if k == 4:
            base.update(con.member_known("sat", 11))
            con.setbits(base, 16, 6, 11)
        con.check(ctx, base, "word%d/iod" % k, "iod", con.form(6, 10, 0, 1), sub=k - 1, size=4, signed=True)
    release(ctx)


def release(ctx):
    import c17
    m = c17.Machine(ctx, "gal")
    c2 = m.con
    for last in (0, 1, 3, 4, 5):
        leaf, want = kepler_times(ctx, m, last, 60, None)
        kn = {}
        c2.setbits(kn, 96, 1, 0) if last == 0 else None
        times(ctx, m, last, want, [{"leaf": leaf, "known": kn}])
    # the reference week: the transmitted week is that of the page, the reference time may lie in the week before or after
    for last in (3, 5):
        for toes, tow, adj in ((0, 0, 0), (604740, 0, -1), (0, 604799, 1), (302400, 0, 0), (302460, 0, -1), (0, 302400, 0), (0, 302401, 1), (302400, 604799, 0), (302340, 604799, 1)):
            kn = {}
            if last != 1:
                kn.update(c2.member_known("toes", toes))
            if last != 0:
                kn.update(c2.member_known("tow", tow))
            t, f = leafform(c2, "week", 11, 1)
            times(ctx, m, last, {("week", None): lambda d, f=f, adj=adj: d.plus(f, {1: 1024 + adj})},
                  [{"leaf": {t: f}, "known": kn, "name": "/toes %d tow %d" % (toes, tow)}])
