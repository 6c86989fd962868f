from ephlib import *
TITLE = "GPS navigation message decoding follows the interface document"
TECH = "bit-provenance abstract interpretation of GPSEphemeris::parse (LLVM IR)"
RULE = """GPSEphemeris::parse is reduced to a value graph over the message bytes; under the assumption that the ten words carry preamble 0x8B
and subframe id k, the final value of every parameter must be, for all other message bits and all prior state, exactly the affine form over
message bits (bit positions, two's complement, scale) that IS-GPS-200 tables 20-I..20-III give for subframe k, and parameters of the
other subframes must keep their old value; messages of other ids change nothing."""
ASSUME = ("words arrive as the receiver's 32-bit little-endian words with 24 data bits in bits 29..6", "T_GD raw value -128 may mean 'not available'",
          "scale factors agree to 1e-12 relative")
P = lambda n: 2.0 ** -n
SPEC = {
    1: {"tow": (24, 17, 0, 6), "anti_spoof": (42, 1, 0, 1), "week": (48, 10, 0, 1, 2048), "code_on_L2": (58, 2, 0, 1), "ura": (60, 4, 0, 1), "health": (64, 6, 0, 1), "L2_P_data_flag": (72, 1, 0, 1),
        "tgd": (160, 8, 1, P(31)), "iode": (168, 8, 0, 1), "tocs": (176, 16, 0, 16), "af2": (192, 8, 1, P(55)), "af1": (200, 16, 1, P(43)),
        "af0": (216, 22, 1, P(31)), "iodc": None},
    2: {"iode": (48, 8, 0, 1), "crs": (56, 16, 1, P(5)), "delta_n": (72, 16, 1, P(43) * PI), "m0": (88, 32, 1, P(31) * PI), "cuc": (120, 16, 1, P(29)),
        "ecc": (136, 32, 0, P(33)), "cus": (168, 16, 1, P(29)), "sqrta": (184, 32, 0, P(19)), "toes": (216, 16, 0, 16),
        "age_of_data_offset": (233, 5, 0, 900)},
    3: {"cic": (48, 16, 1, P(29)), "omega0": (64, 32, 1, P(31) * PI), "cis": (96, 16, 1, P(29)), "i0": (112, 32, 1, P(31) * PI),
        "crc": (144, 16, 1, P(5)), "w": (160, 32, 1, P(31) * PI), "omegadot": (192, 24, 1, P(43) * PI), "idot": (224, 14, 1, P(43) * PI)},
}


def run(ctx):
    con = Con("gps", "GPSEphemeris", 40)
    ctx.add("functions", con.fs["dem"])
    names = sorted({n for s in SPEC.values() for n in s})
    for k in range(8):
        base = con.arg_known(40)
        con.setbits(base, 0, 8, 0x8B)
        con.setbits(base, 43, 3, k)
        for n in names:
            sp = SPEC.get(k, {}).get(n, "no")
            key = "subframe%d/%s" % (k, n)
            if n == "iodc" and k == 1:
                w = con.form(70, 2, 0, 256)
                w.update(con.form(168, 8, 0, 1))
                con.check(ctx, base, key, n, w)
            elif sp == "no":
                if n == "iode" and k == 3:
                    continue
                con.check(ctx, base, key, n, None)
            else:
                sp3 = None
                if n == "tgd":
                    raw = con.form(*sp)
                    def sp3(d, f, raw=raw):
                        r = con.subst(raw, d)
                        return f == {} and set(r) == {1} and abs(r[1] + 128 * P(31)) < 1e-20
                con.check(ctx, base, key, n, con.form(*sp), special=sp3)
    import c17
    m = c17.Machine(ctx, "gps")
    for last in (1, 2, 3):
        leaf, want = kepler_times(ctx, m, last, 16, None)
        times(ctx, m, last, want, [{"leaf": leaf}])
