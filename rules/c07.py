from loglib import *
TITLE = "Serialisation round-trips byte for byte"
TECH = "symbolic stream layout extraction: value graph of deserialise-then-serialise over an opaque input stream (LLVM IR)"
RULE = """For every loggable type the value graph of reading a value from an opaque byte stream and writing it again is built; each byte written must be the byte read at the same position, both
streams must advance by the same amount, unconditionally, and nothing else may be called. The bytes written by serialize must cover every data member of the type except the parsers' own
synchronisation state. A dual quaternion's translation, which is stored through the dual part, must be the one read times the squared norm of the rotation, as an identity of polynomials."""
ASSUME = ("floating-point identities of the dual quaternion are taken over the reals with a unit rotation", "dynamically sized containers are read into a container of the written size")
SYNC = {"GPSEphemeris": {"iode1", "iode2", "iode3", "collected_subframes"}, "GalileoEphemeris": {"collected_subframes", "time_f", "iod"},
        "GlonassEphemeris": {"frame_flags_", "time_mark_", "tk_h_", "tk_m_", "tk_s_", "tb_", "NT_", "N4_", "NA_"}}


def run(ctx):
    m = module()
    for n in list(TYPES) + list(PLAIN):
        cells, outs, err = roundtrip(m, m.find(r"^vh_rt_%s\(" % n))
        ctx.add("types", n)
        ctx.ob(n + "/layout", not err and bool(outs), WHERE, "; ".join(sorted(set(err))) or "nothing is read")
        bad = []
        for q, s, t in outs:
            if t == mk("in", (q,), s * 8):
                continue
            ok = False
            if n in ("DQuat", "Jet", "TwoJet") and 32 <= q < 56:
                atom = lambda x: x.a[0].a[0] if x.op == "bitcast" and x.a[0].op == "in" else None
                p = poly(t.a[0] if t.op == "bitcast" else t, atom)
                want = Poly({tuple(sorted((q, k, k))): 1 for k in (0, 8, 16, 24)})
                ok = p is not None and (p == want or p == Poly({(q,): 1}))
            if not ok:
                bad.append("byte %d..%d written back is %s" % (q, q + s, vg.show(t)[:120]))
        ctx.add("stream cells", *["%s@%d" % (n, q) for q, _, _ in outs])
        ctx.ob(n + "/content", not bad, WHERE, "; ".join(bad[:4]))
        f, err = written_fields(m, n)
        ctx.ob(n + "/source", not err, WHERE, "; ".join(sorted(set(err))[:4]))
        if n in TYPES and n not in ("Quat", "DQuat", "TangentVector"):
            have = {a for a, _, _, _ in f}
            names = [re.sub(r"\.m_storage.*", "", l[0]) for l in dataleaves(m, TYPES[n])]
            miss = [l for l in names if l not in SYNC.get(n, ()) and not l.startswith("x.") and l not in have and l + ".angular" not in have]
            ctx.ob(n + "/every member", not miss, WHERE, "members never written: %s" % miss)
    for fn, rw in (("vh_log3", "write"), ("vh_read3", "read")):
        g = vg.VG(m, m.find("^%s\\(" % fn))
        seq = [(e.args[1].a[0][1], e.args[1].a[1], e.args[2].a[0]) for e in g.events if "::%s(" % rw in e.dem and e.args[1].op == "ptr"]
        want = [(1, 0, 8), (1, 8, 8), (2, 0, 8), (3, 0, 8), (3, 8, 8), (3, 16, 24), (3, 40, 24)]
        ctx.ob(fn + "/argument order", flat(seq) == flat(want) and all(e.guard is vg.TRUE for e in g.events), "common/logging/serialize.h", "touches %s" % (seq,))


def flat(seq):
    return [(a, o + k) for a, o, s in seq for k in range(s)]
