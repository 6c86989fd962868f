import random
import ir, vg, ubxlib
from ubxlib import S1, S2, val, ck, UB, BY, fold
TITLE = "UBX messages are delivered only after both checksum bytes match"
TECH = "bisimulation of the receiver's transition function, taken from value graphs, with the protocol's automaton; constant propagation over the delivery guard (LLVM IR)"
RULE = """From the state the constructor leaves, the receiver's reaction to a byte is followed phase by phase: it must simulate the automaton of the protocol (two start bytes, class, type, two length bytes, payload, two checksum bytes), for every
byte, with the fields it keeps (class, type, length, position, payload) those of the frame; a length beyond the buffer restarts it. At the last byte each listener must be called exactly when it is subscribed to that class and type and both checksum
bytes are the Fletcher sums over class, type, length and payload, once, with that class, type and message, whatever the length (0, 1, ... the whole buffer); the receiver is then in its start state. Acknowledgements are noted only for such frames.
What is sent is a frame of the same form."""
ASSUME = ("lengths, positions and payloads act alike beyond the ones evaluated (0..5, around 256 and the buffer's size)", "listeners do not change the receiver while they are called")
W = "parsers/ubx/ubx.cxx Ubx::"
ALL = range(256)


def run(ctx):
    u = ubxlib.Ubx(ctx)
    m, F, N = u.m, u.F, u.size
    ctx.add("functions", "Ubx::receive_callback, decodeMessage, calculateChecksum, sendMessage")
    # the start
    g = vg.VG(m, m.find("^vs_new$"), summaries=u.quiet())
    s0, p0 = (val(u.after(g, k)) for k in ("state", "prev"))
    ctx.ob("start", s0 is not None and p0 is not None and p0 & 255 != S1, "parsers/ubx/ubx.h Ubx", "the constructor leaves phase %s, last byte %s" % (s0, p0))
    if s0 is None:
        return
    rng = random.Random(35)
    code = {"S": s0}
    early = val(u.after(u.step({"state": s0, "prev": S1}), "head"), S2) == 0     # the position is reset with the start bytes, or with the length
    ref = lambda r, b, n: ubxlib.ref(r, b, n, early)
    # phases by following bytes
    seeds = [("S", {"prev": S1}, S2), ("H0", {}, 3), ("H1", {"cls": 3}, 4), ("H2", {"cls": 3, "typ": 4}, 2), ("H3", {"cls": 3, "typ": 4, "len": 2}, 0), ("P", {"cls": 3, "typ": 4, "len": 2, "head": 1}, 9),
             ("K0", {"cls": 3, "typ": 4, "len": 2}, 9)]
    for ph, f, b in seeds:
        g = u.step(dict(f, state=code[ph]), payload=[0] * 4)
        nx = ref((ph, f), b, N)[0]
        c = val(u.after(g, "state"), b)
        if c is None:
            ctx.ob("phase %s" % nx, False, W + "receive_callback", "the phase after byte %d of phase %s is not determined" % (b, ph))
            return
        code[nx] = c
    ctx.ob("phases", len(set(code.values())) == 8, W + "receive_callback", "phases that must be told apart share a state: %s" % code)
    edge = [N - 1, N, N + 1, 255, 256, 257]
    cases = [("S", {"prev": p}) for p in ALL] + [("H0", {})] + [("H1", {"cls": c}) for c in (0, 5, 10, 255)] + [("H2", {"cls": c, "typ": t}) for c, t in ((0, 0), (5, 1), (255, 254))]
    cases += [("H3", {"cls": c, "typ": t, "len": n}) for c, t in ((1, 7), (255, 128)) for n in (0, 1, 2, 127, 128, 255)]
    cases += [("P", {"cls": 1, "typ": 7, "len": n, "head": h}) for n in [1, 2, 3, 127, 128, 129] + [x for x in edge if x <= N] for h in sorted({0, 1, n // 2, n - 2, n - 1}) if 0 <= h < n]
    cases += [("K0", {"cls": c, "typ": t, "len": n}) for c, t in ((1, 7), (255, 128)) for n in (0, 1, 255, 256, N)]
    bad = {}
    k = 0
    if early:
        cases = [(ph, dict(f, head=0) if ph in ("H0", "H1", "H2", "H3") else f) for ph, f in cases]
    for ph, f in cases:
        g = u.step(dict(f, state=code[ph]))
        bs = ALL if ph in ("S", "H3") and (ph != "S" or f["prev"] in (S1, S2, 0)) else (0, 1, S1, S2, 127, 128, 255)
        names = ("state", "prev", "cls", "typ", "len", "head", "cka")
        terms = {x: u.after(g, x) for x in names}
        d = any(e.dem == "<indirect>" for e in g.events)
        if d:
            bad.setdefault(ph, "a listener is called before the frame is complete")
        for b in bs:
            k += 1
            nph, nf = ref((ph, f), b, N)
            got = val(terms["state"], b)
            if got != code[nph]:
                bad.setdefault(ph, "byte 0x%02x with %s leads to %s, not to %s" % (b, f, [x for x in code if code[x] == got] or got, nph))
                continue
            for x, v in nf.items():
                w = val(terms[x], b)
                if w is None or (w & 0xffff if x in ("len", "head") else w & 255) != v:
                    if x == "prev" and w == 0 and b == S1 and nph == "S" and ph != "S":
                        continue
                    bad.setdefault(ph, "byte 0x%02x with %s leaves %s = %s instead of %s" % (b, f, x, w, v))
        if ph == "P":
            h = f["head"]
            for i in sorted({0, h - 1, h, h + 1, f["len"] - 1}):
                if not 0 <= i < N:
                    continue
                t = g.mem(g.final, UB, u.buf + i, 1, 8)
                want = g.initial(vg.State(), BY, 0, 1, 8) if i == h else g.initial(vg.State(), UB, u.buf + i, 1, 8)
                if t is not want:
                    bad.setdefault(ph, "payload byte %d of %d leaves %s at position %d" % (h, f["len"], vg.show(t, 4), i))
    for ph in code:
        if ph != "K1":
            ctx.ob("step/" + ph, ph not in bad, W + "receive_callback", bad.get(ph, ""))
    ctx.add("transitions", "%d (phase, fields, byte) cases over %d phases" % (k, len(code)))
    # several bytes at once are the same as one after another
    bad = None
    for ph, f in [("S", {"prev": S1}), ("H0", {}), ("H1", {"cls": 1}), ("H2", {"cls": 1, "typ": 2}), ("H3", {"cls": 1, "typ": 2, "len": 7}), ("P", {"cls": 1, "typ": 2, "len": 9, "head": 3}), ("P", {"cls": 1, "typ": 2, "len": 9, "head": 7}), ("S", {"prev": 0})]:
        f = dict(f, head=0) if early and ph[0] == "H" else f
        g = u.step(dict(f, state=code[ph]), n="2")
        for b in ((S2, 5), (0, 0), (S1, S2), (3, 0), (1, 200)):
            nph, nf = ref(ref((ph, f), b[0], N), b[1], N)
            if val(u.after(g, "state"), b) != code[nph] or any((val(u.after(g, x), b) or 0) & (0xffff if x in ("len", "head") else 255) != v for x, v in nf.items() if x != "prev"):
                bad = bad or "bytes %s in phase %s do not act like one after another" % (b, ph)
    g = vg.VG(m, m.find("^vs_none$"), summaries=u.quiet())
    if any(o == UB and c for o, c in g.final.mem.items()) or g.events:
        bad = bad or "an empty read changes the receiver"
    ctx.ob("every byte once", bad is None, W + "receive_callback", bad or "")
    # the last byte
    def last(cls, typ, pay, cka, b, subs, key):
        """number of calls per listener; other effects"""
        g = u.step({"state": code["K1"], "cls": cls, "typ": typ, "len": len(pay), "cka": cka}, payload=pay, listeners=len(subs), unroll=N + 10)
        known = {(BY, 0, 1): b}

        def sf(t):
            if t.op == "sym" and isinstance(t.a[0], tuple) and t.a[0] and t.a[0][0] == "subscribed":
                _, who, c, t_ = t.a[0]
                c, t_ = (fold(x, known) for x in (c, t_))
                if isinstance(who, tuple) and who[0] == "listener" and c == vg.c(cls, 8) and t_ == vg.c(typ, 8):
                    return vg.b(subs[who[1]])
                return None
            return None
        ev = lambda t: fold(vg.rewrite(fold(t, known), sf, {}), known)
        calls = [0] * len(subs)
        for e in g.events:
            if e.dem != "<indirect>":
                continue
            gd = ev(e.guard)
            if gd.op != "c":
                return "undecided", None
            if not gd.a[0]:
                continue
            a = [x for x in e.args if isinstance(x, vg.T)][-4:]
            if a[0].op != "ptr" or a[0].a[0][0] != "listener":
                return "a call to something else", None
            if val(a[1], b) is None or val(a[1], b) & 255 != cls or val(a[2], b) is None or val(a[2], b) & 255 != typ or a[3] != vg.mk("ptr", (UB, u.buf, ()), "p"):
                return "a call with other arguments", None
            for i in {0, len(pay) - 1} if pay else ():
                if fold(g.mem(e.state, UB, u.buf + i, 1, 8), known) != vg.c(pay[i], 8):
                    return "a call with another payload", None
            calls[a[0].a[0][1]] += 1
        flags = {k_: ev(g.mem(g.final, UB, F[k_][0], 1, 8)) for k_ in ("got_ack_", "got_nack_") if k_ in F}
        return (calls, ev(u.after(g, "state")), flags), g
    for n in (0, 1, 2, 3, 5, 255, 256, 257, N):
        bad = None
        reps = 12 if n < 10 else 3
        for r in range(reps):
            cls, typ = ((1, 7), (5, 1), (5, 0), (0x0A, 9), (255, 255))[r % 5]
            pay = [rng.randrange(256) for _ in range(n)]
            a, b = ck(cls, typ, pay)
            subs = [(True, False, True), (False, False, False), (True, True, True)][r % 3]
            trials = [(a, b, True)] + [((a + d) & 255, b, False) for d in (1, 128, rng.randrange(1, 256))] + [(a, (b + d) & 255, False) for d in (1, 128, rng.randrange(1, 256))] + [(b, a, a == b), (0, 0, (a, b) == (0, 0))]
            for x, y, ok in trials if n < 10 else trials[:1] + [trials[2], trials[5]]:
                res, g = last(cls, typ, pay, x, y, subs, n)
                if isinstance(res, str):
                    bad = bad or "class %d, type %d, length %d: %s" % (cls, typ, n, res)
                    continue
                calls, st, flags = res
                want = [int(ok and s) for s in subs]
                if calls != want:
                    bad = bad or "class %d, type %d, length %d, checksum %s: listeners subscribed %s are called %s times" % (cls, typ, n, "right" if ok else "wrong", list(subs), calls)
                if st != vg.c(code["S"], 32):
                    bad = bad or "length %d, checksum %s: the receiver is not back in its start state" % (n, "right" if ok else "wrong")
                for k_, t_ in (("got_ack_", 1), ("got_nack_", 0)):
                    if k_ in flags:
                        old = g.initial(vg.State(), UB, F[k_][0], 1, 8)
                        hit = ok and cls == 5 and typ == t_
                        if flags[k_] != (vg.c(1, 8) if hit else old):
                            bad = bad or "class %d type %d, checksum %s: %s becomes %s" % (cls, typ, "right" if ok else "wrong", k_, vg.show(flags[k_], 3))
        ctx.ob("delivery/length %d" % n, bad is None, W + "decodeMessage", bad or "")
    # frames sent
    for n in (0, 1, 2, 3, 5, 44, 256, N):
        f = m.find("^vs_send$")
        hdr = (rng.randrange(256), rng.randrange(256))
        pay = [rng.randrange(256) for _ in range(n)]
        st = vg.State()
        for i, x in enumerate(pay):
            st.wcells(("arg", 2))[i] = (1, vg.c(x, 8))
        for i, x in enumerate(hdr):
            st.wcells(("arg", 1))[i] = (1, vg.c(x, 8))
        g = vg.VG(m, f, entry=st, args={3: vg.c(n, 32)}, unroll=N + 10, summaries=u.quiet())
        out = []
        for e in g.events:
            if "Comm::send_byte(" in e.dem or "Comm::send_bytes(" in e.dem:
                a = [x for x in e.args if isinstance(x, vg.T)]
                if e.guard != vg.TRUE:
                    out.append("?")
                elif "send_byte(" in e.dem:
                    out.append(a[1].a[0] & 255 if a[1].op == "c" else "?")
                else:
                    cnt = a[2].a[0] if a[2].op == "c" else -1
                    for i in range(cnt):
                        t = g.mem(e.state, a[1].a[0], a[1].a[1] + i, 1, 8)
                        out.append(t.a[0] & 255 if t.op == "c" else "?")
        want = [S1, S2, hdr[0], hdr[1], n & 255, n >> 8] + pay + list(ck(hdr[0], hdr[1], pay))
        ctx.ob("sent/length %d" % n, out == want, W + "sendMessage", "the bytes sent for %d bytes of payload are not a frame: %s..." % (n, out[:12]))
