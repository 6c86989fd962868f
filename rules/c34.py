import itertools
import ir, vg, ubxlib
from ubxlib import S1, S2, val, UB, BY, fold
TITLE = "UBX parser stays inside its buffers"
TECH = "interval and typestate analysis of the receiver's transition function: bounds of every memory access in every reachable phase, termination of every string handed on (LLVM IR value graphs)"
RULE = """From the state the constructor leaves, no length field may lead to the payload phase with a length beyond the message buffer, and in the payload phase (position below length, at most the buffer's size) every access must lie inside the object it is
made through, the payload byte going to the position; the last payload byte must leave the phase. Evaluating the checksum of the longest message must stay inside the message. The version report, whatever its bytes, must be read inside the message,
and every string taken from it and handed on must end inside its own storage; that storage and the message must be initialised by the constructor."""
ASSUME = ("C35's automaton is what leads from phase to phase", "strncmp, atoi and the formatting library read a string up to its end", "positions between the evaluated boundaries act alike")
W = "parsers/ubx/ubx.cxx Ubx::"


def run(ctx):
    u = ubxlib.Ubx(ctx)
    m, F, N = u.m, u.F, u.size
    TOT = m.type(ubxlib.CLS)["size"]
    ctx.add("functions", "Ubx::receive_callback, decodeMessage, versionCb, extractVersionString, extractModuleName, Ubx()")

    def bounds(g, size, what):
        """accesses outside their object"""
        out = []
        for rw, p, n, cond, ins in g.accesses:
            if p.op != "ptr" or fold(cond, {}) == vg.FALSE:
                continue
            o = p.a[0]
            lim = size.get(o if o in size else o[0])
            if lim is None:
                continue
            if p.a[2]:
                out.append("%s at %s" % (rw, vg.show(p, 4)))
            elif not 0 <= p.a[1] <= lim - n:
                out.append("%s of %d bytes at %d of %d" % (rw, n, p.a[1], lim))
        return out
    g = vg.VG(m, m.find("^vs_new$"), summaries=u.quiet())
    s0 = val(u.after(g, "state"))
    code = {"S": s0}
    n = val(u.after(u.step({"state": s0, "prev": S1}), "state"), S2)
    h0 = val(u.after(u.step({"state": s0, "prev": S1}), "head"), S2)
    for ph in ("H0", "H1", "H2", "H3"):
        code[ph] = n
        if n is None or ph == "H3":
            break
        n = val(u.after(u.step({"state": n}), "state"), 1)
    if not ctx.ob("phases", s0 is not None and code.get("H3") is not None, W + "receive_callback", "phases up to the length are not determined: %s" % code):
        return
    f = {"state": code["H3"], "cls": 1, "typ": 7}
    if h0 == 0:
        f["head"] = 0
    pay, bad, k = set(), None, 0
    leave = {}
    for lo in sorted({0, 1, 2, N - 1 & 255, N & 255, N + 1 & 255, 128, 255}):
        g = u.step(dict(f, len=lo))
        st, ln, hd = (u.after(g, x) for x in ("state", "len", "head"))
        for b in range(256):
            k += 1
            L = lo | b << 8
            s = val(st, b)
            if s is None:
                bad = bad or "length %d: next phase not determined" % L
            elif s != code["S"]:
                leave.setdefault(s, []).append((L, val(ln, b), val(hd, b)))
    for s, xs in leave.items():
        for L, a, h in xs:
            if L > N:
                bad = bad or "length %d is accepted for a buffer of %d bytes" % (L, N)
            elif a is None or a & 0xffff != L:
                bad = bad or "length %d is kept as %s" % (L, a)
            elif h != 0:
                bad = bad or "length %d: the payload starts at position %s" % (L, h)
    ctx.ob("length", bad is None and bool(leave), W + "receive_callback", bad or "no length is accepted")
    ctx.add("transitions", "%d length cases" % k)
    # payload phase: the phase reached with a length of several bytes
    P = next((s for s, xs in leave.items() if any(L == N for L, _, _ in xs)), None)
    bad, k = None, 0
    if P is not None:
        for L in [1, 2, 3, 255, 256, 257, N - 1, N]:
            for h in sorted({0, 1, L // 2, L - 2, L - 1}):
                if not 0 <= h < L:
                    continue
                k += 1
                g = u.step({"state": P, "cls": 1, "typ": 7, "len": L, "head": h})
                for x in bounds(g, {UB: TOT, BY: 1}, "step"):
                    bad = bad or "payload byte %d of %d: %s" % (h, L, x)
                for rw, p, n, cond, ins in g.accesses:
                    if rw == "w" and p.op == "ptr" and p.a[0] == UB and not p.a[2] and p.a[1] < u.buf + N and p.a[1] + n > u.buf and p.a[1] != u.buf + h:
                        bad = bad or "payload byte %d of %d is written at position %d" % (h, L, p.a[1] - u.buf)
                s, hd = val(u.after(g, "state"), 1), val(u.after(g, "head"), 1)
                if h == L - 1 and s == P:
                    bad = bad or "the payload phase of %d bytes does not end" % L
                if h < L - 1 and (s != P or hd != h + 1):
                    bad = bad or "payload byte %d of %d leads to phase %s, position %s" % (h, L, s, hd)
    ctx.ob("payload", bad is None and k > 0, W + "receive_callback", bad or "no payload phase")
    ctx.add("transitions", "%d payload cases" % k)
    # other phases do not touch the message
    bad = None
    for ph in ("S", "H0", "H1", "H2"):
        g = u.step({"state": code[ph], "prev": S1} if ph == "S" else {"state": code[ph]})
        for x in bounds(g, {UB: TOT, BY: 1}, "step"):
            bad = bad or "phase %s: %s" % (ph, x)
    ctx.ob("header", bad is None, W + "receive_callback", bad or "")
    # checksum of the longest message
    st = u.state({}, [0] * N)
    for name, par in (("sum", {3: vg.c(N, 32)}), ("send", {3: vg.c(N, 32)})):
        e = vg.State()
        o = ("arg", 2)
        g = vg.VG(m, m.find("^vs_%s$" % name), args=par, unroll=N + 10, summaries=u.quiet())
        b = bounds(g, {UB: TOT, ("arg", 2): N, ("arg", 1): 2}, name)
        for ev in g.events:
            if "Comm::send_bytes(" in ev.dem:
                a = [x for x in ev.args if isinstance(x, vg.T)]
                if a[1].op != "ptr" or a[1].a[2] or a[2].op != "c" or a[1].a[0] == o and a[1].a[1] + a[2].a[0] > N:
                    b.append("sends %s bytes at %s" % (vg.show(a[2], 3), vg.show(a[1], 3)))
        ctx.ob("longest/" + name, not b and len(g.accesses) > 0, W + ("calculateChecksum" if name == "sum" else "sendMessage"), "; ".join(b[:3]) or "not evaluated")
    # what the constructor leaves
    g = vg.VG(m, m.find("^vs_new$"), summaries=u.quiet())
    ini = lambda o, n: all(g.mem(g.final, UB, o + i, 1, 8).op == "c" for i in range(n))
    ctx.ob("initialised/message", ini(u.buf, 1) and ini(u.buf + N // 2, 1) and ini(u.buf + N - 1, 1), "parsers/ubx/ubx.h Ubx::in_message_", "the message buffer is not initialised; a short version report is read beyond what was received")
    MN, MS = F["module_name_"]
    ctx.ob("initialised/name", any(g.mem(g.final, UB, MN + i, 1, 8) == vg.c(0, 8) for i in range(MS)) and ini(MN, 1), "parsers/ubx/ubx.h Ubx::module_name_", "the module name is not a string until a report names one")
    # the version report
    v = ubxlib.Ubx(ctx, keep=())
    m = v.m
    f = m.find("^vs_version$")
    probe = []

    def cmp_(want):
        def h(g, s, i, a):
            if a[0].op != "ptr" or a[0].a[0] != UB or a[0].a[2] or a[2].op != "c":
                return NotImplemented
            probe.append((a[0].a[1], a[2].a[0]))
            return ("ev", vg.c(0 if (a[0].a[1], a[2].a[0]) in want else 1, 32))
        return h
    quiet = [x for x in v.quiet()]

    def run_(want, st=None):
        strs = []

        def atoi(g, s, i, a):
            strs.append((a[0], s.copy(), g))
            return ("ev", vg.mk("sym", (("number", len(strs)), 0), 32))
        g = vg.VG(m, f, entry=st, summaries=[(r"^strncmp$", cmp_(want)), (r"^(atoi|strtol|strtoul|atol)$", atoi)] + quiet)
        return g, strs
    run_(set())
    cand = sorted(set(probe))
    out = [c for c in cand if not u.buf <= c[0] <= u.buf + N - c[1]]
    ctx.ob("report/search", cand and not out, W + "versionCb", "the report is searched outside the message: %s" % out[:3])
    ctx.add("call sites", "%d string comparisons in the version report" % len(cand))
    lens = sorted({n for _, n in cand})
    bad, nt, strs_seen = None, None, 0
    sample = [c for c in cand if c[0] in (cand[0][0], cand[-1][0], cand[len(cand) // 2][0])]
    for c in sample:
        # texts: where the first dot and the first end are
        for dot in (0, 1, 3, 4, 5, 6, 9, None):
            for end in (0, 1, 3, 4, 5, 6, 8, 9, 10, 11, None):
                if dot is not None and end is not None and False:
                    continue
                text = ["7"] * 24
                if dot is not None:
                    text[dot] = "."
                if end is not None:
                    text[min(23, (dot + 1 if dot is not None else 0) + end)] = "\0"
                st = v.state({}, ())
                cells = st.wcells(UB)
                for i, ch in enumerate(text):
                    o = c[0] + c[1] + i
                    if o < u.buf + N:
                        cells[o] = (1, vg.c(ord(ch), 8))
                for i in range(MS):
                    cells[MN + i] = (1, vg.c(0 if i == MS - 1 else ord("x"), 8))
                g, strs = run_({c}, st)
                for x in bounds(g, {UB: TOT}, "report"):
                    bad = bad or "text %r after offset %d: %s" % ("".join(text[:12]), c[0] - u.buf, x)
                for rw, p, n, cond, ins in g.accesses:
                    if p.op == "ptr" and p.a[0][0] == "alloca":
                        sz = g.osz.get(p.a[0])
                        if p.a[2] or isinstance(sz, int) and not 0 <= p.a[1] <= sz - n:
                            bad = bad or "text %r: %s at %s of %s bytes" % ("".join(text[:12]), rw, vg.show(p, 3), sz)
                for p, s, gg in strs:
                    strs_seen += 1
                    sz = gg.osz.get(p.a[0]) if p.op == "ptr" else None
                    if not isinstance(sz, int):
                        nt = nt or "a number is read from storage of unknown size: %s" % vg.show(p, 3)
                        continue
                    cs = [gg.mem(s, p.a[0], i, 1, 8) for i in range(p.a[1], sz)]
                    first = next((i for i, x in enumerate(cs) if x.op != "c" or x.a[0] == 0), None)
                    if first is None or cs[first].op != "c":
                        nt = nt or "text %r: a number is read from %d bytes that hold no end" % ("".join(text[:12]), sz)
                nm = [g.mem(g.final, UB, MN + i, 1, 8) for i in range(MS)]
                if not any(x == vg.c(0, 8) for x in nm):
                    nt = nt or "text %r: the module name has no end" % "".join(text[:12])
    ctx.ob("report/bounds", bad is None, W + "versionCb", bad or "")
    ctx.ob("report/strings", nt is None and strs_seen > 0, W + "versionCb", nt or "no number is read from the report")
    ctx.add("obligations", "%d strings handed on" % strs_seen)
