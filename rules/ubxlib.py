"""the UBX receiver as a transition system over the bytes it is given"""
import ir, vg
from c21 import fold
H = ir.VERIF + "/harness/ubx.cxx"
CLS = "mc::parsers::ublox::Ubx"
UB = ("arg", 0)
BY = ("arg", 1)
S1, S2 = 0xB5, 0x62
FIELDS = {"state": "parse_state_", "prev": "prev_byte_", "head": "buffer_head_", "len": "length_", "cls": "message_class_", "typ": "message_type_", "cka": "ck_a_", "ckb": "ck_b_"}


class Ubx:
    def __init__(self, ctx, keep=(r"Ubx::versionCb",)):
        self.ctx = ctx
        inl = ir.DEFAULT_INLINE + [r"std::|__gnu_cxx", r"mc::parsers::"]
        self.m = m = ir.load([H, "parsers/ubx/ubx.cxx"], ["^vs_"], inline=inl, keep=list(keep) + [r"UbxListener::subscribed", "mc::(warn|info|error)", "atoi", "strncmp"], extra=["-fstandalone-debug", "-fno-access-control"])
        self.F = F = {n: (o, s) for n, o, s, _ in m.fields(CLS)}
        ctx.need(all(v in F for v in FIELDS.values()) and "in_message_" in F and "listeners_" in F, "members of Ubx: %s" % sorted(F))
        self.buf, self.size = F["in_message_"]
        self.ptrs = {"first": F["listeners_"][0], "last": F["listeners_"][0] + 8}

    def quiet(self):
        no = lambda g, s, i, a: ("ev", None)
        return [(r"mc::(warn|info|error)|source_location|basic_format_arg|_M_create|fmt::|register_listener|Comm::send_byte", no)]

    def state(self, kw, payload=(), listeners=None):
        """entry memory with the given fields"""
        st = vg.State()
        c = st.wcells(UB)
        for k, v in kw.items():
            o, s = self.F[FIELDS[k]]
            c[o] = (s, vg.c(sgn(v, s), 8 * s))
        for i, x in enumerate(payload):
            c[self.buf + i] = (1, vg.c(sgn(x, 1), 8) if not isinstance(x, vg.T) else x)
        if listeners is not None:
            A = ("listeners",)
            for k, o in (("first", 0), ("last", 8 * listeners)):
                c[self.ptrs[k]] = (8, vg.mk("ptr", (A, o, ()), "p"))
            for i in range(listeners):
                st.wcells(A)[8 * i] = (8, vg.mk("ptr", (("listener", i), 0, ()), "p"))
        return st

    def step(self, kw, payload=(), listeners=0, n="", more=(), unroll=300):
        subs = {}

        def sub(g, s, i, a):
            return vg.mk("sym", (("subscribed", a[0].a[0] if a[0].op == "ptr" else a[0]) + tuple(vg.cast("trunc", x, 8) if x.w != 8 else x for x in a[1:3]), 0), 1)
        got = []

        def deliver(g, s, i, a):
            if len(a) != 4:
                return NotImplemented
            return ("ev", None)
        return vg.VG(self.m, self.m.find("^vs_step%s$" % n), entry=self.state(kw, payload, listeners), unroll=unroll,
                     summaries=list(more) + self.quiet() + [(r"UbxListener::subscribed", sub), ("<indirect>", deliver), (r"versionCb", lambda g, s, i, a: ("ev", None))])

    def after(self, g, k):
        o, s = self.F[FIELDS[k]]
        return g.mem(g.final, UB, o, s, 8 * s)


def sgn(v, s):
    v &= (1 << 8 * s) - 1
    return v


def val(t, byte=None, n=1):
    if byte is not None:
        t = fold(t, {(BY, i, 1): b for i, b in enumerate(byte if isinstance(byte, (list, tuple)) else [byte])})
    if t.op != "c":
        return None
    return t.a[0]


def ck(cls, typ, payload):
    a = b = 0
    n = len(payload)
    for x in [cls, typ, n & 255, n >> 8] + list(payload):
        a = (a + x) & 255
        b = (b + a) & 255
    return a, b


def ref(r, byte, size, early):
    """one byte of the protocol: r = (phase, fields) -> same; 'frame' means a frame is complete"""
    ph, f = r
    e = {"head": 0} if early else {}
    if ph == "S":
        return ("H0", e) if byte == S2 and f["prev"] == S1 else ("S", {"prev": byte})
    if ph == "H0":
        return "H1", dict(e, cls=byte)
    if ph == "H1":
        return "H2", dict(f, typ=byte)
    if ph == "H2":
        return "H3", dict(f, len=byte)
    if ph == "H3":
        n = f["len"] | byte << 8
        if n > size:
            return "S", {"prev": byte}
        return ("P", dict(f, len=n, head=0)) if n else ("K0", dict(f, len=0))
    if ph == "P":
        h = f["head"] + 1
        return ("P", dict(f, head=h)) if h < f["len"] else ("K0", {k: v for k, v in f.items() if k != "head"})
    if ph == "K0":
        return "K1", dict(f, cka=byte)
    return "S", {"prev": byte}
