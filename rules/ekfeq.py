"""the filter's measurement models and equations: terms, evaluation points and reference models"""
from fractions import Fraction
import vg, modlib, pit, ekflib, c80
from pit import D, K
from ekflib import *
from lielib import add, sub, dot, mat, cross, vec
from modref import FieldAlg, FloatAlg, SNAP, trans, rot, tr, C, OM, NS as NANO
X = ("arg", 2)
PTR = lambda o, off=0: vg.mk("ptr", (o, off, ()), "p")
SATS = (("gps", "gpsclk"), ("gal", "galclk"), ("glo", "gloclk"))
IMPL = "core/ekf/rtk_ekf_impl.cxx "


def case(ctx, m, lay, name, x, n=1, obs=(), nz=0):
    """run vh_<name> with the state in argument x, n single differences; obs: constellation numbers of the observations; nz: number of vectors of size 1"""
    ctx.add("functions", "%s (%d single differences)" % (name, n))
    st = lay.entry([(("arg", x), "State", 0)])
    k = lay.count["numsd"]
    st.wcells(("arg", x))[k.off] = (k.size, vg.c(n, 8 * k.size))
    if name in ("obs", "fh"):
        d = dict((f, o) for f, o, s, _ in m.fields(NS + "obsMeas::Data"))
        size = m.type(NS + "obsMeas::Data")["size"] if obs else 8
        w = st.wcells(("arg", 1))
        w[0] = (8, PTR(("z",)))
        w[8] = w[16] = (8, PTR(("z",), size * (len(obs) + nz)))
        w = st.wcells(("z",))
        for i, g in enumerate(obs):
            w[size * i + d["sat"]] = (8, PTR(("sat", i)))
            w[size * i + d["gnss_id"]] = (4, vg.c(g, 32))
    return vg.VG(m, m.find("^vh_%s$" % name), summaries=list(modlib.EIGEN), entry=st, unroll=1000)


def ids(m):
    r = []
    for k, _ in SATS:
        t = vg.VG(m, m.find("^vh_%s$" % k)).ret
        if t.op != "c":
            raise vg.Broken("constellation number of %s is not a constant" % k)
        r.append(t.a[0])
    return r


class World:
    """numbers for the state, input and observations; ref_*: reference models"""

    def __init__(self, m, lay, p, alg, x, u=None, nobs=0, nz=0, z=None):
        self.V = V = Values(p, alg)
        self.p, self.a, self.lay = p, alg, lay
        self.x = V.obj(lay, ("arg", x), lay.state)
        self.at = x
        self.u = V.obj(lay, ("arg", u), lay.inp) if u is not None else None
        self.z = V.put(("arg", z), 0, alg.vals(6)) if z is not None else None
        if nz:
            self.z = V.put(("z",), 0, alg.vals(nz))
        if nobs:
            d = dict((f, o) for f, o, s, _ in m.fields(NS + "obsMeas::Data"))
            size = m.type(NS + "obsMeas::Data")["size"]
            F = lambda t, n: next(o for f, o, s, _ in m.fields("mc::satellite::" + t) if f == n)
            self.z, self.sats = [], []
            for i in range(nobs):
                self.z.append(V.put(("z",), size * i + d["z"], alg.vals(2)))
                s, o = {}, ("sat", i)
                for n, k in (("pos", 3), ("vel", 3), ("clk", 2)):
                    s[n] = V.put(o, F("SatelliteCache", "state") + F("SatelliteState", n), alg.vals(k))
                for n in ("ionospheric_delay_m", "tropospheric_delay_m"):
                    s[n], = V.put(o, F("SatelliteCache", "atm") + F("AtmosphericCorrection", n), alg.vals(1))
                s["sagnac"], = V.put(o, F("SatelliteCache", "sagnac"), alg.vals(1))
                self.sats.append(s)

    def move(self, c, dx):
        """the state moved in direction dx of component c, as duals"""
        x = self.x[c.key]
        d = c80.deriv("d", "r", x, dx) if c.kind == "group" else dx
        y = [D(a.v, b.v) for a, b in zip(x, d)] + x[len(d):]
        self.x = dict(self.x, **{c.key: y})
        self.V.put(("arg", self.at), c.off + (self.lay.dq["buf_"] if c.kind == "group" else 0), y)

    def antenna(self):
        k, x = self.a.k, self.x
        pI = add(trans(k, x["pose"]), mat(rot(k, x["pose"]), x["pb2g"], 3))
        pe = mat(tr(rot(k, x["ti2e"])), sub(pI, trans(k, x["ti2e"])), 3)
        vb = add(cross(self.u["gyro"], x["pb2g"]), x["vel"])
        ve = mat(tr(rot(k, x["ti2e"])), mat(rot(k, x["pose"]), vb, 3), 3)
        return pe, ve

    def pp(self):
        pe, ve = self.antenna()
        return [a - b for a, b in zip(self.z, pe + ve)]

    def obs(self, clocks, hold=None):
        """hold: another world at which the slowly varying factors of the Doppler are held"""
        k = self.a.k
        pe, ve = self.antenna()
        r = []
        for i, (z, s) in enumerate(zip(self.z, self.sats)):
            los = sub(s["pos"], pe)
            n = dot(los, los).sqrt()
            e = [a / n for a in los]
            clk = self.x[clocks[i]]
            c, ns = k(C), k(NANO)
            r.append(z[0] - (n + s["sagnac"] + s["ionospheric_delay_m"] + s["tropospheric_delay_m"] + c * (clk[0] * ns - s["clk"][0])))
            rate = c * (clk[1] * ns - s["clk"][1])
            if hold:
                e = hold[i]
                r.append(z[1] - (dot(sub(s["vel"], ve), e) + rate))
            else:
                r.append(z[1] - (dot(sub(s["vel"], ve), e) + k(OM) / c * (s["vel"][1] * pe[0] + s["pos"][1] * ve[0] - s["vel"][0] * pe[1] - s["pos"][0] * ve[1]) + rate))
        return r

    def lines(self):
        pe, _ = self.antenna()
        out = []
        for s in self.sats:
            los = sub(s["pos"], pe)
            n = dot(los, los).sqrt()
            out.append([a / n for a in los])
        return out


class Float(pit.FPoint):
    def truth(self, t):
        if t.op == "icmp" and t.a[0] in ("eq", "ne") and t.a[1].op == "ptr" and t.a[2].op == "null":
            return t.a[0] == "ne"       # no output is omitted here
        if t.op == "init" and t.a[0][0] == "glob" and str(t.a[0][1]).startswith("_ZGV"):
            return False                # a static variable is initialised by the call that is analysed
        return pit.FPoint.truth(self, t)


def branch(m, lay, make, given=None):
    """decides branches at an ordinary floating-point point; given: the conditions assumed"""
    p = Float(None)
    make(p, FloatAlg(p))
    memo = {}

    def guard(c):
        if c not in memo:
            memo[c] = p.truth(c)
        return memo[c]
    return guard
