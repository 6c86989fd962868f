"""evaluation points of the factor models and their reference residuals, written independently over dual numbers"""
from fractions import Fraction
import vg, pit
from pit import D, K, F
from lielib import qmul, conj, add, sub, cross, dot, mat, rotm, unitq, vec, pure, expq
from modlib import Obj, dquat, embed, resolver, MODELS
C, OM, G0, NS = 299792458, Fraction(7.2921151467e-05), Fraction(9.80665), Fraction(1, 10 ** 9)
SNAP = pit.snapper([Fraction(C), OM, NS, Fraction(1, C), Fraction(G0)])
KC, KNS, KOM = K(C), K(NS), K(OM)


class Alg:
    """numbers for one evaluation: field duals or floating point"""

    def __init__(self, p):
        self.p, self.k = p, p.const

    def vals(self, n):
        return [self.num() for _ in range(n)]


class FieldAlg(Alg):
    def num(self):
        return D(self.p.rnd())

    def pose(self):
        q = unitq(self.p)
        t = self.vals(3)
        return q + [K(Fraction(1, 2)) * x for x in qmul(pure(t), q)]


class FloatAlg(Alg):
    """representative numbers, of the size of the real thing"""

    def num(self):
        return F(self.p.rng.uniform(-1, 1))

    def pose(self):
        r = self.p.rng
        v = [r.uniform(-1, 1) for _ in range(3)]
        n = (1 + sum(x * x for x in v)) ** .5
        q = [F(1 / n)] + [F(x / n) for x in v]
        t = self.vals(3)
        return q + [F(0.5) * x for x in qmul([F(0.0)] + t, q)]


def trans(k, X):
    return [k(2) * x for x in qmul(X[4:], conj(X[:4]))[1:]]


def rot(k, X):
    return rotm(X[:4], k(1))


def tr(M):
    return [M[3 * j + i] for i in range(3) for j in range(3)]


def log3(p, q):
    """rotation vector of a unit quaternion with positive scalar part"""
    n = dot(q[1:], q[1:]).sqrt()
    a = p.const(2) * p.atan2(n, q[0]) / n
    return [a * x for x in q[1:]]


def log6(p, X):
    """logarithm of a dual quaternion with positive scalar part: the quaternion logarithm over dual numbers (closed form)"""
    q, d = X[:4], X[4:]
    k = p.const
    n2 = dot(q[1:], q[1:])
    n = n2.sqrt()
    th = p.atan2(n, q[0])
    g = dot(q[1:], d[1:])
    dn = g / n
    dth = dn * q[0] - n * d[0]
    a = k(2) * th / n
    da = k(2) * (dth * n - th * dn) / n2
    return [a * x for x in q[1:]] + [da * x + a * y for x, y in zip(q[1:], d[1:])]


class Model:
    """one model: memory of its object, parameters, reference residual (pairs of residual and list of approximate residuals for derivatives)"""

    def __init__(self, m, name, alg):
        self.m, self.name, self.a = m, name, alg
        self.cls, self.ps, self.nr, self.file = MODELS[name]
        self.P = [alg.pose() if n == 8 else alg.vals(n) for n in self.ps]
        self.ob = Obj(m, "mc::models::" + self.cls)
        getattr(self, "make_" + name)()
        self.res = resolver({0: self.ob})

    def member(self, n, i):
        return self.ob.at(n, i)

    def at(self, typ, names):
        f = {n: o for n, o, s, _ in self.m.fields(typ)}
        return [f[x] for x in names]

    def sat(self, off):
        p, v, c = self.at("mc::satellite::SatelliteState", ("pos", "vel", "clk"))
        s = self.a.vals(3), self.a.vals(3), self.a.vals(2)
        for o, x in zip((p, v, c), s):
            self.ob.put(off + o, x)
        return s

    def obs(self, off):
        o = self.at("mc::meas::GnssObservation", ("pseudorange", "doppler", "carrier_phase", "freq"))
        v = self.a.vals(4)
        for x, y in zip(o, v):
            self.ob.put(off + x, [y])
        return v

    def posemem(self):
        X = self.a.pose()
        return X, dquat(self.m, X)

    # ---- pseudorange and Doppler
    def make_prange(self):
        a, ob = self.a, self.ob
        self.s = self.sat(self.member("sat_state_", 0))
        i, t = self.at("mc::satellite::AtmosphericCorrection", ("ionospheric_delay_m", "tropospheric_delay_m"))
        self.io, self.tro = a.vals(2)
        o = self.member("atm_", 2)
        ob.put(o + i, [self.io]).put(o + t, [self.tro])
        self.sag, = a.vals(1)
        ob.put(self.member("sagnac_", 3), [self.sag])
        self.z = self.obs(self.member("obs_", 4))
        self.W = a.vals(9)      # column-major; the transposed factor of a Cholesky decomposition
        for i in (1, 2, 5):
            self.W[i] = a.k(0)
        ob.put(self.member("sqrt_inv_cov_", 5), self.W)
        self.e2r, mem = self.posemem()
        ob.c[self.member("T_e2r_", 6)] = (mem, 0)

    def antenna(self, Xnb, Xrn, pg):
        k = self.a.k
        n = add(trans(k, Xnb), mat(rot(k, Xnb), pg, 3))
        r = add(trans(k, Xrn), mat(rot(k, Xrn), n, 3))
        return add(trans(k, self.e2r), mat(rot(k, self.e2r), r, 3))

    def ref_prange(self, P, drop=None):
        """drop: the point's own values, at which the slowly varying factors of the Doppler row are held for derivatives"""
        k = self.a.k
        one, c = k(1), k(C)
        Xnb, v, clk, Xrn, (sw,), pg = P
        sp, sv, sc = self.s

        def geometry(Xnb, Xrn, pg, v):
            p = self.antenna(Xnb, Xrn, pg)
            vel = mat(rot(k, self.e2r), mat(rot(k, Xrn), mat(rot(k, Xnb), v, 3), 3), 3)
            los = sub(sp, p)
            return p, vel, los, dot(los, los).sqrt()
        p, vel, los, n = geometry(Xnb, Xrn, pg, v)
        rng = n + self.sag
        pr = rng + self.io + self.tro + c * (clk[0] * k(NS) - sc[0])
        rate = c * (clk[1] * k(NS) - sc[1])
        if drop:
            p0, vel0, los0, n0 = geometry(drop[0], drop[3], drop[5], drop[1])
            e0 = [x / n0 for x in los0]
            dop = self.dop0(drop) + (dot(sub(vel0, vel), e0) + rate - c * (drop[2][1] * k(NS) - sc[1]))
        else:
            u = [x / rng for x in los]
            dop = dot(sub(sv, vel), u) + k(OM) / c * (sv[1] * p[0] + sp[1] * vel[0] - sv[0] * p[1] - sp[0] * vel[1]) + rate
        r = [sw * (pr - self.z[0]), sw * (dop - self.z[1]), one - sw]
        return mat(tr(self.W), r, 3)

    def dop0(self, P):
        """Doppler estimate at the point"""
        k = self.a.k
        c = k(C)
        Xnb, v, clk, Xrn, _, pg = P
        sp, sv, sc = self.s
        p = self.antenna(Xnb, Xrn, pg)
        vel = mat(rot(k, self.e2r), mat(rot(k, Xrn), mat(rot(k, Xnb), v, 3), 3), 3)
        los = sub(sp, p)
        rng = dot(los, los).sqrt() + self.sag
        return dot(sub(sv, vel), [x / rng for x in los]) + k(OM) / c * (sv[1] * p[0] + sp[1] * vel[0] - sv[0] * p[1] - sp[0] * vel[1]) + c * (clk[1] * k(NS) - sc[1])

    # ---- relative carrier phase
    def make_relcp(self):
        ob = self.ob
        self.dphi, self.lam, self.xi = self.a.vals(3)
        for i, (n, v) in enumerate((("dPhi_", self.dphi), ("lambda_", self.lam), ("Xi_", self.xi))):
            ob.put(self.member(n, i), [v])
        self.s1, self.s2 = self.sat(self.member("sat1_", 3)), self.sat(self.member("sat2_", 4))
        self.e2r, mem = self.posemem()
        ob.c[self.member("T_e2r_", 5)] = (mem, 0)

    def ref_relcp(self, P, drop=None):
        k = self.a.k
        c = k(C)
        X1, X2, c1, c2, (w1,), (w2,), Xrn, pg = P

        def est(X, clk, s, X0, Xrn0, pg0):
            p = self.antenna(X, Xrn, pg)
            los = sub(s[0], p)
            q = self.antenna(X0, Xrn0, pg0)
            return dot(los, los).sqrt() + k(OM) * (s[0][0] * q[1] - s[0][1] * q[0]) / c + c * (clk[0] * k(NS) - s[2][0])
        Q = drop or P
        e1 = est(X1, c1, self.s1, Q[0], Q[6], Q[7])
        e2 = est(X2, c2, self.s2, Q[1], Q[6], Q[7])
        return [self.xi * w1 * w2 * (self.dphi - self.lam * (e2 - e1))]

    # ---- pose prior
    def make_pose(self):
        self.anc = self.a.pose()
        inv = conj(self.anc[:4]) + conj(self.anc[4:])
        embed(self.ob, self.member("anchor_inv_", 0), dquat(self.m, inv))
        # the maps of the embedded pose point into the model object
        off = self.member("anchor_inv_", 0)
        self.w = self.a.vals(6)
        self.ob.put(self.member("Xi_", 1), self.w)

    def ref_pose(self, P, drop=None):
        X, = P
        A = conj(self.anc[:4]) + conj(self.anc[4:])
        q = qmul(A[:4], X[:4])
        d = add(qmul(A[:4], X[4:]), qmul(A[4:], X[:4]))
        return [x * y for x, y in zip(self.w, log6(self.a.p, q + d))]

    # ---- GNSS clock and switch dynamics
    def make_dyn(self):
        self.dt, = self.a.vals(1)
        self.ob.put(self.member("dt_", 0), [self.dt])
        self.w = self.a.vals(3)
        if self.ob.f.get("Xi_", (0, 8))[1] == 24:
            self.ob.put(self.member("Xi_", 1), self.w)
        else:
            self.ob.c[self.member("Xi_", 1)] = (Obj().put(0, self.w), 0)

    def ref_dyn(self, P, drop=None):
        a, b, (s1,), (s2,) = P
        k = self.a.k
        return [self.w[0] * (b[0] - a[0] - (a[1] + b[1]) / k(2) * self.dt), self.w[1] * (b[1] - a[1]), self.w[2] * (s2 - s1)]

    # ---- preintegrated IMU
    def make_imu(self):
        a, m, ob = self.a, self.m, self.ob
        typ = next(t for t in ("mc::models::ImuModel::History",))
        H = {n: o for n, o, s, _ in m.fields(typ)}
        size = m.type(typ)["size"]
        S = {n: o for n, o, s, _ in m.fields("mc::models::ImuState")}
        self.hist, self.size, self.zt = Obj(), size, H["z"] + next(o for n, o, s, _ in m.fields("mc::meas::ImuSample") if n == "t")
        last = 2 * size
        self.b0 = a.vals(6)
        ob.put(self.member("bias_", 0), self.b0)
        self.al, self.be, self.ga = a.vals(3), a.vals(3), a.pose()[:4]
        self.J = a.vals(54)     # column-major
        h = self.hist
        h.put(last + H["state"] + S["alpha"], self.al).put(last + H["state"] + S["beta"], self.be)
        q = {n: o for n, o, s, _ in m.fields("mc::math::Quat<double>")}
        g = last + H["state"] + S["gamma"]
        h.c[g + q["arr_"]] = (h, g)
        h.put(g + q["buf_"], self.ga)
        h.put(last + H["dstate_dbias"], self.J)
        v = self.member("history_", 3)
        ob.c[v], ob.c[v + 8], ob.c[v + 16] = (h, 0), (h, 3 * size), (h, 4 * size)
        self.dt, = a.vals(1)

    def ref_imu(self, P, drop=None):
        k, p = self.a.k, self.a.p
        Xi, Xj, vi, vj, b = P
        db = sub(b, self.b0)
        de = [dot([self.J[9 * c + r] for c in range(6)], db) for r in range(9)]
        ga = qmul(self.ga, expq(p, de[6:]))
        g = [k(0), k(0), k(G0)]
        Ri = tr(rot(k, Xi))
        half = k(Fraction(1, 2))
        dp = sub(trans(k, Xj), trans(k, Xi))
        r1 = mat(Ri, [x - half * y * self.dt * self.dt for x, y in zip(dp, g)], 3)
        r1 = [x - y * self.dt - u - w for x, y, u, w in zip(r1, vi, self.al, de[:3])]
        Rg = rotm(ga, k(1))
        r2 = [x - y - z * self.dt - u - w for x, y, z, u, w in zip(mat(Rg, vj, 3), vi, mat(Ri, g, 3), self.be, de[3:6])]
        e = qmul(conj(ga), qmul(conj(Xi[:4]), Xj[:4]))
        self.err = e
        return r1 + r2 + log3(p, e)

    def atom(self, P, globs):
        """values of the initial memory for the parameters P"""
        def f(t):
            if t.op == "init" and t.w == "f":
                o = t.a[0]
                if o[0] == "arg" and 1 <= o[1] <= len(P):
                    i, r = divmod(t.a[1], 8)
                    return P[o[1] - 1][i] if not r and i < len(P[o[1] - 1]) else None
                if o[0] == "glob":
                    g = globs.get((o, t.a[1]))
                    return self.a.k(SNAP(vg.fval(g)) if isinstance(self.a, FieldAlg) else vg.fval(g)) if g is not None and g.op == "cf" else None
                return self.res(t)
            if t.op == "call" and t.a[0] == "seconds":
                return self.time(t)
            return None
        return f

    def time(self, t):
        """tf - t0"""
        if self.name != "imu":
            return None
        out = []
        for x in t.a[1:]:
            o = self.res.ptr(x)
            if o is None or o[0] is not self.hist:
                return None
            out.append(o[1])
        tf, t0 = 2 * self.size + self.zt, self.zt
        return self.dt if out == [tf, t0] else -self.dt if out == [t0, tf] else None

    def ref(self, P, drop=None):
        return getattr(self, "ref_" + self.name)(P, drop)
