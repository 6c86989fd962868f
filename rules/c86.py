import vg, pit
from pit import D, K
from lielib import *
TITLE = "Rotation and pose types act as one group"
TECH = "value graphs of the library's operations: algebraic identity testing over a prime field on every branch (LLVM IR)"
RULE = """Each operation of Quat, DQuat, SO3 and SE3 is compared, component by component, with an independent definition (Hamilton product, rotation matrix, screw composition) for unit elements: product, inverse, identity,
constructors, conversions, rotation and transformation of vectors, adjoint, parameter Jacobians, Euler angles and axis-angle. Both sides are evaluated at random points of a prime field; conversions with branches are evaluated on the
branch taken at 24 representative rotations, and must hold there identically."""
ASSUME = ("exact arithmetic", "elements have unit norm, as the types' constructors expect", "from_two_unit_vectors: vectors neither parallel nor opposite")
FILE = {"q": "quat.h Quat", "d": "dquat.h DQuat", "r": "so3.h SO3", "s": "se3.h SE3"}


class El:
    """a random group element: r quaternion, d dual part, t translation"""

    def __init__(self, p):
        self.p = p
        self.r, self.t = unitq(p), vec(p, 3)
        self.d = [x / K(2) for x in qmul(pure(self.t), self.r)]
        self.R = rotm(self.r, K(1))
        self.S = self.R + self.t
        self.Q = self.r + self.d


def prod(a, b):
    """of dual quaternions"""
    return qmul(a[:4], b[:4]) + add(qmul(a[:4], b[4:]), qmul(a[4:], b[:4]))


def sprod(a, b):
    return matmul(a[:9], b[:9], 3) + add(mat(a[:9], b[9:]), a[9:])


def adj(R, t):
    z = [K(0)] * 3
    sk = [K(0), -t[2], t[1], t[2], K(0), -t[0], -t[1], t[0], K(0)]
    B = matmul(sk, R, 3)
    out = []
    for i in range(3):
        out += R[3 * i:3 * i + 3] + z
    for i in range(3):
        out += B[3 * i:3 * i + 3] + R[3 * i:3 * i + 3]
    return out


def cols(v):
    """3x2 row-major from two vectors"""
    return [v[0], v[3], v[1], v[4], v[2], v[5]]


def run(ctx):
    lib = Lib(ctx)
    one = [K(1)] + [K(0)] * 3
    I3 = [K(int(i == j)) for i in range(3) for j in range(3)]
    h = K(1) / K(2)

    def dpdg(q):
        c = [qmul(q, pure([h if i == j else K(0) for i in range(3)])) for j in range(3)]
        return [c[j][i] for i in range(4) for j in range(3)]
    T = {  # name: (inputs, what is expected)
        "q_mul": lambda a, b, v: (a.r, b.r, qmul(a.r, b.r)), "q_otimes": lambda a, b, v: (a.r, b.r, qmul(a.r, b.r)), "q_muleq": lambda a, b, v: (a.r, b.r, qmul(a.r, b.r)),
        "q_inverse": lambda a, b, v: (a.r, [], conj(a.r)), "q_identity": lambda a, b, v: ([], [], one), "q_default": lambda a, b, v: ([], [], one), "q_copy": lambda a, b, v: (a.r, [], a.r),
        "q_normalize": lambda a, b, v: ([x * (v[0] * v[0]) for x in a.r], [], a.r),
        "q_R": lambda a, b, v: (a.r, [], tr(a.R)), "q_Ad": lambda a, b, v: (a.r, [], a.R),
        "q_rotp": lambda a, b, v: (a.r, v[:3], mat(tr(a.R), v[:3])), "q_rota": lambda a, b, v: (a.r, v[:3], mat(a.R, v[:3])),
        "q_pure": lambda a, b, v: (v[:3], [], pure(v[:3])), "q_plus": lambda a, b, v: (a.r, b.r, add(a.r, b.r)), "q_minus": lambda a, b, v: (a.r, b.r, sub(a.r, b.r)),
        "q_times": lambda a, b, v: (a.r, v[:1], [v[0] * x for x in a.r]), "q_timesl": lambda a, b, v: (a.r, v[:1], [v[0] * x for x in a.r]),
        "q_dpdg": lambda a, b, v: (a.r, [], dpdg(a.r)),
        "d_mul": lambda a, b, v: (a.Q, b.Q, prod(a.Q, b.Q)), "d_inverse": lambda a, b, v: (a.Q, [], conj(a.r) + conj(a.d)), "d_identity": lambda a, b, v: ([], [], one + [K(0)] * 4),
        "d_default": lambda a, b, v: ([], [], one + [K(0)] * 4), "d_scalars": lambda a, b, v: (a.Q, [], a.Q), "d_copy": lambda a, b, v: (a.Q, [], a.Q),
        "d_translation": lambda a, b, v: (a.Q, [], a.t), "d_make": lambda a, b, v: (a.r, a.t, a.Q),
        "d_transforma": lambda a, b, v: (a.Q, v[:3], add(mat(a.R, v[:3]), a.t)), "d_transformp": lambda a, b, v: (a.Q, v[:3], mat(tr(a.R), sub(v[:3], a.t))),
        "d_rotp": lambda a, b, v: (a.Q, v[:3], mat(tr(a.R), v[:3])), "d_rota": lambda a, b, v: (a.Q, v[:3], mat(a.R, v[:3])),
        "d_Ad": lambda a, b, v: (a.Q, [], adj(a.R, a.t)), "d_R": lambda a, b, v: (a.Q, [], tr(a.R)),
        "r_mul": lambda a, b, v: (a.R, b.R, matmul(a.R, b.R, 3)), "r_times": lambda a, b, v: (a.R, b.R, matmul(a.R, b.R, 3)), "r_inverse": lambda a, b, v: (a.R, [], tr(a.R)),
        "r_transpose": lambda a, b, v: (a.R, [], tr(a.R)), "r_identity": lambda a, b, v: ([], [], I3), "r_rotp": lambda a, b, v: (a.R, v[:3], mat(a.R, v[:3])),
        "r_rota": lambda a, b, v: (a.R, v[:3], mat(tr(a.R), v[:3])), "r_apply": lambda a, b, v: (a.R, v[:3], mat(a.R, v[:3])), "r_Ad": lambda a, b, v: (a.R, [], a.R),
        "r_fromq": lambda a, b, v: (a.r, [], tr(a.R)),
        "s_mul": lambda a, b, v: (a.S, b.S, sprod(a.S, b.S)), "s_inverse": lambda a, b, v: (a.S, [], tr(a.R) + [-x for x in mat(tr(a.R), a.t)]), "s_identity": lambda a, b, v: ([], [], I3 + [K(0)] * 3),
        "s_default": lambda a, b, v: ([], [], I3 + [K(0)] * 3), "s_transformp": lambda a, b, v: (a.S, v[:3], add(mat(a.R, v[:3]), a.t)),
        "s_apply": lambda a, b, v: (a.S, v[:3], add(mat(a.R, v[:3]), a.t)), "s_transforma": lambda a, b, v: (a.S, v[:3], mat(tr(a.R), sub(v[:3], a.t))),
        "s_frommatrix": lambda a, b, v: (a.S, [], a.S),
        "s_matrix": lambda a, b, v: (a.S, [], a.R[:3] + [a.t[0]] + a.R[3:6] + [a.t[1]] + a.R[6:] + [a.t[2]] + [K(0)] * 3 + [K(1)]),
        "s_Ad": lambda a, b, v: (a.S, [], adj(a.R, a.t)),
    }
    for name in ("rotp", "rota"):
        for f in ("q_double%s" % name, "q_%s2" % name):
            T[f] = lambda a, b, v, n=name: (a.r, v, cols(mat(tr(a.R) if n == "rotp" else a.R, v[:3]) + mat(tr(a.R) if n == "rotp" else a.R, v[3:6])))
    for name, f in T.items():
        def one_(seed):
            p = pit.Point(seed)
            a, b = El(p), El(p)
            A, B, want = f(a, b, vec(p, 6))
            p.atom = atom(A, B)
            return [p(t) for t in lib.terms(name, 2, len(want))] == want
        check(ctx, name, one_, "differs from its definition")
    # parameter Jacobians
    def jac(seed, t):
        p = pit.Point(seed)
        a = El(p)
        n, k = (4, 3) if t == "q" else (8, 6)
        p.atom = atom(a.r if t == "q" else a.Q)
        G, P = [p(x) for x in lib.terms(t + "_dgdp", 2, n * k)], [p(x) for x in lib.terms(t + "_dpdg", 2, n * k)]
        ok = matmul(G, P, n) == [K(int(i == j)) for i in range(k) for j in range(k)]
        if t == "q":
            return ok and mat(G, a.r) == [K(0)] * 3
        q, d = dpdg(a.r), dpdg(a.d)
        want = []
        for i in range(4):
            want += q[3 * i:3 * i + 3] + [K(0)] * 3
        for i in range(4):
            want += d[3 * i:3 * i + 3] + q[3 * i:3 * i + 3]
        return ok and P == want
    check(ctx, "q_dgdp", lambda s: jac(s, "q"), "is not the inverse of dParamDGen on the tangent space")
    check(ctx, "d_dgdp", lambda s: jac(s, "d"), "dGenDParam and dParamDGen are not each other's inverse or not the derivative of the parameters")
    # conversions from matrices: every branch
    reps = []
    for ax in AX + [tuple(-x for x in a) for a in AX] + [(1, 0, 0), (0, 1, 0), (0, 0, 1), (0.57, -0.58, 0.58), (-0.7, 0.7, 0.1), (0.1, 0.7, 0.7)]:
        for th in (0.3, 2.0, 3.0, 3.1415):
            reps.append([th * x for x in ax])
    for name in ("q_from_R", "r_q", "d_from_4x4"):
        n = 8 if name[0] == "d" else 4
        ts = lib.terms(name, 2, n)
        bad = []
        for w in reps:
            q = fexpq(w)
            R = frot(q)
            R = [R[3 * j + i] for i in range(3) for j in range(3)]
            g = guard(R + [0.3, 0.4, -0.5])

            def conv(seed):
                p = pit.Point(seed, guard=g)
                a = El(p)
                if name[0] == "d":
                    # the matrix takes points as R() does, its last column is the translation in that frame
                    p.atom = atom(tr(a.R) + mat(tr(a.R), a.t))
                    o = [p(t) for t in ts]
                    return o == a.Q or [-x for x in o] == a.Q
                p.atom = atom(tr(a.R))
                o = [p(t) for t in ts]
                return o == a.r or [-x for x in o] == a.r
            if not all(pit.points(2, conv)):
                bad.append("for rotation vector %s" % (w,))
        ctx.add("branches", "%s at %d rotations" % (name, len(reps)))
        ctx.ob(name, not bad, "common/math/%s::%s" % (FILE[name[0]], name[2:]), "is not the inverse of R() (%d), %s" % (len(bad), "; ".join(bad[:2])))
    # axis and angle, two vectors, Euler angles
    def aa(seed, t):
        p = pit.Point(seed)
        th = D(p.rnd() ** 2)
        p.angle(value=(th / K(2)).v, sin=1)
        n = axis(p)
        s, c = p.trig(th / K(2))
        q = [c] + [s * x for x in n]
        if t == "q":
            p.atom = atom(n, [th])
            return [p(x) for x in lib.terms("q_axis", 2, 4)] == q
        p.guard = guard([0.6, 0, 0.8], [1.1])
        k = K(1) if t == "r" else D(p.rnd() ** 2)
        p.atom = atom([k * x for x in n], [th])
        return [p(x) for x in lib.terms("r_axis", 2, 9)] == tr(rotm(q, K(1)))
    check(ctx, "q_axis", lambda s: aa(s, "q"), "is not the rotation by the angle about the axis")
    check(ctx, "r_axis", lambda s: aa(s, "r"), "is not the rotation Quat gives for the same axis and angle")

    def two(seed, t):
        p = pit.Point(seed, guard=guard([1, 0, 0], [0.6, 0.8, 0]))
        u = axis(p)
        n = cross(u, axis(p))
        ln = dot(n, n).sqrt()
        n = [x / ln for x in n]
        th = D(p.rnd() ** 2)
        p.angle(value=(th / K(2)).v, sin=1, cos=1)
        s, c = p.trig(th)
        if not pit.issq(s.v):
            raise pit.Resample
        v = add([c * x for x in u], [s * x for x in cross(n, u)])
        p.atom = atom(u, v)
        if t == "q":
            q = [p(x) for x in lib.terms("q_two", 2, 4)]
            return mat(tr(rotm(q, K(1))), u) == v and dot(q, q) == K(1)
        R = [p(x) for x in lib.terms("r_two", 2, 9)]
        return mat(R, u) == v and matmul(R, tr(R), 3) == I3
    check(ctx, "q_two", lambda s: two(s, "q"), "rotp does not take the first vector to the second")
    check(ctx, "r_two", lambda s: two(s, "r"), "rotp does not take the first vector to the second")

    def eul(seed, back):
        p = pit.Point(seed, guard=guard(fexpq([0.3, -0.2, 0.5])) if back else None)
        r, t, y = (D(p.rnd() ** 2) for _ in range(3))
        p.angle(value=(r / K(2)).v)
        p.angle(value=(t / K(2)).v)
        p.angle(value=(y / K(2)).v)
        if not pit.issq(p.trig(t)[1].v):
            raise pit.Resample
        z = K(0)
        f = lambda a, i: [p.trig(a / K(2))[1]] + [p.trig(a / K(2))[0] if i == j else z for j in range(3)]
        q = qmul(f(y, 2), qmul(f(t, 1), f(r, 0)))
        if back:
            p.atom = atom(q)
            return [p(x) for x in lib.terms("q_toeuler", 2, 3)] == [r, t, y]
        p.atom = atom([r, t, y])
        return all([p(x) for x in lib.terms(n, 2, 4)] == q for n in ("q_euler", "q_rpy"))
    check(ctx, "q_euler", lambda s: eul(s, False), "is not the rotation by roll, pitch and yaw")
    check(ctx, "q_toeuler", lambda s: eul(s, True), "does not give back roll, pitch and yaw")


def check(ctx, name, f, text):
    try:
        ok = all(pit.points(2, f))
    except vg.Broken as e:
        ok, text = False, str(e)
    ctx.ob(name, ok, "common/math/%s::%s" % (FILE[name[0]], name[2:]), text)
