// The rotation and pose types with plain arrays in and out (quaternions w x y z, matrices row by row).
#include "common/math/dquat.h"
#include "common/math/quat.h"
#include "common/math/se3.h"
#include "common/math/so3.h"
using namespace mc;
using math::DQuat;
using math::Quat;
using math::SE3;
using math::SO3;
using In = const double* __restrict;
using Out_ = double* __restrict;
#define X extern "C" void
static inline Vec3 v3(In p) { return Vec3(p[0], p[1], p[2]); }
static inline Vec6 v6(In p)
{
    Vec6 v;
    for (int i = 0; i < 6; ++i) v(i) = p[i];
    return v;
}
static inline Mat3 m3(In p)
{
    Mat3 m;
    for (int i = 0; i < 9; ++i) m(i / 3, i % 3) = p[i];
    return m;
}
static inline Quat<double> q4(In p) { return Quat<double>(p[0], p[1], p[2], p[3]); }
static inline DQuat<double> d8(In p) { return DQuat<double>(q4(p), q4(p + 4)); }
static inline SE3<double> s12(In p) { return SE3<double>(m3(p), v3(p + 9)); }
template <typename M>
static inline void put(Out_ o, const M& m)
{
    for (int i = 0; i < m.rows(); ++i)
        for (int j = 0; j < m.cols(); ++j) o[i * m.cols() + j] = m(i, j);
}
static inline void put(Out_ o, const Quat<double>& q)
{
    o[0] = q.w();
    o[1] = q.x();
    o[2] = q.y();
    o[3] = q.z();
}
static inline void put(Out_ o, const DQuat<double>& q)
{
    put(o, q.real());
    put(o + 4, q.dual());
}
static inline void put(Out_ o, const SO3<double>& r) { put(o, r.matrix()); }
static inline void put(Out_ o, const SE3<double>& s)
{
    put(o, s.r_.matrix());
    put(o + 9, s.t_);
}
constexpr auto L = JacobianSide::LEFT;
constexpr auto R_ = JacobianSide::RIGHT;
// ---- quaternion
X vs_q_exp(In a, Out_ o, Out_ j) { put(o, Quat<double>::exp(v3(a))); }
X vs_q_expl(In a, Out_ o, Out_ j)
{
    Mat3 m;
    put(o, Quat<double>::exp<L>(v3(a), &m));
    put(j, m);
}
X vs_q_expr(In a, Out_ o, Out_ j)
{
    Mat3 m;
    put(o, Quat<double>::exp<R_>(v3(a), &m));
    put(j, m);
}
X vs_q_log(In a, Out_ o, Out_ j) { put(o, q4(a).log()); }
X vs_q_logl(In a, Out_ o, Out_ j)
{
    Mat3 m;
    put(o, q4(a).log<L>(&m));
    put(j, m);
}
X vs_q_logr(In a, Out_ o, Out_ j)
{
    Mat3 m;
    put(o, q4(a).log<R_>(&m));
    put(j, m);
}
X vs_q_mul(In a, In b, Out_ o) { put(o, q4(a) * q4(b)); }
X vs_q_otimes(In a, In b, Out_ o) { put(o, q4(a).otimes(q4(b))); }
X vs_q_muleq(In a, In b, Out_ o)
{
    Quat<double> q = q4(a);
    q *= q4(b);
    put(o, q);
}
X vs_q_inverse(In a, In b, Out_ o) { put(o, q4(a).inverse()); }
X vs_q_identity(In a, In b, Out_ o) { put(o, Quat<double>::Identity()); }
X vs_q_default(In a, In b, Out_ o) { put(o, Quat<double>()); }
X vs_q_copy(In a, In b, Out_ o) { put(o, q4(a).copy()); }
X vs_q_normalize(In a, In b, Out_ o)
{
    Quat<double> q = q4(a);
    q.normalize();
    put(o, q);
}
X vs_q_R(In a, In b, Out_ o) { put(o, q4(a).R()); }
X vs_q_Ad(In a, In b, Out_ o) { put(o, q4(a).Ad()); }
X vs_q_rotp(In a, In b, Out_ o) { put(o, q4(a).rotp(v3(b))); }
X vs_q_rota(In a, In b, Out_ o) { put(o, q4(a).rota(v3(b))); }
X vs_q_doublerotp(In a, In b, Out_ o)
{
    Eigen::Matrix<double, 3, 2> v;
    v << v3(b), v3(b + 3);
    put(o, q4(a).doublerotp(v));
}
X vs_q_doublerota(In a, In b, Out_ o)
{
    Eigen::Matrix<double, 3, 2> v;
    v << v3(b), v3(b + 3);
    put(o, q4(a).doublerota(v));
}
X vs_q_rotp2(In a, In b, Out_ o)
{
    Eigen::Matrix<double, 3, 2> v;
    v << v3(b), v3(b + 3);
    put(o, q4(a).rotp(v));
}
X vs_q_rota2(In a, In b, Out_ o)
{
    Eigen::Matrix<double, 3, 2> v;
    v << v3(b), v3(b + 3);
    put(o, q4(a).rota(v));
}
X vs_q_from_R(In a, In b, Out_ o) { put(o, Quat<double>::from_R(m3(a))); }
X vs_q_axis(In a, In b, Out_ o) { put(o, Quat<double>::from_axis_angle(v3(a), *b)); }
X vs_q_two(In a, In b, Out_ o) { put(o, Quat<double>::from_two_unit_vectors(v3(a), v3(b))); }
X vs_q_euler(In a, In b, Out_ o) { put(o, Quat<double>::from_euler(a[0], a[1], a[2])); }
X vs_q_rpy(In a, In b, Out_ o) { put(o, Quat<double>(a[0], a[1], a[2])); }
X vs_q_toeuler(In a, In b, Out_ o) { put(o, q4(a).euler()); }
X vs_q_dpdg(In a, In b, Out_ o) { put(o, q4(a).dParamDGen()); }
X vs_q_dgdp(In a, In b, Out_ o) { put(o, q4(a).dGenDParam()); }
X vs_q_pure(In a, In b, Out_ o) { put(o, Quat<double>::make_pure(v3(a))); }
X vs_q_plus(In a, In b, Out_ o) { put(o, q4(a) + q4(b)); }
X vs_q_minus(In a, In b, Out_ o) { put(o, q4(a) - q4(b)); }
X vs_q_times(In a, In b, Out_ o) { put(o, q4(a) * *b); }
X vs_q_timesl(In a, In b, Out_ o) { put(o, *b * q4(a)); }
// ---- dual quaternion
X vs_d_exp(In a, Out_ o, Out_ j) { put(o, DQuat<double>::exp(v6(a))); }
X vs_d_expl(In a, Out_ o, Out_ j)
{
    Mat6 m;
    put(o, DQuat<double>::exp<L>(v6(a), &m));
    put(j, m);
}
X vs_d_expr(In a, Out_ o, Out_ j)
{
    Mat6 m;
    put(o, DQuat<double>::exp<R_>(v6(a), &m));
    put(j, m);
}
X vs_d_log(In a, Out_ o, Out_ j) { put(o, d8(a).log()); }
X vs_d_logl(In a, Out_ o, Out_ j)
{
    Mat6 m;
    put(o, d8(a).log<L>(&m));
    put(j, m);
}
X vs_d_logr(In a, Out_ o, Out_ j)
{
    Mat6 m;
    put(o, d8(a).log<R_>(&m));
    put(j, m);
}
X vs_d_mul(In a, In b, Out_ o) { put(o, d8(a) * d8(b)); }
X vs_d_inverse(In a, In b, Out_ o) { put(o, d8(a).inverse()); }
X vs_d_identity(In a, In b, Out_ o) { put(o, DQuat<double>::Identity()); }
X vs_d_default(In a, In b, Out_ o) { put(o, DQuat<double>()); }
X vs_d_scalars(In a, In b, Out_ o) { put(o, DQuat<double>(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7])); }
X vs_d_copy(In a, In b, Out_ o)
{
    DQuat<double> p = d8(a), q;
    q = p;
    put(o, q);
}
X vs_d_translation(In a, In b, Out_ o) { put(o, d8(a).translation()); }
X vs_d_make(In a, In b, Out_ o) { put(o, DQuat<double>(q4(a), v3(b))); }
X vs_d_transformp(In a, In b, Out_ o) { put(o, d8(a).transformp(v3(b))); }
X vs_d_transforma(In a, In b, Out_ o) { put(o, d8(a).transforma(v3(b))); }
X vs_d_rotp(In a, In b, Out_ o)
{
    Vec3 v = v3(b);
    put(o, Vec3(d8(a).rotp(v)));
}
X vs_d_rota(In a, In b, Out_ o)
{
    Vec3 v = v3(b);
    put(o, Vec3(d8(a).rota(v)));
}
X vs_d_Ad(In a, In b, Out_ o) { put(o, d8(a).Ad()); }
X vs_d_R(In a, In b, Out_ o) { put(o, d8(a).R()); }
X vs_d_from_4x4(In a, In b, Out_ o)
{
    Mat4 m;
    m << m3(a), v3(a + 9), 0, 0, 0, 1;
    put(o, DQuat<double>::from_4x4(m));
}
X vs_d_dpdg(In a, In b, Out_ o) { put(o, d8(a).dParamDGen()); }
X vs_d_dgdp(In a, In b, Out_ o) { put(o, d8(a).dGenDParam()); }
// ---- rotation matrix
X vs_r_exp(In a, Out_ o, Out_ j) { put(o, SO3<double>::exp(v3(a))); }
X vs_r_expl(In a, Out_ o, Out_ j)
{
    Mat3 m;
    put(o, SO3<double>::exp(v3(a), &m));
    put(j, m);
}
X vs_r_log(In a, Out_ o, Out_ j) { put(o, SO3<double>(m3(a)).log()); }
X vs_r_logl(In a, Out_ o, Out_ j)
{
    Mat3 m;
    put(o, SO3<double>(m3(a)).log(&m));
    put(j, m);
}
X vs_r_mul(In a, In b, Out_ o) { put(o, SO3<double>(m3(a)) * SO3<double>(m3(b))); }
X vs_r_times(In a, In b, Out_ o) { put(o, SO3<double>(m3(a)).times(SO3<double>(m3(b)))); }
X vs_r_inverse(In a, In b, Out_ o) { put(o, SO3<double>(m3(a)).inverse()); }
X vs_r_transpose(In a, In b, Out_ o) { put(o, SO3<double>(m3(a)).transpose()); }
X vs_r_identity(In a, In b, Out_ o) { put(o, SO3<double>::Identity()); }
X vs_r_rotp(In a, In b, Out_ o) { put(o, SO3<double>(m3(a)).rotp(v3(b))); }
X vs_r_rota(In a, In b, Out_ o) { put(o, SO3<double>(m3(a)).rota(v3(b))); }
X vs_r_apply(In a, In b, Out_ o) { put(o, SO3<double>(m3(a)) * v3(b)); }
X vs_r_Ad(In a, In b, Out_ o) { put(o, SO3<double>(m3(a)).Ad()); }
X vs_r_axis(In a, In b, Out_ o) { put(o, SO3<double>::from_axis_angle(v3(a), *b)); }
X vs_r_two(In a, In b, Out_ o) { put(o, SO3<double>::from_two_unit_vectors(v3(a), v3(b))); }
X vs_r_q(In a, In b, Out_ o) { put(o, SO3<double>(m3(a)).q()); }
X vs_r_fromq(In a, In b, Out_ o) { put(o, SO3<double>(q4(a))); }
// ---- rigid transformation
X vs_s_exp(In a, Out_ o, Out_ j) { put(o, SE3<double>::exp(v6(a))); }
X vs_s_expl(In a, Out_ o, Out_ j)
{
    Mat6 m;
    put(o, SE3<double>::exp(v6(a), &m));
    put(j, m);
}
X vs_s_log(In a, Out_ o, Out_ j) { put(o, s12(a).log()); }
X vs_s_logl(In a, Out_ o, Out_ j)
{
    Mat6 m;
    put(o, s12(a).log(&m));
    put(j, m);
}
X vs_s_mul(In a, In b, Out_ o) { put(o, s12(a) * s12(b)); }
X vs_s_inverse(In a, In b, Out_ o) { put(o, s12(a).inverse()); }
X vs_s_identity(In a, In b, Out_ o) { put(o, SE3<double>::Identity()); }
X vs_s_default(In a, In b, Out_ o) { put(o, SE3<double>()); }
X vs_s_transformp(In a, In b, Out_ o) { put(o, s12(a).transformp(v3(b))); }
X vs_s_transforma(In a, In b, Out_ o) { put(o, s12(a).transforma(v3(b))); }
X vs_s_apply(In a, In b, Out_ o) { put(o, s12(a) * v3(b)); }
X vs_s_matrix(In a, In b, Out_ o) { put(o, s12(a).matrix()); }
X vs_s_frommatrix(In a, In b, Out_ o)
{
    Mat4 m;
    m << m3(a), v3(a + 9), 0, 0, 0, 1;
    put(o, SE3<double>(m));
}
X vs_s_Ad(In a, In b, Out_ o) { put(o, s12(a).Ad()); }
