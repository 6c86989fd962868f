// WGS84 conversions with plain arrays in and out.
#include "utils/wgs84.h"
using mc::utils::WGS84;
using Q = mc::math::DQuat<double>;
using In = const double* __restrict;
using Out_ = double* __restrict;
#define X extern "C" void
static inline Eigen::Vector3d v3(In p) { return Eigen::Vector3d(p[0], p[1], p[2]); }
static inline Q d8(In p) { return Q(mc::math::Quat<double>(p[0], p[1], p[2], p[3]), mc::math::Quat<double>(p[4], p[5], p[6], p[7])); }
static inline void put(Out_ o, const Eigen::Vector3d& v)
{
    o[0] = v(0);
    o[1] = v(1);
    o[2] = v(2);
}
static inline void put(Out_ o, const Q& q)
{
    o[0] = q.real().w();
    o[1] = q.real().x();
    o[2] = q.real().y();
    o[3] = q.real().z();
    o[4] = q.dual().w();
    o[5] = q.dual().x();
    o[6] = q.dual().y();
    o[7] = q.dual().z();
}
X vs_ecef2lla(In a, In b, Out_ o) { put(o, WGS84::ecef2lla(v3(a))); }
X vs_lla2ecef(In a, In b, Out_ o) { put(o, WGS84::lla2ecef(v3(a))); }
X vs_ecef2llap(In a, In b, Out_ o)
{
    Eigen::Vector3d v;
    WGS84::ecef2lla(v3(a), &v);
    put(o, v);
}
X vs_lla2ecefp(In a, In b, Out_ o)
{
    Eigen::Vector3d v;
    WGS84::lla2ecef(v3(a), &v);
    put(o, v);
}
X vs_dq(In a, In b, Out_ o) { put(o, WGS84::dq_ecef2ned(v3(a))); }
X vs_dqp(In a, In b, Out_ o)
{
    Q q;
    WGS84::dq_ecef2ned(v3(a), &q);
    put(o, q);
}
X vs_ned2ecef(In a, In b, Out_ o) { put(o, WGS84::ned2ecef(d8(a), v3(b))); }
X vs_ned2ecefp(In a, In b, Out_ o)
{
    Eigen::Vector3d v;
    WGS84::ned2ecef(d8(a), v3(b), &v);
    put(o, v);
}
X vs_ecef2ned(In a, In b, Out_ o) { put(o, WGS84::ecef2ned(d8(a), v3(b))); }
X vs_ecef2nedp(In a, In b, Out_ o)
{
    Eigen::Vector3d v;
    WGS84::ecef2ned(d8(a), v3(b), &v);
    put(o, v);
}
X vs_lla2ned(In a, In b, Out_ o) { put(o, WGS84::lla2ned(v3(a), v3(b))); }
X vs_lla2nedp(In a, In b, Out_ o)
{
    Eigen::Vector3d v;
    WGS84::lla2ned(v3(a), v3(b), &v);
    put(o, v);
}
X vs_ned2llap(In a, In b, Out_ o)
{
    Eigen::Vector3d v;
    WGS84::ned2lla(v3(a), v3(b), &v);
    put(o, v);
}
X vs_ned2lla(In a, In b, Out_ o) { put(o, WGS84::ned2lla(v3(a), v3(b))); }
X vs_qe2n(In a, In b, Out_ o)
{
    mc::math::Quat<double> q = WGS84::q_e2n(v3(a));
    o[0] = q.w();
    o[1] = q.x();
    o[2] = q.y();
    o[3] = q.z();
}
