// The factor models' Evaluate with every parameter, residual and Jacobian block as an argument of its own.
#include "models/gnss_dynamics_model.h"
#include "models/imu_model.h"
#include "models/pose_error_model.h"
#include "models/prange_model.h"
#include "models/relative_carrier_phase_model.h"
using In = const double* __restrict;
using Out_ = double* __restrict;
#define X extern "C" bool
namespace md = mc::models;
X vs_prange(const md::PseudorangeModel* __restrict m, In p0, In p1, In p2, In p3, In p4, In p5, Out_ r, Out_ j0, Out_ j1, Out_ j2, Out_ j3, Out_ j4, Out_ j5)
{
    const double* p[] = {p0, p1, p2, p3, p4, p5};
    double* j[] = {j0, j1, j2, j3, j4, j5};
    return m->Evaluate(p, r, j);
}
X vn_prange(const md::PseudorangeModel* __restrict m, In p0, In p1, In p2, In p3, In p4, In p5, Out_ r)
{
    const double* p[] = {p0, p1, p2, p3, p4, p5};
    return m->Evaluate(p, r, nullptr);
}
X vs_relcp(const md::RelativeCarrierPhase* __restrict m, In p0, In p1, In p2, In p3, In p4, In p5, In p6, In p7, Out_ r, Out_ j0, Out_ j1, Out_ j2, Out_ j3, Out_ j4, Out_ j5, Out_ j6, Out_ j7)
{
    const double* p[] = {p0, p1, p2, p3, p4, p5, p6, p7};
    double* j[] = {j0, j1, j2, j3, j4, j5, j6, j7};
    return m->Evaluate(p, r, j);
}
X vn_relcp(const md::RelativeCarrierPhase* __restrict m, In p0, In p1, In p2, In p3, In p4, In p5, In p6, In p7, Out_ r)
{
    const double* p[] = {p0, p1, p2, p3, p4, p5, p6, p7};
    return m->Evaluate(p, r, nullptr);
}
X vs_pose(const md::PoseError* __restrict m, In p0, Out_ r, Out_ j0)
{
    const double* p[] = {p0};
    double* j[] = {j0};
    return m->Evaluate(p, r, j);
}
X vn_pose(const md::PoseError* __restrict m, In p0, Out_ r)
{
    const double* p[] = {p0};
    return m->Evaluate(p, r, nullptr);
}
X vs_dyn(const md::GnssDynamics* __restrict m, In p0, In p1, In p2, In p3, Out_ r, Out_ j0, Out_ j1, Out_ j2, Out_ j3)
{
    const double* p[] = {p0, p1, p2, p3};
    double* j[] = {j0, j1, j2, j3};
    return m->Evaluate(p, r, j);
}
X vn_dyn(const md::GnssDynamics* __restrict m, In p0, In p1, In p2, In p3, Out_ r)
{
    const double* p[] = {p0, p1, p2, p3};
    return m->Evaluate(p, r, nullptr);
}
X vs_imu(const md::ImuModel* __restrict m, In p0, In p1, In p2, In p3, In p4, Out_ r, Out_ j0, Out_ j1, Out_ j2, Out_ j3, Out_ j4)
{
    const double* p[] = {p0, p1, p2, p3, p4};
    double* j[] = {j0, j1, j2, j3, j4};
    return m->Evaluate(p, r, j);
}
X vn_imu(const md::ImuModel* __restrict m, In p0, In p1, In p2, In p3, In p4, Out_ r)
{
    const double* p[] = {p0, p1, p2, p3, p4};
    return m->Evaluate(p, r, nullptr);
}
extern "C" const char* vi_integrate(md::ImuModel* __restrict m, const mc::meas::ImuSample* __restrict s)
{
    const mc::Error e = m->integrate(*s);
    return *reinterpret_cast<const char* const*>(&e);
}
extern "C" const char* vi_end(const md::ImuModel* __restrict m, In start, In vel, Out_ end, Out_ endvel)
{
    const mc::math::DQuat<double> s(start);
    mc::math::DQuat<double> e;
    const Eigen::Map<const mc::Vec3> v(vel);
    mc::Vec3 ev;
    const mc::Error err = m->computeEndState(s, v, mc::Out<mc::math::DQuat<double>>(e), mc::Out<mc::Vec3>(ev));
    for (int i = 0; i < 8; ++i)
        end[i] = e.arr_(i);
    for (int i = 0; i < 3; ++i)
        endvel[i] = ev(i);
    return *reinterpret_cast<const char* const*>(&err);
}
extern "C" void vi_plus(const md::ImuState* __restrict x, In d, Out_ o)
{
    md::ImuErrorState e;
    for (int i = 0; i < 9; ++i)
        e(i) = d[i];
    md::ImuState r = *x + e;
    for (int i = 0; i < 10; ++i)
        o[i] = r(i);
}
extern "C" void vi_pluseq(const md::ImuState* __restrict x, In d, Out_ o)
{
    md::ImuErrorState e;
    for (int i = 0; i < 9; ++i)
        e(i) = d[i];
    md::ImuState r = *x;
    r += e;
    for (int i = 0; i < 10; ++i)
        o[i] = r(i);
}
extern "C" void vi_minus(const md::ImuState* __restrict x, const md::ImuState* __restrict y, Out_ o)
{
    md::ImuErrorState r = *x - *y;
    for (int i = 0; i < 9; ++i)
        o[i] = r(i);
}
extern "C" void vi_identity(Out_ o)
{
    md::ImuState r;
    r.setIdentity();
    for (int i = 0; i < 10; ++i)
        o[i] = r(i);
}
