// entry points of the generated filter types, at fixed numbers of single differences
#include <new>
#include "core/ekf/rtk_ekf.h"
using namespace mc;
using namespace mc::ekf;

template <int R, typename V>
static void out(double* o, const V& v)
{
    for (int j = 0; j < v.cols(); ++j)
        for (int i = 0; i < v.rows(); ++i) o[j * R + i] = v(i, j);
}

#define COUNT(N)                                                                                          \
    extern "C" void ve_assign_##N(State* o, State* x) { x->num_sd = N; *o = *x; }                          \
    extern "C" void ve_copy_##N(State* o, State* x) { x->num_sd = N; new (o) State(*x); }                  \
    extern "C" void ve_snap_##N(Snapshot* o, Snapshot* x) { x->x.num_sd = N; *o = *x; }                    \
    extern "C" void ve_plus_##N(State* o, State* x, const ErrorState* d) { x->num_sd = N; new (o) State(*x + *d); } \
    extern "C" void ve_pluseq_##N(State* o, const ErrorState* d) { o->num_sd = N; *o += *d; }              \
    extern "C" void ve_minus_##N(ErrorState* o, State* x, State* y) { x->num_sd = N; y->num_sd = N; *o = *x - *y; } \
    extern "C" bool ve_finite_##N(State* x) { x->num_sd = N; return mc::isFinite(*x); }                    \
    extern "C" void ve_dense_##N(double* o, const ErrorState* x) { out<64>(o, x->dense(N)); }              \
    extern "C" void ve_cdense_##N(double* o, const Covariance* x) { out<64>(o, x->dense(N)); }             \
    extern "C" void ve_qdense_##N(double* o, const ProcessCovariance* x) { out<64>(o, x->dense(N)); }      \
    extern "C" void ve_jdense_##N(double* o, const StateJac* x) { out<64>(o, x->dense(N)); }               \
    extern "C" void ve_udense_##N(double* o, const InputJac* x) { out<64>(o, x->dense(N)); }               \
    extern "C" void ve_ppdense_##N(double* o, const pointPosMeas::Jac* x) { out<64>(o, x->dense(N)); }     \
    extern "C" void ve_obsdense_##N(double* o, const obsMeas::Jac* x) { out<64>(o, x->dense(2, N)); }      \
    extern "C" void ve_fhdense_##N(double* o, const fixAndHoldMeas::Jac* x) { out<64>(o, x->dense(N, N)); }

COUNT(0)
COUNT(1)
COUNT(2)
COUNT(30)

extern "C" void ve_ident(State* o) { o->setIdentity(); }
extern "C" void ve_identity(State* o) { new (o) State(State::Identity()); }
extern "C" int ve_size(State* x) { return x->size(); }
extern "C" int ve_dof() { return State::DOF; }
extern "C" void ve_eadd(ErrorState* o, const ErrorState* a, const ErrorState* b) { *o = *a + *b; }
extern "C" void ve_esub(ErrorState* o, const ErrorState* a, const ErrorState* b) { *o = *a - *b; }
extern "C" void ve_eaddeq(ErrorState* o, const ErrorState* a) { *o += *a; }
extern "C" void ve_emul(ErrorState* o, const ErrorState* a, double s) { *o = *a * s; }
extern "C" void ve_ediv(ErrorState* o, const ErrorState* a, double s) { *o = *a / s; }
extern "C" void ve_ezero(ErrorState* o) { *o = ErrorState::Zero(); }
extern "C" void ve_esetzero(ErrorState* o) { o->setZero(); }
extern "C" void ve_econst(ErrorState* o, double s) { *o = ErrorState::Constant(s); }
extern "C" void ve_efrom(ErrorState* o, const Eigen::Matrix<double, State::DOF, 1>* v) { *o = ErrorState::fromDense(*v); }
extern "C" bool ve_efinite(const ErrorState* x) { return mc::isFinite(*x); }
extern "C" void ve_iadd(Input* o, const Input* a, const Input* b) { *o = *a + *b; }
extern "C" void ve_iaddeq(Input* o, const Input* a) { *o += *a; }
extern "C" void ve_imul(Input* o, Input* a, double s) { *o = *a * s; }
extern "C" void ve_izero(Input* o) { *o = Input::Zero(); }
extern "C" void ve_isetzero(Input* o) { o->setZero(); }
extern "C" void ve_idense(double* o, const Input* a) { out<64>(o, a->dense()); }
extern "C" void ve_ifrom(Input* o, const Eigen::Matrix<double, Input::DOF, 1>* v) { *o = Input::fromDense(*v); }
extern "C" bool ve_ifinite(const Input* x) { return mc::isFinite(*x); }
extern "C" void ve_cident(Covariance* o) { *o = Covariance::Identity(); }
extern "C" void ve_csetident(Covariance* o) { o->setIdentity(); }
extern "C" void ve_cctor(Covariance* o, const ProcessCovariance* q) { new (o) Covariance(*q); }
extern "C" bool ve_cfinite(const Covariance* x) { return mc::isFinite(*x); }
extern "C" void ve_qident(ProcessCovariance* o) { *o = ProcessCovariance::Identity(); }
extern "C" void ve_qzero(ProcessCovariance* o) { *o = ProcessCovariance::Zero(); }
extern "C" bool ve_qfinite(const ProcessCovariance* x) { return mc::isFinite(*x); }
extern "C" void ve_uzero(InputCovariance* o) { *o = InputCovariance::Zero(); }
extern "C" void ve_ucdense(double* o, const InputCovariance* x) { out<64>(o, x->dense()); }
extern "C" bool ve_ufinite(const InputCovariance* x) { return mc::isFinite(*x); }
#define JAC(n, T)                                                          \
    extern "C" void ve_##n##zero(T* o) { *o = T::Zero(); }                  \
    extern "C" void ve_##n##setzero(T* o) { o->setZero(); }                 \
    extern "C" bool ve_##n##finite(const T* x) { return mc::isFinite(*x); }
JAC(j, StateJac)
JAC(uj, InputJac)
JAC(pp, pointPosMeas::Jac)
JAC(obs, obsMeas::Jac)
JAC(fh, fixAndHoldMeas::Jac)
