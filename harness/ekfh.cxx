// entry points of the filter's equations and measurement models
#include <new>
#include "core/ekf/rtk_ekf.h"
using namespace mc;
using namespace mc::ekf;
namespace mc {
namespace ekf {
ErrorState errorStateDynamics(const ErrorState& dx, const State& x, const Input& u, const Input& eta);
}
}
extern "C" void vh_pp(pointPosMeas::Residual* o, const pointPosMeas::ZType* z, const State* x, pointPosMeas::Jac* jo, const Input* u)
{
    pointPosMeas::Jac j;
    *o = h<pointPosMeas>(*z, *x, &j, *u);
    *jo = j;
}
extern "C" void vh_obs(obsMeas::Residual* o, const obsMeas::ZType* z, const State* x, obsMeas::Jac* jo, const Input* u)
{
    obsMeas::Jac j;
    *o = h<obsMeas>(*z, *x, &j, *u);
    *jo = j;
}
extern "C" void vh_fh(fixAndHoldMeas::Residual* o, const fixAndHoldMeas::ZType* z, const State* x, fixAndHoldMeas::Jac* jo)
{
    fixAndHoldMeas::Jac j;
    *o = h<fixAndHoldMeas>(*z, *x, &j);
    *jo = j;
}
extern "C" void vh_dyn(ErrorState* o, const State* x, const Input* u, StateJac* a, InputJac* b) { *o = dynamics(*x, *u, a, b); }
extern "C" void vh_edyn(ErrorState* o, const ErrorState* dx, const State* x, const Input* u, const Input* eta) { *o = errorStateDynamics(*dx, *x, *u, *eta); }
extern "C" int vh_gps() { return GnssID::GPS; }
extern "C" int vh_gal() { return GnssID::Galileo; }
extern "C" int vh_glo() { return GnssID::Glonass; }
extern "C" const State* vh_snap(const Snapshot* s) { return &s->x; }
