// The four places that look a satellite up at the time its signal left it.
#include "common/satellite/satellite_cache.h"
#include "models/prange_model.h"
#include "models/relative_carrier_phase_model.h"
#include "sim/sensors/gnss.h"
using namespace mc;
using In = const double* __restrict;
#define X extern "C" void
X vs_cache(satellite::SatelliteCache* __restrict c, const UTCTime& __restrict t, In r, const satellite::SatelliteBase& __restrict sat) { c->update(t, Vec3(r[0], r[1], r[2]), sat); }
X vs_prange(models::PseudorangeModel* __restrict m, In r) { m->computeConstants(Vec3(r[0], r[1], r[2])); }
X vs_relcp(const models::RelativeCarrierPhase* __restrict m, const meas::GnssObservation& __restrict o, In r, const satellite::SatelliteBase& __restrict sat, satellite::SatelliteState* __restrict s)
{
    m->computeSatState(o, Vec3(r[0], r[1], r[2]), sat, make_out(*s));
}
X vs_sim(sim::sensors::GnssSim* __restrict g, const UTCTime& __restrict t, const satellite::SatelliteBase* __restrict sat, In p, In v, double* __restrict rho, double* __restrict dop)
{
    g->range(t, sat, Vec3(p[0], p[1], p[2]), Vec3(v[0], v[1], v[2]), make_out(*rho), make_out(*dop));
}
