// entry points of the filter's estimator
#include "core/ekf/rtk_ekf_estimator.h"
using namespace mc;
using namespace mc::ekf;
using E = RtkEkfEstimator;
using Obs = std::vector<meas::GnssObservation>;
#define ADD(n, T) extern "C" bool vn_add_##n(E* e, const UTCTime* t, const T* z) { return e->addMeasurement(*t, *z).ok(); }
ADD(imu, ImuMeas)
ADD(pp, pointPosMeas)
ADD(obs, Obs)
ADD(fh, fixAndHoldMeas)
extern "C" void vn_imu(E* e, const UTCTime* t, const ImuMeas* z) { e->handleImu(*t, *z); }
extern "C" void vn_pp(E* e, const UTCTime* t, const pointPosMeas* z) { e->handlePointPos(*t, *z); }
extern "C" void vn_obs(E* e, const UTCTime* t, const Obs* z) { e->handleObsMeas(*t, *z); }
extern "C" void vn_fh(E* e, const UTCTime* t, const fixAndHoldMeas* z) { e->handleFixAndHold(*t, *z); }
extern "C" void vn_any(E* e, const E::Meas* m) { e->handleMeas(*m); }
extern "C" void vn_drop(E* e) { e->dropOldMeasurements(); }
extern "C" bool vn_less(const E::Meas* a, const E::Meas* b) { return *a < *b; }
extern "C" const satellite::SatelliteCache* vn_cache(const E* e, const UTCTime* t, int gnss, int sat) { return &e->getCache(*t, gnss, sat); }
extern "C" void vn_p(const E* e, Vec3* out) { *out = e->p_ecef(); }
extern "C" void vn_eph_gps(E* e, const ephemeris::GPSEphemeris* x) { e->ephCb(*x); }
extern "C" void vn_eph_gal(E* e, const ephemeris::GalileoEphemeris* x) { e->ephCb(*x); }
extern "C" void vn_eph_glo(E* e, const ephemeris::GlonassEphemeris* x) { e->ephCb(*x); }
