// The simulator's step, its sensors and the registration of callbacks.
#include "sim/sim.h"
using namespace mc;
#define X extern "C"
X void vs_step(sim::Sim* __restrict s, double dt) { s->step(dt); }
X bool vs_imu(sim::sensors::ImuSim* __restrict s, const UTCTime& __restrict t, const math::TwoJet<double>& __restrict x, meas::ImuSample* __restrict z) { return s->sample(t, x, Out(*z)); }
X bool vs_gnss(sim::sensors::GnssSim* __restrict s, const UTCTime& __restrict t, const math::TwoJet<double>& __restrict x, std::vector<meas::GnssObservation>* __restrict z) { return s->sample(t, x, Out(*z)); }
X bool vs_gps(sim::sensors::GnssSim* __restrict s, const UTCTime& __restrict t, ephemeris::GPSEphemeris* __restrict e) { return s->sampleGpsEph(t, make_out(*e)); }
X bool vs_glo(sim::sensors::GnssSim* __restrict s, const UTCTime& __restrict t, ephemeris::GlonassEphemeris* __restrict e) { return s->sampleGloEph(t, make_out(*e)); }
X bool vs_gal(sim::sensors::GnssSim* __restrict s, const UTCTime& __restrict t, ephemeris::GalileoEphemeris* __restrict e) { return s->sampleGalEph(t, make_out(*e)); }
X void vs_reg_gnss(sim::Sim* __restrict s, const std::function<void(std::vector<meas::GnssObservation>)>& __restrict f) { s->registerGnssCB(f); }
X void vs_reg_imu(sim::Sim* __restrict s, const std::function<void(meas::ImuSample)>& __restrict f) { s->registerImuCB(f); }
X void vs_reg_glo(sim::Sim* __restrict s, const std::function<void(const ephemeris::GlonassEphemeris&)>& __restrict f) { s->registerGloEphCb(f); }
X void vs_reg_gal(sim::Sim* __restrict s, const std::function<void(const ephemeris::GalileoEphemeris&)>& __restrict f) { s->registerGalEphCb(f); }
X void vs_reg_gps(sim::Sim* __restrict s, const std::function<void(const ephemeris::GPSEphemeris&)>& __restrict f) { s->registerGPSEphCb(f); }
