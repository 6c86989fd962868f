// Atmospheric corrections and look angles with plain arrays in and out.
#include "common/satellite/atm_correction.h"
#include "common/satellite/azel.h"
using namespace mc;
using namespace mc::satellite;
using In = const double* __restrict;
using Out_ = double* __restrict;
#define X extern "C" void
X vs_azel(In a, In b, Out_ o)
{
    AzimuthElevation x;
    los2AzEl(Vec3(a[0], a[1], a[2]), Vec3(b[0], b[1], b[2]), &x);
    o[0] = x.az;
    o[1] = x.el;
}
X vs_azelv(In a, In b, Out_ o)
{
    const AzimuthElevation x = los2AzEl(Vec3(a[0], a[1], a[2]), Vec3(b[0], b[1], b[2]));
    o[0] = x.az;
    o[1] = x.el;
}
X vs_azels(In a, In b, Out_ o)
{
    SatelliteState s;
    s.pos = Vec3(b[0], b[1], b[2]);
    const AzimuthElevation x = getAzEl(Vec3(a[0], a[1], a[2]), s);
    o[0] = x.az;
    o[1] = x.el;
}
X vs_tropo(const UTCTime& t, In a, In b, Out_ o)
{
    AzimuthElevation x;
    x.az = b[0];
    x.el = b[1];
    o[0] = computeTroposphericDelay(t, Vec3(a[0], a[1], a[2]), x);
}
X vs_iono(const UTCTime& t, In a, In b, Out_ o)
{
    AzimuthElevation x;
    x.az = b[0];
    x.el = b[1];
    o[0] = computeIonosphericDelay(t, Vec3(a[0], a[1], a[2]), x);
}
X vs_atm(const UTCTime& t, In a, In b, Out_ o)
{
    SatelliteState s;
    s.pos = Vec3(b[0], b[1], b[2]);
    AtmosphericCorrection x;
    computeAtmCorrection(t, Vec3(a[0], a[1], a[2]), s, make_out(x));
    o[0] = x.ionospheric_delay_m;
    o[1] = x.tropospheric_delay_m;
}
