// entry points the analysis starts from; never executed
#include "common/ephemeris/galileo.h"
#include "common/ephemeris/glonass.h"
#include "common/ephemeris/gps.h"
#include "common/logging/log_format.h"
#include "common/logging/serialize.h"
#include "common/math/dquat.h"
#include "common/math/jet.h"
#include "common/math/quat.h"
#include "common/math/two_jet.h"
#include "common/matrix_defs.h"
#include "common/measurements/gnss_observation.h"
#include "common/measurements/imu.h"
#include "common/quantized_time.h"
#include "common/utctime.h"
using namespace mc;
typedef Eigen::Matrix<double, 3, 1> V3;
typedef Eigen::Matrix<float, 3, 1> V3f;
typedef Eigen::Matrix<double, 9, 6> M96;
typedef Eigen::Matrix<float, 10, 10> M10f;
typedef double A7[7];
#define SER(n, T) \
    void vh_ser_##n(std::ostream& f, const T& x) { logging::serialize(f, x); } \
    void vh_rt_##n(std::istream& i, std::ostream& o) { T x; logging::deserialize(i, x); logging::serialize(o, x); }
#define FMT(n, T) \
    void vh_fmt_##n(YAML::Node* o, const T& x) { new (o) YAML::Node(logging::format(x)); }
#define BOTH(n, T) SER(n, T) FMT(n, T)
BOTH(UTCTime, UTCTime)
SER(QuantizedTime, QuantizedTime)
BOTH(GPSEphemeris, ephemeris::GPSEphemeris)
BOTH(GalileoEphemeris, ephemeris::GalileoEphemeris)
BOTH(GlonassEphemeris, ephemeris::GlonassEphemeris)
BOTH(ImuSample, meas::ImuSample)
BOTH(GnssObservation, meas::GnssObservation)
BOTH(Quat, math::Quat<double>)
BOTH(DQuat, math::DQuat<double>)
BOTH(Jet, math::Jet<double>)
BOTH(TwoJet, math::TwoJet<double>)
BOTH(TangentVector, math::DQuat<double>::TangentVector)
BOTH(Vec3, V3)
BOTH(Vec3f, V3f)
BOTH(Mat96, M96)
BOTH(Mat10f, M10f)
BOTH(double, double)
BOTH(float, float)
BOTH(int64, int64_t)
BOTH(int32, int32_t)
BOTH(int16, int16_t)
BOTH(int8, int8_t)
BOTH(uint64, uint64_t)
BOTH(uint32, uint32_t)
BOTH(uint16, uint16_t)
BOTH(uint8, uint8_t)
SER(array, A7)
void vh_fmt_array(YAML::Node* o, const A7& x) { new (o) YAML::Node(logging::format(x, 7)); }
void vh_log3(std::ostream& f, const UTCTime& t, const double& a, const meas::ImuSample& b) { logging::log(f, t, a, b); }
void vh_read3(std::istream& f, UTCTime& t, double& a, meas::ImuSample& b) { logging::read(f, t, a, b); }
void vh_mf(YAML::Node* o, const std::array<std::string, 4>& n)
{
    new (o) YAML::Node(logging::makeFormat<double, UTCTime, meas::ImuSample, uint16_t>(n));
}
const double* vh_qw(const math::Quat<double>& q) { return &q.w(); }
const double* vh_qx(const math::Quat<double>& q) { return &q.x(); }
const double* vh_qy(const math::Quat<double>& q) { return &q.y(); }
const double* vh_qz(const math::Quat<double>& q) { return &q.z(); }
const double* vh_q0(const math::Quat<double>& q) { return q.data(); }
