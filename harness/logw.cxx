// entry points the analysis starts from; never executed
#include "common/logging/log_writer.h"
#include "common/measurements/imu.h"
#include "common/measurements/gnss_observation.h"
#include "common/math/jet.h"
#include "common/math/two_jet.h"
#include "common/math/dquat.h"
#include "common/ephemeris/gps.h"
#include "common/ephemeris/galileo.h"
#include "common/ephemeris/glonass.h"
using namespace mc;
using logging::Logger;
void vh_log(Logger& l, int key, const UTCTime& t, const double& a, const meas::ImuSample& b, const uint16_t& c) { l.log(key, t, a, b, c); }
void vh_stamped(Logger& l, int key, const double& a, const meas::ImuSample& b, const uint16_t& c) { l.logStamped(key, a, b, c); }
void vh_init(Logger& l, int key, const std::array<std::string, 3>& n) { l.initStream<double, meas::ImuSample, uint16_t>(key, n); }
void vh_new(void* p) { new (p) logging::Stream(); }
void vh_delete(logging::Stream* p) { p->~Stream(); }
void vh_sinit(logging::Stream& s, const std::experimental::filesystem::path& d, const std::string& id, int key, const std::array<std::string, 3>& n)
{
    s.init<double, meas::ImuSample, uint16_t>(d, id, key, n);
}
void vh_close(Logger& l, const UTCTime& t) { l.close(t); }
