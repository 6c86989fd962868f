// entry points the analysis starts from; never executed
#include "common/logging/log_reader.h"
#include "common/measurements/imu.h"
#include "common/measurements/gnss_observation.h"
#include "common/math/jet.h"
#include "common/math/two_jet.h"
#include "common/math/dquat.h"
#include "common/ephemeris/gps.h"
#include "common/ephemeris/galileo.h"
#include "common/ephemeris/glonass.h"
using namespace mc;
using logging::LogReader;
using logging::StreamReader;
void vh_read(LogReader& l) { l.read(); }
void vh_setcb(LogReader& l, int key, LogReader::MsgCallback& f) { l.setCallback(key, std::move(f)); }
void vh_get(StreamReader& s, double& a, meas::ImuSample& b, uint16_t& c) { s.get(a, b, c); }
void vh_stamp(StreamReader& s) { s.readStamp(); }
LogReader::Entry<double, uint16_t> vh_next(LogReader& l, int key) { return l.getNext<double, uint16_t>(key); }
const UTCTime* vh_nextstamp(const StreamReader& s) { return &s.nextStamp(); }
int vh_key(const StreamReader& s) { return s.key(); }
