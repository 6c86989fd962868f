// entry points the analysis starts from; never executed
#include "common/quantized_time.h"
#include "common/utctime.h"
using mc::QuantizedTime;
using mc::UTCTime;
#define CMP(pfx, A, B)                                             \
    bool pfx##_lt(const A& a, const B& b) { return a < b; }        \
    bool pfx##_le(const A& a, const B& b) { return a <= b; }       \
    bool pfx##_gt(const A& a, const B& b) { return a > b; }        \
    bool pfx##_ge(const A& a, const B& b) { return a >= b; }       \
    bool pfx##_eq(const A& a, const B& b) { return a == b; }       \
    bool pfx##_ne(const A& a, const B& b) { return a != b; }
CMP(vh_uu, UTCTime, UTCTime)
CMP(vh_qu, QuantizedTime, UTCTime)
CMP(vh_uq, UTCTime, QuantizedTime)
#define ARITH(n, T)                                                            \
    void vh_add_##n(UTCTime* o, const UTCTime& a, T b) { *o = a + b; }         \
    void vh_sub_##n(UTCTime* o, const UTCTime& a, T b) { *o = a - b; }         \
    void vh_addeq_##n(UTCTime* o, T b) { *o += b; }                            \
    void vh_subeq_##n(UTCTime* o, T b) { *o -= b; }
ARITH(t, const UTCTime&)
ARITH(d, double)
ARITH(i, int)
void vh_addeq_self(UTCTime* o) { *o += *o; }
void vh_subeq_self(UTCTime* o) { *o -= *o; }
void vh_ctor_sn(UTCTime* o, int64_t s, int64_t n) { *o = UTCTime(s, n); }
void vh_ctor_d(UTCTime* o, double s) { *o = UTCTime(s); }
double vh_tosec(const UTCTime& a) { return a.toSec(); }
void vh_gps(UTCTime* o, int w, int t) { *o = UTCTime::fromGPS(w, t); }
void vh_gal(UTCTime* o, int w, int t) { *o = UTCTime::fromGalileo(w, t); }
void vh_glo(UTCTime* o, int w, int t) { *o = UTCTime::fromGlonass(w, t); }
void vh_glotod(UTCTime* o, const UTCTime& r, int t) { *o = UTCTime::fromGlonassTimeOfDay(r, t); }
int vh_gpsweek(const UTCTime& a) { return a.GpsWeek(); }
double vh_gpstow(const UTCTime& a) { return a.GpsTow(); }
int vh_gloweek(const UTCTime& a) { return a.GlonassWeek(); }
int vh_glodow(const UTCTime& a) { return a.GlonassDayOfWeek(); }
void vh_assign(QuantizedTime* q, const UTCTime& a) { *q = a; }
void vh_quant(QuantizedTime* q, const UTCTime& a) { *q = a.quantized(); }
void vh_wrap(UTCTime* o) { o->wrapNsec(); }
