// A satellite manager fed with ephemerides in some order, then queried.
#include "core/sat_manager.h"

using namespace mc;
using Gps = ephemeris::GPSEphemeris;
using Glo = ephemeris::GlonassEphemeris;
using Gal = ephemeris::GalileoEphemeris;

struct Query
{
    Error err;
    const satellite::SatelliteBase* sat;
    int gnss, num, size;
    long first, last;  // reference times of the satellite's ephemerides
};
static inline Query ask(const SatelliteManager& m, int g, int n)
{
    Query q{Error::none(), nullptr, -1, -1, -1, -1, -1};
    q.err = m.getSat(g, n, make_out(q.sat));
    return q;
}
template <typename S>
static inline void read(const satellite::SatelliteBase* p, Query* q)
{
    const S* s = static_cast<const S*>(p);
    q->gnss = s->gnssId();
    q->num = s->sat_num();
    q->size = s->S::almanacSize();
    q->first = s->almanac_.front().toe.sec;
    q->last = s->almanac_.back().toe.sec;
}
static inline void full(const SatelliteManager& m, int g, int n, Query* q)
{
    *q = ask(m, g, n);
    if (!q->err.ok()) return;
    if (g == GnssID::GPS) read<satellite::Satellite<Gps>>(q->sat, q);
    if (g == GnssID::Glonass) read<satellite::Satellite<Glo>>(q->sat, q);
    if (g == GnssID::Galileo) read<satellite::Satellite<Gal>>(q->sat, q);
}
extern "C" int vm_empty(int g, int n)
{
    SatelliteManager m;
    return ask(m, g, n).err.ok();
}
// one of each, then a second of each
extern "C" void vm_mixed(const Gps& a, const Gps& a2, const Glo& b, const Glo& b2, const Gal& c, const Gal& c2, int g, int n, Query* q)
{
    SatelliteManager m;
    m.ephCb(a);
    m.ephCb(b);
    m.ephCb(c);
    m.ephCb(a2);
    m.ephCb(b2);
    m.ephCb(c2);
    full(m, g, n, q);
}
// more satellites than the manager keeps
extern "C" void vm_many(const Gps& t, int count, int n, Query* q)
{
    SatelliteManager m;
    for (int i = 1; i <= count; ++i)
    {
        Gps e = t;
        e.sat = i;
        e.toe.sec = 1000 + i;
        m.ephCb(e);
    }
    full(m, 0, n, q);
}
