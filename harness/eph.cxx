// entry points the analysis starts from; never executed
#include <new>
#include "common/ephemeris/galileo.h"
#include "common/ephemeris/glonass.h"
#include "common/ephemeris/gps.h"
using namespace mc::ephemeris;
using mc::UTCTime;
bool vh_gps(GPSEphemeris* e, const uint8_t* b, size_t n) { return e->parse(b, n); }
bool vh_gal(GalileoEphemeris* e, const uint8_t* b, size_t n) { return e->parse(b, n); }
bool vh_glo(GlonassEphemeris* e, const uint8_t* b, size_t n) { return e->parse(b, n); }
void vh_new_gps(GPSEphemeris* e, int id) { new (e) GPSEphemeris(id); }
void vh_new_gal(GalileoEphemeris* e, int id) { new (e) GalileoEphemeris(id); }
void vh_new_glo(GlonassEphemeris* e, int id) { new (e) GlonassEphemeris(id); }
// reference times
void vh_ref_gps(GPSEphemeris* e, UTCTime* toe, UTCTime* toc)
{
    *toe = UTCTime::fromGPS(e->week, static_cast<int>(e->toes * 1000));
    *toc = UTCTime::fromGPS(e->week, static_cast<int>(e->tocs * 1000));
}
void vh_ref_gal(GalileoEphemeris* e, UTCTime* toe, UTCTime* toc)
{
    *toe = UTCTime::fromGalileo(e->week, static_cast<int>(e->toes * 1000));
    *toc = UTCTime::fromGalileo(e->week, static_cast<int>(e->tocs * 1000));
}
