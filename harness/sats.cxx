// The satellite's ephemeris list, with a small ephemeris type in place of the broadcast ones.
#include "common/satellite/satellite.h"

struct Mini : public mc::ephemeris::EphBase
{
    long tag;
    double getWavelength(int f) const { return tag + f; }
};
mc::Error eph2Sat(const mc::UTCTime& t, const Mini& eph, mc::Out<mc::satellite::SatelliteState> s);
using mc::satellite::Satellite;
namespace mc::satellite {
template <>
inline Satellite<Mini>::Satellite(uint8_t g, uint8_t s) : SatelliteBase(g, s) {}
}

struct MiniSat
{
    Satellite<Mini> s{1, 7};
    template <int N>
    void fill(const Mini* in)
    {
        s.almanac_.reserve(N + 5);
        for (int i = 0; i < N; ++i) s.almanac_.push_back(in[i]);
    }
};
template <int N>
inline void add(const Mini* in, const Mini& e, Mini* out, long* n, mc::Error* err)
{
    MiniSat m;
    m.fill<N>(in);
    *err = m.s.addEph(e);
    *n = m.s.almanacSize();
    const Mini* d = m.s.almanac_.data();
    for (int i = 0; i < N + 1; ++i) out[i] = d[i];
}
template <int N>
inline long closest(const Mini* in, const mc::UTCTime& t)
{
    MiniSat m;
    m.fill<N>(in);
    return m.s.findClosestEphemeris(t).tag;
}
template <int N>
inline void state(const Mini* in, const mc::UTCTime& t, mc::satellite::SatelliteState* o, mc::Error* err)
{
    MiniSat m;
    m.fill<N>(in);
    *err = m.s.getState(t, mc::make_out(*o));
}
#define W(N)                                                                                                                        \
    extern "C" void vs_add##N(const Mini* in, const Mini& e, Mini* out, long* n, mc::Error* err) { add<N>(in, e, out, n, err); }   \
    extern "C" long vs_closest##N(const Mini* in, const mc::UTCTime& t) { return closest<N>(in, t); }                                \
    extern "C" void vs_state##N(const Mini* in, const mc::UTCTime& t, mc::satellite::SatelliteState* o, mc::Error* err) { state<N>(in, t, o, err); }
W(0)
W(1)
W(2)
W(3)
W(7)
W(12)
W(25)
extern "C" double vs_wave(const Mini* in, int f)
{
    MiniSat m;
    m.fill<2>(in);
    return m.s.carrierWavelength(f);
}
