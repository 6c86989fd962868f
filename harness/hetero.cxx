// Collections, factors and states whose parts the rule asks for.
#include <array>
#include <functional>
#include <vector>

#include "common/hetero_collection.h"
#include "core/factors/factors.h"
#include "core/states/states.h"

using namespace mc;
// members whose base part does not start at their own address
struct Base
{
    long tag;
};
struct Pad
{
    virtual ~Pad() = default;
    double pad[3];
};
struct A : Pad, Base
{
    double a;
};
struct B : Base
{
    char b;
};
struct C : Pad, B
{
    int c;
};
struct Root
{
    virtual const std::vector<std::reference_wrapper<const Base>> base_items() const = 0;
};
template <typename... T>
struct Coll : public HeteroCollection<Root, Base, T...>
{
    Coll(const T&... x) : HeteroCollection<Root, Base, T...>(x...) {}
};
template <typename F, typename P, size_t... I>
void got(const F& f, const void** out, std::index_sequence<I...>)
{
    int d[] = {(out[I] = &f.template get<I>(), 0)...};
    (void)d;
}
template <typename F, typename P, size_t... I>
void base(const F& f, const void** out, std::index_sequence<I...>)
{
    int d[] = {(out[I] = f.template get_base<I>(), 0)...};
    (void)d;
}
template <typename V>
long items(const V& v, const void** out, long n)
{
    for (long i = 0; i < n; ++i) out[i] = &v[i].get();
    return v.size();
}
#define SEQ(N) std::make_index_sequence<N>()
#define PROBE(NAME, N, P, MAKE, ...)                                                                                             \
    void vh_##NAME##_get(__VA_ARGS__, const void** out) { MAKE; got<decltype(f), P>(f, out, SEQ(N)); }                            \
    void vh_##NAME##_base(__VA_ARGS__, const void** out) { MAKE; base<decltype(f), P>(f, out, SEQ(N)); }                          \
    long vh_##NAME##_items(__VA_ARGS__, const void** out) { MAKE; const auto v = f.base_items(); return items(v, out, N); }       \
    void vh_##NAME##_want(__VA_ARGS__, const void** out)
template <typename P, typename... T>
void want(const void** out, T&... t)
{
    const void* o[] = {static_cast<const P*>(&t)...};
    const void* w[] = {&t...};
    for (size_t i = 0; i < sizeof...(T); ++i)
    {
        out[i] = w[i];
        out[sizeof...(T) + i] = o[i];
    }
}
typedef const A CA;
typedef const B CB;
typedef const C CC;
typedef Coll<A, A, B> C3;
typedef Coll<C, B, A, C> C4;
PROBE(c1, 1, Base, Coll<C> f(x), CC& x) { want<Base>(out, x); }
PROBE(c3, 3, Base, C3 f(x, y, z), CA& x, CA& y, CB& z) { want<Base>(out, x, y, z); }
PROBE(c4, 4, Base, C4 f(x, y, z, w), CC& x, CB& y, CA& z, CC& w) { want<Base>(out, x, y, z, w); }
using namespace states;
PROBE(imu, 5, State, factors::Imu f(a, b, c, d, e), Pose& a, Pose& b, Velocity& c, Velocity& d, states::ImuBias& e) { want<State>(out, a, b, c, d, e); }
PROBE(gnss, 4, State, factors::Gnss f(a, b, c, d), Pose& a, Velocity& b, ClockBias& c, AntennaPosition& d) { want<State>(out, a, b, c, d); }
PROBE(sw, 2, State, factors::GnssSwitch f(a, b), GnssSwitch& a, GnssSwitch& b) { want<State>(out, a, b); }
PROBE(cp, 7, State, factors::RelativeCarrierPhase f(a, b, c, d, e, g, h), Pose& a, Pose& b, AntennaPosition& c, ClockBias& d, ClockBias& e, GnssSwitch& g, GnssSwitch& h)
{
    want<State>(out, a, b, c, d, e, g, h);
}
void vh_imu_named(Pose& a, Pose& b, Velocity& c, Velocity& d, states::ImuBias& e, const void** out)
{
    factors::Imu f(a, b, c, d, e);
    want<State>(out, f.pose1, f.pose2, f.vel1, f.vel2, f.imu_bias);
}
void vh_gnss_named(Pose& a, Velocity& b, ClockBias& c, AntennaPosition& d, const void** out)
{
    factors::Gnss f(a, b, c, d);
    want<State>(out, f.pose, f.vel, f.clock_bias, f.antenna_position);
}
void vh_sw_named(GnssSwitch& a, GnssSwitch& b, const void** out)
{
    factors::GnssSwitch f(a, b);
    want<State>(out, f.switch1, f.switch2);
}
void vh_cp_named(Pose& a, Pose& b, AntennaPosition& c, ClockBias& d, ClockBias& e, GnssSwitch& g, GnssSwitch& h, const void** out)
{
    factors::RelativeCarrierPhase f(a, b, c, d, e, g, h);
    want<State>(out, f.pose1, f.pose2, f.antenna_position, f.clock_bias1, f.clock_bias2, f.switch1, f.switch2);
}
#define STATE(T)                                                                            \
    const double* vh_##T##_data(states::T& x) { new (&x) states::T; return x.StateTemplate<states::T>::data(); }              \
    const double* vh_##T##_cdata(states::T& x) { new (&x) states::T; const states::T& y = x; return y.StateTemplate<states::T>::data(); }       \
    const double* vh_##T##_get(states::T& x) { new (&x) states::T; return x.getData(); }                        \
    void vh_##T##_new(states::T& x, int* out) { new (&x) states::T; out[0] = x.State::DIM; out[1] = x.State::ID; out[2] = states::T::DIM; out[3] = states::T::ID; }
STATE(Pose)
STATE(Velocity)
STATE(ClockBias)
STATE(AntennaPosition)
STATE(GnssSwitch)
STATE(ImuBias)
