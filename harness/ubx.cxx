// The UBX receiver, one byte at a time.
#include "parsers/ubx/ubx.h"
using namespace mc::parsers::ublox;
using B = const uint8_t* __restrict;
#define X extern "C" void
X vs_step(Ubx* __restrict u, B b) { u->Ubx::receive_callback(b, 1); }
X vs_step2(Ubx* __restrict u, B b) { u->Ubx::receive_callback(b, 2); }
X vs_none(Ubx* __restrict u, B b) { u->Ubx::receive_callback(b, 0); }
X vs_sum(const Ubx* __restrict u, B h, const UbxMessage* __restrict p, unsigned len, uint8_t* __restrict o) { u->calculateChecksum(h[0], h[1], len, *p, o[0], o[1]); }
X vs_decode(Ubx* __restrict u, bool* __restrict ok) { *ok = u->decodeMessage(); }
X vs_send(Ubx* __restrict u, B h, UbxMessage* __restrict p, unsigned len) { u->sendMessage(h[0], h[1], *p, len); }
X vs_version(Ubx* __restrict u) { u->versionCb(); }
X vs_new(Ubx* __restrict u, async_comm::Comm& c) { new (u) Ubx(c); }
X vs_subscribe(UbxListener* __restrict l, B h) { l->subscribe(h[0], h[1]); }
