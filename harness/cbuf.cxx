// entry points the analysis starts from; never executed
#include <new>
#include <utility>
#include "common/circular_buffer.h"
// an element type whose life-cycle operations are visible to the analysis
struct Probe
{
    Probe();
    explicit Probe(int, double);
    Probe(const Probe&);
    Probe(Probe&&);
    Probe& operator=(const Probe&);
    Probe& operator=(Probe&&);
    ~Probe();
    long a, b;
};
void vh_use(const Probe&);
#ifndef CBN
#define CBN 4
#endif
typedef mc::CircularBuffer<Probe, CBN> CB;
typedef const CB CCB;
void vh_ctor(CB* c) { new (c) CB; }
void vh_dtor(CB* c) { c->~CB(); }
void vh_clear(CB* c) { c->clear(); }
void vh_pop_front(CB* c) { c->pop_front(); }
void vh_pop_back(CB* c) { c->pop_back(); }
void vh_emplace_back(CB* c, int i, double d) { c->emplace_back(i, d); }
void vh_emplace_front(CB* c, int i, double d) { c->emplace_front(i, d); }
void vh_push_back(CB* c, const Probe& p) { c->push_back(p); }
void vh_push_front(CB* c, const Probe& p) { c->push_front(p); }
const Probe* vh_front(CB* c) { return &c->front(); }
const Probe* vh_cfront(CCB* c) { return &c->front(); }
const Probe* vh_back(CB* c) { return &c->back(); }
const Probe* vh_cback(CCB* c) { return &c->back(); }
const Probe* vh_at(CB* c, int i) { return &c->at(i); }
const Probe* vh_cat(CCB* c, int i) { return &c->at(i); }
const Probe* vh_idx(CB* c, int i) { return &(*c)[i]; }
const Probe* vh_cidx(CCB* c, int i) { return &(*c)[i]; }
size_t vh_size(CCB* c) { return c->size(); }
size_t vh_maxsize(CCB* c) { return c->max_size(); }
size_t vh_capacity(CCB* c) { return c->capacity(); }
bool vh_empty(CCB* c) { return c->empty(); }
bool vh_full(CCB* c) { return c->full(); }
void vh_fwd(CB* c)
{
    for (CB::iterator it = c->begin(); it != c->end(); ++it) vh_use(*it);
}
void vh_cfwd(CCB* c)
{
    for (CB::const_iterator it = c->begin(); it != c->end(); it++) vh_use(*it);
}
void vh_rev(CB* c)
{
    CB::iterator it = c->end();
    while (it != c->begin())
    {
        --it;
        vh_use(*it);
    }
}
void vh_crev(CCB* c)
{
    CB::const_iterator it = c->end();
    while (it != c->begin())
    {
        it--;
        vh_use(*it);
    }
}
int vh_dist(CCB* c, size_t i, size_t j) { return (c->begin() + j) - (c->begin() + i); }
bool vh_lt(CCB* c, size_t i, size_t j) { return (c->begin() + i) < (c->begin() + j); }
bool vh_gt(CCB* c, size_t i, size_t j) { return (c->begin() + i) > (c->begin() + j); }
bool vh_le(CCB* c, size_t i, size_t j) { return (c->begin() + i) <= (c->begin() + j); }
bool vh_ge(CCB* c, size_t i, size_t j) { return (c->begin() + i) >= (c->begin() + j); }
bool vh_eq(CCB* c, size_t i, size_t j) { return (c->begin() + i) == (c->begin() + j); }
bool vh_ne(CCB* c, size_t i, size_t j) { return (c->begin() + i) != (c->begin() + j); }
const Probe* vh_plus(CB* c, size_t i, size_t j) { return &*((c->begin() + i) + j); }
const Probe* vh_pluseq(CCB* c, size_t i, size_t j) { CB::const_iterator it = c->begin() + i; it += j; return &*it; }
const Probe* vh_minus(CB* c, size_t i, size_t j) { return &*((c->begin() + i) - j); }
const Probe* vh_cminus(CCB* c, size_t i, size_t j) { return &*((c->begin() + i) - j); }
const Probe* vh_minuseq(CCB* c, size_t i, size_t j) { CB::const_iterator it = c->begin() + i; it -= j; return &*it; }
const Probe* vh_fromend(CCB* c, size_t j) { return &*(c->end() - j); }
const long* vh_arrow(CB* c, size_t i) { CB::iterator it = c->begin() + i; return &it->a; }
const long* vh_carrow(CCB* c, size_t i) { CB::const_iterator it = c->begin() + i; return &it->a; }
