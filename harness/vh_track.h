// Ghost state for object lifetimes: a registry of the live tracked objects. Constructing over a live object, or
// destroying, reading or assigning something that is not a live object, fails an obligation.
#pragma once
#include "vh.h"
namespace vh {
#ifndef TRACK_MAX
#define TRACK_MAX 8
#endif
// ghost functions, kept as calls in the verified text
extern "C" {
static const void* vh_live_p[TRACK_MAX]; static unsigned vh_live_n;
__attribute__((noinline, used)) static unsigned vhfn_find(const void* p) { for(unsigned i = 0; i < TRACK_MAX; i++) { if(vh_live_p[i] == p) return i; } return TRACK_MAX; }
}
inline bool is_live(const void* p) { return vhfn_find(p) != TRACK_MAX; }
inline void track_start() { ENS(vh_live_n == 0, "lifetime: nothing is left over"); for(unsigned i = 0; i < TRACK_MAX; i++) { UNROLL; vh_live_p[i] = nullptr; } }   // restates what is known, so the cases stay separate
inline unsigned live_count() { return vh_live_n; }
inline void born(const void* p) { ENS(vhfn_find(p) == TRACK_MAX, "lifetime: nothing is constructed over a live object"); unsigned i = vhfn_find(nullptr); if(i < TRACK_MAX) vh_live_p[i] = p; vh_live_n++; }
inline void died(const void* p) { unsigned i = vhfn_find(p); ENS(i < TRACK_MAX, "lifetime: only a live object is destroyed"); if(i < TRACK_MAX) vh_live_p[i] = nullptr; vh_live_n--; }
inline void used(const void* p) { ENS(is_live(p), "lifetime: only live objects are used"); }
enum { MOVED = -77 };
// copyable and assignable
struct Tr {
    int32_t v;
    Tr(int32_t v) : v(v) { born(this); }
    Tr(const Tr& o) : v(o.v) { used(&o); born(this); }
    Tr(Tr&& o) : v(o.v) { used(&o); o.v = MOVED; born(this); }
    Tr& operator=(const Tr& o) { used(this); used(&o); v = o.v; return *this; }
    Tr& operator=(Tr&& o) { used(this); used(&o); int32_t t = o.v; o.v = MOVED; v = t; return *this; }
    ~Tr() { died(this); }
    bool operator==(const Tr& o) const { used(this); used(&o); return v == o.v; }
    bool operator!=(const Tr& o) const { used(this); used(&o); return v != o.v; }
    bool operator<(const Tr& o) const { return v < o.v; }
    bool operator>(const Tr& o) const { return v > o.v; }
    bool operator<=(const Tr& o) const { return v <= o.v; }
    bool operator>=(const Tr& o) const { return v >= o.v; }
};
// movable only
struct Mv {
    int32_t v;
    explicit Mv(int32_t v) : v(v) { born(this); }
    Mv(const Mv&) = delete; Mv& operator=(const Mv&) = delete;
    Mv(Mv&& o) noexcept : v(o.v) { used(&o); o.v = MOVED; born(this); }
    Mv& operator=(Mv&& o) noexcept { used(this); used(&o); int32_t t = o.v; o.v = MOVED; v = t; return *this; }
    ~Mv() { died(this); }
};
// copy constructible, not assignable
struct Ca {
    const int32_t v; int32_t w;
    Ca(int32_t v) : v(v), w(v) { born(this); }
    Ca(const Ca& o) : v(o.v), w(o.w) { used(&o); born(this); }
    ~Ca() { died(this); }
};
template <class O> struct Raw { alignas(O) unsigned char b[sizeof(O)]; Raw() { havoc(b, sizeof(O)); } void* at() { return b; } };
}
