// C15: an expected holds exactly one of value and error, the one last stored, and every stored object is constructed
// and destroyed exactly once.
#include <assert.h>
#include "vh.h"
#define TRACK_MAX 6
#include "vh_track.h"
#include <estd/expected.h>
using namespace vh;
struct Er { int32_t v; Er(int32_t v) : v(v) { born(this); } Er(const Er& o) : v(o.v) { used(&o); born(this); } Er(Er&& o) noexcept : v(o.v) { used(&o); born(this); } Er& operator=(const Er& o) { used(this); used(&o); v = o.v; return *this; } ~Er() { died(this); } };
typedef estd::expected<Tr, Er> X;
struct St { bool has; int32_t v; };
static X* make(Raw<X>& r, const St& s) { return s.has ? new (r.at()) X(estd::in_place_t{}, s.v) : new (r.at()) X(estd::unexpect_t{}, s.v); }
static bool same(X& o, const St& s)
{
    const X& c = o; bool r = c.has_value() == s.has && (bool)c == s.has;
    if(s.has) { r = r && (*c).v == s.v && (*o).v == s.v && o.value().v == s.v && c->v == s.v; used(&*o); }
    else { r = r && o.error().v == s.v && c.error().v == s.v; used(&o.error()); }
    return r;
}
static void op(bool ha, unsigned k)
{
    track_start(); Raw<X> ra, rb; St a = { ha, i32() }, b = a; X* p = make(ra, a); X* q = 0; int32_t x = i32(); REACH("entry");
    ENS(same(*p, a), "construction: exact state");
    if(k == 0) { Tr t(x); X& r = (*p = t); ENS(&r == p && t.v == x, "assignment returns the object and copies"); a.has = true; a.v = x; }
    if(k == 1) { Tr t(x); *p = static_cast<Tr&&>(t); ENS(t.v == MOVED, "moving moves the value out"); a.has = true; a.v = x; }
    if(k == 2) { *p = x; a.has = true; a.v = x; }
    if(k == 3) { estd::unexpected<Er> e(x); X& r = (*p = e); ENS(&r == p, "assignment returns the object"); a.has = false; a.v = x; }
    if(k == 4) { Tr& r = p->emplace(x); ENS(&r == &**p, "emplace returns the new value"); a.has = true; a.v = x; }
    if(k == 5) { const X& c = *p; q = new (rb.at()) X(c); b = a; }
    if(k == 6) { q = new (rb.at()) X(static_cast<X&&>(*p)); b = a; if(ha) a.v = (**p).v; else a.v = p->error().v; }
    if(k == 7) { estd::unexpected<Er> e(x); q = new (rb.at()) X(e); b.has = false; b.v = x; }
    if(k == 8) { Tr t(x); q = new (rb.at()) X(t); b.has = true; b.v = x; }
    if(k == 9) { Tr t(x); q = new (rb.at()) X(static_cast<Tr&&>(t)); b.has = true; b.v = x; ENS(t.v == MOVED, "moving moves the value out"); }
    if(k == 10) { Tr t(x); const X& c = *p; Tr w = c.value_or(t); ENS(w.v == (ha ? a.v : x), "value_or yields the value, or the given one"); }
    if(k == 11) { if(ha) { p->value().v = x; a.v = x; } else { p->error().v = x; a.v = x; } }
    if(k == 14) { if(ha) { Tr w(*static_cast<X&&>(*p)); ENS(w.v == a.v && (**p).v == MOVED, "dereferencing an rvalue moves the value out"); a.v = MOVED; } }
    if(k == 12) { estd::unexpected<int32_t> e(x); *p = e; a.has = false; a.v = x; }
    if(k == 13) { estd::unexpected<int32_t> e(x); q = new (rb.at()) X(e); b.has = false; b.v = x; }
    REACH("done");
    ENS(same(*p, a) && (!q || same(*q, b)), "operation: exact state"); ENS(live_count() == (q ? 2u : 1u), "exactly one of value and error is alive");
    p->~X(); if(q) q->~X(); ENS(live_count() == 0, "everything constructed is destroyed");
}
#ifndef VH
#define VH 0
#define VK 0
#endif
//@ entry vh_ops unwind=10 defs=VH=0,VK=0
//@ entry vh_ops unwind=10 defs=VH=0,VK=7
//@ entry vh_ops unwind=10 defs=VH=1,VK=0
//@ entry vh_ops unwind=10 defs=VH=1,VK=7
ENTRY(vh_ops) { split(VK, VK + 7, [](size_t k) { op(VH, (unsigned)k); }); }

typedef estd::expected<int32_t, int16_t> XI;
//@ entry vh_access
ENTRY(vh_access)
{
    int32_t v = i32(); int16_t e = i16(); bool h = flag(); XI x(estd::in_place_t{}, v); if(!h) x = estd::unexpected<int16_t>(e); REACH("entry");
    ENS(x.has_value() == h && (bool)x == h && (h || x.error() == e), "exact state");
    if(!h) __vh_allow(vh::THROW);
    const XI& cx = x; int32_t r = flag() ? x.value() : cx.value(); REACH("value"); ENS(h && r == v, "value() yields the value, and does not return when there is none");
}
//@ entry vh_int
ENTRY(vh_int)
{
    struct B { int32_t g0; XI o; int32_t g1; } b = { i32(), XI(estd::in_place_t{}, i32()), i32() }; int32_t g0 = b.g0, g1 = b.g1, v = *b.o, w = i32(); int16_t e = i16(), f = i16(); bool h = flag(); if(!h) b.o = estd::unexpected<int16_t>(e); REACH("entry");
    XI d; ENS(d.has_value() && *d == 0, "a new one holds a default value");
    switch(upto(0, 5)) { case 0: b.o = w; h = true; v = w; break; case 1: b.o = estd::unexpected<int16_t>(f); h = false; e = f; break; case 2: ENS(b.o.emplace(w) == w, "emplace returns the value"); h = true; v = w; break;
        case 3: { const XI& c = b.o; ENS(c.value_or(w) == (h ? v : w), "value_or yields the value, or the given one"); break; } case 4: { XI c(b.o); ENS(c.has_value() == h && (h ? *c == v : c.error() == e), "a copy is equal"); break; } case 5: { XI c(static_cast<XI&&>(b.o)); ENS(c.has_value() == h && (h ? *c == v : c.error() == e), "a moved one is equal"); break; } }
    REACH("done"); ENS(b.o.has_value() == h && (h ? *b.o == v : b.o.error() == e), "operation: exact state"); ENS(b.g0 == g0 && b.g1 == g1, "nothing else changed");
}
typedef estd::expected<void, int32_t> XV;
//@ entry vh_void
ENTRY(vh_void)
{
    XV x; int32_t e = i32(), f = i32(); bool h = flag(); ENS(x.has_value() && (bool)x, "a new one reports success"); if(!h) x = estd::unexpected<int32_t>(e); REACH("entry");
    ENS(x.has_value() == h && (h || x.error() == e), "exact state");
    if(flag()) { x = estd::unexpected<int32_t>(f); h = false; e = f; }
    XV y(x); ENS(y.has_value() == h && (h || y.error() == e) && x.has_value() == h && (h || x.error() == e), "operation: exact state");
}
// values that can only be moved
typedef estd::expected<Mv, int32_t> XM;
static void moveonly(bool h, unsigned k)
{
    track_start(); Raw<XM> ra, rb; int32_t v = i32(), x = i32(); REACH("entry"); XM* p = h ? new (ra.at()) XM(estd::in_place_t{}, v) : new (ra.at()) XM(estd::unexpect_t{}, v); XM* q = 0;
    if(k == 0) { q = new (rb.at()) XM(static_cast<XM&&>(*p)); ENS(q->has_value() == h && (h ? (**q).v == v : q->error() == v), "a moved one holds the same"); if(h) v = MOVED; }
    if(k == 1) { *p = Mv(x); v = x; h = true; }
    if(k == 2) { p->emplace(x); v = x; h = true; }
    if(k == 3) { *p = estd::unexpected<int32_t>(x); v = x; h = false; }
    REACH("done"); ENS(p->has_value() == h && (h ? (**p).v == v : p->error() == v), "operation: exact state"); ENS(live_count() == (h ? 1u : 0u) + (q && q->has_value() ? 1u : 0u), "exactly the stored objects are alive");
    p->~XM(); if(q) q->~XM(); ENS(live_count() == 0, "everything constructed is destroyed");
}
//@ entry vh_moveonly unwind=10
ENTRY(vh_moveonly) { split(0, 1, [](size_t h) { split(0, 3, [h](size_t k) { moveonly(h, (unsigned)k); }); }); }
