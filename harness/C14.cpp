// C14: an optional holds a value exactly when one was last stored, and that value; every stored object is
// constructed and destroyed exactly once.
#include <assert.h>
#include "vh.h"
#define TRACK_MAX 5
#include "vh_track.h"
#include <estd/optional.h>
using namespace vh;
typedef estd::optional<Tr> O;
typedef estd::optional<int32_t> OI;
struct St { bool has; int32_t v; };
static O* make(Raw<O>& r, const St& s) { return s.has ? new (r.at()) O(estd::in_place_t{}, s.v) : new (r.at()) O(); }
static bool same(O& o, const St& s)
{
    const O& c = o; bool r = c.has_value() == s.has && (bool)c == s.has;
    if(s.has) { r = r && (*c).v == s.v && (*o).v == s.v && o->v == s.v && c->v == s.v && c.value().v == s.v && o.value().v == s.v; used(&*o); }
    return r;
}
static void op(bool ha, bool hb, unsigned k)
{
    track_start(); Raw<O> ra, rb; St a = { ha, i32() }, b = { hb, i32() }; O* p = make(ra, a); O* q = make(rb, b); int32_t x = i32(); bool src_moved = false;
    REACH("entry"); ENS(same(*p, a) && same(*q, b), "construction: exact state");
    if(k == 0) { O& r = (*p = estd::nullopt); ENS(&r == p, "assignment returns the object"); a.has = false; }
    if(k == 1) { O& r = (*p = *q); ENS(&r == p, "assignment returns the object"); a = b; }
    if(k == 2) { O& r = (*p = static_cast<O&&>(*q)); ENS(&r == p, "assignment returns the object"); a = b; src_moved = true; }
    if(k == 3) { Tr t(x); O& r = (*p = t); ENS(&r == p && t.v == x, "assignment copies the value"); a.has = true; a.v = x; }
    if(k == 4) { Tr t(x); *p = static_cast<Tr&&>(t); a.has = true; a.v = x; }
    if(k == 5) { Tr& r = p->emplace(x); ENS(&r == &**p, "emplace returns the new value"); a.has = true; a.v = x; }
    if(k == 6) { p->reset(); a.has = false; }
    if(k == 7) { O& s = *p; *p = s; }
    if(k == 8) { if(ha) { p->value().v = x; a.v = x; } }
    if(k == 9) { if(ha && hb) { **p = **q; a.v = b.v; } }
    if(k == 10) { *p = x; a.has = true; a.v = x; }
    if(k == 11) { Tr t(x); Tr w = p->value_or(t); ENS(w.v == (ha ? a.v : x), "value_or yields the value, or the given one when empty"); }
    if(k == 12) { OI s; if(hb) s = b.v; *p = s; a = b; }
    if(k == 13) { if(ha) { Tr w = static_cast<O&&>(*p).value(); ENS(w.v == a.v, "an rvalue yields its value"); a.v = (**p).v; } }
    if(k == 14) { Tr t(x); const O& c = *p; Tr w = c.value_or(t); ENS(w.v == (ha ? a.v : x), "value_or yields the value, or the given one when empty"); }
    if(src_moved) { ENS(!hb || (q->has_value() && (**q).v == MOVED), "moving moves the value out"); b.v = MOVED; }
    REACH("done");
    ENS(same(*p, a) && same(*q, b), "operation: exact state of both");
    ENS(live_count() == (a.has ? 1u : 0u) + (b.has ? 1u : 0u), "exactly the stored objects are alive");
    p->~O(); ENS(live_count() == (b.has ? 1u : 0u), "destruction ends the stored object"); q->~O(); ENS(live_count() == 0, "everything constructed is destroyed");
}
#ifndef VH
#define VH 0
#define VK 0
#endif
//@ entry vh_ops unwind=10 defs=VH=0,VK=0
//@ entry vh_ops unwind=10 defs=VH=0,VK=8
//@ entry vh_ops unwind=10 defs=VH=1,VK=0
//@ entry vh_ops unwind=10 defs=VH=1,VK=8
//@ entry vh_ops unwind=10 defs=VH=2,VK=0
//@ entry vh_ops unwind=10 defs=VH=2,VK=8
//@ entry vh_ops unwind=10 defs=VH=3,VK=0
//@ entry vh_ops unwind=10 defs=VH=3,VK=8
ENTRY(vh_ops) { split(VK, VK + 7 > 14 ? 14 : VK + 7, [](size_t k) { op(VH & 1, (VH >> 1) & 1, (unsigned)k); }); }

static void ctor(bool hb, unsigned k)
{
    track_start(); Raw<O> ra, rb; St b = { hb, i32() }; O* q = make(rb, b); O* p = 0; int32_t x = i32(); St a = { false, 0 }; REACH("entry");
    if(k == 0) p = new (ra.at()) O();
    if(k == 1) p = new (ra.at()) O(estd::nullopt);
    if(k == 2) { p = new (ra.at()) O(*q); a = b; }
    if(k == 3) { p = new (ra.at()) O(static_cast<O&&>(*q)); a = b; if(hb) b.v = MOVED; }
    if(k == 4) { Tr t(x); p = new (ra.at()) O(t); a.has = true; a.v = x; ENS(t.v == x, "a copy leaves the source"); }
    if(k == 5) { Tr t(x); p = new (ra.at()) O(static_cast<Tr&&>(t)); a.has = true; a.v = x; ENS(t.v == MOVED, "moving moves the value out"); }
    if(k == 6) { p = new (ra.at()) O(x); a.has = true; a.v = x; }
    if(k == 7) { OI s; if(hb) s = b.v; p = new (ra.at()) O(s); a = b; }
    if(k == 8) { OI s; if(hb) s = b.v; p = new (ra.at()) O(static_cast<OI&&>(s)); a = b; }
    if(k == 9) { const O& c = *q; p = new (ra.at()) O(c); a = b; }
    REACH("done");
    ENS(same(*p, a) && same(*q, b), "construction: exact state of both"); ENS(live_count() == (a.has ? 1u : 0u) + (b.has ? 1u : 0u), "exactly the stored objects are alive");
    p->~O(); q->~O(); ENS(live_count() == 0, "everything constructed is destroyed");
}
//@ entry vh_ctor unwind=10
ENTRY(vh_ctor) { split(0, 1, [](size_t h) { split(0, 9, [h](size_t k) { ctor(h, (unsigned)k); }); }); }

//@ entry vh_empty_access
ENTRY(vh_empty_access)
{
    OI o; if(flag()) o = i32(); bool has = o.has_value(), reached = false; const OI& c = o; REACH("entry");
    if(!has) __vh_allow(vh::THROW);
    if(flag()) (void)o.value(); else (void)c.value();
    reached = true; REACH("value"); ENS(has, "value() of an empty optional does not return"); (void)reached;
}

template <class A> static void compare(A& o, bool has, int32_t v)
{
    int32_t x = i32(); REACH("entry");
    ENS((o == x) == (has && v == x) && (x == o) == (has && v == x) && (o != x) == !(has && v == x), "equality with a value");
    ENS((o < x) == (has && v < x) && (o > x) == (has && v > x) && (o <= x) == (has && v <= x) && (o >= x) == (has && v >= x), "ordering against a value; empty never orders");
}
//@ entry vh_compare
ENTRY(vh_compare)
{
    OI o, s; int32_t v = i32(), w = i32(); bool h = flag(), g = flag(); if(h) o = v; if(g) s = w;
    compare(o, h, v); ENS((o == s) == (h ? g && v == w : !g), "two optionals are equal when both are empty or both hold equal values");
    ENS(!(o == s) || estd::hash<OI>{}(o) == estd::hash<OI>{}(s), "equal optionals hash alike");
}

//@ entry vh_int
ENTRY(vh_int)
{
    struct B { int32_t g0; OI o; int32_t g1; } b; int32_t g0 = i32(), g1 = i32(), v = i32(), w = i32(); b.g0 = g0; b.g1 = g1; OI s; bool h = flag(), g = flag(); if(h) b.o = v; if(g) s.emplace(w); REACH("entry");
    size_t k = upto(0, 6);
    switch(k) { case 0: b.o = s; h = g; v = w; break; case 1: b.o = w; h = true; v = w; break; case 2: b.o.reset(); h = false; break; case 3: b.o = estd::nullopt; h = false; break;
        case 4: { int32_t& r = b.o.emplace(w); ENS(r == w, "emplace returns the value"); h = true; v = w; break; } case 5: b.o = static_cast<OI&&>(s); h = g; v = w; break; case 6: { OI t(s); b.o = t; h = g; v = w; break; } }
    REACH("done"); ENS(b.o.has_value() == h && (!h || *b.o == v) && b.o.value_or(7) == (h ? v : 7), "operation: exact state"); ENS(b.g0 == g0 && b.g1 == g1, "nothing else changed");
}

#ifndef VT
#define VT int32_t
#define VNULL -1
#endif
typedef estd::layer1::optional<VT, (VT)(VNULL)> L;
//@ entry vh_layer1
//@ entry vh_layer1 defs=VT=int8_t,VNULL=-128
//@ entry vh_layer1 defs=VT=uint16_t,VNULL=0
//@ entry vh_layer1 defs=VT=uint64_t,VNULL=77
ENTRY(vh_layer1)
{
    const VT null = (VT)(VNULL); VT v = any<VT>(), w = any<VT>(), x = any<VT>(); L a, b; ENS(!a.has_value() && !(bool)b && sizeof(L) == sizeof(VT), "a new layer1 optional is empty and costs no space");
    bool h = flag(), g = flag(); if(h) a = v; if(g) b = w; h = h && v != null; g = g && w != null; REACH("entry");
    ENS(a.has_value() == h && (!h || *a == v), "holds a value exactly when it differs from the reserved one");
    size_t k = upto(0, 7);
    switch(k) { case 0: a = b; h = g; v = w; break; case 1: a.reset(); h = false; break; case 2: a = estd::nullopt; h = false; break; case 3: { L c(b); a = c; h = g; v = w; break; }
        case 4: { estd::optional<VT> c; if(g) c = w; L d(c); a = d; h = g; v = w; break; } case 5: { VT y = x; a = y; h = x != null; v = x; break; } case 6: a = L(static_cast<VT>(x)); h = x != null; v = x; break; case 7: { estd::optional<VT> c(a); ENS(c.has_value() == h && (!h || *c == v), "converts to an ordinary optional"); } }
    REACH("done"); ENS(a.has_value() == h && (bool)a == h && (!h || (*a == v && a.value() == v)) && a.value_or(x) == (h ? v : x), "operation: exact state");
    ENS((a == x) == (h && v == x) && (x == a) == (h && v == x) && (a != x) == !(h && v == x), "equality with a value");
    const L& ca = a; const L& cb = b; ENS((ca == cb) == (h ? g && v == *b : !g) , "two optionals compare as values");
    ENS(!(ca == cb) || estd::hash<estd::optional<VT, estd::internal::layer1::optional<VT, (VT)(VNULL)>>>{}(ca) == estd::hash<estd::optional<VT, estd::internal::layer1::optional<VT, (VT)(VNULL)>>>{}(cb), "equal optionals hash alike");
}

typedef estd::layer1::optional<bool> LB;
//@ entry vh_bit
ENTRY(vh_bit)
{
    LB a, b; bool v = flag(), w = flag(), h = flag(), g = flag(); ENS(!a.has_value() && sizeof(LB) == 1, "a new one is empty and costs no space"); if(h) a = v; if(g) b = w; REACH("entry");
    size_t k = upto(0, 4);
    switch(k) { case 0: a = b; h = g; v = w; break; case 1: a.reset(); h = false; break; case 2: a = estd::nullopt; h = false; break; case 3: { LB c(b); a = c; h = g; v = w; break; } case 4: a = w; h = true; v = w; break; }
    REACH("done"); ENS(a.has_value() == h && (bool)a == h && (!h || (*a == v && a.value() == v)) && b.has_value() == g && (!g || *b == w), "operation: exact state");
}
// move-only elements
typedef estd::optional<Mv> OM;
static void moveonly(bool ha, bool hb, unsigned k)
{
    track_start(); Raw<OM> ra, rb; int32_t v = i32(), w = i32(), x = i32(); REACH("entry");
    OM* p = ha ? new (ra.at()) OM(estd::in_place_t{}, v) : new (ra.at()) OM(); OM* q = hb ? new (rb.at()) OM(estd::in_place_t{}, w) : new (rb.at()) OM();
    if(k == 0) { *p = static_cast<OM&&>(*q); ha = hb; v = w; w = MOVED; }
    if(k == 1) { *p = Mv(x); ha = true; v = x; }
    if(k == 2) { p->emplace(x); ha = true; v = x; }
    if(k == 3) { p->~OM(); p = new (ra.at()) OM(static_cast<OM&&>(*q)); ha = hb; v = w; w = MOVED; }
    if(k == 4) { p->reset(); ha = false; }
    if(k == 5) { p->~OM(); p = new (ra.at()) OM(Mv(x)); ha = true; v = x; }
    REACH("done"); ENS(p->has_value() == ha && (!ha || (**p).v == v) && q->has_value() == hb && (!hb || (**q).v == w), "operation: exact state of both"); ENS(live_count() == (ha ? 1u : 0u) + (hb ? 1u : 0u), "exactly the stored objects are alive");
    p->~OM(); q->~OM(); ENS(live_count() == 0, "everything constructed is destroyed");
}
//@ entry vh_moveonly unwind=10
ENTRY(vh_moveonly) { split(0, 3, [](size_t h) { split(0, 5, [h](size_t k) { moveonly(h & 1, (h >> 1) & 1, (unsigned)k); }); }); }
