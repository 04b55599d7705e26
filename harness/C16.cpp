// C16: a variant holds exactly the alternative last stored in it, with its value; every stored object is constructed
// and destroyed exactly once.
#include <assert.h>
#include "vh.h"
#define TRACK_MAX 6
#include "vh_track.h"
#include <estd/variant.h>
using namespace vh;
template <int N> struct Key { int32_t v; };
template <int N> struct Ob {     // copyable and assignable
    int32_t v; Ob() : v(-5) { born(this); } Ob(Key<N> k) : v(k.v) { born(this); } Ob(const Ob& o) : v(o.v) { used(&o); born(this); } Ob(Ob&& o) noexcept : v(o.v) { used(&o); o.v = MOVED; born(this); }
    Ob& operator=(const Ob& o) { used(this); used(&o); v = o.v; return *this; } Ob& operator=(Ob&& o) noexcept { used(this); used(&o); int32_t t = o.v; o.v = MOVED; v = t; return *this; }
    ~Ob() { died(this); }
};
struct Nc {                      // copy constructible, not assignable
    int32_t v; Nc(Key<1> k) : v(k.v) { born(this); } Nc(const Nc& o) : v(o.v) { used(&o); born(this); } Nc& operator=(const Nc&) = delete; ~Nc() { died(this); }
};
typedef estd::variant<Ob<0>, Nc, Ob<2>> V;
struct St { size_t i; int32_t v; };
static V* make(Raw<V>& r, const St& s)
{
    if(s.i == 0) return new (r.at()) V(estd::in_place_index_t<0>{}, Key<0>{s.v});
    if(s.i == 1) return new (r.at()) V(estd::in_place_index_t<1>{}, Key<1>{s.v});
    return new (r.at()) V(estd::in_place_index_t<2>{}, Key<2>{s.v});
}
static bool same(V& o, const St& s)
{
    const V& c = o; bool r = c.index() == s.i && !c.valueless_by_exception() && estd::holds_alternative<Ob<0>>(c) == (s.i == 0) && estd::holds_alternative<Nc>(c) == (s.i == 1) && estd::holds_alternative<Ob<2>>(c) == (s.i == 2);
    Ob<0>* a = estd::get_if<0>(&o); Nc* b = estd::get_if<Nc>(&o); const Ob<2>* d = estd::get_if<Ob<2>>(&c); const Ob<0>* ca = estd::get_if<Ob<0>>(&c);
    r = r && (a != 0) == (s.i == 0) && (b != 0) == (s.i == 1) && (d != 0) == (s.i == 2) && ca == a;
    if(s.i == 0) { used(a); r = r && a->v == s.v && estd::get<0>(o).v == s.v && estd::get<Ob<0>>(c).v == s.v; }
    if(s.i == 1) { used(b); r = r && b->v == s.v && estd::get<1>(c).v == s.v && estd::get<Nc>(o).v == s.v; }
    if(s.i == 2) { used(d); r = r && d->v == s.v && estd::get<2>(c).v == s.v && estd::get<Ob<2>>(o).v == s.v; }
    return r;
}
#ifndef VH
#define VH 0
#define VK 0
#endif
static void done(V* p, V* q) { p->~V(); if(q) q->~V(); ENS(live_count() == 0, "everything constructed is destroyed"); }
// assignment between variants and from values
template <unsigned k> static void assign(size_t i, size_t j)
{
    track_start(); Raw<V> ra, rb; St a = { i, i32() }, b = { j, i32() }; V* p = make(ra, a); V* q = make(rb, b); REACH("entry"); bool gone = false;
    ENS(same(*p, a) && same(*q, b), "construction: exact state");
    if constexpr(k == 0) { V& r = (*p = *q); ENS(&r == p, "assignment returns the object"); a = b; }
    if constexpr(k == 1) { V& r = (*p = static_cast<V&&>(*q)); ENS(&r == p, "assignment returns the object"); a = b; gone = true; }
    if constexpr(k == 2) { V& s = *p; *p = s; }
    if constexpr(k == 3) { if(j == 0) { Ob<0> o(Key<0>{b.v}); *p = o; ENS(o.v == b.v, "a copy leaves the source"); } if(j == 1) { Nc o(Key<1>{b.v}); *p = o; ENS(o.v == b.v, "a copy leaves the source"); } if(j == 2) { Ob<2> o(Key<2>{b.v}); *p = o; } a = b; }
    if constexpr(k == 4) { if(j == 0) { *p = Ob<0>(Key<0>{b.v}); } if(j == 1) { *p = Nc(Key<1>{b.v}); } if(j == 2) { *p = Ob<2>(Key<2>{b.v}); } a = b; }
    if constexpr(k == 5) { if(j == 0) *p = Key<0>{b.v}; if(j == 1) *p = Key<1>{b.v}; if(j == 2) *p = Key<2>{b.v}; a = b; }
    if constexpr(k == 6) { if(j == 0) ENS(&p->emplace<Ob<0>>(Key<0>{b.v}) == estd::get_if<0>(p), "emplace returns the new value"); if(j == 1) ENS(&p->emplace<1>(Key<1>{b.v}) == estd::get_if<1>(p), "emplace returns the new value"); if(j == 2) p->emplace<2>(Key<2>{b.v}); a = b; }
    if constexpr(k == 7) { p->~V(); p = new (ra.at()) V(*q); a = b; }
    if constexpr(k == 8) { p->~V(); p = new (ra.at()) V(static_cast<V&&>(*q)); a = b; gone = true; }
    if constexpr(k == 9) { p->~V(); if(j == 0) p = new (ra.at()) V(Ob<0>(Key<0>{b.v})); if(j == 1) p = new (ra.at()) V(Nc(Key<1>{b.v})); if(j == 2) { Ob<2> o(Key<2>{b.v}); p = new (ra.at()) V(o); } a = b; }
    if constexpr(k == 10) { p->~V(); if(j == 0) p = new (ra.at()) V(estd::in_place_type_t<Ob<0>>{}, Key<0>{b.v}); if(j == 1) p = new (ra.at()) V(estd::in_place_type_t<Nc>{}, Key<1>{b.v}); if(j == 2) p = new (ra.at()) V(estd::in_place_type_t<Ob<2>>{}, Key<2>{b.v}); a = b; }
    REACH("done"); ENS(same(*p, a), "operation: exact state");
    if(gone) ENS(live_count() == (q->valueless_by_exception() ? 1u : 2u), "exactly the stored objects are alive");
    else { ENS(same(*q, b), "the other variant keeps its state"); ENS(live_count() == 2u, "exactly the stored objects are alive"); }
    if(gone) { *q = *p; ENS(same(*q, a) && same(*p, a), "a moved-from variant can be assigned"); }
    done(p, q);
}
//@ entry vh_assign unwind=10 defs=VH=0,VK=0
//@ entry vh_assign unwind=10 defs=VH=1,VK=0
//@ entry vh_assign unwind=10 defs=VH=2,VK=0
//@ entry vh_assign unwind=10 defs=VH=0,VK=1
//@ entry vh_assign unwind=10 defs=VH=1,VK=1
//@ entry vh_assign unwind=10 defs=VH=2,VK=1
//@ entry vh_assign unwind=10 defs=VH=0,VK=2
//@ entry vh_assign unwind=10 defs=VH=1,VK=2
//@ entry vh_assign unwind=10 defs=VH=2,VK=2
//@ entry vh_assign unwind=10 defs=VH=0,VK=3
//@ entry vh_assign unwind=10 defs=VH=1,VK=3
//@ entry vh_assign unwind=10 defs=VH=2,VK=3
//@ entry vh_assign unwind=10 defs=VH=0,VK=4
//@ entry vh_assign unwind=10 defs=VH=1,VK=4
//@ entry vh_assign unwind=10 defs=VH=2,VK=4
//@ entry vh_assign unwind=10 defs=VH=0,VK=5
//@ entry vh_assign unwind=10 defs=VH=1,VK=5
//@ entry vh_assign unwind=10 defs=VH=2,VK=5
//@ entry vh_assign unwind=10 defs=VH=0,VK=6
//@ entry vh_assign unwind=10 defs=VH=1,VK=6
//@ entry vh_assign unwind=10 defs=VH=2,VK=6
//@ entry vh_assign unwind=10 defs=VH=0,VK=7
//@ entry vh_assign unwind=10 defs=VH=1,VK=7
//@ entry vh_assign unwind=10 defs=VH=2,VK=7
//@ entry vh_assign unwind=10 defs=VH=0,VK=8
//@ entry vh_assign unwind=10 defs=VH=1,VK=8
//@ entry vh_assign unwind=10 defs=VH=2,VK=8
//@ entry vh_assign unwind=10 defs=VH=0,VK=9
//@ entry vh_assign unwind=10 defs=VH=1,VK=9
//@ entry vh_assign unwind=10 defs=VH=2,VK=9
//@ entry vh_assign unwind=10 defs=VH=0,VK=10
//@ entry vh_assign unwind=10 defs=VH=1,VK=10
//@ entry vh_assign unwind=10 defs=VH=2,VK=10
ENTRY(vh_assign) { split(0, 2, [](size_t j) { assign<VK>(VH, j); }); }
//@ entry vh_default unwind=10
ENTRY(vh_default) { track_start(); Raw<V> ra; typedef estd::variant<Ob<0>, Nc> W; Raw<W> r; REACH("entry"); W* p = new (r.at()) W(); ENS(p->index() == 0 && estd::get<0>(*p).v == -5 && live_count() == 1, "a new variant holds its first alternative"); p->~W(); ENS(live_count() == 0, "everything constructed is destroyed"); }

typedef estd::variant<int32_t, uint8_t, bool> VI;
//@ entry vh_wrong
ENTRY(vh_wrong)
{
    size_t i = upto(0, 1); int32_t v = i32(); VI x(estd::in_place_index_t<0>{}, v); if(i == 1) x.emplace<uint8_t>((uint8_t)v); size_t k = upto(0, 3); const VI& c = x; REACH("entry");
    if((k & 1) != i) __vh_allow(vh::THROW);
    int32_t r = 0; switch(k) { case 0: r = estd::get<0>(x); break; case 1: r = estd::get<uint8_t>(x); break; case 2: r = estd::get<int32_t>(c); break; case 3: r = estd::get<1>(c); break; }
    REACH("got"); ENS((k & 1) == i && r == (i ? (uint8_t)v : v), "get yields the value, and does not return when another alternative is held");
}
//@ entry vh_trivial
ENTRY(vh_trivial)
{
    struct B { int32_t g0; VI x; int32_t g1; } b; int32_t g0 = i32(), g1 = i32(); b.g0 = g0; b.g1 = g1; int32_t v = i32(); uint8_t u = u8(); bool f = flag(); size_t i = upto(0, 2); REACH("entry");
    if(i == 0) b.x.emplace<0>(v); if(i == 1) b.x.emplace<1>(u); if(i == 2) b.x.emplace<2>(f);
    VI y(b.x); VI z; z = y; VI w(static_cast<VI&&>(y)); REACH("done");
    ENS(b.x.index() == i && z.index() == i && w.index() == i, "the alternative held"); ENS(b.g0 == g0 && b.g1 == g1, "nothing else changed");
    if(i == 0) ENS(estd::get<0>(z) == v && estd::get<0>(w) == v && estd::get<0>(b.x) == v, "the value held");
    if(i == 1) ENS(estd::get<1>(z) == u && estd::get<1>(w) == u && estd::get<1>(b.x) == u, "the value held");
    if(i == 2) ENS(estd::get<2>(z) == f && estd::get<2>(w) == f && estd::get<2>(b.x) == f, "the value held");
}
struct Vis { int32_t* out; template <size_t I, class T> bool operator()(estd::variadic::visitor_instance<I, T> vi) { *out = (int32_t)vi.value * 8 + (int32_t)I; return true; } };
//@ entry vh_visit
ENTRY(vh_visit)
{
    VI x; uint8_t v = u8() ; size_t i = upto(0, 2); REACH("entry"); if(i == 0) x.emplace<0>(v); if(i == 1) x.emplace<1>(v); if(i == 2) x.emplace<2>((bool)v);
    int32_t out = -1; const VI& c = x; size_t r = flag() ? x.visit_index(Vis{&out}) : c.visit_index(Vis{&out}); REACH("done");
    ENS(r == i && out == (i == 2 ? (int32_t)(bool)v : (int32_t)v) * 8 + (int32_t)i, "visiting reaches the held alternative");
}
typedef estd::variant<int32_t, int32_t> VD;
//@ entry vh_twice
ENTRY(vh_twice)
{
    VD x(estd::in_place_index_t<1>{}, i32()); int32_t v = i32(); REACH("entry"); ENS(x.index() == 1, "index of a repeated type"); x.emplace<0>(v); ENS(x.index() == 0 && estd::get<0>(x) == v, "index of a repeated type"); x.emplace<1>(v); ENS(x.index() == 1 && estd::get<1>(x) == v && estd::get_if<0>(&x) == nullptr, "index of a repeated type");
}
// alternatives that can only be moved
typedef estd::variant<int32_t, Mv> VM;
static void moveonly(bool ha, bool hb, unsigned k)
{
    track_start(); Raw<VM> ra, rb; int32_t v = i32(), w = i32(), x = i32(); REACH("entry");
    VM* p = ha ? new (ra.at()) VM(estd::in_place_index_t<1>{}, v) : new (ra.at()) VM(estd::in_place_index_t<0>{}, v); VM* q = hb ? new (rb.at()) VM(estd::in_place_index_t<1>{}, w) : new (rb.at()) VM(estd::in_place_index_t<0>{}, w);
    if(k == 0) { *p = static_cast<VM&&>(*q); ha = hb; v = w; }
    if(k == 1) { *p = Mv(x); ha = true; v = x; }
    if(k == 2) { p->emplace<1>(x); ha = true; v = x; }
    if(k == 3) { p->~VM(); p = new (ra.at()) VM(static_cast<VM&&>(*q)); ha = hb; v = w; }
    if(k == 4) { p->emplace<0>(x); ha = false; v = x; }
    REACH("done"); ENS(p->index() == (ha ? 1u : 0u) && (ha ? estd::get<1>(*p).v == v : estd::get<0>(*p) == v), "operation: exact state");
    ENS(live_count() == (ha ? 1u : 0u) + (q->index() == 1 ? 1u : 0u), "exactly the stored objects are alive");
    p->~VM(); q->~VM(); ENS(live_count() == 0, "everything constructed is destroyed");
}
//@ entry vh_moveonly unwind=10
ENTRY(vh_moveonly) { split(0, 3, [](size_t h) { split(0, 4, [h](size_t k) { moveonly(h & 1, (h >> 1) & 1, (unsigned)k); }); }); }
