// C27: a function object calls exactly what it was given, with the arguments given, and owns exactly what it must.
#include <assert.h>
#define TRACK_MAX 5
#include "vh.h"
#include "vh_track.h"
#include <estd/functional.h>
using namespace vh;
template <class T> static const T& asc(const T& x) { return x; }
namespace impl = estd::detail::impl;
// what was called, how often and with what
struct Call { unsigned n; int32_t id, a; uint8_t b; };
static Call g;
SPEC int32_t res(int32_t id, int32_t a, uint8_t b) { return (int32_t)((uint32_t)a * 3u + (uint32_t)b * 7u + (uint32_t)id * 131u); }
static bool called(unsigned n, int32_t id, int32_t a, uint8_t b) { return g.n == n && g.id == id && g.a == a && g.b == b; }
static int32_t hit(int32_t id, int32_t a, uint8_t b) { g.n++; g.id = id; g.a = a; g.b = b; return res(id, a, b); }
struct Fn { int32_t id; int32_t operator()(int32_t a, uint8_t b) { return hit(id, a, b); } };
struct Fv { int32_t id; void operator()(int32_t a, uint8_t b) { hit(id, a, b); } };
struct Cnt { uint32_t n; int32_t operator()(int32_t a, uint8_t) { n += (uint32_t)a; return (int32_t)n; } };      // keeps state
struct Obj { int32_t pad, id; int32_t m1(int32_t a, uint8_t b) { return hit(id, a, b); } int32_t m2(int32_t a, uint8_t b) { return hit(~id, a, b); } void mv(int32_t a, uint8_t b) { hit(id, a, b); } };
typedef int32_t Sig(int32_t, uint8_t); typedef void Sigv(int32_t, uint8_t);
#ifndef VI
#define VI function_fnptr2
#endif
typedef estd::detail::v2::function<Sig, impl::VI> F;
typedef estd::detail::v2::function<Sigv, impl::VI> FV;
#if VK == 0
//@ entry vh_call kind=full defs=VK=0
//@ entry vh_call kind=full defs=VK=0,VI=function_fnptr1
//@ entry vh_call kind=full defs=VK=0,VI=function_virtual
ENTRY(vh_call)
{
    F none; REACH("entry"); ENS(!none, "a new function refers to nothing"); int32_t i = i32(), j = i32(), a = i32(); uint8_t b = u8(); Fn x = { i }; auto m = F::make_model(Fn(x)); typename F::template model<Fn> m2(Fn { j });
    F f(&m), c(asc(f)); ENS((bool)f && (bool)c, "a function with a model is set"); g.n = 0; ENS(f(a, b) == res(i, a, b) && called(1, i, a, b), "the functor is called once with the arguments"); ENS(c(a, b) == res(i, a, b) && called(2, i, a, b), "a copy calls the same functor");
    c = F(&m2); ENS(c(b, (uint8_t)a) == res(j, b, (uint8_t)a) && called(3, j, b, (uint8_t)a), "assigned anew, it calls the other"); ENS(f(j, b) == res(i, j, b) && called(4, i, j, b), "the original is not affected");
    f = asc(none); ENS(!f && g.n == 4, "a function can be emptied"); FV::model<Fv> mv(Fv { i }); FV v(&mv); v(a, b); ENS(called(5, i, a, b), "a void function calls its functor");
    F::model<Cnt> mc(Cnt { 0 }); F s(&mc), s2(asc(s)); s(a, b); uint32_t sum = (uint32_t)a + (uint32_t)j; ENS(s2(j, b) == (int32_t)sum && mc.f.n == sum, "state of a functor is kept between calls"); REACH("done");
}
//@ entry vh_method kind=full defs=VK=0
//@ entry vh_method kind=full defs=VK=0,VI=function_fnptr1
//@ entry vh_method kind=full defs=VK=0,VI=function_virtual
ENTRY(vh_method)
{
    Obj o, p; o.id = i32(); o.pad = i32(); p.id = i32(); int32_t a = i32(); uint8_t b = u8(); impl::VI<Sig>::method_model<Obj, &Obj::m1> m(&o); impl::VI<Sig>::method_model<Obj, &Obj::m2> n(&p); F f(&m), h(&n); REACH("entry"); g.n = 0;
    ENS(f(a, b) == res(o.id, a, b) && called(1, o.id, a, b), "the method of the object is called"); ENS(h(a, b) == res(~p.id, a, b) && called(2, ~p.id, a, b), "the other method of the other object is called"); o.id = a; ENS(f(b, b) == res(a, b, b) && called(3, a, b, b), "it refers to the object itself"); REACH("done");
}
#endif
#if VK == 1
typedef estd::internal::thisify_function<Sig> TF;
typedef estd::experimental::context_function<decltype(&Obj::m1), &Obj::m1> CF;
//@ entry vh_thisify kind=full defs=VK=1
ENTRY(vh_thisify)
{
    Obj o, p; o.id = i32(); p.id = i32(); int32_t a = i32(); uint8_t b = u8(); TF::model<Obj, &Obj::m1> m(&o); TF::model<Obj, &Obj::m2> n(&p); bool first = flag(); REACH("entry"); g.n = 0;
    TF f = first ? TF(m) : TF(n); int32_t id = first ? o.id : ~p.id; ENS((bool)f && f(a, b) == res(id, a, b) && called(1, id, a, b), "the method of the object is called");
    TF* src = new TF(m); TF c(asc(*src)); src->~TF(); havoc(src, sizeof(TF)); ENS(c(a, b) == res(o.id, a, b) && called(2, o.id, a, b), "a copy does not depend on the function it was copied from"); 
    CF k(&p); ENS(k(a, b) == res(p.id, a, b) && called(3, p.id, a, b), "a context function calls the method of its object");
    estd::internal::thisify_function<Sigv>::model<Obj, &Obj::mv> mv(&o); estd::internal::thisify_function<Sigv> v(mv); v(a, b); ENS(called(4, o.id, a, b), "a void method is called"); REACH("done");
}
struct Con { int32_t id; static int32_t st(int32_t a, uint8_t b, Con* c) { return hit(c->id, a, b); } };
static int32_t with3(int32_t a, uint8_t b, Con* c, uint8_t d, int32_t e) { return hit(c->id ^ e, a, (uint8_t)(b ^ d)); }
//@ entry vh_contextify kind=full defs=VK=1
ENTRY(vh_contextify)
{
    Con c; c.id = i32(); int32_t a = i32(), e = i32(); uint8_t b = u8(), d = u8(); typedef estd::internal::contextify_function<Sig> C1; typedef estd::internal::contextify_function<Sig, uint8_t, int32_t> C3; typedef estd::detail::v2::function<Sig, impl::function_fnptr1> F1; REACH("entry"); g.n = 0;
    C1::model<Con*, &Con::st> m(&c); F1 f(&m); ENS(f(a, b) == res(c.id, a, b) && called(1, c.id, a, b), "the function is called with its context"); uint8_t d2 = d; int32_t e2 = e; C3::model<Con*, &with3> m3(&c, (uint8_t&&)d2, (int32_t&&)e2); F1 f3(&m3); int32_t id = c.id ^ e; uint8_t bd = (uint8_t)(b ^ d); ENS(f3(a, b) == res(id, a, bd) && called(2, id, a, bd), "every context is passed, in order"); REACH("done");
}
#endif
#if VK == 2
// ---- functions that own a copy of the functor ----------------------------------------------------------------
struct Ow { Tr t; Ow(int32_t id) : t(id) {} int32_t operator()(int32_t a, uint8_t b) { used(&t); return hit(t.v, a, b); } };
typedef estd::experimental::function<Sig> EF;
//@ entry vh_owning kind=full defs=VK=2
ENTRY(vh_owning)
{
    track_start(); int32_t i = i32(), j = i32(), a = i32(); uint8_t b = u8(); REACH("entry"); g.n = 0;
    { EF f { Ow(i) }; ENS(live_count() == 1 && (bool)f, "the function holds one copy of the functor"); ENS(f(a, b) == res(i, a, b) && called(1, i, a, b), "it calls the functor");
      EF m((EF&&)f); ENS(live_count() == 1 && !f && (bool)m, "moving hands the functor over"); ENS(m(a, b) == res(i, a, b) && called(2, i, a, b), "the new owner calls it");
      m = Ow(j); ENS(live_count() == 1, "assignment destroys the previous functor"); ENS(m(a, b) == res(j, a, b) && called(3, j, a, b), "it calls the functor assigned");
      f = Ow(i); ENS(live_count() == 2 && (bool)f, "an emptied function takes a new functor"); ENS(f(a, b) == res(i, a, b) && called(4, i, a, b), "and calls it");
      m = (EF&&)f; ENS(live_count() == 1 && (bool)m && m(a, b) == res(i, a, b) && called(5, i, a, b), "move assignment takes the functor over"); ENS(!f, "and empties its source"); }
    ENS(live_count() == 0, "the functors are destroyed exactly once"); REACH("done");
}
//@ entry vh_owning_lvalue kind=full defs=VK=2
ENTRY(vh_owning_lvalue)
{
    track_start(); int32_t i = i32(), a = i32(); uint8_t b = u8(); REACH("entry"); g.n = 0;
    { Ow x(i); EF f(x); ENS(x.t.v == i, "making a function of a functor leaves the functor as it was"); ENS(f(a, b) == res(i, a, b) && called(1, i, a, b), "the function calls its copy"); EF h { Ow(a) }; h = x; ENS(x.t.v == i && h(a, b) == res(i, a, b), "assigning a functor leaves it as it was"); ENS(live_count() == 3, "each holds its own copy"); }
    ENS(live_count() == 0, "the functors are destroyed exactly once"); REACH("done");
}
//@ entry vh_owning_copy kind=full defs=VK=2
ENTRY(vh_owning_copy)
{
    track_start(); int32_t i = i32(), a = i32(); uint8_t b = u8(); REACH("entry"); g.n = 0;
    { EF f { Ow(i) }; EF c(asc(f)), d(f); ENS(live_count() == 3 && (bool)f && (bool)c && (bool)d, "each copy holds its own copy of the functor"); ENS(f(a, b) == res(i, a, b) && c(a, b) == res(i, a, b) && d(a, b) == res(i, a, b) && g.n == 3, "all of them call it"); }
    ENS(live_count() == 0, "the functors are destroyed exactly once");
    { EF e { Ow(i) }; EF x((EF&&)e), y(asc(e)); ENS(!y && !e && (bool)x && live_count() == 1, "a copy of an empty function is empty"); }
    ENS(live_count() == 0, "the functors are destroyed exactly once"); REACH("done");
}
//@ entry vh_owning_assign kind=full defs=VK=2,VL=0
//@ entry vh_owning_assign kind=full defs=VK=2,VL=1
//@ entry vh_owning_self kind=full defs=VK=2,VL=0
//@ entry vh_owning_self kind=full defs=VK=2,VL=1
#ifdef VL
ENTRY(vh_owning_assign)
{
    track_start(); int32_t i = i32(), j = i32(), a = i32(); uint8_t b = u8(); REACH("entry"); g.n = 0;
    { EF f { Ow(i) }, e { Ow(j) }; if(VL) f = e; else f = asc(e); ENS(live_count() == 2 && f(a, b) == res(j, a, b) && e(a, b) == res(j, a, b), "a copy assigned replaces the functor, the source is not affected"); }
    ENS(live_count() == 0, "the functors are destroyed exactly once"); REACH("done");
}
ENTRY(vh_owning_self)
{
    track_start(); int32_t i = i32(), a = i32(); uint8_t b = u8(); REACH("entry"); g.n = 0;
    { EF f { Ow(i) }; if(VL) f = f; else f = asc(f); ENS(live_count() == 1 && f(a, b) == res(i, a, b), "assigning a function to itself changes nothing"); }
    ENS(live_count() == 0, "the functors are destroyed exactly once"); REACH("done");
}
#endif
//@ entry vh_inline_copy kind=full defs=VK=2
ENTRY(vh_inline_copy)
{
    track_start(); int32_t i = i32(), a = i32(); uint8_t b = u8(); REACH("entry"); g.n = 0;
    { Ow n(i); auto p = EF::make_inline2((Ow&&)n); auto* q = new decltype(p)(asc(p)); auto r(asc(*q)); q->~inline_function(); havoc(q, sizeof(p)); ENS(r(a, b) == res(i, a, b), "a copy of an inline function does not depend on the function it was copied from"); }
    ENS(live_count() == 0, "the functors are destroyed exactly once"); REACH("done");
}
//@ entry vh_inline kind=full defs=VK=2
ENTRY(vh_inline)
{
    track_start(); int32_t i = i32(), a = i32(); uint8_t b = u8(); REACH("entry"); g.n = 0;
    { auto f = EF::make_inline2(Ow(i)); ENS(live_count() == 1 && f(a, b) == res(i, a, b) && called(1, i, a, b), "an inline function holds and calls the functor"); estd::detail::function<Sig> r(f); ENS(r(a, b) == res(i, a, b) && called(2, i, a, b), "a function can refer to it"); }
    ENS(live_count() == 0, "the functor is destroyed exactly once"); REACH("done");
}
#endif
#if VK == 3
//@ entry vh_ref kind=full defs=VK=3
ENTRY(vh_ref)
{
    int32_t x = i32(), y = i32(), v = i32(); REACH("entry"); auto r = estd::ref(x); auto r2 = estd::ref(y); auto c = estd::cref(y); ENS(&r.get() == &x && &(int32_t&)r == &x && &c.get() == &y, "a reference wrapper refers to the object"); r.get() = v; ENS(x == v, "writes go to the object"); r = r2; ENS(&r.get() == &y && x == v, "assignment rebinds"); REACH("done");
}
//@ entry vh_compare kind=full defs=VK=3
ENTRY(vh_compare)
{
    int32_t a = i32(), b = i32(); int64_t w = i64(); REACH("entry"); ENS(estd::less<int32_t>()(a, b) == (a < b) && estd::greater<int32_t>()(a, b) == (a > b), "less and greater compare"); ENS(estd::equal_to<int32_t>()(a, b) == (a == b) && estd::not_equal_to<int32_t>()(a, b) == (a != b), "equal_to and not_equal_to compare"); ENS(estd::equal_to<void>()(a, w) == (a == w) && estd::not_equal_to<void>()(a, w) == (a != w), "mixed comparison"); REACH("done");
}
static int32_t fn(int32_t a, uint8_t b) { return hit(5, a, b); }
//@ entry vh_invoke kind=full defs=VK=3
ENTRY(vh_invoke)
{
    Obj o; o.id = i32(); o.pad = i32(); int32_t a = i32(), i = i32(); uint8_t b = u8(); Fn f = { i }; REACH("entry"); g.n = 0;
    ENS(estd::invoke(fn, a, b) == res(5, a, b) && called(1, 5, a, b), "a function is called"); ENS(estd::invoke(f, a, b) == res(i, a, b) && called(2, i, a, b), "a functor is called"); ENS(estd::invoke(&Obj::m1, o, a, b) == res(o.id, a, b) && called(3, o.id, a, b), "a method of an object is called"); ENS(estd::invoke(&Obj::m2, &o, a, b) == res(~o.id, a, b) && called(4, ~o.id, a, b), "a method of the object pointed to is called");
    ENS(estd::invoke(&Obj::m1, estd::ref(o), a, b) == res(o.id, a, b) && called(5, o.id, a, b), "a method of the object referred to is called"); ENS(&estd::invoke(&Obj::id, o) == &o.id && &estd::invoke(&Obj::id, &o) == &o.id && &estd::invoke(&Obj::pad, estd::ref(o)) == &o.pad, "a member of the object is selected"); REACH("done");
}
#endif
