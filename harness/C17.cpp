// C17: tuples and pairs hold, hand out and pass on exactly their elements, in order; visitors stop where told.
#include <assert.h>
#define TRACK_MAX 10
#include "vh.h"
#include "vh_track.h"
#include <estd/tuple.h>
#include <estd/utility.h>
#include <estd/internal/variadic.h>
using namespace vh;
using estd::tuple; using estd::pair;
template <class T> static const T& asc(const T& x) { return x; }
struct E1 { E1() {} E1(int) {} }; struct E2 {};
struct Agg { int32_t a; uint8_t b; int64_t c; Agg(int32_t a, uint8_t b, int64_t c) : a(a), b(b), c(c) {} };
//@ entry vh_tuple_get kind=proof
ENTRY(vh_tuple_get)
{
    int32_t a = i32(), a2 = i32(); uint8_t b = u8(), b2 = u8(); int64_t c = i64(); uint16_t e = (uint16_t)i16(); REACH("entry");
    tuple<int32_t, uint8_t, int64_t, uint16_t> t((int32_t)a, (uint8_t)b, (int64_t)c, (uint16_t)e);
    auto ok = [&](auto& u) { return estd::get<0>(u) == a && estd::get<1>(u) == b && estd::get<2>(u) == c && estd::get<3>(u) == e; };
    ENS(ok(t) && ok(asc(t)), "get yields the element at the index");
    ENS(estd::get<int32_t>(t) == a && estd::get<uint8_t>(t) == b && estd::get<int64_t>(asc(t)) == c && estd::get<uint16_t>(asc(t)) == e, "get yields the element of the type");
    auto u(t); auto w(static_cast<decltype(t)&&>(u)); ENS(ok(u) && ok(w), "a copy has the same elements"); estd::get<1>(u) = (uint8_t)(b + 1); ENS(ok(t) && ok(w) && estd::get<1>(u) == (uint8_t)(b + 1), "a copy is independent");
    ENS(estd::get<2>(static_cast<decltype(t)&&>(w)) == c && &estd::get<0>(t) == &estd::get<0>(asc(t)), "get of a temporary");
    estd::get<0>(t) = a2; estd::get<uint8_t>(t) = b2; ENS(estd::get<0>(t) == a2 && estd::get<1>(t) == b2 && estd::get<2>(t) == c && estd::get<3>(t) == e, "assigning through get changes that element only");
    tuple<int32_t, int32_t, int32_t> s((int32_t)a, (int32_t)a2, (int32_t)b); ENS(estd::get<0>(s) == a && estd::get<1>(s) == a2 && estd::get<2>(s) == (int32_t)b, "elements of one type keep their places");
    tuple<int64_t, int32_t> v((int32_t)a, (int32_t)a2); ENS(estd::get<0>(v) == a && estd::get<1>(v) == a2, "an element is converted"); REACH("done");
}
//@ entry vh_tuple_sparse kind=proof
ENTRY(vh_tuple_sparse)
{
    int32_t a = i32(); uint8_t b = u8(); REACH("entry"); tuple<E1, int32_t, E2, uint8_t> t(E1(), (int32_t)a, E2(), (uint8_t)b); ENS(estd::get<1>(t) == a && estd::get<3>(t) == b && estd::get<3>(asc(t)) == b, "empty elements do not displace the others"); estd::get<1>(t) = b; ENS(estd::get<1>(t) == b && estd::get<3>(t) == b, "empty elements do not displace the others");
    estd::internal::tuple<false, E1, int32_t> f(E1(), (int32_t)a); ENS(estd::get<1>(f) == a, "element next to an empty one"); tuple<int32_t, E1> g((int32_t)a, E1()); estd::get<1>(g); ENS(estd::get<0>(g) == a, "element next to an empty one"); REACH("done");
}
//@ entry vh_tuple_ref kind=proof
ENTRY(vh_tuple_ref)
{
    int32_t a = i32(), a0 = a, v = i32(); uint8_t b = u8(); REACH("entry"); auto t = estd::make_tuple(a, (uint8_t)b); ENS(&estd::get<0>(t) == &a && estd::get<1>(t) == b, "make_tuple refers to lvalues and holds the others"); estd::get<0>(t) = v; ENS(a == v, "assignment through a reference element"); a = a0; ENS(estd::get<0>(asc(t)) == a0, "a reference element sees its target");
    auto f = estd::forward_as_tuple(a, b); ENS(&estd::get<0>(f) == &a && &estd::get<1>(f) == &b, "forward_as_tuple refers to its arguments"); auto u(t); ENS(&estd::get<0>(u) == &a, "a copy refers to the same object"); REACH("done");
}
static int32_t calls;
//@ entry vh_apply kind=proof
ENTRY(vh_apply)
{
    int32_t a = i32(), v = i32(); uint8_t b = u8(); int64_t c = i64(); calls = 0; REACH("entry"); tuple<int32_t, uint8_t, int64_t> t((int32_t)a, (uint8_t)b, (int64_t)c);
    bool r = estd::apply([&](int32_t x, uint8_t y, int64_t z) { calls++; return x == a && y == b && z == c; }, t); ENS(r && calls == 1, "apply passes the elements in order, once");
    r = estd::apply([&](int32_t x, uint8_t y, int64_t z) { calls++; return x == a && y == b && z == c; }, asc(t)); ENS(r && calls == 2, "apply of a const tuple");
    estd::apply([&](int32_t& x, uint8_t&, int64_t& z) { x = v; z = a; return 0; }, t); ENS(estd::get<0>(t) == v && estd::get<1>(t) == b && estd::get<2>(t) == a, "apply hands out the elements themselves");
    ENS(estd::apply([](int32_t x, int32_t y) { return (int64_t)x - y; }, tuple<int32_t, int32_t>((int32_t)a, (int32_t)v)) == (int64_t)a - v, "apply of a temporary");
    ENS(estd::apply([](int32_t x, int32_t y) { return (int64_t)x - y; }, estd::make_pair(a, v)) == (int64_t)a - v, "apply of a pair");
    Agg g = estd::make_from_tuple<Agg>(tuple<int32_t, uint8_t, int64_t>((int32_t)a, (uint8_t)b, (int64_t)c)); ENS(g.a == a && g.b == b && g.c == c, "make_from_tuple constructs from the elements in order");
    pair<Agg, int32_t> q(estd::piecewise_construct_t(), estd::forward_as_tuple((int32_t)a, (uint8_t)b, (int64_t)c), estd::forward_as_tuple((int32_t)v)); ENS(q.first.a == a && q.first.b == b && q.first.c == c && q.second == v, "a pair constructs its members from the tuples"); REACH("done");
}
//@ entry vh_tuple_visit kind=proof
ENTRY(vh_tuple_visit)
{
    int32_t a = i32(), stop = i32(), v = i32(); uint8_t b = u8(); int64_t c = i64(); REACH("entry"); tuple<int32_t, uint8_t, int64_t> t((int32_t)a, (uint8_t)b, (int64_t)c);
    int32_t n = 0; bool ok = true; auto f = [&](auto i) { ok = ok && (int32_t)i.index == n && (i.index == 0 ? (int64_t)i.value == a : i.index == 1 ? (int64_t)i.value == b : (int64_t)i.value == c); return n++ == stop; };
    int r = t.visit(f); int want = stop >= 0 && stop <= 2 ? stop : -1; ENS(r == want && ok && n == (want < 0 ? 3 : want + 1), "visit hands out the elements in order until told to stop, and returns where");
    n = 0; r = asc(t).visit(f); ENS(r == want && ok && n == (want < 0 ? 3 : want + 1), "visit of a const tuple"); tuple<> e; ENS(e.visit(f) == -1, "nothing to visit");
    t.visit([&](auto i, int32_t w) { i.value = (typename decltype(i)::value_type)w; return i.index == 1; }, v); ENS(estd::get<0>(t) == v && estd::get<1>(t) == (uint8_t)v && estd::get<2>(t) == c, "visit hands out the elements themselves and passes the arguments"); REACH("done");
}
//@ entry vh_visitors kind=proof
ENTRY(vh_visitors)
{
    int32_t stop = i32(); REACH("entry"); int32_t n = 0; bool ok = true; typedef estd::variadic::type_visitor<int32_t, uint8_t, int64_t, uint8_t> V; int want = stop >= 0 && stop <= 3 ? stop : -1;
    const int sz[4] = { 4, 1, 8, 1 }; auto f = [&](auto i) { typedef typename decltype(i)::type X; ok = ok && (int32_t)i.index == n && (int)sizeof(X) == sz[i.index]; return n++ == stop; };
    ENS(V::visit(f) == want && ok && n == (want < 0 ? 4 : want + 1), "a type visitor goes over the types in order until told to stop");
    n = 3; auto g = [&](auto i) { typedef typename decltype(i)::type X; ok = ok && (int32_t)i.index == n && (int)sizeof(X) == sz[i.index]; return n-- == stop; }; ENS(V::visit_reverse(g) == want && ok && n == (want < 0 ? -1 : want - 1), "visit_reverse goes over the types from the last");
    n = 0; const int vals[4] = { 7, -2, 7, 100 }; auto h = [&](auto i) { ok = ok && (int32_t)i.index == n && i.value == vals[i.index]; return n++ == stop; }; ENS((estd::variadic::value_visitor<int, 7, -2, 7, 100>::visit(h)) == want && ok && n == (want < 0 ? 4 : want + 1), "a value visitor goes over the values in order until told to stop"); REACH("done");
}
//@ entry vh_pair kind=proof
ENTRY(vh_pair)
{
    int32_t a = i32(), b = i32(), c = i32(), d = i32(); REACH("entry"); pair<int32_t, int32_t> p(a, b), q = estd::make_pair(c, d); ENS(p.first == a && p.second == b && q.first == c && q.second == d && estd::get<0>(p) == a && estd::get<1>(p) == b && estd::get<0>(asc(q)) == c && estd::get<1>(asc(q)) == d, "a pair holds its members");
    bool l = a < c || (a == c && b < d), g = a > c || (a == c && b > d); ENS((p == q) == (a == c && b == d) && (p != q) == (a != c || b != d) && (p < q) == l && (p > q) == g, "pairs compare by first, then second");
    auto r(p); p.swap(q); ENS(p.first == c && p.second == d && q.first == a && q.second == b && r.first == a && r.second == b, "swap exchanges both members"); estd::swap(p, q); ENS(p == r && q.first == c && q.second == d, "swap exchanges both members"); q = p; ENS(q == p && q.first == a, "assignment"); estd::get<0>(q) = d; ENS(q.first == d && p.first == a, "assigning through get");
    p.swap(p); ENS(p.first == a && p.second == b, "swap with itself"); int32_t x = a; ENS(estd::exchange(x, c) == a && x == c, "exchange yields the old value"); pair<int64_t, uint8_t> w((int32_t)a, (uint8_t)b); ENS(w.first == a && w.second == (uint8_t)b, "members are converted"); REACH("done");
}
//@ entry vh_swap kind=proof
template <class T> static void sw() { T a = any<T>(), b = any<T>(), x = a, y = b; estd::swap(x, y); ENS(x == b && y == a, "swap exchanges the values"); estd::swap(x, x); ENS(x == b, "swap with itself"); }
ENTRY(vh_swap) { REACH("entry"); sw<char>(); sw<short>(); sw<int>(); sw<long>(); sw<unsigned char>(); sw<unsigned short>(); sw<unsigned>(); sw<unsigned long>(); sw<long long>(); sw<signed char>(); sw<bool>(); REACH("done"); }
//@ entry vh_tuple_life kind=full unwind=12
ENTRY(vh_tuple_life)
{
    int32_t a = i32(), b = i32(); track_start(); REACH("entry"); { tuple<Tr, int32_t, Tr> t(Tr{a}, 5, Tr{b}); ENS(live_count() == 2 && estd::get<0>(t).v == a && estd::get<2>(t).v == b, "each element is constructed once");
    tuple<Tr, int32_t, Tr> u(t); ENS(live_count() == 4 && estd::get<0>(u).v == a && estd::get<2>(u).v == b && estd::get<0>(t).v == a && estd::get<1>(u) == 5, "copies copy the elements"); estd::get<0>(u).v = 1;
    tuple<Tr, int32_t, Tr> w(static_cast<tuple<Tr, int32_t, Tr>&&>(t)); ENS(live_count() == 6 && estd::get<0>(w).v == a && estd::get<2>(w).v == b && estd::get<1>(w) == 5, "moves move the elements");
    int32_t s = estd::apply([](Tr& x, int32_t, Tr& y) { used(&x); used(&y); return x.v; }, w); ENS(s == a && live_count() == 6, "apply makes no copies"); }
    { tuple<Mv, Mv> m(Mv{a}, Mv{b}); Mv x(estd::get<1>(static_cast<tuple<Mv, Mv>&&>(m))); ENS(x.v == b && estd::get<0>(m).v == a, "get of a temporary lets its element be moved"); Tr g = estd::make_from_tuple<Tr>(tuple<int32_t>((int32_t)a)); ENS(g.v == a, "make_from_tuple"); }
    { pair<Tr, Tr> p(Tr{a}, Tr{b}), q(p); ENS(live_count() == 4 && q.first.v == a && q.second.v == b, "a pair copies its members"); p.first.v = 3; p.swap(q); ENS(q.first.v == 3 && p.first.v == a && live_count() == 4, "swap keeps both alive"); }
    ENS(live_count() == 0, "each element is destroyed once"); REACH("done");
}
