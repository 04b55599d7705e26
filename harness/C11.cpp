// C11: vectors (fixed layer1/2/3 storage and std::allocator): every operation leaves exactly the
// sequence std::vector would, from every size and contents; nothing outside the storage is written,
// and a request beyond the capacity stops instead of overflowing.
#include <assert.h>
#include "vh.h"
#include <estd/vector.h>
#include "vh_alloc.h"
using namespace vh;
#ifndef VT
#define VT int32_t
#endif
#ifndef VN
#define VN 4      // capacity
#endif
#ifndef VK
#define VK 1      // 1-3 layer, 4 heap with room to spare, 5 full heap buffer (every insertion reallocates); the runtime-sized kinds 3-5 are bounded stand-ins
#endif
struct Pr { int16_t a; int32_t b; bool operator==(const Pr& o) const { return a == o.a && b == o.b; } };
namespace vh { template <> struct any_<Pr> { static Pr get() { Pr p; p.a = i16(); p.b = i32(); return p; } }; }
typedef VT T;
static const size_t M = VN + 4;
struct Model { size_t n; T e[M];
    void ins(size_t at, const T* p, size_t c) { for(size_t k = 0; k < VN; k++) { UNROLL; size_t i = VN - 1 - k; if(i >= at && i < n) e[i + c < M ? i + c : 0] = e[i]; }
        for(size_t i = 0; i < 3; i++) { UNROLL; if(i < c && at + i < M) e[at + i] = p[i]; } n += c; }
    void del(size_t at) { for(size_t i = 0; i + 1 < VN; i++) { UNROLL; if(i >= at) e[i] = e[i + 1]; } n--; } };
#if VK == 1
typedef estd::layer1::vector<T, VN> V;
#define MAKE(v) V& v = box().v; 
struct Box { T g0; V v; T g1; Box() {} T* data() { return v.data(); } };
#elif VK == 2
typedef estd::layer2::vector<T, VN> V;
struct Box { T g0; T buf[VN]; T g1; V v; Box() : v(buf) {} T* data() { return buf; } };
#elif VK == 3
typedef estd::layer3::vector<T> V;
struct Box { T g0; T buf[VN]; T g1; V v; Box() : v(buf) {} T* data() { return buf; } };
#else
typedef estd::vector<T, heap_alloc<T> > V;
struct Box { T g0; V v; T g1; Box() { v.reserve(VK == 4 ? VN + 4 : VN); } T* data() { return v.size() ? &v[0].lock() : 0; } };
#endif
// an arbitrary vector of at most VN elements
struct State { Box b; Model m; T g0, g1;
    State(size_t n = VK == 5 ? (unsigned)VN : small(0, VN))
    {
        m.n = n; g0 = any<T>(); g1 = any<T>(); b.g0 = g0; b.g1 = g1;
#if VK == 1
        ::memset(&b.v, 0, sizeof b.v);
#endif
        b.v.resize(m.n);
        for(size_t i = 0; i < M; i++) { UNROLL; m.e[i] = any<T>(); }
        T* d = b.data();
        for(size_t i = 0; i < VN; i++) { UNROLL; if(i < m.n) d[i] = m.e[i]; }
    }
    bool same() const { const V& v = b.v; if(v.size() != m.n) return false; bool r = true;
        for(size_t i = 0; i < VN; i++) { UNROLL; if(i < m.n && !(v[i].clock() == m.e[i])) r = false; } return r; }
    bool guards() const { return b.g0 == g0 && b.g1 == g1
#if VK < 4
        && b.v.capacity() == VN
#endif
        ; }
};
#if VK >= 4
#define FITS(c) true
#else
#define FITS(c) ((c) <= VN)
#endif
#define POST(what) ENS(s.same(), what ": exact size and elements"); ENS(s.guards(), what ": nothing else changed")

//@ entry vh_view unwind=12 defs=VK=1
//@ entry vh_view unwind=12 defs=VK=2,VT=uint8_t
//@ entry vh_view kind=bounded unwind=12 defs=VK=3,VT=Pr
//@ entry vh_view kind=bounded unwind=12 defs=VK=4
ENTRY(vh_view)
{
    State s; V& v = s.b.v; const V& c = v; REACH("entry");
    POST("construct and resize");
    ENS(c.empty() == (s.m.n == 0), "empty iff size is zero");
    size_t k = 0; bool eq = true;
    for(auto it = v.begin(); it != v.end(); ++it) { UNROLL; if(k >= VN || !(*it == s.m.e[k])) eq = false; k++; }
    ENS(eq && k == s.m.n, "iteration visits every element once, in order");
    if(s.m.n > 0)
    {
        size_t i = upto(0, s.m.n - 1); T x = any<T>();
        ENS(c.front().clock() == s.m.e[0] && c.back().clock() == s.m.e[s.m.n - 1], "front and back");
#if VK == 1
        ENS(v.at(i) == s.m.e[i], "at");
#else
        ENS(v.at(i).lock() == s.m.e[i], "at");
#endif
        v[i].lock() = x; s.m.e[i] = x;
        REACH("write");
        POST("write through operator[]");
    }
}
//@ entry vh_push unwind=12 defs=VK=1 
//@ entry vh_push unwind=12 defs=VK=1,VT=uint8_t
//@ entry vh_push unwind=12 defs=VK=2,VT=Pr
//@ entry vh_push kind=bounded unwind=12 defs=VK=3
//@ entry vh_push kind=bounded unwind=12 defs=VK=4
//@ entry vh_push kind=bounded unwind=12 defs=VK=5
static void push_n(size_t n)
{
    State s(n); V& v = s.b.v; T x = any<T>(), y = x; unsigned how = small(0, 2); REACH("entry");
    if(!FITS(s.m.n + 1)) __vh_allow(ABORT);
    if(how == 0) v.push_back(x); else if(how == 1) v.push_back(static_cast<T&&>(y)); else v.emplace_back(x);
    ENS(FITS(s.m.n + 1), "push beyond the capacity never returns");
    s.m.e[s.m.n] = x; s.m.n++;
    REACH("pushed");
#if VK >= 4
    ENS(v.size() == s.m.n && v.capacity() >= v.size(), "push: size");
    for(size_t i = 0; i <= VN; i++) { UNROLL; if(i < s.m.n) ENS(v[i].clock() == s.m.e[i], "push: elements"); }
#else
    POST("push_back, emplace_back");
#endif
}
ENTRY(vh_push) { split(VK == 5 ? VN : 0, VN, push_n); }
//@ entry vh_pop unwind=12 defs=VK=1
//@ entry vh_pop unwind=12 defs=VK=2
//@ entry vh_pop kind=bounded unwind=12 defs=VK=3,VT=Pr
//@ entry vh_pop kind=bounded unwind=12 defs=VK=4
static void pop_n(size_t n)
{
    State s(n); V& v = s.b.v; REACH("entry");
    v.pop_back(); s.m.n--;
    POST("pop_back");
}
ENTRY(vh_pop) { split(1, VN, pop_n); }
//@ entry vh_insert unwind=12 defs=VK=1
//@ entry vh_insert unwind=12 defs=VK=2,VT=uint8_t
//@ entry vh_insert kind=bounded unwind=12 defs=VK=3,VT=Pr
//@ entry vh_insert kind=bounded unwind=12 defs=VK=4
//@ entry vh_insert kind=bounded unwind=12 defs=VK=5
static void insert_at(size_t n, size_t at)
{
    State s(n); V& v = s.b.v; T x = any<T>(), y = x; bool mv = flag(); REACH("entry");
    if(!FITS(s.m.n + 1)) __vh_allow(ABORT);
    if(mv) v.insert(v.begin() + (int)at, static_cast<T&&>(y)); else v.insert(v.begin() + (int)at, x);
    ENS(FITS(s.m.n + 1), "insert beyond the capacity never returns");
    s.m.ins(at, &x, 1);
    REACH("inserted");
#if VK >= 4
    ENS(v.size() == s.m.n && v.capacity() >= v.size(), "insert: size");
    for(size_t i = 0; i <= VN; i++) { UNROLL; if(i < s.m.n) ENS(v[i].clock() == s.m.e[i], "insert: elements"); }
#else
    POST("insert");
#endif
}
ENTRY(vh_insert) { split(VK == 5 ? VN : 0, VN, [](size_t n) { split(0, n, [n](size_t at) { insert_at(n, at); }); }); }
//@ entry vh_insert_self unwind=12 defs=VK=1
//@ entry vh_insert_self kind=bounded unwind=12 defs=VK=3
//@ entry vh_insert_self kind=bounded unwind=12 defs=VK=4
//@ entry vh_insert_self kind=bounded unwind=12 defs=VK=5
static void self_at(size_t n, size_t at)
{
    State s(n); V& v = s.b.v; size_t from = upto(0, n - 1); REACH("entry");
    bool push = flag();
    T x = s.m.e[from];
    REQ(FITS(s.m.n + 1));
    if(push) { v.push_back((const T&)v[from].lock()); at = s.m.n; } else v.insert(v.begin() + (int)at, (const T&)v[from].lock());
    s.m.ins(at, &x, 1);
    ENS(v.size() == s.m.n, "inserting an own element: size");
    for(size_t i = 0; i <= VN; i++) { UNROLL; if(i < s.m.n) ENS(v[i].clock() == s.m.e[i], "inserting an own element: elements"); }
}
ENTRY(vh_insert_self) { split(VK == 5 ? VN : 1, VN, [](size_t n) { split(0, n, [n](size_t at) { self_at(n, at); }); }); }
//@ entry vh_insert_range unwind=12 defs=VK=1
//@ entry vh_insert_range unwind=12 defs=VK=2,VT=Pr
//@ entry vh_insert_range kind=bounded unwind=12 defs=VK=3
//@ entry vh_insert_range kind=bounded unwind=12 defs=VK=4
//@ entry vh_insert_range kind=bounded unwind=12 defs=VK=5
static void range_at(size_t n, size_t at, size_t c)
{
    State s(n); V& v = s.b.v; T in[3]; fill(in); REACH("entry");
    if(!FITS(s.m.n + c)) __vh_allow(ABORT);
    v.insert(v.begin() + (int)at, (const T*)in, (const T*)in + c);
    ENS(FITS(s.m.n + c), "range insert beyond the capacity never returns");
    s.m.ins(at, in, c);
    REACH("inserted");
#if VK >= 4
    ENS(v.size() == s.m.n && v.capacity() >= v.size(), "range insert: size");
    for(size_t i = 0; i < M; i++) { UNROLL; if(i < s.m.n) ENS(v[i].clock() == s.m.e[i], "range insert: elements"); }
#else
    POST("range insert");
#endif
}
ENTRY(vh_insert_range) { split(VK == 5 ? VN : 0, VN, [](size_t n) { split(0, n, [n](size_t at) { split(0, 3, [n, at](size_t c) { range_at(n, at, c); }); }); }); }
//@ entry vh_erase unwind=12 defs=VK=1
//@ entry vh_erase unwind=12 defs=VK=2
//@ entry vh_erase kind=bounded unwind=12 defs=VK=3,VT=Pr
//@ entry vh_erase kind=bounded unwind=12 defs=VK=4
static void erase_at(size_t n, size_t at)
{
    State s(n); V& v = s.b.v; REACH("entry");
    auto it = v.erase(v.begin() + (int)at); s.m.del(at);
    POST("erase");
    ENS(it == v.begin() + (int)at, "erase returns the position after the erased element");
}
ENTRY(vh_erase) { split(1, VN, [](size_t n) { split(0, n - 1, [n](size_t at) { erase_at(n, at); }); }); }
//@ entry vh_assign unwind=12 defs=VK=1
//@ entry vh_assign unwind=12 defs=VK=2,VT=Pr
//@ entry vh_assign kind=bounded unwind=12 defs=VK=3,VT=uint8_t
//@ entry vh_assign kind=bounded unwind=12 defs=VK=4
static void assign_n(size_t n, size_t c)
{
    State s(n); V& v = s.b.v; T in[VN + 1]; fill(in); REACH("entry");
    if(!FITS(c)) __vh_allow(ABORT);
    v.assign((const T*)in, (const T*)in + c);
    ENS(FITS(c), "assign beyond the capacity never returns");
    s.m.n = c; for(size_t i = 0; i <= VN; i++) { UNROLL; s.m.e[i] = in[i]; }
    REACH("assigned");
#if VK >= 4
    ENS(v.size() == c, "assign: size");
    for(size_t i = 0; i <= VN; i++) { UNROLL; if(i < c) ENS(v[i].clock() == in[i], "assign: elements"); }
#else
    POST("assign");
#endif
}
ENTRY(vh_assign) { split(0, VN, [](size_t n) { split(0, VN + 1, [n](size_t c) { assign_n(n, c); }); }); }
//@ entry vh_append unwind=12 defs=VK=1
//@ entry vh_append unwind=12 defs=VK=2
//@ entry vh_append kind=bounded unwind=12 defs=VK=3,VT=Pr
//@ entry vh_append kind=bounded unwind=12 defs=VK=4
//@ entry vh_append kind=bounded unwind=12 defs=VK=5
static void append_n(size_t n, size_t c)
{
    State s(n); V& v = s.b.v; T in[3]; fill(in); REACH("entry");
    if(!FITS(s.m.n + c)) __vh_allow(ABORT);
    v.append((const T*)in, c);
    ENS(FITS(s.m.n + c), "append beyond the capacity never returns");
    s.m.ins(s.m.n, in, c);
    REACH("appended");
#if VK >= 4
    ENS(v.size() == s.m.n && v.capacity() >= v.size(), "append: size");
    for(size_t i = 0; i < M; i++) { UNROLL; if(i < s.m.n) ENS(v[i].clock() == s.m.e[i], "append: elements"); }
#else
    POST("append");
#endif
}
ENTRY(vh_append) { split(VK == 5 ? VN : 0, VN, [](size_t n) { split(0, 3, [n](size_t c) { append_n(n, c); }); }); }
//@ entry vh_resize unwind=12 defs=VK=1
//@ entry vh_resize unwind=12 defs=VK=2
//@ entry vh_resize kind=bounded unwind=12 defs=VK=3,VT=Pr
//@ entry vh_resize kind=bounded unwind=12 defs=VK=4
ENTRY(vh_resize)
{
    State s; V& v = s.b.v; size_t c = upto(0, VN + 2); size_t old = s.m.n; unsigned how = small(0, 3); REACH("entry");
    if(how == 0)
    {
        if(!FITS(c)) __vh_allow(ABORT);
        v.resize(c);
        ENS(FITS(c), "resize beyond the capacity never returns");
        ENS(v.size() == c, "resize: size");
        s.m.n = c < old ? c : old;
    }
    else if(how == 1) { v.clear(); s.m.n = 0; ENS(v.size() == 0 && v.empty(), "clear"); }
    else if(how == 2) { if(!FITS(c)) __vh_allow(ABORT); v.reserve(c); ENS(v.size() == old && v.capacity() >= c, "reserve: size kept, room made"); }
    else { v.shrink_to_fit(); ENS(v.size() == old && v.capacity() >= old, "shrink_to_fit keeps the size"); }
    REACH("done");
    for(size_t i = 0; i < VN; i++) { UNROLL; if(i < s.m.n) ENS(v[i].clock() == s.m.e[i], "resize, reserve, shrink_to_fit keep the elements"); }
    ENS(s.guards(), "resize, reserve, clear: nothing else changed");
}

// requests near and far beyond the size_type's range: never wrapped around to a small one
//@ entry vh_limits unwind=4 defs=VN=200
//@ entry vh_limits unwind=4 defs=VN=255
ENTRY(vh_limits)
{
    struct G { uint8_t g0; estd::layer1::vector<uint8_t, VN> v; uint8_t g1; } b; estd::layer1::vector<uint8_t, VN>& v = b.v;
    b.g0 = u8(); b.g1 = u8(); uint8_t g0 = b.g0, g1 = b.g1;
    size_t n = upto(0, VN), c = u64(), i = upto(0, VN - 1); uint8_t x = u8(); unsigned how = small(0, 2); REACH("entry");
    v.resize(n); ENS(v.size() == n, "resize within the capacity"); if(i < n) v[i].lock() = x;
    if(how == 0) { if(c > VN) __vh_allow(ABORT); v.reserve(c); ENS(c <= VN && v.size() == n, "reserve returns only if the request fits"); }
    else if(how == 1) { if(c > VN) __vh_allow(ABORT); v.resize(c); ENS(c <= VN && v.size() == c, "resize returns only if the request fits"); }
    else { if(n >= VN) __vh_allow(ABORT); v.push_back(x); ENS(n < VN && v.size() == n + 1 && v.back().clock() == x, "push_back returns only if there is room"); }
    REACH("returned");
    if(i < n && i < v.size()) ENS(v[i].clock() == x, "elements kept");
    ENS(b.g0 == g0 && b.g1 == g1, "nothing around the storage written");
}
