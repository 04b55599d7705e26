// C12: fixed-capacity strings (layer1, layer2, layer3; null-terminated and explicitly sized): every operation
// leaves exactly the text std::string would, the terminator stays inside the buffer and right after the text,
// nothing outside the buffer is written, and a request that does not fit stops instead of overflowing.
#include <assert.h>
#include "vh.h"
#include <estd/string.h>
#include <estd/string_view.h>
using namespace vh;
#ifndef VN
#define VN 5      // buffer size
#endif
#ifndef VK
#define VK 1      // 1 layer1 null-terminated, 2 layer1 sized, 3 layer2, 4 layer3 null-terminated, 5 layer3 sized (4, 5 have run-time capacity: bounded stand-ins)
#endif
#ifdef VH
#define HOW(hi, f) f(VH)
#else
#define HOW(hi, f) split(0, hi, f)
#endif
#define NUL (VK == 1 || VK == 3 || VK == 4)
static const size_t CAP = NUL ? VN - 1 : VN, M = VN + 5;
struct Text { size_t n; char e[M];
    void ins(size_t at, const char* p, size_t c) { for(size_t k = 0; k < CAP; k++) { UNROLL; size_t i = CAP - 1 - k; if(i >= at && i < n && i + c < M) e[i + c] = e[i]; }
        for(size_t i = 0; i < 4; i++) { UNROLL; if(i < c && at + i < M) e[at + i] = p[i]; } n += c; }
    void del(size_t at, size_t c) { for(size_t i = 0; i < CAP; i++) { UNROLL; if(i >= at && i + c < n) e[i] = e[i + c]; } n -= c; } };
#if VK == 1
typedef estd::layer1::string<VN> S;
struct Raw { char g0; S v; char g1; Raw() {} };
struct Box { S& v; Box(Raw& r) : v(r.v) {} };
#elif VK == 2
typedef estd::layer1::string<VN, false> S;
struct Raw { char g0; S v; char g1; Raw() {} };
struct Box { S& v; Box(Raw& r) : v(r.v) {} };
#elif VK == 3
typedef estd::layer2::string<VN> S;
struct Raw { char g0; char buf[VN]; char g1; };
struct Box { S v; Box(Raw& r) : v((char*)r.buf, true) {} };
#elif VK == 4
typedef estd::layer3::basic_string<char, true> S;
struct Raw { char g0; char buf[VN]; char g1; };
struct Box { S v; Box(Raw& r) : v((char*)r.buf, (uint16_t)0, (uint16_t)VN) {} };
#else
typedef estd::layer3::basic_string<char, false> S;
struct Raw { char g0; char buf[VN]; char g1; };
struct Box { S v; Box(Raw& r) : v((char*)r.buf, (uint16_t)0, (uint16_t)VN) {} };
#endif
static char txt() { char c = ch(); if(NUL) REQ(c != 0); return c; }
// a C string of c characters
struct CStr { char s[5]; CStr(size_t c) { for(size_t i = 0; i < 4; i++) { UNROLL; s[i] = i < c ? ch() : 0; if(i < c) REQ(s[i] != 0); } s[4] = 0; } };
struct State { Box b; Raw& r; Text m; char g0, g1;
    State(size_t n, Raw& r) : b(r), r(r) { m.n = n; g0 = ch(); g1 = ch(); r.g0 = g0; r.g1 = g1;
        ENS(b.v.size() == 0 && b.v.empty(), "a new string is empty");
        for(size_t i = 0; i < CAP; i++) { UNROLL; m.e[i] = txt(); if(i < n) b.v.data()[i] = m.e[i]; }
        b.v.resize(n); }
    bool same() const { const S& v = b.v; if(v.size() != m.n || v.length() != m.n) return false; bool r = true;
        for(size_t i = 0; i < CAP; i++) { UNROLL; if(i < m.n && v.data()[i] != m.e[i]) r = false; }
        if(NUL && v.data()[m.n] != 0) r = false; return r; }
    bool guards() const { return r.g0 == g0 && r.g1 == g1 && b.v.capacity() == VN; } };
#define POST(what) ENS(s.same(), what ": exact text and terminator"); ENS(s.guards(), what ": nothing else changed")
#define MAYFIT(c) if((c) > CAP) __vh_allow(ABORT)
#define FITTED(c, what) ENS((c) <= CAP, what " returns only if the result fits")

static void view(size_t n)
{
    Raw raw; State s(n, raw); S& v = s.b.v; REACH("entry");
    POST("resize to a shorter or equal length");
    ENS(v.empty() == (n == 0) && v.max_size() == CAP, "empty, max_size");
    size_t k = 0; bool eq = true;
    for(auto it = v.begin(); it != v.end(); ++it) { UNROLL; if(k >= CAP || !(*it == s.m.e[k])) eq = false; k++; }
    ENS(eq && k == n, "iteration visits every character once, in order");
    if(n > 0) { size_t i = upto(0, n - 1); ENS((char)v.front() == s.m.e[0] && (char)v.back() == s.m.e[n - 1] && (char)v[i] == s.m.e[i], "front, back, operator[]");
        char c = txt(); v[i] = c; s.m.e[i] = c; POST("write through operator[]"); }
#if VK <= 3
    if(NUL) ENS(v.size() == n && ::strlen(v.data()) == n, "data is a C string of the text");
#endif
    char d[VN + 1]; char g = ch(); size_t c = u64(), p = upto(0, n); for(size_t i = 0; i <= VN; i++) { UNROLL; d[i] = g; }
    size_t r = v.copy(d, c, p); ENS(r == (c < n - p ? c : n - p), "copy: count copied");
    for(size_t i = 0; i <= VN; i++) { UNROLL; ENS(d[i] == (i < r ? s.m.e[p + i] : g), "copy: exactly the characters from pos"); }
    v.clear(); s.m.n = 0; POST("clear");
}
//@ entry vh_view unwind=12 defs=VK=1
//@ entry vh_view unwind=12 defs=VK=2
//@ entry vh_view unwind=12 defs=VK=3
//@ entry vh_view kind=bounded unwind=12 defs=VK=4
//@ entry vh_view kind=bounded unwind=12 defs=VK=5
ENTRY(vh_view) { split(0, CAP, view); }

static void push(size_t n, size_t how)
{
    Raw raw; State s(n, raw); S& v = s.b.v; char c = txt(), y = c; REACH("entry");
    if(how <= 2)
    {
        MAYFIT(n + 1);
        if(how == 0) v += c; else if(how == 1) v.push_back(static_cast<char&&>(y)); else v.push_back((const char&)y);
        FITTED(n + 1, "push");
        s.m.e[n] = c; s.m.n++; REACH("pushed"); POST("+= character, push_back");
    }
    else if(how == 3) { REQ(n > 0); v.pop_back(); s.m.n--; POST("pop_back"); }
    else
    {
        split(0, 3, [&](size_t k) { MAYFIT(n + k);
        v.append(k, c); FITTED(n + k, "append count copies");
        char r[4] = { c, c, c, c }; s.m.ins(n, r, k); POST("append(count, c)"); });
    }
}
//@ entry vh_push unwind=12 defs=VK=1
//@ entry vh_push unwind=12 defs=VK=2
//@ entry vh_push unwind=12 defs=VK=3
//@ entry vh_push kind=bounded unwind=12 defs=VK=4
//@ entry vh_push kind=bounded unwind=12 defs=VK=5
ENTRY(vh_push) { split(0, CAP, [](size_t n) { HOW(4, ([n](size_t how) { push(n, how); })); }); }

static void app(size_t n, size_t c, size_t how)
{
    Raw raw; State s(n, raw); S& v = s.b.v; CStr t(c); REACH("entry");
    char src[6]; for(size_t i = 0; i < 5; i++) { UNROLL; src[i] = t.s[i]; } src[5] = 0;
    MAYFIT(n + c);
    if(how == 0) v += (const char*)t.s; else if(how == 1) v.append((const char*)t.s); else if(how == 2) v.append((const char*)t.s, c);
    else if(how == 3) { estd::layer2::const_string o(t.s); v += o; } else { estd::string_view o(t.s, c); v.append(o); }
    FITTED(n + c, "append");
    s.m.ins(n, t.s, c); REACH("appended"); POST("append, +=");
}
//@ entry vh_append unwind=12 defs=VK=1,VN=4,VH=0
//@ entry vh_append unwind=12 defs=VK=1,VN=4,VH=1
//@ entry vh_append unwind=12 defs=VK=1,VN=4,VH=2
//@ entry vh_append unwind=12 defs=VK=1,VN=4,VH=3
//@ entry vh_append unwind=12 defs=VK=1,VN=4,VH=4
//@ entry vh_append unwind=12 defs=VK=2,VN=4
//@ entry vh_append unwind=12 tier=thorough defs=VK=3,VN=4,VH=0
//@ entry vh_append unwind=12 tier=thorough defs=VK=3,VN=4,VH=1
//@ entry vh_append unwind=12 defs=VK=3,VN=4,VH=2
//@ entry vh_append unwind=12 tier=thorough defs=VK=3,VN=4,VH=3
//@ entry vh_append unwind=12 tier=thorough defs=VK=3,VN=4,VH=4
//@ entry vh_append kind=bounded unwind=12 tier=thorough defs=VK=4,VN=4,VH=0
//@ entry vh_append kind=bounded unwind=12 tier=thorough defs=VK=4,VN=4,VH=1
//@ entry vh_append kind=bounded unwind=12 defs=VK=4,VN=4,VH=2
//@ entry vh_append kind=bounded unwind=12 tier=thorough defs=VK=4,VN=4,VH=3
//@ entry vh_append kind=bounded unwind=12 tier=thorough defs=VK=4,VN=4,VH=4
//@ entry vh_append kind=bounded unwind=12 defs=VK=5,VN=4
ENTRY(vh_append) { split(0, CAP, [](size_t n) { split(0, 3, [n](size_t c) { HOW(4, ([n, c](size_t how) { app(n, c, how); })); }); }); }

static void append_self(size_t n)
{
    Raw raw; State s(n, raw); S& v = s.b.v; REACH("entry");
    MAYFIT(2 * n);
    v += v; FITTED(2 * n, "append of itself");
    char t[4]; for(size_t i = 0; i < 4; i++) { UNROLL; t[i] = i < n && i < CAP ? s.m.e[i] : 0; }
    s.m.ins(n, t, n); POST("append of itself");
}
//@ entry vh_append_self unwind=12 defs=VK=1
//@ entry vh_append_self unwind=12 defs=VK=2
//@ entry vh_append_self unwind=12 defs=VK=3
ENTRY(vh_append_self) { split(0, CAP, append_self); }

static void assign(size_t n, size_t c, size_t how)
{
    Raw raw; State s(n, raw); S& v = s.b.v; REACH("entry");
    char t[VN + 3]; for(size_t i = 0; i < VN + 3; i++) { UNROLL; t[i] = i < c ? ch() : 0; if(i < c) REQ(t[i] != 0); }
    MAYFIT(c);
#if VK <= 3
    if(how == 0) v = (const char*)t; else
#endif
    if(how == 1) { estd::layer2::const_string o(t); v = o; } else { estd::string_view o(t, c); v = o; }
    FITTED(c, "assign");
    s.m.n = c; for(size_t i = 0; i < CAP; i++) { UNROLL; s.m.e[i] = t[i]; }
    REACH("assigned"); POST("assign");
}
//@ entry vh_assign unwind=12 defs=VK=1,VN=4,VH=0
//@ entry vh_assign unwind=12 defs=VK=1,VN=4,VH=1
//@ entry vh_assign unwind=12 defs=VK=1,VN=4,VH=2
//@ entry vh_assign unwind=12 defs=VK=2,VN=4,VH=0
//@ entry vh_assign unwind=12 defs=VK=2,VN=4,VH=1
//@ entry vh_assign unwind=12 defs=VK=2,VN=4,VH=2
//@ entry vh_assign unwind=12 tier=thorough defs=VK=3,VN=4,VH=0
//@ entry vh_assign unwind=12 defs=VK=3,VN=4,VH=1
//@ entry vh_assign unwind=12 tier=thorough defs=VK=3,VN=4,VH=2
//@ entry vh_assign kind=bounded unwind=12 defs=VK=4,VN=4,VH=1
//@ entry vh_assign kind=bounded unwind=12 tier=thorough defs=VK=4,VN=4,VH=2
//@ entry vh_assign kind=bounded unwind=12 defs=VK=5,VN=4,VH=1
//@ entry vh_assign kind=bounded unwind=12 tier=thorough defs=VK=5,VN=4,VH=2
ENTRY(vh_assign) { split(0, CAP, [](size_t n) { split(0, VN + 2, [n](size_t c) { HOW(2, ([n, c](size_t how) { assign(n, c, how); })); }); }); }

static void insert(size_t n, size_t at, size_t c, size_t how)
{
    Raw raw; State s(n, raw); S& v = s.b.v; CStr t(c); REACH("entry");
    MAYFIT(n + c);
    if(how == 0) v.insert(at, (const char*)t.s); else if(how == 1) v.insert(at, (const char*)t.s, c);
    else { estd::layer2::const_string o(t.s); v.insert(at, o); }
    FITTED(n + c, "insert");
    s.m.ins(at, t.s, c); REACH("inserted"); POST("insert");
}
//@ entry vh_insert unwind=12 defs=VK=1,VN=4,VH=0
//@ entry vh_insert unwind=12 defs=VK=1,VN=4,VH=1
//@ entry vh_insert unwind=12 defs=VK=1,VN=4,VH=2
//@ entry vh_insert unwind=12 defs=VK=2,VN=4,VH=0
//@ entry vh_insert unwind=12 defs=VK=2,VN=4,VH=1
//@ entry vh_insert unwind=12 defs=VK=2,VN=4,VH=2
//@ entry vh_insert unwind=12 tier=thorough defs=VK=3,VN=4,VH=0
//@ entry vh_insert unwind=12 defs=VK=3,VN=4,VH=1
//@ entry vh_insert unwind=12 tier=thorough defs=VK=3,VN=4,VH=2
//@ entry vh_insert kind=bounded unwind=12 tier=thorough defs=VK=4,VN=4,VH=0
//@ entry vh_insert kind=bounded unwind=12 defs=VK=4,VN=4,VH=1
//@ entry vh_insert kind=bounded unwind=12 tier=thorough defs=VK=4,VN=4,VH=2
//@ entry vh_insert kind=bounded unwind=12 tier=thorough defs=VK=5,VN=4,VH=0
//@ entry vh_insert kind=bounded unwind=12 defs=VK=5,VN=4,VH=1
//@ entry vh_insert kind=bounded unwind=12 tier=thorough defs=VK=5,VN=4,VH=2
ENTRY(vh_insert) { split(0, CAP, [](size_t n) { split(0, n, [n](size_t at) { split(0, 3, [n, at](size_t c) { HOW(2, ([n, at, c](size_t how) { insert(n, at, c, how); })); }); }); }); }

static void erase(size_t n, size_t at, size_t how, size_t k)
{
    Raw raw; State s(n, raw); S& v = s.b.v; size_t c = k; if(k > n - at) { c = u64(); REQ(c > n - at && (typename S::size_type)c == c); } REACH("entry");
    if(how == 0) v.erase(at, c); else { v.erase(at); c = n; }
    s.m.del(at, c < n - at ? c : n - at);
    POST("erase");
}
//@ entry vh_erase unwind=12 defs=VK=1,VN=4,VH=0
//@ entry vh_erase unwind=12 defs=VK=1,VN=4,VH=1
//@ entry vh_erase unwind=12 defs=VK=2,VN=4,VH=0
//@ entry vh_erase unwind=12 defs=VK=2,VN=4,VH=1
//@ entry vh_erase unwind=12 defs=VK=3,VN=4,VH=0
//@ entry vh_erase unwind=12 defs=VK=3,VN=4,VH=1
//@ entry vh_erase kind=bounded unwind=12 defs=VK=4,VN=4,VH=0
//@ entry vh_erase kind=bounded unwind=12 defs=VK=4,VN=4,VH=1
//@ entry vh_erase kind=bounded unwind=12 defs=VK=5,VN=4,VH=0
//@ entry vh_erase kind=bounded unwind=12 defs=VK=5,VN=4,VH=1
ENTRY(vh_erase) { split(0, CAP, [](size_t n) { split(0, n, [n](size_t at) { HOW(1, ([n, at](size_t how) { if(how == 1) erase(n, at, 1, 0); else split(0, n - at + 1, [n, at](size_t k) { erase(n, at, 0, k); }); })); }); }); }

static void equal(size_t n, size_t c)
{
    Raw raw; State s(n, raw); S& v = s.b.v; CStr t(c); REACH("entry");
    bool eq = n == c; for(size_t i = 0; i < 4; i++) { UNROLL; if(i < n && i < c && s.m.e[i] != t.s[i]) eq = false; }
    estd::layer2::const_string o(t.s); estd::string_view w(t.s, c);
    ENS((v == (const char*)t.s) == eq && (v.compare((const char*)t.s) == 0) == eq, "== and compare with a C string");
    ENS((v == o) == eq && (v.compare(o) == 0) == eq && (v == w) == eq, "== and compare with a string");
    POST("comparison");
}
//@ entry vh_equal unwind=12 defs=VK=1
//@ entry vh_equal unwind=12 defs=VK=2
//@ entry vh_equal unwind=12 defs=VK=3
ENTRY(vh_equal) { split(0, CAP, [](size_t n) { split(0, 4, [n](size_t c) { equal(n, c); }); }); }

// a request far beyond the capacity, or beyond the range of the size type, never returns and writes nothing before stopping
//@ entry vh_limits unwind=4 defs=VN=200,VK=2
//@ entry vh_limits unwind=4 defs=VN=255,VK=2
//@ entry vh_limits unwind=4 defs=VN=250,VK=4 kind=bounded
ENTRY(vh_limits)
{
    struct L { estd::layer1::string<VN, false> v; } b; estd::layer1::string<VN, false>& v = b.v;
    size_t n = upto(0, VN), c = len(); REQ(c <= 100000); const char* p = array<char>(c); unsigned how = small(0, 3);
    v.resize(n); ENS(v.size() == n, "resize"); REQ(c > VN - n); REACH("entry");
    __vh_allow(ABORT);
    estd::string_view w(p, c);
    if(how == 0) v.append(p, c); else if(how == 1) v.insert(upto(0, n), p, c); else if(how == 2) v.append(w); else { REQ(c > VN); v = w; }
    ENS(false, "append, insert and assign beyond the capacity never return");
}
