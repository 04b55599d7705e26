// C05: from_chars parses exactly the longest digit prefix, for text of any length.
#include <assert.h>
#include "vh.h"
#include <estd/charconv.h>
using namespace vh;
#ifndef VT
#define VT int32_t
#define VBASE 10
#endif
typedef VT T; typedef __int128 W;
static char* g_t; static size_t g_n; static size_t g_k;
// V(i): value of the first i digits after the sign; OV(i): some prefix of them does not fit T
static T* g_V; static uint8_t* g_OV; static bool g_neg;
constexpr bool SG = T(-1) < T(0);
SPEC int digit_of(char c)
{
    int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99;
    return d < VBASE ? d : -1;
}
SPEC W step(T v, char c) { int d = digit_of(c); return (W)v * VBASE + (g_neg ? -(W)d : (W)d); }
SPEC bool out(W w)
{
    W lo = SG ? -((W)1 << (sizeof(T) * 8 - 1)) : 0, hi = SG ? ((W)1 << (sizeof(T) * 8 - 1)) - 1 : ((W)1 << (sizeof(T) * 8)) - 1;
    return w < lo || w > hi;
}
SPEC void def(size_t i) { if(i < g_n && digit_of(g_t[i]) >= 0) { W w = step(g_V[i], g_t[i]); REQ((g_OV[i + 1] != 0) == (g_OV[i] != 0 || out(w))); if(!out(w)) REQ(g_V[i + 1] == (T)w); } }
#define AT(p) __vh_diff(p, g_t)
#define IN(p) (__vh_same(p, g_t) && AT(p) >= (int64_t)g_neg && AT(p) <= (int64_t)g_n)
INV(pos)(const char* current) { return IN(current); }
INV(digits)(const char* current) { return __vh_same(current, g_t) && (g_k >= (uint64_t)AT(current) || g_k < (size_t)g_neg || digit_of(g_t[g_k]) >= 0); }
INV(before)(const char* current) { return IN(current) && AT(current) < (int64_t)g_n; }
static T g_old;
INV(keep)(T v) { return v == g_old; }
#ifndef P_SHAPE
INV(val)(const char* current, T v)
{
    if(!IN(current)) return false;
    size_t i = (size_t)AT(current);
#ifndef VH_BOUNDED
    def(i);
#endif
    return g_OV[i] == 0 && v == g_V[i] && (g_neg ? v <= 0 : v >= 0);
}
INV(skip)(const char* current)
{
    if(!(IN(current) && AT(current) < (int64_t)g_n)) return false;
    size_t i = (size_t)AT(current);
#ifndef VH_BOUNDED
    def(i);
#endif
    return digit_of(g_t[i]) >= 0 && (g_OV[i] != 0 || out(step(g_V[i], g_t[i])));
}
#endif
//@ entry vh_from_chars kind=proof twin=10 defs=VT=int16_t,VBASE=10 cost=5
//@ entry vh_from_chars kind=proof twin=10 defs=VT=int8_t,VBASE=36
//@ entry vh_from_chars kind=proof twin=10 defs=VT=uint16_t,VBASE=16 cost=3
//@ entry vh_from_chars kind=proof twin=10 defs=VT=uint8_t,VBASE=8
//@ entry vh_from_chars kind=proof twin=10 defs=VT=int32_t,VBASE=2
//@ entry vh_from_chars kind=proof twin=10 defs=VT=int64_t,VBASE=36 tier=thorough
//@ entry vh_from_chars kind=proof twin=10 defs=VT=uint64_t,VBASE=10 tier=thorough
//@ entry vh_from_chars kind=proof twin=10 defs=VT=int64_t,VBASE=10 tier=thorough
//@ entry vh_from_chars kind=proof twin=10 defs=VT=int32_t,VBASE=10 tier=thorough
#define VH_LOGN_ 1
ENTRY(vh_from_chars)
{
    g_n = len(); g_t = array<char>(g_n);
    g_neg = SG && g_n > 0 && g_t[0] == '-';
    size_t s = g_neg ? 1 : 0;
    g_V = array<T>(g_n + 2); g_OV = array<uint8_t>(g_n + 2);
    REQ(g_V[s] == 0 && g_OV[s] == 0);
#ifdef VH_BOUNDED
    for(size_t i = s; i < g_n; i++) { UNROLL; def(i); }
#else
    def(s);
#endif
    g_k = upto(0, MAXN);
    T old = any<T>(), v = old; g_old = old;
    estd::from_chars_result r = estd::from_chars(g_t, g_t + g_n, v, VBASE);
    REACH("returns");
    bool any = g_n > s && digit_of(g_t[s]) >= 0;
    ENS(__vh_same(r.ptr, g_t) && AT(r.ptr) >= 0 && AT(r.ptr) <= (int64_t)g_n, "from_chars: position inside the text");
    size_t at = (size_t)AT(r.ptr);
    if(!any)
    {
        REACH("no digits");
        ENS(r.ec == estd::errc::invalid_argument && at == 0, "from_chars: no digits is invalid_argument at the start");
        ENS(v == old, "from_chars: value unchanged on failure");
        return;
    }
    ENS(at > s, "from_chars: stops after the digits");
    if(g_k >= s && g_k < at) ENS(digit_of(g_t[g_k]) >= 0, "from_chars: everything consumed is a digit of the base");
    ENS(at == g_n || digit_of(g_t[at]) < 0, "from_chars: stops at the first character that is not a digit of the base");
    if(r.ec == 0) { REACH("value"); }
    else
    {
        REACH("range");
        ENS(r.ec == estd::errc::result_out_of_range, "from_chars: overflow is result_out_of_range");
        ENS(v == old, "from_chars: value unchanged on failure");
    }
#ifndef P_SHAPE
    ENS((r.ec == 0) == (g_OV[at] == 0), "from_chars: succeeds exactly when the value is representable");
    if(r.ec == 0) ENS(v == g_V[at], "from_chars: the value of the digits with their sign");
#endif
}
// every base through the public function: two characters, 8 bit and 32 bit values, loops fully unrolled
//@ entry vh_from_chars_base unwind=6 defs=VT=int8_t,VBASE=10
//@ entry vh_from_chars_base unwind=6 defs=VT=int32_t,VBASE=10
ENTRY(vh_from_chars_base)
{
    int base = small(2, 36); unsigned n = small(0, 2); char t[2]; t[0] = ch(); t[1] = ch(); T v = 77; REACH("entry");
    int d[2]; for(int i = 0; i < 2; i++) { UNROLL; char c = t[i]; int x = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; d[i] = x < base ? x : -1; }
    bool neg = SG && n > 0 && t[0] == '-'; unsigned s = neg ? 1 : 0, k = 0; int64_t e = 0;
    if(n > s && d[s] >= 0) { e = d[s]; k = 1; if(n > s + 1 && d[s + 1] >= 0) { e = e * base + d[s + 1]; k = 2; } }
    if(neg) e = -e;
    estd::from_chars_result r = estd::from_chars(t, t + n, v, base);
    if(!k) { ENS(r.ptr == t && r.ec == estd::errc::invalid_argument && v == 77, "from_chars, any base: no digits"); return; }
    REACH("digits");
    ENS(r.ptr == t + s + k, "from_chars, any base: consumes exactly the digits of the base");
    bool fits = e >= (int64_t)estd::numeric_limits<T>::min() && e <= (int64_t)estd::numeric_limits<T>::max();
    if(fits) ENS(r.ec == 0 && v == (T)e, "from_chars, any base: value"); else ENS(r.ec == estd::errc::result_out_of_range && v == 77, "from_chars, any base: out of range");
}
