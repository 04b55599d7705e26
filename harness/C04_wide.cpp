// C04 for 32 and 64 bit values and buffers of any length: to_chars_opt by loop invariant.
// S is the quotient sequence of |v|: S(0)=|v|, S(i+1)=S(i)/base; the text of v is, from its end,
// the digits S(i)%base up to the first i>0 with S(i)==0, then the sign.  S is introduced by its
// defining equations, instantiated where a step needs them.
#include <assert.h>
#include "vh.h"
#include <estd/charconv.h>
using namespace vh;
#ifndef VT
#define VT int64_t
#define VBASE 10
#endif
typedef VT T; typedef unsigned __int128 W;
static uint64_t* g_S; static T g_value; static char* g_buf; static size_t g_n; static size_t g_at, g_j; static char g_u;
static int64_t g_first, g_last;
SPEC uint64_t mag(T v) { return v < 0 ? 0 - (uint64_t)v : (uint64_t)v; }
SPEC char dig(uint64_t v) { unsigned d = (unsigned)v; return d < 10 ? char('0' + d) : char('a' + d - 10); }
SPEC void def(uint64_t i) { if(i < 65) REQ(g_S[i + 1] == g_S[i] / VBASE); }
#define AT(p) __vh_diff(p, g_buf)
INV(pos)(const char* last) { return __vh_same(last, g_buf) && AT(last) >= g_first && AT(last) <= g_last; }
INV(val)(const char* last, T value)
{
    if(!__vh_same(last, g_buf)) return false;
    uint64_t i = (uint64_t)(g_last - AT(last));
    if(i > 64) return false;
#ifndef VH_BOUNDED
    def(i);
#endif
    return mag(value) == g_S[i] && (i == 0 || g_S[i] >> (64 - i) == 0) && (g_value < 0 ? value <= 0 : value >= 0) && (i == 0 || value != 0);
}
#ifdef P_DIG
INV(dig)(const char* last)
{
    if(!__vh_same(last, g_buf)) return false;
    uint64_t i = (uint64_t)(g_last - AT(last));
    return g_j >= i || g_buf[g_last - 1 - (int64_t)g_j] == dig(g_S[g_j] % VBASE);
}
#endif
#ifdef P_FRAME
INV(frame)() { return !g_buf || g_buf[g_at] == g_u; }
#endif
//@ entry vh_wide kind=proof twin=70 defs=VT=uint32_t,VBASE=10,VH_LOGN=7 cost=5
//@ entry vh_wide kind=proof twin=70 defs=VT=int64_t,VBASE=16,VH_LOGN=7 cost=5
//@ entry vh_wide kind=proof twin=70 defs=VT=int64_t,VBASE=16,VH_LOGN=7,P_FRAME cost=5
//@ entry vh_wide kind=proof twin=70 defs=VT=int64_t,VBASE=16,VH_LOGN=7,P_DIG tier=thorough
//@ entry vh_wide kind=proof twin=70 defs=VT=int64_t,VBASE=10,VH_LOGN=7 tier=thorough
//@ entry vh_wide kind=proof twin=70 defs=VT=uint64_t,VBASE=10,VH_LOGN=7 tier=thorough
//@ entry vh_wide kind=proof twin=70 defs=VT=int32_t,VBASE=10,VH_LOGN=7,P_DIG tier=thorough
ENTRY(vh_wide)
{
    g_n = upto(1, MAXN); g_buf = array<char>(g_n); __vh_writable(g_buf, g_n);
    size_t f = upto(0, g_n), l = upto(0, g_n); REQ(f <= l); g_first = (int64_t)f; g_last = (int64_t)l;
    g_at = upto(0, g_n - 1); REQ(g_at < f || g_at >= l); g_u = g_buf[g_at];
    g_j = upto(0, 64); T v = any<T>(); g_value = v; g_S = array<uint64_t>(66);
#ifdef VH_BOUNDED
    g_S[0] = mag(v); for(unsigned i = 0; i < 65; i++) { UNROLL; g_S[i + 1] = g_S[i] / VBASE; }
#else
    REQ(g_S[0] == mag(v)); if(0) def(g_j);
#endif
    estd::to_chars_result r = estd::to_chars_opt(g_buf + f, g_buf + l, v, VBASE);
    REACH("returns");
#ifdef P_FRAME
    ENS(g_buf[g_at] == g_u, "to_chars_opt: nothing outside the buffer is written");
#endif
    ENS(__vh_same(r.ptr, g_buf) && AT(r.ptr) >= g_first && AT(r.ptr) <= g_last, "to_chars_opt: reports a position inside the buffer");
    uint64_t len = (uint64_t)(g_last - AT(r.ptr)); unsigned neg = v < 0;
    if(r.ec == 0)
    {
        REACH("fits");
        uint64_t nd = len - neg;
        ENS(len > neg && nd <= 64, "to_chars_opt: at least one digit");
        if(!(len > neg && nd <= 64)) return;
        ENS(g_S[nd] == 0 && (nd == 1 || g_S[nd - 1] != 0), "to_chars_opt: as many digits as the value needs");
        if(neg) ENS(*r.ptr == '-', "to_chars_opt: sign in front of a negative value");
#ifdef P_DIG
        if(g_j < nd) ENS(g_buf[g_last - 1 - (int64_t)g_j] == dig(g_S[g_j] % VBASE), "to_chars_opt: every digit is the digit of the value");
#endif
    }
    else
    {
        REACH("does not fit");
        ENS(r.ec == estd::errc::value_too_large, "to_chars_opt: value_too_large when it does not fit");
        uint64_t n = (uint64_t)(g_last - g_first);
        ENS(n <= 64 && (n == 0 || g_S[n] != 0 || neg), "to_chars_opt: fails only when the text does not fit");
    }
}
