// C04: to_chars writes exactly the canonical text of the value, in the buffer it was given.
#include <assert.h>
#include "vh.h"
#include <estd/charconv.h>
using namespace vh;

#ifndef VT
#define VT int16_t
#endif
#ifndef VLEN
#define VLEN 19            // longest text of VT in base 2 (with sign) + 2
#endif
#ifndef VBASE
#define VBASE 0            // 0: any base of 2..36
#endif
#ifdef VBIG
typedef unsigned __int128 W;
#else
typedef uint64_t W;
#endif
typedef VT T;

SPEC int digit_of(char c, unsigned base, bool upper = false)
{
    int d = c >= '0' && c <= '9' ? c - '0' : upper ? (c >= 'A' && c <= 'Z' ? c - 'A' + 10 : -1) : (c >= 'a' && c <= 'z' ? c - 'a' + 10 : -1);
    return d >= 0 && d < (int)base ? d : -1;
}
SPEC uint64_t magnitude(T v) { return v < 0 ? 0 - (uint64_t)v : (uint64_t)v; }
// is t[0..n) the canonical text of v?  (an independent reading of the text: no leading zeros,
// a sign exactly for negative values, every digit below the base, digits add up to |v|)
template <class A> static VH_NOSAN bool canonical(const A& t, unsigned n, T v, unsigned base, bool upper = false)
{
    unsigned i0 = v < 0 ? 1 : 0;
    if(n <= i0) return false;
    if(v < 0 && t[0] != '-') return false;
    if(n > i0 + 1 && t[i0] == '0') return false;
    W acc = 0; bool good = true;
    for(unsigned i = 0; i < VLEN; i++)
    {
        UNROLL;
        if(i < i0 || i >= n) continue;
        int d = digit_of(t[i], base, upper);
        if(d < 0) good = false;
        acc = acc * base + (W)(unsigned)d;
    }
    return good && acc == magnitude(v);
}
// does the text of v fit n characters?
SPEC bool fits(T v, unsigned n, unsigned base)
{
    W need = v < 0 ? 1 : 0, m = magnitude(v), p = 1; bool more = true; unsigned len = (unsigned)need;
    for(unsigned i = 0; i < VLEN; i++) { UNROLL; if(more) { len++; p *= base; if(m < p) more = false; } }
    return len <= n;
}
static char g_buf[VLEN + 2]; static char g_old[VLEN + 2];
struct Env { unsigned base, n; T v; char* first; char* last; };
static Env env()
{
    Env e; e.base = VBASE ? VBASE : small(2, 36); e.n = small(0, VLEN); e.v = any<T>();
    for(unsigned i = 0; i < VLEN + 2; i++) { UNROLL; g_buf[i] = g_old[i] = ch(); }
    e.first = g_buf + 1; e.last = g_buf + 1 + e.n; return e;
}
static void frame(const Env& e)
{
    for(unsigned i = 0; i < VLEN + 2; i++) { UNROLL; if(i < 1 || i >= 1 + e.n) ENS(g_buf[i] == g_old[i], "to_chars: nothing outside the buffer is written"); }
}
static void check(const Env& e, estd::to_chars_result r, bool opt, bool upper = false)
{
    bool ok = r.ec == 0;
    frame(e);
    ENS(ok == fits(e.v, e.n, e.base), "to_chars: succeeds exactly when the text fits the buffer");
    if(!ok) { ENS(r.ec == estd::errc::value_too_large, "to_chars: value_too_large when the buffer is too small"); return; }
    const char* b = opt ? r.ptr : e.first; const char* l = opt ? e.last : r.ptr;
    int64_t off = __vh_diff(b, e.first), len = __vh_diff(l, b);
    ENS(__vh_same(b, e.first) && __vh_same(l, e.first) && off >= 0 && len >= 0 && off + len <= e.n, "to_chars: the reported text lies inside the buffer");
    if(off < 0 || len < 0 || off + len > e.n) return;
    char t[VLEN]; for(unsigned i = 0; i < VLEN; i++) { UNROLL; t[i] = i < len ? g_buf[1 + off + i] : 0; }
    ENS(canonical(t, (unsigned)len, e.v, e.base, upper), "to_chars: the text is the canonical text of the value");
}

//@ entry vh_to_chars unwind=22 defs=VT=int8_t,VLEN=11 tier=thorough
//@ entry vh_to_chars unwind=22 defs=VT=uint8_t,VLEN=10 tier=thorough
//@ entry vh_to_chars unwind=22 defs=VT=int8_t,VLEN=8,VBASE=3
//@ entry vh_to_chars unwind=22 defs=VT=int8_t,VLEN=6,VBASE=11
//@ entry vh_to_chars unwind=22 defs=VT=int16_t,VLEN=19,VBASE=2 cost=3
//@ entry vh_to_chars unwind=22 defs=VT=int16_t,VLEN=8,VBASE=10 cost=3
//@ entry vh_to_chars unwind=22 defs=VT=uint16_t,VLEN=7,VBASE=16 cost=3
//@ entry vh_to_chars unwind=22 defs=VT=uint16_t,VLEN=6,VBASE=36 cost=3
ENTRY(vh_to_chars)
{
    Env e = env(); estd::to_chars_result r = estd::to_chars(e.first, e.last, e.v, (int)e.base);
    REACH("returns"); check(e, r, false);
    if(!(r.ec == 0)) ENS(r.ptr == e.last, "to_chars: ptr is the end of the buffer when the value does not fit");
}
//@ entry vh_to_chars_opt unwind=22 defs=VT=int8_t,VLEN=6,VBASE=10
//@ entry vh_to_chars_opt unwind=22 defs=VT=int8_t,VLEN=4,VBASE=36
//@ entry vh_to_chars_opt unwind=22 defs=VT=int8_t,VLEN=11 tier=thorough
ENTRY(vh_to_chars_opt)
{
    Env e = env(); estd::to_chars_result r = estd::to_chars_opt(e.first, e.last, e.v, (int)e.base);
    REACH("returns"); check(e, r, true);
}
//@ entry vh_to_chars_case unwind=22 defs=VT=int8_t,VLEN=5,VBASE=16
//@ entry vh_to_chars_case unwind=22 defs=VT=int8_t,VLEN=11 tier=thorough
ENTRY(vh_to_chars_case)
{
    Env e = env(); bool up = flag(); estd::to_chars_result r = estd::to_chars_opt(e.first, e.last, e.v, (int)e.base, up);
    REACH("returns"); check(e, r, true, up && e.base > 10);
}
//@ entry vh_to_chars_exp unwind=22 defs=VT=int8_t,VLEN=6,VBASE=10
//@ entry vh_to_chars_exp unwind=22 defs=VT=int8_t,VLEN=5,VBASE=16
//@ entry vh_to_chars_exp unwind=22 defs=VT=int8_t,VLEN=11 tier=thorough
ENTRY(vh_to_chars_exp)
{
    Env e = env(); estd::to_chars_result r = estd::to_chars_exp(e.first, e.last, e.v, (int)e.base);
    REACH("returns"); check(e, r, false);
}
//@ entry vh_to_chars_fixed unwind=22 defs=VT=int16_t,VLEN=8,VBASE=10 cost=3
//@ entry vh_to_chars_fixed unwind=22 defs=VT=uint16_t,VLEN=7,VBASE=16 cost=3
#if VBASE
ENTRY(vh_to_chars_fixed)
{
    Env e = env(); estd::to_chars_result r = estd::detail::to_chars<VBASE>(e.first, e.last, e.v);
    REACH("returns"); check(e, r, true);
}
#endif

