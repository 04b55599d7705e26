// C19: quantities with units convert, add, subtract and compare exactly across scales.
#include <assert.h>
#include "vh.h"
#include <estd/internal/units/base.h>
#include <estd/internal/units/bytes.h>
#include <estd/internal/units/percent.h>
#include <estd/internal/units/operators.hpp>
using namespace vh;
using namespace estd::internal::units;
struct len_tag {};
typedef unit_base<int32_t, estd::ratio<1>, len_tag> metres; typedef unit_base<int64_t, estd::ratio<1>, len_tag> metres64; typedef unit_base<int64_t, estd::milli, len_tag> mm; typedef unit_base<int32_t, estd::kilo, len_tag> km; typedef unit_base<int32_t, estd::ratio<254, 10000>, len_tag> inches; typedef unit_base<int16_t, estd::ratio<1>, len_tag> metres16;
typedef unit_base<uint32_t, estd::ratio<1>, bytes_tag> B; typedef unit_base<uint64_t, estd::ratio<1>, bytes_tag> B64; typedef kilobytes<uint32_t> KB; typedef megabytes<uint64_t> MB;
typedef percent<int16_t, estd::ratio<100, 1024>> adc; typedef percent<int32_t> pct; typedef percent<uint16_t, estd::ratio<1, 10>> tenths;
#ifndef VF
#define VF metres
#define VT km
#define VNUM 1
#define VDEN 1000
#endif
static bool truncates(int64_t t, int64_t c, uint64_t num, uint64_t den)
{
    uint64_t m = c < 0 ? -(uint64_t)c : (uint64_t)c, n = t < 0 ? -(uint64_t)t : (uint64_t)t, p = m * num, q = n * den;
    return q <= p && p - q < den && (t == 0 || (t < 0) == (c < 0)) && n <= p;
}
static const int64_t LIM = (INT64_MAX / 2) / (VNUM > VDEN ? VNUM : VDEN);
//@ entry vh_convert solver=int
//@ entry vh_convert defs=VF=km,VT=mm,VNUM=1000000,VDEN=1 solver=int
//@ entry vh_convert defs=VF=mm,VT=metres,VNUM=1,VDEN=1000 solver=int
//@ entry vh_convert defs=VF=inches,VT=mm,VNUM=254,VDEN=10 solver=int
//@ entry vh_convert defs=VF=mm,VT=inches,VNUM=10,VDEN=254 solver=int
//@ entry vh_convert defs=VF=metres16,VT=metres64,VNUM=1,VDEN=1 solver=int
//@ entry vh_convert defs=VF=B,VT=KB,VNUM=1,VDEN=1024 solver=int
//@ entry vh_convert defs=VF=KB,VT=B64,VNUM=1024,VDEN=1 solver=int
//@ entry vh_convert defs=VF=MB,VT=KB,VNUM=1024,VDEN=1 solver=int
//@ entry vh_convert defs=VF=adc,VT=pct,VNUM=100,VDEN=1024 solver=int
//@ entry vh_convert defs=VF=pct,VT=adc,VNUM=1024,VDEN=100 solver=int
//@ entry vh_convert defs=VF=tenths,VT=adc,VNUM=1024,VDEN=1000 solver=int
ENTRY(vh_convert)
{
    typedef VF::rep R; typedef VT::rep Q; R c = any<R>(); int64_t w = (int64_t)c; REQ(w >= ((R)-1 < 0 ? -LIM : 0) && w <= LIM);
    if(sizeof(Q) < 8) { int64_t lim = (int64_t)1 << (8 * sizeof(Q) - 1); REQ((w / VDEN + 1) < lim / (VNUM) && (w / VDEN - 1) > -lim / (VNUM)); }
    VF d(c); REACH("entry"); VT t(d); VT x(Q(0)); x = d;
    REACH("done"); ENS(truncates(t.count(), w, VNUM, VDEN), "conversion keeps the quantity, rounding toward zero"); ENS(x.count() == t.count() && d.count() == c && x.root_count() == t.count(), "assignment agrees with conversion");
}
#ifdef VB
//@ entry vh_mixed defs=VF=metres,VT=metres,VNUM=1,VDEN=1,VB=mm,VAM=1000,VBM=1 solver=int
//@ entry vh_mixed defs=VF=km,VT=km,VNUM=1,VDEN=1,VB=mm,VAM=1000000,VBM=1 solver=int
//@ entry vh_mixed defs=VF=metres64,VT=metres64,VNUM=1,VDEN=1,VB=metres,VAM=1,VBM=1 solver=int
//@ entry vh_mixed defs=VF=KB,VT=KB,VNUM=1,VDEN=1,VB=B,VAM=1024,VBM=1 solver=int
//@ entry vh_mixed defs=VF=pct,VT=pct,VNUM=1,VDEN=1,VB=adc,VAM=1024,VBM=100 solver=int
//@ entry vh_mixed defs=VF=adc,VT=adc,VNUM=1,VDEN=1,VB=tenths,VAM=500,VBM=512 solver=int
ENTRY(vh_mixed)
{
    VF::rep a = any<VF::rep>(); VB::rep b = any<VB::rep>(); const int64_t L = 1 << 20; REQ((int64_t)a > -L && (int64_t)a < L && (int64_t)b > -L && (int64_t)b < L); REACH("entry");
    VF x(a); VB y(b); int64_t p = (int64_t)a * VAM, q = (int64_t)b * VBM; typedef decltype(x + y) CT;
    if(sizeof(CT::rep) < 4) REQ(p > -16000 && p < 16000 && q > -16000 && q < 16000); else if(sizeof(CT::rep) < 8) REQ(p > -(1 << 29) && p < (1 << 29) && q > -(1 << 29) && q < (1 << 29));
    ENS((x == y) == (p == q) && (x != y) == (p != q) && (x < y) == (p < q) && (x > y) == (p > q) && (x <= y) == (p <= q) && (x >= y) == (p >= q), "comparison is exact across scales");
    ENS((int64_t)(x + y).count() == p + q, "the sum is exact in the common scale"); if(p >= q) ENS((int64_t)(x - y).count() == p - q, "the difference is exact in the common scale");
    REACH("done");
}
#endif
//@ entry vh_update solver=int
ENTRY(vh_update)
{
    int64_t a = any<int64_t>(); int32_t b = i32(); const int64_t L = (int64_t)1 << 60; REQ(a > -L && a < L); mm x(a); km k(b); metres m(b); REACH("entry");
    { mm t(x); mm& r = (t += k); ENS(&r == &t && t.count() == a + (int64_t)b * 1000000, "+= adds the converted quantity"); } { mm t(x); t -= m; ENS(t.count() == a - (int64_t)b * 1000, "-= subtracts the converted quantity"); }
    { mm t(x); t += mm(b); t -= mm(a); ENS(t.count() == b, "+= and -="); } { mm t(x); ++t; ENS(t.count() == a + 1, "increment"); } ENS((-x).count() == -a, "negation");
    REQ(b > -1000000 && b < 1000000); int16_t s = i16(); { metres t(b); t += s; ENS(t.count() == b + s && (t == b + s) && !(t > b + s) && !(t < b + s), "a plain number counts the unit scale"); } { metres t(b); t -= s; ENS(t.count() == b - s && (t < b) == (s > 0) && (t > b) == (s < 0), "a plain number counts the unit scale"); } REACH("done");
}
//@ entry vh_percent
ENTRY(vh_percent)
{
    int32_t p = (int32_t)upto(0, 100), lo = i16(), hi = i16(); REQ(hi >= lo); REACH("entry"); metres r = get_from_percent(pct(p), metres(lo), metres(hi)); int32_t v = r.count();
    ENS(v >= lo && v <= hi && (p != 0 || v == lo) && (p != 100 || v == hi), "a percentage lies within the range and reaches its ends"); ENS((v - lo) * 100 <= (hi - lo) * p && (v - lo + 1) * 100 > (hi - lo) * p, "a percentage is the scaled range, rounded down"); REACH("done");
}
