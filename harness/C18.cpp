// C18: chrono durations and time points convert, add, compare and split into calendar fields exactly.
#include <assert.h>
#include "vh.h"
#include <estd/chrono.h>
using namespace vh;
using namespace estd::chrono;
typedef duration<int32_t, estd::ratio<1, 30>> frames;
typedef duration<int16_t, estd::ratio<1>> sec16;
typedef duration<uint32_t, estd::milli> ums;
typedef duration<int64_t, estd::milli> ms64;
#ifndef VU
#define VU 0
#endif
#ifndef VN
#define VN 0
#endif
#ifndef VF
#define VF milliseconds
#define VT seconds
#define VNUM 1
#define VDEN 1000
#endif
// t == trunc(c * num / den), with a product that can be represented; on magnitudes, and the signs apart
static bool truncates(int64_t t, int64_t c, uint64_t num, uint64_t den)
{
    uint64_t m = c < 0 ? -(uint64_t)c : (uint64_t)c, n = t < 0 ? -(uint64_t)t : (uint64_t)t, p = m * num, q = n * den;
    return q <= p && p - q < den && (t == 0 || (t < 0) == (c < 0)) && n <= p;
}
static const int64_t LIM = (INT64_MAX / 2) / (VNUM > VDEN ? VNUM : VDEN);
template <class R> static int64_t count_of() { R c = any<R>(); int64_t w = (int64_t)c; return w; }
//@ entry vh_convert solver=int
//@ entry vh_convert defs=VF=seconds,VT=milliseconds,VNUM=1000,VDEN=1 solver=int
//@ entry vh_convert defs=VF=hours,VT=seconds,VNUM=3600,VDEN=1 solver=int
//@ entry vh_convert defs=VF=hours,VT=nanoseconds,VNUM=3600000000000,VDEN=1 solver=int
//@ entry vh_convert defs=VF=minutes,VT=hours,VNUM=1,VDEN=60 solver=int
//@ entry vh_convert defs=VF=days,VT=hours,VNUM=24,VDEN=1 solver=int
//@ entry vh_convert defs=VF=days,VT=weeks,VNUM=1,VDEN=7 solver=int
//@ entry vh_convert defs=VF=frames,VT=milliseconds,VNUM=100,VDEN=3 solver=int
//@ entry vh_convert defs=VF=seconds,VT=frames,VNUM=30,VDEN=1 solver=int
//@ entry vh_convert defs=VF=seconds,VT=minutes,VNUM=1,VDEN=60 solver=int
//@ entry vh_convert defs=VF=sec16,VT=milliseconds,VNUM=1000,VDEN=1 solver=int
//@ entry vh_convert defs=VU=1,VF=ums,VT=seconds,VNUM=1,VDEN=1000 solver=int
//@ entry vh_convert defs=VF=microseconds,VT=milliseconds,VNUM=1,VDEN=1000 solver=int
//@ entry vh_convert defs=VF=years,VT=days,VNUM=146097,VDEN=400 solver=int
ENTRY(vh_convert)
{
    typedef VF::rep R; typedef VT::rep Q; R c = any<R>(); int64_t w = (int64_t)c; REQ(w >= -LIM && w <= LIM);
    // the result can be represented
    if(sizeof(Q) < 8) { int64_t lim = (int64_t)1 << (8 * sizeof(Q) - 1); REQ((w / (VDEN < 1 ? 1 : VDEN) + 1) < lim / (VNUM) && (w / VDEN - 1) > -lim / (VNUM)); }
    VF d(c); REACH("entry"); VT t(d); VT u = duration_cast<VT>(d); VT x(Q(0)); x = d;
    REACH("done"); ENS(truncates(t.count(), w, VNUM, VDEN), "conversion keeps the amount, rounding toward zero"); ENS(u.count() == t.count() && x.count() == t.count() && d.count() == c, "duration_cast and assignment agree with conversion");
}
#ifndef VB
#define VB seconds
#define VAM 1
#define VBM 1000
#define VC 1000
#endif
// VF counts VAM and VB counts VBM of the common period, 1/VC seconds
//@ entry vh_mixed solver=int
//@ entry vh_mixed defs=VF=hours,VT=hours,VNUM=1,VDEN=1,VB=minutes,VAM=60,VBM=1 solver=int
//@ entry vh_mixed defs=VF=frames,VT=frames,VNUM=1,VDEN=1,VB=milliseconds,VAM=100,VBM=3 solver=int
//@ entry vh_mixed defs=VF=seconds,VT=seconds,VNUM=1,VDEN=1,VB=seconds,VAM=1,VBM=1 solver=int
//@ entry vh_mixed defs=VF=days,VT=days,VNUM=1,VDEN=1,VB=microseconds,VAM=86400000000,VBM=1 solver=int
//@ entry vh_mixed defs=VF=ms64,VT=ms64,VNUM=1,VDEN=1,VB=minutes,VAM=1,VBM=60000 solver=int
ENTRY(vh_mixed)
{
    VF::rep a = any<VF::rep>(); VB::rep b = any<VB::rep>(); REQ((int64_t)a > -((int64_t)1 << 24) && (int64_t)a < ((int64_t)1 << 24) && (int64_t)b > -((int64_t)1 << 24) && (int64_t)b < ((int64_t)1 << 24)); REACH("entry");
    VF x(a); VB y(b); int64_t p = (int64_t)a * VAM, q = (int64_t)b * VBM;
    // exact whenever the common representation holds the result
    typedef decltype(x + y) CT; if(sizeof(typename CT::rep) < 8) REQ(p > -(1 << 29) && p < (1 << 29) && q > -(1 << 29) && q < (1 << 29));
    ENS((x == y) == (p == q) && (x != y) == (p != q) && (x < y) == (p < q) && (x > y) == (p > q) && (x <= y) == (p <= q) && (x >= y) == (p >= q), "comparison is exact across units");
    ENS((x + y).count() == p + q && (x - y).count() == p - q, "sum and difference are exact in the common unit");
    REACH("done");
}
#if VU == 0
//@ entry vh_arith
//@ entry vh_arith defs=VF=seconds,VT=seconds,VNUM=1,VDEN=1
//@ entry vh_arith defs=VF=sec16,VT=seconds,VNUM=1,VDEN=1
//@ entry vh_arith defs=VF=frames,VT=frames,VNUM=1,VDEN=1
ENTRY(vh_arith)
{
    typedef VF::rep R; R a = any<R>(), b = any<R>(); int64_t lim = sizeof(R) == 2 ? 16000 : 1 << 29; REQ(a > -lim && a < lim && b > -lim && b < lim); VF x(a), y(b); REACH("entry");
    { VF t(a); VF& r = (t += y); ENS(&r == &t && t.count() == a + b, "+= adds"); } { VF t(a); VF& r = (t -= y); ENS(&r == &t && t.count() == a - b, "-= subtracts"); }
    ENS((-x).count() == -a && (+x).count() == a, "sign"); ENS(estd::chrono::abs(x).count() == (a < 0 ? -a : a), "abs is the magnitude");
    R m = (R)((int)upto(0, 100) - 50), s = (R)((int)upto(0, 600) - 300); { VF t(s); t *= m; ENS(t.count() == s * m && (VF(s) * m).count() == s * m, "scaling"); }
    ENS(VF::zero().count() == 0 && x <= VF::max() && x >= VF::min(), "zero, min and max"); REACH("done");
}
#endif
struct clk { typedef milliseconds duration; typedef duration::rep rep; typedef duration::period period; };
typedef time_point<clk, milliseconds> tp; typedef time_point<clk, seconds> tps;
//@ entry vh_time_point
ENTRY(vh_time_point)
{
    int64_t a = any<int64_t>(), b = any<int64_t>(), c = any<int64_t>(); const int64_t L = (int64_t)1 << 50; REQ(a > -L && a < L && b > -L && b < L && c > -L && c < L); tp x((milliseconds(a))), y((milliseconds(b))); tps z((seconds(c))); REACH("entry");
    ENS(x.time_since_epoch().count() == a && tp().time_since_epoch().count() == 0, "time since the epoch");
    ENS((x < y) == (a < b) && (x > y) == (a > b) && (x >= y) == (a >= b) && (x == y) == (a == b) && (x != y) == (a != b), "time points order as their distance from the epoch");
    ENS((x < z) == (a < c * 1000) && (x > z) == (a > c * 1000) && (x >= z) == (a >= c * 1000) && (x == z) == (a == c * 1000) && (x != z) == (a != c * 1000), "comparison is exact across units");
    ENS((x - y).count() == a - b && (x - z).count() == a - c * 1000, "difference of time points"); tp w(z); ENS(w.time_since_epoch().count() == c * 1000, "conversion to a finer unit is exact");
    { tp t = x; tp& r = (t += milliseconds(b)); ENS(&r == &t && t.time_since_epoch().count() == a + b, "+= shifts"); } { tp t = x; t -= milliseconds(b); ENS(t.time_since_epoch().count() == a - b, "-= shifts"); }
    ENS((x + milliseconds(b)).time_since_epoch().count() == a + b && (x - milliseconds(b)).time_since_epoch().count() == a - b && (x + seconds(c)).time_since_epoch().count() == a + c * 1000, "shifted time points"); REACH("done");
}
#ifndef VP
#define VP 1000
#endif
// any duration below 256 hours, which is what the hours field can say
//@ entry vh_hms defs=VF=milliseconds,VT=seconds,VNUM=1,VDEN=1,VP=1000 solver=int timeout=500
//@ entry vh_hms defs=VF=milliseconds,VT=seconds,VNUM=1,VDEN=1,VP=1000,VN=1 solver=int timeout=500
//@ entry vh_hms defs=VF=seconds,VT=seconds,VNUM=1,VDEN=1,VP=1 solver=int timeout=500
//@ entry vh_hms defs=VF=seconds,VT=seconds,VNUM=1,VDEN=1,VP=1,VN=1 solver=int timeout=500
//@ entry vh_hms defs=VU=1,VF=ums,VT=seconds,VNUM=1,VDEN=1,VP=1000 solver=int timeout=500
//@ entry vh_hms defs=VF=microseconds,VT=seconds,VNUM=1,VDEN=1,VP=1000000 solver=int timeout=500
//@ entry vh_hms defs=VF=microseconds,VT=seconds,VNUM=1,VDEN=1,VP=1000000,VN=1 solver=int timeout=500
ENTRY(vh_hms)
{
    typedef VF::rep R; R v = any<R>(); int64_t w = (int64_t)v; REQ(w > -(int64_t)256 * 3600 * VP && w < (int64_t)256 * 3600 * VP && (VN ? w < 0 : w >= 0)); int64_t m = w < 0 ? -w : w; hh_mm_ss<VF> t{VF(v)}; REACH("entry");
    int64_t h = t.hours().count(), mi = t.minutes().count(), s = t.seconds().count(), f = t.subseconds().count(); REACH("done");
    ENS(mi >= 0 && mi < 60 && s >= 0 && s < 60 && f >= 0 && f < VP, "minutes, seconds and subseconds are in range"); ENS(((h * 60 + mi) * 60 + s) * VP + f == m, "the fields add up to the duration"); ENS(t.is_negative() == (w < 0) && t.to_duration().count() == v, "sign");
}
static bool leap(int y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
//@ entry vh_calendar
ENTRY(vh_calendar)
{
    int y = i16(); REQ(y >= -32767); int m = (int)upto(0, 255), d = (int)upto(0, 255); year yy(y); month mm(m); day dd(d); REACH("entry");
    ENS((int)yy == y && (unsigned)mm == (unsigned)m && (unsigned)dd == (unsigned)d && yy.value() == y, "fields hold their value"); ENS(yy.ok() && mm.ok() == (m >= 1 && m <= 12) && dd.ok() == (d >= 1 && d <= 31), "ok() exactly in range");
    ENS(yy.is_leap() == leap(y), "leap years follow the Gregorian rule");
    if(mm.ok()) { estd::chrono::internal::year_month_day_last<clk> l(yy, estd::chrono::internal::month_day_last<clk>(mm)); static const uint8_t len[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
        ENS((int)l.day() == (m == 2 && leap(y) ? 29 : len[m - 1]) && l.ok() && (int)l.year() == y, "the last day of every month"); }
    estd::chrono::internal::year_month_day<void> ymd(yy, mm, dd); ENS(ymd.ok() == (mm.ok() && dd.ok()) && (int)ymd.year() == y && (int)ymd.month() == m && (int)ymd.day() == d, "a date holds its fields");
    int k = (int)upto(0, 2000) - 1000; REQ(y + k >= -32767 && y + k <= 32767); ENS((int)(yy + years(k)) == y + k && (int)(years(k) + yy) == y + k, "adding years"); { year t(y); t += year(k); ENS((int)t == y + k, "+= years"); } { year t(y); t -= year(k); if(y - k >= -32767 && y - k <= 32767) ENS((int)t == y - k, "-= years"); }
    REACH("done");
}
//@ entry vh_std
ENTRY(vh_std)
{
    int64_t c = any<int64_t>(); REQ(c > -((int64_t)1 << 52) && c < ((int64_t)1 << 52)); REACH("entry");
    ENS(milliseconds(std::chrono::seconds(c)).count() == c * 1000 && milliseconds(std::chrono::milliseconds(c)).count() == c, "conversion from std::chrono is exact"); std::chrono::milliseconds s = milliseconds(c); ENS(s.count() == c, "conversion to std::chrono is exact");
    std::chrono::duration<int64_t, std::ratio<60>> t(c / 256); ENS(seconds(t).count() == c / 256 * 60, "conversion from std::chrono is exact"); REACH("done");
}
