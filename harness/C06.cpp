// C06: to_string yields the canonical decimal text of any value; stol, stoul and stoi hand over text, base and position.
#include <assert.h>
#include "vh.h"
#include <limits>
#include <stdlib.h>
#include <string>
#include <memory>
#include <ostream>
#include <chrono>
static const char* g_arg; static int32_t g_base; static int64_t g_res; static unsigned g_calls, g_used; static int g_fn;
long vh_strtol_(const char* s, char** e, int b) { g_arg = s; g_base = b; g_calls++; g_fn = 1; *e = const_cast<char*>(s) + g_used; return g_res; }
unsigned long vh_strtoul_(const char* s, char** e, int b) { g_arg = s; g_base = b; g_calls++; g_fn = 2; *e = const_cast<char*>(s) + g_used; return (unsigned long)g_res; }
#define strtol vh_strtol_
#define strtoul vh_strtoul_
#include <estd/string.h>
#include <estd/internal/to_string.h>
using namespace vh;
template <class T> static const T& asc(const T& x) { return x; }
#ifndef VT
#define VT int16_t
#define VLEN 7
#endif
typedef VT T;
SPEC uint64_t magnitude(T v) { return v < 0 ? 0 - (uint64_t)v : (uint64_t)v; }
template <class A> static VH_NOSAN bool canonical(const A& t, unsigned n, T v)
{
    unsigned i0 = v < 0 ? 1 : 0; if(n <= i0 || n > VLEN) return false; if(v < 0 && t[0] != '-') return false; if(n > i0 + 1 && t[i0] == '0') return false;
    uint64_t acc = 0; bool good = true; for(unsigned i = 0; i < VLEN; i++) { UNROLL; if(i < i0 || i >= n) continue; int d = t[i] - '0'; if(d < 0 || d > 9) good = false; acc = acc * 10 + (uint64_t)(unsigned)d; } return good && acc == magnitude(v);
}
#if VK == 1
//@ entry vh_to_string kind=full unwind=24 defs=VK=1,VT=int8_t,VLEN=5
//@ entry vh_to_string kind=full unwind=24 defs=VK=1,VT=uint8_t,VLEN=4
//@ entry vh_to_string kind=full unwind=24 defs=VK=1,VT=int16_t,VLEN=7
//@ entry vh_to_string kind=full unwind=24 defs=VK=1,VT=uint16_t,VLEN=6
//@ entry vh_to_string kind=full unwind=24 defs=VK=1,VT=int32_t,VLEN=12 tier=thorough
//@ entry vh_to_string kind=bounded unwind=24 defs=VK=1,VT=int32_t,VLEN=12,VNEAR=1
//@ entry vh_to_string kind=bounded unwind=24 defs=VK=1,VT=uint32_t,VLEN=11,VNEAR=1
//@ entry vh_to_string kind=bounded unwind=24 defs=VK=1,VT=int64_t,VLEN=21,VNEAR=1
//@ entry vh_to_string kind=bounded unwind=24 defs=VK=1,VT=uint64_t,VLEN=21,VNEAR=1
ENTRY(vh_to_string)
{
#ifdef VNEAR
    uint8_t w = u8(); REQ(w < 32); T v = flag() ? (T)(std::numeric_limits<T>::max() - w) : (T)(std::numeric_limits<T>::min() + w);   // bounded: the 32 values at each end
#else
    T v = any<T>();
#endif
    REACH("entry"); auto s = estd::to_string(v); unsigned n = (unsigned)s.size(); ENS(n <= VLEN, "to_string: no longer than the longest text"); if(n > VLEN) return;
    char t[VLEN]; { auto i = s.begin(); for(unsigned p = 0; p < VLEN; p++) { UNROLL; t[p] = 0; if(p < n) { t[p] = *i; ++i; } } ENS(i == s.end(), "to_string: iteration goes over the text"); }
    ENS(canonical(t, n, v), "to_string: the text is the canonical text of the value");
    auto c(asc(s)); auto j = asc(c).begin(); bool same = (unsigned)c.size() == n; for(unsigned p = 0; p < VLEN; p++) { UNROLL; if(p < n) { same = same && (char)c[p] == t[p] && *j == t[p]; ++j; } } ENS(same, "to_string: a copy reads the same"); REACH("done");
}
//@ entry vh_to_string_into kind=full unwind=24 defs=VK=1,VT=int8_t,VLEN=5
//@ entry vh_to_string_into kind=full unwind=24 defs=VK=1,VT=int16_t,VLEN=7
//@ entry vh_to_string_into kind=full unwind=24 defs=VK=1,VT=uint16_t,VLEN=6
ENTRY(vh_to_string_into)
{
    T v = any<T>(); struct { unsigned char pre; estd::layer1::string<VLEN + 1> s; unsigned char post; } b; b.pre = 1; b.post = 2; b.s += "xy"; REACH("entry"); estd::to_string(b.s, v); unsigned n = (unsigned)b.s.size(); ENS(n <= VLEN && b.pre == 1 && b.post == 2, "to_string: no longer than the longest text"); if(n > VLEN) return;
    char t[VLEN]; for(unsigned p = 0; p < VLEN; p++) { UNROLL; t[p] = 0; if(p < n) t[p] = b.s[p]; } ENS(canonical(t, n, v) && b.s.data()[n] == 0, "to_string: the text is the canonical text of the value"); REACH("done");
}
//@ entry vh_to_string_opt kind=full unwind=24 defs=VK=1,VT=int8_t,VLEN=5
//@ entry vh_to_string_opt kind=full unwind=24 defs=VK=1,VT=int16_t,VLEN=7
ENTRY(vh_to_string_opt)
{
    T v = any<T>(); char b[VLEN + 1]; for(unsigned p = 0; p < VLEN + 1; p++) { UNROLL; b[p] = 'x'; } bool fixed = flag(); REACH("entry"); auto r = fixed ? estd::to_string_opt<10>(b, v) : estd::to_string_opt(b, v, 10); ENS(r.ec == 0 && r.ptr >= b && r.ptr < b + VLEN, "to_string_opt: reports where the text starts"); if(!(r.ptr >= b && r.ptr < b + VLEN)) return;
    unsigned o = (unsigned)(r.ptr - b), n = VLEN - o; char t[VLEN]; for(unsigned p = 0; p < VLEN; p++) { UNROLL; t[p] = p < n ? b[o + p] : 0; } ENS(canonical(t, n, v) && b[VLEN] == 0, "to_string_opt: the text ends with the buffer"); REACH("done");
}
#else
//@ entry vh_sto kind=full unwind=12 defs=VK=2
ENTRY(vh_sto)
{
    char t[8]; for(unsigned p = 0; p < 7; p++) { UNROLL; t[p] = (char)u8(); } t[7] = 0; estd::layer1::string<10> s; s += (const char*)t; estd::layer2::const_string l(t); int base = i32(); g_res = i64(); g_used = upto(0, 7); g_calls = 0; size_t pos = 99; REACH("entry");
    unsigned op = small(0, 5); bool big = flag(); const char* d = op < 3 ? asc(s).data() : t; int64_t r = 0; size_t* pp = big ? nullptr : &pos;
    if(op == 0) r = estd::stol(s, pp, base); else if(op == 1) r = (int64_t)estd::stoul(s, pp, base); else if(op == 2) r = estd::stoi(s, pp, base); else if(op == 3) r = estd::stol(l, pp, base); else if(op == 4) r = (int64_t)estd::stoul(l, pp, base); else { REQ(g_res == (int)g_res); r = estd::stoi(l, pp, base); }
    if(op == 2) ENS(r == (int)g_res, "the value converted is returned"); else ENS(r == g_res, "the value converted is returned"); ENS(g_calls == 1 && g_fn == (op % 3 == 1 ? 2 : 1) && g_base == base && g_arg == d, "the text is converted once in the given base"); ENS(pos == (big ? 99 : g_used), "the position is the number of characters used"); REACH("done");
}
//@ entry vh_sto_default kind=full unwind=12 defs=VK=2
ENTRY(vh_sto_default) { char t[4] = { '1', '2', 0, 0 }; estd::layer2::const_string l(t); g_res = i64(); g_used = 0; REACH("entry"); ENS(estd::stol(l) == g_res && g_base == 10 && estd::stoul(l) == (unsigned long)g_res && g_base == 10 && estd::stoi(l) == (int)g_res && g_base == 10, "the default base is 10"); REACH("done"); }
#endif
