// C28: hashes are FNV-1a of the bytes, whatever holds them; numeric limits, text lengths and ratios are exact.
#include <assert.h>
#include <limits.h>
#include <float.h>
#include "vh.h"
#include <limits>
#include <estd/limits.h>
#include <estd/ratio.h>
#include <estd/functional.h>
#include <estd/string.h>
#include <estd/string_view.h>
#include <estd/internal/string/hash.h>
using namespace vh;
static uint32_t g_h; static uint64_t g_h64; static uint32_t g_n, g_at; static uint32_t g_ok;
SPEC uint32_t step32a(uint32_t h, uint8_t c) { return (h ^ c) * 16777619u; }
SPEC uint32_t step32(uint32_t h, uint8_t c) { return (h * 16777619u) ^ c; }
SPEC uint64_t step64a(uint64_t h, uint8_t c) { h ^= c; return h + ((h << 1) + (h << 4) + (h << 5) + (h << 7) + (h << 8) + (h << 40)); }
SPEC uint64_t step64(uint64_t h, uint8_t c) { h += (h << 1) + (h << 4) + (h << 5) + (h << 7) + (h << 8) + (h << 40); return h ^ c; }
// a sequence of any length: reading its next byte moves the ghost hash on
template <class Ch, int MODE> struct It
{
    uint32_t at;
    Ch operator*() const { uint8_t c = u8(); if(at != g_at) g_ok = 0; g_at++; if(MODE == 0) g_h = step32a(g_h, c); else if(MODE == 1) g_h = step32(g_h, c); else if(MODE == 2) g_h64 = step64a(g_h64, c); else g_h64 = step64(g_h64, c); return (Ch)c; }
    It& operator++() { at++; return *this; }
    bool operator!=(const It& o) const { return at != o.at; }
    bool operator==(const It& o) const { return at == o.at; }
};
#ifdef VH_PROOF
SPEC uint32_t count() { return u32(); }
#else
SPEC uint32_t count() { return u32() & 255; }
#endif
INV(h32)(uint32_t h) { return h == g_h; }
INV(h64)(uint64_t h) { return h == g_h64; }
INV(at)(uint32_t a) { return a == g_at && a <= g_n; }
INV(ok)() { return g_ok == 1 && g_at <= g_n; }
using estd::internal::fnv_hash; using estd::internal::FNV_1; using estd::internal::FNV_1A;
#if VK == 1
//@ entry vh_fnv32a kind=proof solver=z3 defs=VK=1
ENTRY(vh_fnv32a) { g_n = count(); g_at = 0; g_ok = 1; g_h = 2166136261u; REACH("entry"); typedef It<char, 0> I; uint32_t h = fnv_hash<uint32_t>::hash(I{0}, I{g_n}); ENS(h == g_h && g_ok == 1 && g_at == g_n, "32 bit FNV-1a of every byte in order"); REACH("done"); }
//@ entry vh_fnv32 kind=proof solver=z3 defs=VK=1
ENTRY(vh_fnv32) { g_n = count(); g_at = 0; g_ok = 1; g_h = u32(); REACH("entry"); typedef It<unsigned char, 1> I; uint32_t h = fnv_hash<uint32_t, FNV_1>::hash(I{0}, I{g_n}, g_h); ENS(h == g_h && g_ok == 1 && g_at == g_n, "32 bit FNV-1 of every byte in order"); REACH("done"); }
//@ entry vh_fnv64a kind=proof solver=z3 defs=VK=1
ENTRY(vh_fnv64a) { g_n = count(); g_at = 0; g_ok = 1; g_h64 = 0xcbf29ce484222325ull; REACH("entry"); typedef It<signed char, 2> I; uint64_t h = fnv_hash<uint64_t>::hash(I{0}, I{g_n}); ENS(h == g_h64 && g_ok == 1 && g_at == g_n, "64 bit FNV-1a of every byte in order"); REACH("done"); }
//@ entry vh_fnv64 kind=proof solver=z3 defs=VK=1
ENTRY(vh_fnv64) { g_n = count(); g_at = 0; g_ok = 1; g_h64 = u64(); REACH("entry"); typedef It<char, 3> I; uint64_t h = fnv_hash<uint64_t, FNV_1>::hash(I{0}, I{g_n}, g_h64); ENS(h == g_h64 && g_ok == 1 && g_at == g_n, "64 bit FNV-1 of every byte in order"); REACH("done"); }
//@ entry vh_fnv_prime kind=proof defs=VK=1
ENTRY(vh_fnv_prime) { REACH("entry"); ENS(step64a(1, 0) == 0x100000001b3ull && step64(1, 0) == 0x100000001b3ull, "the sum of shifts, linear in the hash, is the multiplication with the FNV prime"); REACH("done"); }
//@ entry vh_int_hash kind=proof defs=VK=1
ENTRY(vh_int_hash) { int32_t a = i32(); uint8_t b = u8(); int64_t c = i64(); uint16_t d = (uint16_t)i16(); REACH("entry"); ENS(estd::hash<int32_t>{}(a) == (size_t)a && estd::hash<uint8_t>{}(b) == b && estd::hash<int64_t>{}(c) == (size_t)c && estd::hash<uint16_t>{}(d) == d && estd::hash<bool>{}(b != 0) == (b != 0 ? 1u : 0u) && estd::hash<char>{}((char)b) == (size_t)(char)b, "integers hash to themselves"); REACH("done"); }
#elif VK == 2
// every kind of text
#if VH == 1
typedef estd::string_view S;
#elif VH == 2
typedef estd::layer1::string<10> S;
#elif VH == 3
typedef estd::layer1::string<10, false> S;
#else
typedef estd::layer2::const_string S;
#endif
//@ entry vh_text_hash kind=full unwind=9 solver=cadical defs=VK=2,VH=1
//@ entry vh_text_hash kind=full unwind=9 solver=cadical defs=VK=2,VH=2
//@ entry vh_text_hash kind=full unwind=9 solver=cadical defs=VK=2,VH=3
//@ entry vh_text_hash kind=full unwind=9 solver=cadical defs=VK=2,VH=4
ENTRY(vh_text_hash)
{
    char t[8]; unsigned n = upto(0, 2); for(unsigned p = 0; p < 8; p++) { UNROLL; t[p] = (char)u8(); if(p < n) REQ(t[p] != 0); } t[n] = 0; uint32_t h = 2166136261u; for(unsigned p = 0; p < 2; p++) { UNROLL; if(p < n) h = step32a(h, (uint8_t)t[p]); } REACH("entry");
#if VH == 1
    S s(t, (int16_t)n);
#elif VH == 4
    S s(t);
#else
    S s; s += (const char*)t;
#endif
#if VH != 1
    ENS(estd::hash<const S>{}(s) == h, "const text hashes alike");
#endif
    ENS(estd::hash<S>{}(s) == h, "text hashes to the FNV-1a of its characters"); REACH("done");
}
#elif VK == 3
template <class T, class S> static bool lim() { typedef estd::numeric_limits<T> E; typedef std::numeric_limits<S> D; return E::min() == D::min() && E::max() == D::max() && (int)E::digits == D::digits && (int)E::digits10 == D::digits10; }
template <class T> static bool lim2() { typedef estd::numeric_limits<T> E; typedef std::numeric_limits<T> D; return lim<T, T>() && E::is_signed == D::is_signed && E::is_integer == D::is_integer && (int)E::radix == D::radix && E::is_specialized && E::bits == 8 * sizeof(T); }
//@ entry vh_limits kind=proof defs=VK=3
ENTRY(vh_limits) { REACH("entry"); ENS(lim2<signed char>() && lim2<unsigned char>() && lim2<short>() && lim2<unsigned short>() && lim2<int>() && lim2<unsigned>() && lim2<long>() && lim2<unsigned long>() && lim2<long long>() && lim2<unsigned long long>(), "limits of the integers"); ENS((lim<bool, bool>()), "limits of bool"); ENS(lim2<float>() && lim2<double>() && estd::numeric_limits<float>::lowest() == std::numeric_limits<float>::lowest() && estd::numeric_limits<double>::lowest() == std::numeric_limits<double>::lowest(), "limits of floating point"); REACH("done"); }
// no text of a value is longer than announced
template <class T, unsigned B> static void len() { T v = any<T>(); unsigned n = 1; typename std::conditional<(sizeof(T) > 4), unsigned long long, unsigned>::type u = v < 0 ? 0u - (decltype(u))v : (decltype(u))v; if(v < 0) n++; for(unsigned i = 0; i < 64; i++) { UNROLL; if(u >= B) { u /= B; n++; } } ENS((n <= estd::numeric_limits<T>::template length<B>::value), "length is enough for every value"); }
//@ entry vh_lengths kind=full unwind=66 defs=VK=3
ENTRY(vh_lengths) { REACH("entry"); len<int8_t, 10>(); len<uint8_t, 10>(); len<int16_t, 10>(); len<uint16_t, 10>(); len<int32_t, 16>(); len<uint32_t, 16>(); len<int16_t, 8>(); len<uint32_t, 8>(); len<uint8_t, 16>(); REACH("done"); }
template <class R, intmax_t n, intmax_t d> static constexpr bool is() { return R::num == n && R::den == d; }
template <intmax_t a, intmax_t b, intmax_t c, intmax_t d> static constexpr bool ops() { typedef estd::ratio<a, b> X; typedef estd::ratio<c, d> Y; typedef estd::ratio_multiply<X, Y> M; typedef estd::ratio_divide<X, Y> D; typedef estd::ratio_add<X, Y> A; typedef std::ratio<a, b> SX; typedef std::ratio<c, d> SY; return M::num == std::ratio_multiply<SX, SY>::num && M::den == std::ratio_multiply<SX, SY>::den && D::num == std::ratio_divide<SX, SY>::num && D::den == std::ratio_divide<SX, SY>::den && A::num == std::ratio_add<SX, SY>::num && A::den == std::ratio_add<SX, SY>::den && X::type::num == SX::num && X::type::den == SX::den; }
//@ entry vh_ratio kind=proof defs=VK=3
ENTRY(vh_ratio) { REACH("entry"); ENS((ops<1, 3, 1, 6>()) && (ops<2, 3, 1, 6>()) && (ops<25, 100, 2, 1>()) && (ops<3, 1000, 1000000, 7>()) && (ops<1, 1000000000, 60, 1>()) && (ops<1, 4, 1, 4>()) && (ops<86400, 1, 1, 1000>()) && (ops<12, 18, 5, 15>()), "ratio arithmetic is exact and reduced"); ENS((is<estd::milli, 1, 1000>()) && (is<estd::micro, 1, 1000000>()) && (is<estd::nano, 1, 1000000000>()) && (is<estd::pico, 1, 1000000000000>()) && (is<estd::centi, 1, 100>()) && (is<estd::deci, 1, 10>()) && (is<estd::deca, 10, 1>()) && (is<estd::kilo, 1000, 1>()) && (is<estd::mega, 1000000, 1>()) && (is<estd::giga, 1000000000, 1>()) && (is<estd::tera, 1000000000000, 1>()), "SI prefixes"); REACH("done"); }
#endif
