// Contract layer, C++ side. A contract of a function of /repo is an extern "C" function vh_*:
//   REQ(...)      preconditions over arbitrary values
//   <real call>   into /repo's code (the real headers, nothing rewritten)
//   ENS(...)      postconditions
// The same source is compiled by clang for the verifier and by g++ (-DVH_NATIVE) for replay.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <new>

extern "C" {
void __vh_assume(bool);
void __vh_assert(bool, const char* label);
void __vh_reach(const char* label);
void __vh_unroll(void);
void __vh_allow(uint32_t mask);
uint8_t __vh_nd8(void);
uint16_t __vh_nd16(void);
uint32_t __vh_nd32(void);
uint64_t __vh_nd64(void);
void* __vh_fresh(uint64_t n);
void __vh_writable(void* p, uint64_t n);
bool __vh_same(const void*, const void*);
int64_t __vh_diff(const void*, const void*);
void __vh_declare_equal(const void*, const void*, uint64_t n);   // REQ: these bytes agree
void __vh_ghost_index(uint64_t);
}

#define REQ(...) __vh_assume(__VA_ARGS__)
#define ENS(...) __vh_assert(__VA_ARGS__)
#define REACH(label) __vh_reach(label)
#define ENTRY(name) extern "C" void name()
#define UNROLL __vh_unroll()
// specification functions are not code under test: no overflow obligations inside them
#ifdef __clang__
#define VH_NOSAN __attribute__((no_sanitize("undefined")))
#else
#define VH_NOSAN
#endif
#define INV(name) extern "C" VH_NOSAN bool vhinv_##name      // candidate loop invariant
#define SPEC static inline VH_NOSAN

namespace vh {
enum { THROW = 2, ABORT = 4 };
inline uint8_t  u8()  { return __vh_nd8(); }
inline uint16_t u16() { return __vh_nd16(); }
inline uint32_t u32() { return __vh_nd32(); }
inline uint64_t u64() { return __vh_nd64(); }
inline int8_t  i8()  { return (int8_t)__vh_nd8(); }
inline int16_t i16() { return (int16_t)__vh_nd16(); }
inline int32_t i32() { return (int32_t)__vh_nd32(); }
inline int64_t i64() { return (int64_t)__vh_nd64(); }
inline char ch() { return (char)__vh_nd8(); }
inline bool flag() { return (__vh_nd8() & 1) != 0; }
template <class T> struct any_;
template <> struct any_<bool> { static bool get() { return flag(); } };
template <> struct any_<char> { static char get() { return ch(); } };
template <> struct any_<signed char> { static signed char get() { return i8(); } };
template <> struct any_<unsigned char> { static unsigned char get() { return u8(); } };
template <> struct any_<short> { static short get() { return i16(); } };
template <> struct any_<unsigned short> { static unsigned short get() { return u16(); } };
template <> struct any_<int> { static int get() { return i32(); } };
template <> struct any_<unsigned> { static unsigned get() { return u32(); } };
template <> struct any_<long> { static long get() { return (long)u64(); } };
template <> struct any_<unsigned long> { static unsigned long get() { return u64(); } };
template <> struct any_<long long> { static long long get() { return (long long)u64(); } };
template <> struct any_<unsigned long long> { static unsigned long long get() { return u64(); } };
template <class T> inline T any() { return any_<T>::get(); }
// arbitrary value of [lo, hi]
inline size_t upto(size_t lo, size_t hi) { size_t v = (size_t)__vh_nd64(); REQ(v >= lo && v <= hi); return v; }
inline unsigned small(unsigned lo, unsigned hi) { unsigned v = __vh_nd8(); REQ(v >= lo && v <= hi); return v; }
// case analysis: f is verified separately for each value of [lo, hi], which together are every value
template <class F> inline void split(size_t lo, size_t hi, F f) { size_t v = upto(lo, hi); for(size_t k = lo; k <= hi; k++) { UNROLL; if(v == k) f(k); } }
template <class T, size_t N> inline void fill(T (&a)[N]) { for(size_t i = 0; i < N; i++) { UNROLL; a[i] = any<T>(); } }
// arbitrary bytes over an object
inline void havoc(void* p, size_t n) { for(size_t i = 0; i < n; i++) { UNROLL; ((uint8_t*)p)[i] = u8(); } }

// A fresh array of n elements, n arbitrary (proof mode: any size up to MAXN; bounded twin: up to VH_B).
#ifdef VH_BOUNDED
#ifndef VH_B
#define VH_B 4
#endif
constexpr size_t MAXN = VH_B;
#else
#ifndef VH_LOGN
#define VH_LOGN 32
#endif
constexpr size_t MAXN = size_t(1) << VH_LOGN;
#endif
inline size_t len() { return upto(0, MAXN); }
template <class T> inline T* array(size_t n)
{
    T* p = (T*)__vh_fresh(n * sizeof(T));
#ifdef VH_BOUNDED
    for(size_t i = 0; i < n; i++) { UNROLL; p[i] = any<T>(); }
#endif
    return p;
}
}
