/* Runtime of the contract layer on the CBMC side (included by every file irc generates).
 * Nothing here models code of /repo: these are the specification primitives (assume/assert,
 * arbitrary values, fresh objects, declared write sets) and the memory intrinsics of LLVM. */
#ifndef VH_RT_H
#define VH_RT_H
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

typedef char* P;
typedef unsigned __int128 u128;
typedef __int128 s128;

uint8_t nondet_uint8_t(void); uint16_t nondet_uint16_t(void); uint32_t nondet_uint32_t(void); uint64_t nondet_uint64_t(void);
int64_t nondet_int64_t(void); u128 nondet_u128(void);
P nondet_P(void); float nondet_float(void); double nondet_double(void); long double nondet_ldouble(void);

/* arbitrary values: recorded so that a counterexample can be replayed */
static uint8_t  __vh_nd8(void)  { uint8_t nd = nondet_uint8_t();   __CPROVER_input("nd", nd); return nd; }
static uint16_t __vh_nd16(void) { uint16_t nd = nondet_uint16_t(); __CPROVER_input("nd", nd); return nd; }
static uint32_t __vh_nd32(void) { uint32_t nd = nondet_uint32_t(); __CPROVER_input("nd", nd); return nd; }
static uint64_t __vh_nd64(void) { uint64_t nd = nondet_uint64_t(); __CPROVER_input("nd", nd); return nd; }

/* program events that leave the normal path: 1 = C++ throw, 2 = abort()/failed assert() */
static uint32_t __vh_allowed;
static void __vh_allow(uint32_t mask) { __vh_allowed = mask; }
#define __vh_event_1() __CPROVER_assert((__vh_allowed >> 1) & 1u, "event|exception thrown where the contract allows none")
#define __vh_event_2() __CPROVER_assert((__vh_allowed >> 2) & 1u, "event|abort or failed assertion where the contract allows none")
#define __vh_event(k) __vh_event_##k()

/* fresh object of n bytes with arbitrary contents, and the declared write set of the entry */
#define VH_MAXR 4
static P __vh_rb[VH_MAXR]; static uint64_t __vh_rn[VH_MAXR]; static uint32_t __vh_rc;

static P __vh_fresh(uint64_t n) { P p = malloc(n); __CPROVER_assume(p != 0); return p; }
static void __vh_writable(P p, uint64_t n) { __vh_rb[__vh_rc] = p; __vh_rn[__vh_rc] = n; __vh_rc++; }

/* a write set is always given as whole objects */
#define VH_H(i) if(__vh_rc > i) __CPROVER_havoc_object(__vh_rb[i]);
static void __vh_havoc_regions(void) { VH_H(0) VH_H(1) VH_H(2) VH_H(3) }
#define VH_I(i) if(__vh_rc > i && __CPROVER_same_object(p, __vh_rb[i])) { int64_t d = p - __vh_rb[i]; if(d >= 0 && (uint64_t)d + n <= __vh_rn[i]) return 1; }
static _Bool __vh_in_regions(P p, uint64_t n) { if(n == 0) return 1; VH_I(0) VH_I(1) VH_I(2) VH_I(3) return 0; }

#ifndef VH_OFFMAX
#define VH_OFFMAX (1ll << 40)
#endif
static int64_t __vh_off(void) { int64_t k = nondet_int64_t(); __CPROVER_assume(k >= -VH_OFFMAX && k <= VH_OFFMAX); return k; }

static _Bool __vh_same(P a, P b) { return __CPROVER_same_object(a, b); }
static int64_t __vh_diff(P a, P b) { return __CPROVER_POINTER_OFFSET(a) - __CPROVER_POINTER_OFFSET(b); }

/* order of two pointers: by offset within one object (total, also one past or before the object);
 * pointers into different objects compare in an unspecified but fixed order */
static int64_t __vh_pcmp(P a, P b)
{
    if(__CPROVER_POINTER_OBJECT(a) == __CPROVER_POINTER_OBJECT(b))
        return (int64_t)__CPROVER_POINTER_OFFSET(a) - (int64_t)__CPROVER_POINTER_OFFSET(b);
    return __CPROVER_POINTER_OBJECT(a) < __CPROVER_POINTER_OBJECT(b) ? -1 : 1;
}

static uint32_t __vh_clz(uint64_t v, int bits) { uint32_t r = 0; for(int i = 0; i < 64; i++) { int b = bits - 1 - i; if(b < 0 || (v >> b) & 1) break; r++; } return r; }
static uint32_t __vh_ctz(uint64_t v, int bits) { uint32_t r = 0; for(int i = 0; i < bits; i++) { if((v >> i) & 1) break; r++; } return r; }

#ifdef VH_PROOF
/* LLVM memcpy/memmove/memset for lengths that are not compile-time constants, by their own
 * definition, on objects of symbolic size */
static void __vh_memcpy(P d, P s, uint64_t n)
{
    if(n == 0) return;
    __CPROVER_assert(__CPROVER_r_ok(s, n), "ub|memcpy source|memcpy");
    __CPROVER_assert(__CPROVER_w_ok(d, n), "ub|memcpy destination|memcpy");
    __CPROVER_assert(!__CPROVER_same_object(d, s) || d + n <= s || s + n <= d || d == s, "ub|memcpy overlap|memcpy");
    char tmp[n];
    __CPROVER_array_copy(tmp, (char*)s);
    __CPROVER_array_replace((char*)d, tmp);
}
static void __vh_memmove(P d, P s, uint64_t n)
{
    if(n == 0) return;
    __CPROVER_assert(__CPROVER_r_ok(s, n), "ub|memmove source|memmove");
    __CPROVER_assert(__CPROVER_w_ok(d, n), "ub|memmove destination|memmove");
    char tmp[n];
    __CPROVER_array_replace(tmp, (char*)s);
    __CPROVER_array_replace((char*)d, tmp);
}
static void __vh_memset(P d, uint8_t v, uint64_t n)
{
    if(n == 0) return;
    __CPROVER_assert(__CPROVER_w_ok(d, n), "ub|memset destination|memset");
    char tmp[n];
    __CPROVER_array_set(tmp, v);
    __CPROVER_array_replace((char*)d, tmp);
}
#else
static void __vh_memcpy(P d, P s, uint64_t n)
{
    if(n == 0) return;
    __CPROVER_assert(__CPROVER_r_ok(s, n), "ub|memcpy source|memcpy");
    __CPROVER_assert(__CPROVER_w_ok(d, n), "ub|memcpy destination|memcpy");
    __CPROVER_assert(!__CPROVER_same_object(d, s) || d + n <= s || s + n <= d || d == s, "ub|memcpy overlap|memcpy");
    __CPROVER_assume(n <= __CPROVER_OBJECT_SIZE(d));
    for(uint64_t i = 0; i < n; i++) d[i] = s[i];
}
static void __vh_memmove(P d, P s, uint64_t n)
{
    if(n == 0) return;
    __CPROVER_assert(__CPROVER_r_ok(s, n), "ub|memmove source|memmove");
    __CPROVER_assert(__CPROVER_w_ok(d, n), "ub|memmove destination|memmove");
    __CPROVER_assume(n <= __CPROVER_OBJECT_SIZE(d));
    if(__CPROVER_POINTER_OBJECT(d) != __CPROVER_POINTER_OBJECT(s) || d <= s)
        for(uint64_t i = 0; i < n; i++) d[i] = s[i];
    else
        for(uint64_t i = n; i > 0; i--) d[i - 1] = s[i - 1];
}
static void __vh_memset(P d, uint8_t v, uint64_t n)
{
    if(n == 0) return;
    __CPROVER_assert(__CPROVER_w_ok(d, n), "ub|memset destination|memset");
    __CPROVER_assume(n <= __CPROVER_OBJECT_SIZE(d));
    for(uint64_t i = 0; i < n; i++) d[i] = v;
}
#endif
/* C library functions the code calls, by definition over the bytes they read; memcmp in proof mode
 * by its contract: zero exactly if all bytes agree (instantiated at the ghost index of the entry and
 * at declared equal ranges), otherwise the sign of the first difference */
#ifdef VH_PROOF
static P __vh_eqa, __vh_eqb; static uint64_t __vh_eqn, __vh_gidx;
static void __vh_declare_equal(P a, P b, uint64_t n) { __vh_eqa = a; __vh_eqb = b; __vh_eqn = n; }
static void __vh_ghost_index(uint64_t g) { __vh_gidx = g; }
static uint32_t vhl_memcmp(P a, P b, uint64_t n)
{
    if(n == 0) return 0;
    __CPROVER_assert(__CPROVER_r_ok(a, n), "ub|memcmp first|memcmp");
    __CPROVER_assert(__CPROVER_r_ok(b, n), "ub|memcmp second|memcmp");
    uint32_t r = nondet_uint32_t();
    if(r == 0) { if(__vh_gidx < n) __CPROVER_assume(a[__vh_gidx] == b[__vh_gidx]); return 0; }
    uint64_t d = nondet_uint64_t();
    __CPROVER_assume(d < n && a[d] != b[d] && ((int32_t)r < 0) == ((uint8_t)a[d] < (uint8_t)b[d]));
    if(__vh_gidx < d) __CPROVER_assume(a[__vh_gidx] == b[__vh_gidx]);
    if(__vh_eqn == n) __CPROVER_assume(!((a == __vh_eqa && b == __vh_eqb) || (a == __vh_eqb && b == __vh_eqa)));
    return r;
}
#else
static void __vh_declare_equal(P a, P b, uint64_t n) { for(uint64_t i = 0; i < n; i++) __CPROVER_assume(a[i] == b[i]); }
static void __vh_ghost_index(uint64_t g) { }
static uint32_t vhl_memcmp(P a, P b, uint64_t n)
{
    for(uint64_t i = 0; i < n; i++)
    {
        uint8_t x = a[i], y = b[i];
        if(x != y) return x < y ? (uint32_t)-1 : 1u;
    }
    return 0;
}
#endif
static uint32_t vhl_bcmp(P a, P b, uint64_t n) { return vhl_memcmp(a, b, n); }
static uint64_t vhl_strlen(P s) { uint64_t i = 0; while(s[i]) i++; return i; }
static uint32_t vhl_strcmp(P a, P b)
{
    for(uint64_t i = 0;; i++)
    {
        uint8_t x = a[i], y = b[i];
        if(x != y) return x < y ? (uint32_t)-1 : 1u;
        if(!x) return 0;
    }
}
static uint32_t vhl_strncmp(P a, P b, uint64_t n)
{
    for(uint64_t i = 0; i < n; i++)
    {
        uint8_t x = a[i], y = b[i];
        if(x != y) return x < y ? (uint32_t)-1 : 1u;
        if(!x) return 0;
    }
    return 0;
}
static P vhl_memcpy(P d, P s, uint64_t n) { __vh_memcpy(d, s, n); return d; }
static P vhl_memmove(P d, P s, uint64_t n) { __vh_memmove(d, s, n); return d; }
static P vhl_memset(P d, uint32_t v, uint64_t n) { __vh_memset(d, (uint8_t)v, n); return d; }
static P vhl_malloc(uint64_t n) { P p = malloc(n); __CPROVER_assume(p != 0); return p; }
static void vhl_free(P p) { free(p); }
static P vhl_realloc(P p, uint64_t n) { return realloc(p, n); }
static P vhl__Znwm(uint64_t n) { P p = malloc(n); __CPROVER_assume(p != 0); return p; }
static P vhl__Znam(uint64_t n) { P p = malloc(n); __CPROVER_assume(p != 0); return p; }
static void vhl__ZdlPv(P p) { free(p); }
static void vhl__ZdaPv(P p) { free(p); }
static void vhl__ZdlPvm(P p, uint64_t n) { free(p); }
static uint32_t vhl_isspace(uint32_t c) { return c == ' ' || (c >= 9 && c <= 13); }
static uint32_t vhl_isdigit(uint32_t c) { return c >= '0' && c <= '9'; }
static uint32_t vhl_isupper(uint32_t c) { return c >= 'A' && c <= 'Z'; }
static uint32_t vhl_islower(uint32_t c) { return c >= 'a' && c <= 'z'; }
static uint32_t vhl_isalpha(uint32_t c) { return vhl_isupper(c) || vhl_islower(c); }
static uint32_t vhl_isalnum(uint32_t c) { return vhl_isalpha(c) || vhl_isdigit(c); }
static uint32_t vhl_toupper(uint32_t c) { return vhl_islower(c) ? c - 32 : c; }
static uint32_t vhl_tolower(uint32_t c) { return vhl_isupper(c) ? c + 32 : c; }
#endif
