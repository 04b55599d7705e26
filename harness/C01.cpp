// C01: sequence queries return exactly the element their definition names.
#include <assert.h>
#include "vh.h"
#include <estd/algorithm.h>
using namespace vh;

typedef uint8_t E;
// ---- ghost state -----------------------------------------------------------------------
static const E* g_a; static size_t g_n;      // first range
static const E* g_b; static size_t g_m;      // second range
static const E* g_tab;                       // arbitrary predicate / arbitrary ranking
static size_t g_k;                           // arbitrary position (universally quantified)
static size_t g_j;                           // arbitrary position of the second range
static size_t g_w;                           // witness recorded by the caller's predicate
static uint8_t g_ws;
static uint8_t g_mask, g_flip;
SPEC E rk(E x) { return (x ^ g_flip) & g_mask; }     // an arbitrary weak order: rk(x) < rk(y)

#ifdef VH_BOUNDED
enum { DOM = 8 };
#else
enum { DOM = 256 };
#endif
static E* table() { return (E*)array<E>(DOM); }
static void dom(const E* a, size_t n)
{
#ifdef VH_BOUNDED
    for(size_t i = 0; i < n; i++) { UNROLL; REQ(a[i] < DOM); }
#endif
}

// ---- candidate invariants ---------------------------------------------------------------
INV(in_a)(const E* p) { return __vh_same(p, g_a) && __vh_diff(p, g_a) >= 0 && __vh_diff(p, g_a) <= (int64_t)g_n; }
INV(in_b)(const E* p) { return __vh_same(p, g_b) && __vh_diff(p, g_b) >= 0 && __vh_diff(p, g_b) <= (int64_t)g_m; }
#ifdef F_FIND
INV(nomatch_before)(const E* p) { return !(__vh_diff(p, g_a) > (int64_t)g_k) || !g_tab[g_a[g_k]]; }
#endif
#ifdef F_MIS
INV(lockstep)(const E* p, const E* q) { return __vh_diff(p, g_a) == __vh_diff(q, g_b); }
INV(eq_before)(const E* p) { return !(__vh_diff(p, g_a) > (int64_t)g_k) || g_a[g_k] == g_b[g_k]; }
#endif
#ifdef F_MIN
INV(le)(const E* p, const E* q) { return __vh_diff(q, g_a) < __vh_diff(p, g_a) && __vh_diff(q, g_a) >= 0; }
INV(min)(const E* p, const E* q) { return !(__vh_diff(p, g_a) > (int64_t)g_k) || !__vh_same(q, g_a) || !(rk(g_a[g_k]) < rk(*q)); }
INV(minfirst)(const E* q) { return !(__vh_diff(q, g_a) > (int64_t)g_k) || !__vh_same(q, g_a) || rk(*q) < rk(g_a[g_k]); }
INV(max)(const E* p, const E* q) { return !(__vh_diff(p, g_a) > (int64_t)g_k) || !__vh_same(q, g_a) || !(rk(*q) < rk(g_a[g_k])); }
INV(maxfirst)(const E* q) { return !(__vh_diff(q, g_a) > (int64_t)g_k) || !__vh_same(q, g_a) || rk(g_a[g_k]) < rk(*q); }
#endif
#ifdef F_FFO
INV(none)(const E* p) { return !(__vh_diff(p, g_a) > (int64_t)g_k) || (g_a[g_k] & g_mask) != (g_b[g_j] & g_mask); }
INV(none_in)(const E* p, const E* q)
{
    return !(__vh_same(p, g_a) && __vh_same(q, g_b) && __vh_diff(p, g_a) == (int64_t)g_k && __vh_diff(q, g_b) > (int64_t)g_j) ||
        (g_a[g_k] & g_mask) != (g_b[g_j] & g_mask);
}
#endif
#ifdef F_SEARCH
SPEC bool rel(E x, E y) { return (x & g_mask) == (y & g_mask); }
INV(fits)(const E* p) { return __vh_diff(p, g_a) <= (int64_t)g_n && __vh_diff(p, g_a) >= 0; }
// every earlier position has a recorded mismatch
INV(refuted)(const E* p)
{
    return !(__vh_diff(p, g_a) > (int64_t)g_k) || (g_ws && g_w < g_m && g_k + g_w < g_n && !rel(g_a[g_k + g_w], g_b[g_w]));
}
INV(align)(const E* p, const E* q, const E* r)
{
    return __vh_same(p, g_a) && __vh_same(q, g_b) && __vh_same(r, g_a) && __vh_diff(p, g_a) - __vh_diff(r, g_a) == __vh_diff(q, g_b) && __vh_diff(r, g_a) >= 0;
}
INV(prefix)(const E* q, const E* r)
{
    return !__vh_same(q, g_b) || !__vh_same(r, g_a) || !(__vh_diff(q, g_b) > (int64_t)g_j) ||
        (__vh_diff(r, g_a) + (int64_t)g_j < (int64_t)g_n && rel(g_a[__vh_diff(r, g_a) + g_j], g_b[g_j]));
}
#endif

static void setup_a() { g_n = len(); REQ(g_n > 0); g_a = array<E>(g_n); dom(g_a, g_n); g_k = upto(0, g_n - 1); }
static void setup_b(size_t lo) { g_m = len(); REQ(g_m >= lo); g_b = array<E>(g_m + 1); dom(g_b, g_m); }

// ---- contracts --------------------------------------------------------------------------
//@ entry vh_find_if kind=proof defs=F_FIND twin=12
ENTRY(vh_find_if)
{
    setup_a(); g_tab = table();
    const E *a = g_a, *last = a + g_n, *tab = g_tab;
    const E* r = estd::find_if(a, last, [tab](E v) { return tab[v] != 0; });
    REACH("returns");
    ENS(__vh_same(r, a) && r >= a && r <= last, "find_if: result within [first, last]");
    if(r != last) ENS(tab[*r] != 0, "find_if: the element found satisfies the predicate");
    if(__vh_diff(r, a) > (int64_t)g_k) ENS(!tab[a[g_k]], "find_if: no earlier element satisfies the predicate");
}
//@ entry vh_mismatch kind=proof defs=F_MIS
ENTRY(vh_mismatch)
{
    setup_a(); g_m = g_n; g_b = array<E>(g_m); dom(g_b, g_m);
    const E *a = g_a, *b = g_b;
    estd::pair<const E*, const E*> r = estd::mismatch(a, a + g_n, b);
    REACH("returns");
    ENS(__vh_same(r.first, a) && r.first >= a && r.first <= a + g_n, "mismatch: first within range");
    ENS(__vh_same(r.second, b) && r.second - b == r.first - a, "mismatch: both results at the same offset");
    if(r.first != a + g_n) ENS(*r.first != *r.second, "mismatch: elements at the result differ");
    if(__vh_diff(r.first, a) > (int64_t)g_k) ENS(a[g_k] == b[g_k], "mismatch: all earlier elements agree");
}
struct EQ { E v; bool operator==(const EQ& o) const { bool r = v == o.v; if(!r) { g_w = (size_t)((const E*)this - g_a); g_ws = true; } return r; } };
//@ entry vh_equal kind=proof defs=F_MIS
ENTRY(vh_equal)
{
    setup_a(); g_m = g_n; g_b = array<E>(g_m); dom(g_b, g_m);
    const EQ *a = (const EQ*)g_a, *b = (const EQ*)g_b;
    bool r = estd::equal(a, a + g_n, b);
    REACH("returns");
    if(r) { ENS(g_a[g_k] == g_b[g_k], "equal: true only if every position agrees"); }
    else ENS(g_ws && g_w < g_n && g_a[g_w] != g_b[g_w], "equal: false only if some position differs");
}
//@ entry vh_equal_empty
ENTRY(vh_equal_empty)
{
    E x = u8(), y = u8();
    REACH("pre");
    ENS(estd::equal(&x, &x, &y), "equal: empty ranges are equal");
    ENS(estd::find_if(&x, &x, [](E) { return true; }) == &x, "find_if: empty range gives last");
    ENS(estd::mismatch(&x, &x, &y).first == &x, "mismatch: empty range gives last");
    ENS(estd::min_element(&x, &x, [](E a, E b) { return a < b; }) == &x, "min_element: empty range gives last");
    ENS(estd::max_element(&x, &x, [](E a, E b) { return a < b; }) == &x, "max_element: empty range gives last");
    ENS(estd::find_first_of(&x, &x, &y, &y + 1) == &x, "find_first_of: empty range gives last");
    ENS(estd::find_first_of(&x, &x + 1, &y, &y) == &x + 1, "find_first_of: empty set gives last");
    ENS(estd::search(&x, &x, &y, &y + 1, [](E a, E b) { return a == b; }) == &x, "search: needle in empty range gives last");
    ENS(estd::search(&x, &x + 1, &y, &y, [](E a, E b) { return a == b; }) == &x, "search: empty needle gives first");
    ENS(estd::search(&x, &x, &y, &y, [](E a, E b) { return a == b; }) == &x, "search: empty needle in empty range");
}
//@ entry vh_min_element kind=proof defs=F_MIN twin=12
ENTRY(vh_min_element)
{
    setup_a(); g_mask = u8(); g_flip = u8();
    const E *a = g_a; const E mk = g_mask, fl = g_flip;
    const E* r = estd::min_element(a, a + g_n, [mk, fl](E x, E y) { return ((x ^ fl) & mk) < ((y ^ fl) & mk); });
    REACH("returns");
    ENS(__vh_same(r, a) && r >= a && r < a + g_n, "min_element: result is an element");
    ENS(!(rk(a[g_k]) < rk(*r)), "min_element: no element is smaller");
    if(__vh_diff(r, a) > (int64_t)g_k) ENS(rk(*r) < rk(a[g_k]), "min_element: first of the smallest");
}
//@ entry vh_max_element kind=proof defs=F_MIN twin=12
ENTRY(vh_max_element)
{
    setup_a(); g_mask = u8(); g_flip = u8();
    const E *a = g_a; const E mk = g_mask, fl = g_flip;
    const E* r = estd::max_element(a, a + g_n, [mk, fl](E x, E y) { return ((x ^ fl) & mk) < ((y ^ fl) & mk); });
    REACH("returns");
    ENS(__vh_same(r, a) && r >= a && r < a + g_n, "max_element: result is an element");
    ENS(!(rk(*r) < rk(a[g_k])), "max_element: no element is larger");
    if(__vh_diff(r, a) > (int64_t)g_k) ENS(rk(a[g_k]) < rk(*r), "max_element: first of the largest");
}
//@ entry vh_find_first_of kind=proof defs=F_FFO
ENTRY(vh_find_first_of)
{
    setup_a(); setup_b(1); g_j = upto(0, g_m - 1); g_mask = u8();
    const E *a = g_a, *b = g_b; uint8_t m = g_mask; E *hit = 0;
    const E *hx = 0, *hy = 0;
    const E* r = estd::find_first_of(a, a + g_n, b, b + g_m, [m, &hx, &hy](const E& x, const E& y) { bool q = (x & m) == (y & m); if(q) { hx = &x; hy = &y; } return q; });
    REACH("returns");
    ENS(__vh_same(r, a) && r >= a && r <= a + g_n, "find_first_of: result within [first, last]");
    if(r != a + g_n) ENS(hx == r && __vh_same(hy, b) && hy >= b && hy < b + g_m && (*r & m) == (*hy & m), "find_first_of: the element found matches one of the set");
    if(__vh_diff(r, a) > (int64_t)g_k) ENS((a[g_k] & m) != (b[g_j] & m), "find_first_of: no earlier element matches any of the set");
    (void)hit;
}
//@ entry vh_find_first_of_eq kind=proof defs=F_FFO
ENTRY(vh_find_first_of_eq)
{
    setup_a(); setup_b(1); g_j = upto(0, g_m - 1); g_mask = 0xff;
    const E *a = g_a, *b = g_b;
    const E* r = estd::find_first_of(a, a + g_n, b, b + g_m);
    REACH("returns");
    ENS(__vh_same(r, a) && r >= a && r <= a + g_n, "find_first_of(==): result within [first, last]");
    if(__vh_diff(r, a) > (int64_t)g_k) ENS(a[g_k] != b[g_j], "find_first_of(==): no earlier element is in the set");
}
//@ entry vh_search kind=proof defs=F_SEARCH twin=16
ENTRY(vh_search)
{
    setup_a(); setup_b(1); g_j = upto(0, g_m - 1); g_mask = u8(); g_ws = false;
    const E *a = g_a, *b = g_b; uint8_t m = g_mask;
    const E* r = estd::search(a, a + g_n, b, b + g_m, [m](const E& x, const E& y) {
        bool q = (x & m) == (y & m);
        if(!q && (&x - g_a) - (&y - g_b) == (int64_t)g_k) { g_w = (size_t)(&y - g_b); g_ws = true; }
        return q; });
    REACH("returns");
    ENS(__vh_same(r, a) && r >= a && r <= a + g_n, "search: result within [first, last]");
    if(r != a + g_n) ENS((size_t)(r - a) + g_j < g_n && (r[g_j] & m) == (b[g_j] & m), "search: the whole needle matches at the result");
    // no earlier position matches the whole needle
    if((__vh_diff(r, a) > (int64_t)g_k) && g_k + g_m <= g_n)
        ENS(g_ws && g_w < g_m && (a[g_k + g_w] & m) != (b[g_w] & m), "search: every earlier position mismatches somewhere");
}
//@ entry vh_clamp_min_max
ENTRY(vh_clamp_min_max)
{
    int a = i32(), b = i32(), v = i32();
    REACH("pre");
    const int& mn = estd::min(a, b); const int& mx = estd::max(a, b);
    ENS(mn <= a && mn <= b && (&mn == &a || &mn == &b), "min: smaller of the two, by reference");
    ENS(mx >= a && mx >= b && (&mx == &a || &mx == &b), "max: larger of the two, by reference");
    ENS(a == b ? (&mn == &a && &mx == &a) : true, "min/max: first argument when equal");
    const int& mc = estd::min(a, b, [](int x, int y) { return x > y; });
    ENS(mc >= a && mc >= b && (&mc == &a || &mc == &b), "min(comp): first in the given order");
    REQ(a <= b);
    const int& c = estd::clamp(v, a, b);
    ENS(&c == (v < a ? &a : b < v ? &b : &v), "clamp: nearest value of [lo, hi], by reference");
    const int& d = estd::clamp(v, b, a, [](int x, int y) { return x > y; });
    ENS(&d == (v > b ? &b : a > v ? &a : &v), "clamp(comp): nearest value of [lo, hi] in the given order");
    REACH("end");
}
