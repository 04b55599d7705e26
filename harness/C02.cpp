// C02: sequence-moving algorithms: exact contents of the destination, nothing else written.
#include <assert.h>
#include "vh.h"
#include <estd/algorithm.h>
using namespace vh;

#ifndef ET
#define ET uint8_t
#endif
typedef ET E;
static E *g_buf; static size_t g_t;       // one underlying buffer of g_t elements
static const E* g_in; static E* g_out; static size_t g_n;
static size_t g_k; static E g_v;          // arbitrary source position and its old value
static size_t g_j; static E g_u;          // arbitrary position outside the destination and its old value
static E g_val;
SPEC int64_t D(const E* p, const E* q) { return __vh_diff(p, q); }
enum : int64_t { W = sizeof(E) };

#ifdef P_FRAME
INV(frame)() { return !g_buf || g_buf[g_j] == g_u; }
#endif
#if defined(F_FWD)
INV(lock)(const E* p, const E* q) { return __vh_same(p, g_in) && __vh_same(q, g_out) && D(p, g_in) == D(q, g_out) && D(p, g_in) >= 0 && D(p, g_in) <= (int64_t)g_n * W; }
INV(cnt)(const E* p, size_t c) { return __vh_same(p, g_in) && D(p, g_in) == (int64_t)(g_n - c) * W && c <= g_n; }
#ifndef P_FRAME
INV(done)(const E* q) { return D(q, g_out) <= (int64_t)g_k * W || g_out[g_k] == g_v; }
#endif
#ifndef P_FRAME
INV(todo)(const E* q) { return D(q, g_out) > (int64_t)g_k * W || g_in[g_k] == g_v; }
#endif
#elif defined(F_BWD)
INV(lock)(const E* p, const E* q) { return __vh_same(p, g_in) && __vh_same(q, g_out) && D(p, g_in) == D(q, g_out) && D(p, g_in) >= 0 && D(p, g_in) <= (int64_t)g_n * W; }
#ifndef P_FRAME
INV(done)(const E* q) { return D(q, g_out) > (int64_t)g_k * W || g_out[g_k] == g_v; }
#endif
#ifndef P_FRAME
INV(todo)(const E* q) { return D(q, g_out) <= (int64_t)g_k * W || g_in[g_k] == g_v; }
#endif
#elif defined(F_FILL)
INV(in)(const E* q) { return __vh_same(q, g_out) && D(q, g_out) >= 0 && D(q, g_out) <= (int64_t)g_n * W; }
INV(cnt)(const E* q, size_t c) { return __vh_same(q, g_out) && D(q, g_out) == (int64_t)(g_n - c) * W && c <= g_n; }
#ifndef P_FRAME
INV(done)(const E* q) { return D(q, g_out) <= (int64_t)g_k * W || g_out[g_k] == g_val; }
#endif
#elif defined(F_REV)
static E g_v2;
INV(sym)(const E* p, const E* q) { return __vh_same(p, g_out) && __vh_same(q, g_out) && D(p, g_out) >= 0 && D(q, g_out) <= (int64_t)g_n * W && D(p, g_out) + D(q, g_out) == (int64_t)g_n * W && D(p, g_out) <= D(q, g_out); }
#ifndef P_FRAME
INV(el)(const E* p)
{
    int64_t i = D(p, g_out) / W, k = (int64_t)g_k, kk = (int64_t)g_n - 1 - k;
    return (k < i || kk < i) ? (g_out[k] == g_v2 && g_out[kk] == g_v) : (g_out[k] == g_v && g_out[kk] == g_v2);
}
#endif
#endif

// layouts. Value contracts: P_DISJOINT: source and destination are separate objects;
// otherwise source and destination are the two ends of one buffer (any overlap, and any
// non-overlapping layout in that order, is one of these after trimming the unused ends).
// Frame contracts (P_FRAME): one buffer with arbitrary slack on all sides.
static void layout(bool overlap_down, bool overlap_up)
{
    g_t = len(); REQ(g_t > 0);
    g_n = len(); REQ(g_n > 0 && g_n <= g_t);
#if defined(P_DISJOINT)
    g_n = g_t;
    g_buf = array<E>(g_t); g_in = array<E>(g_t); g_out = g_buf;
    __vh_writable(g_buf, g_t * sizeof(E));
#elif defined(P_FRAME)
    // the source is a separate object: what is written depends on the destination only
    g_buf = array<E>(g_t); __vh_writable(g_buf, g_t * sizeof(E));
    size_t o = upto(0, MAXN);
    REQ(o <= g_t - g_n);
    g_in = array<E>(g_n); g_out = g_buf + o;
    g_j = upto(0, MAXN); REQ(g_j < g_t && (g_j < o || g_j >= o + g_n)); g_u = g_buf[g_j];
#else
    g_buf = array<E>(g_t); __vh_writable(g_buf, g_t * sizeof(E));
    if(overlap_down && overlap_up) { g_n = g_t; g_in = g_out = g_buf; }
    else if(overlap_down) { g_out = g_buf; g_in = g_buf + (g_t - g_n); }
    else { g_in = g_buf; g_out = g_buf + (g_t - g_n); }
#endif
#ifndef P_FRAME
    g_k = upto(0, MAXN); REQ(g_k < g_n); g_v = g_in[g_k];
#endif
}
#ifndef P_FRAME
#define VAL(c, l) ENS(c, l)
#define FRM(c, l)
#else
#define VAL(c, l)
#define FRM(c, l) ENS(c, l)
#endif
#define POST(name, r, end) \
    REACH("returns"); \
    ENS(__vh_same(r, g_out) && r == end, name ": returns the end of what it wrote"); \
    VAL(g_out[g_k] == g_v, name ": every element arrives in order"); \
    FRM(g_buf[g_j] == g_u, name ": nothing outside the destination changes");

//@ entry vh_copy kind=proof defs=F_FWD
//@ entry vh_copy kind=proof defs=F_FWD,P_DISJOINT
//@ entry vh_copy kind=proof defs=F_FWD,P_FRAME
ENTRY(vh_copy) { layout(true, false); E* r = estd::copy(g_in, g_in + g_n, g_out); POST("copy", r, g_out + g_n) }
//@ entry vh_copy_n kind=proof defs=F_FWD
//@ entry vh_copy_n kind=proof defs=F_FWD,P_DISJOINT
//@ entry vh_copy_n kind=proof defs=F_FWD,P_FRAME
ENTRY(vh_copy_n) { layout(true, false); E* r = estd::copy_n(g_in, g_n, g_out); POST("copy_n", r, g_out + g_n) }
//@ entry vh_copy_backward kind=proof defs=F_BWD
//@ entry vh_copy_backward kind=proof defs=F_BWD,P_DISJOINT
//@ entry vh_copy_backward kind=proof defs=F_BWD,P_FRAME
ENTRY(vh_copy_backward) { layout(false, true); E* r = estd::copy_backward(g_in, g_in + g_n, g_out + g_n); POST("copy_backward", r, g_out) }
//@ entry vh_move_backward kind=proof defs=F_BWD
//@ entry vh_move_backward kind=proof defs=F_BWD,P_DISJOINT
//@ entry vh_move_backward kind=proof defs=F_BWD,P_FRAME
ENTRY(vh_move_backward) { layout(false, true); E* r = estd::move_backward(g_in, g_in + g_n, g_out + g_n); POST("move_backward", r, g_out) }
//@ entry vh_fill kind=proof defs=F_FILL
//@ entry vh_fill kind=proof defs=F_FILL,P_FRAME
ENTRY(vh_fill)
{
    layout(true, true); g_val = any<E>(); E v = g_val;
    estd::fill(g_out, g_out + g_n, v);
    REACH("returns");
    VAL(g_out[g_k] == g_val, "fill: every element set");
    FRM(g_buf[g_j] == g_u, "fill: nothing outside the range changes");
}
//@ entry vh_fill_n kind=proof defs=F_FILL
//@ entry vh_fill_n kind=proof defs=F_FILL,P_FRAME
ENTRY(vh_fill_n)
{
    layout(true, true); g_val = any<E>(); E v = g_val;
    E* r = estd::fill_n(g_out, g_n, v);
    REACH("returns");
    ENS(__vh_same(r, g_out) && r == g_out + g_n, "fill_n: returns the end of what it wrote");
    VAL(g_out[g_k] == g_val, "fill_n: every element set");
    FRM(g_buf[g_j] == g_u, "fill_n: nothing outside the range changes");
}
#ifdef F_REV
//@ entry vh_reverse kind=proof defs=F_REV
//@ entry vh_reverse kind=proof defs=F_REV,P_FRAME
ENTRY(vh_reverse)
{
    layout(true, true);
#ifndef P_FRAME
    g_v = g_out[g_k]; g_v2 = g_out[g_n - 1 - g_k];
#endif
    estd::reverse(g_out, g_out + g_n);
    REACH("returns");
    VAL(g_out[g_k] == g_v2 && g_out[g_n - 1 - g_k] == g_v, "reverse: element k is the old element n-1-k");
    FRM(g_buf[g_j] == g_u, "reverse: nothing outside the range changes");
}
#endif
//@ entry vh_empty
ENTRY(vh_empty)
{
    E x = any<E>(), y = any<E>(), z = any<E>(); E x0 = x, y0 = y;
    REACH("pre");
    ENS(estd::copy(&x, &x, &y) == &y, "copy: empty"); ENS(estd::copy_n(&x, 0, &y) == &y, "copy_n: zero");
    ENS(estd::copy_backward(&x, &x, &y) == &y, "copy_backward: empty"); ENS(estd::move_backward(&x, &x, &y) == &y, "move_backward: empty");
    estd::fill(&x, &x, z); ENS(estd::fill_n(&x, 0, z) == &x, "fill_n: zero"); estd::reverse(&x, &x); estd::reverse(&x, &x + 1);
    ENS(x == x0 && y == y0, "empty ranges: nothing changes");
    estd::iter_swap(&x, &y);
    ENS(x == y0 && y == x0, "iter_swap: exchanges the two elements");
    E a[2] = { x, y }; estd::reverse(a, a + 2); ENS(a[0] == y && a[1] == x, "reverse: two elements");
}
