// C03: heap algorithms and priority_queue: the top is always the maximum, nothing is lost.
#include <assert.h>
#include "vh.h"
#include <estd/algorithm.h>
#include <estd/queue.h>
using namespace vh;

#ifndef VB
#define VB 6
#endif
typedef uint8_t E;
static uint8_t g_mask, g_flip;
SPEC E rk(E x) { return (x ^ g_flip) & g_mask; }           // arbitrary weak order rk(x) < rk(y)
struct Cmp { bool operator()(E x, E y) const { return rk(x) < rk(y); } };

template <class A> static bool is_heap(const A& a, unsigned n, unsigned k)
{
    bool r = true;
    for(unsigned i = 1; i < VB; i++) { UNROLL; if(i < n && rk(a[(i - 1) / k]) < rk(a[i])) r = false; }
    return r;
}
template <class A> static unsigned count(const A& a, unsigned n, E v)
{
    unsigned c = 0;
    for(unsigned i = 0; i < VB; i++) { UNROLL; if(i < n && a[i] == v) c++; }
    return c;
}
static void order() { g_mask = u8(); g_flip = u8(); }

//@ entry vh_make unwind=8 defs=VB=5,VK=2 tdefs=VB=6,VK=2 tunwind=9 cost=9 kind=bounded
//@ entry vh_make unwind=8 defs=VB=5,VK=3 tdefs=VB=6,VK=3 tunwind=9 cost=9 kind=bounded
//@ entry vh_make unwind=8 defs=VB=5,VK=4 tdefs=VB=6,VK=4 tunwind=9 cost=9 kind=bounded
#ifndef VK
#define VK 2
#endif
ENTRY(vh_make)
{
    order(); unsigned n = small(0, VB); E a[VB + 1]; fill(a); E guard = a[VB]; E v = u8();
    unsigned c = count(a, n, v); E x[VB + 1]; for(unsigned i = 0; i <= VB; i++) { UNROLL; x[i] = a[i]; }
    estd::make_heap(a, a + n, Cmp(), VK);
    REACH("returns");
    ENS(is_heap(a, n, VK), "make_heap: heap order between every node and its parent");
    ENS(count(a, n, v) == c, "make_heap: same multiset of elements");
    for(unsigned i = 0; i <= VB; i++) { UNROLL; if(i >= n) ENS(a[i] == x[i], "make_heap: elements past last untouched"); }
    (void)guard;
}
//@ entry vh_push unwind=10 defs=VB=7 tdefs=VB=10 tunwind=14 kind=bounded
ENTRY(vh_push)
{
    order(); unsigned n = small(1, VB); E a[VB]; fill(a); E v = u8();
    REQ(is_heap(a, n - 1, 2));
    unsigned c = count(a, n, v);
    estd::push_heap(a, a + n, Cmp());
    REACH("returns");
    ENS(is_heap(a, n, 2), "push_heap: heap order restored over the whole range");
    ENS(count(a, n, v) == c, "push_heap: same multiset of elements");
}
//@ entry vh_pop unwind=10 defs=VB=7 tdefs=VB=10 tunwind=14 kind=bounded
ENTRY(vh_pop)
{
    order(); unsigned n = small(1, VB); E a[VB]; fill(a); E v = u8();
    REQ(is_heap(a, n, 2));
    unsigned c = count(a, n, v); E top = a[0];
    estd::pop_heap(a, a + n, Cmp());
    REACH("returns");
    ENS(a[n - 1] == top, "pop_heap: old top moved to the last position");
    ENS(is_heap(a, n - 1, 2), "pop_heap: heap order restored over the rest");
    ENS(count(a, n, v) == c, "pop_heap: same multiset of elements");
    for(unsigned i = 0; i < VB; i++) { UNROLL; if(i < n) ENS(!(rk(top) < rk(a[i])), "pop_heap: the popped element is a maximum"); }
}
//@ entry vh_default_less unwind=8 defs=VB=3 kind=bounded
ENTRY(vh_default_less)
{
    g_mask = 0xff; g_flip = 0;
    unsigned n = small(1, VB); E a[VB]; fill(a);
    estd::make_heap(a, a + n); ENS(is_heap(a, n, 2), "make_heap: default order is less-than");
    estd::push_heap(a, a + n); ENS(is_heap(a, n, 2), "push_heap: default order is less-than");
    estd::pop_heap(a, a + n); ENS(is_heap(a, n - 1, 2), "pop_heap: default order is less-than");
    REACH("end");
}

// ---- priority_queue with fixed capacity VN: complete for that capacity, from any heap state
#ifndef VN
#define VN 4
#endif
typedef estd::layer1::priority_queue<E, VN, Cmp> PQ;
static unsigned g_n; static E g_v; static unsigned g_c; static E g_max;
static void state(PQ& q)
{
    order(); g_n = small(0, VN); g_v = u8();
    for(unsigned i = 0; i < VN; i++) { UNROLL; E e = u8(); if(i < g_n) q.container().push_back(e); }
    const E* d = q.container().data(); REQ(is_heap(d, g_n, 2));
    g_c = count(d, g_n, g_v);
}
static void wf(PQ& q, unsigned n, unsigned c)
{
    ENS(q.size() == n, "priority_queue: size is the number of elements held");
    ENS(q.empty() == (n == 0), "priority_queue: empty() agrees with size()");
    const E* d = q.container().data();
    ENS(is_heap(d, n, 2), "priority_queue: top is never smaller than any element after any operation");
    ENS(count(d, n, g_v) == c, "priority_queue: exactly the pushed, not yet popped elements are held");
    if(n) ENS(q.top() == d[0], "priority_queue: top() is the head element");
}
//@ entry vh_pq_push unwind=10
ENTRY(vh_pq_push)
{
    PQ q; state(q); REQ(g_n < VN); E x = u8();
    if(flag()) q.push(x); else { const E& r = x; q.push(r); }
    REACH("returns"); wf(q, g_n + 1, g_c + (x == g_v));
}
//@ entry vh_pq_emplace unwind=10
ENTRY(vh_pq_emplace)
{
    PQ q; state(q); REQ(g_n < VN); E x = u8(); q.emplace(x);
    REACH("returns"); wf(q, g_n + 1, g_c + (x == g_v));
}
//@ entry vh_pq_notify unwind=10
ENTRY(vh_pq_notify)
{
    PQ q; state(q); REQ(g_n < VN); E x = u8(), y = u8(); unsigned calls = 0;
    q.emplace_with_notify([&](E& e) { calls++; ENS(e == x, "emplace_with_notify: callback sees the new element"); e = y; }, x);
    REACH("returns"); ENS(calls == 1, "emplace_with_notify: callback runs once"); wf(q, g_n + 1, g_c + (y == g_v));
}
//@ entry vh_pq_pop unwind=10
ENTRY(vh_pq_pop)
{
    PQ q; state(q); REQ(g_n > 0); E t = q.container().data()[0];
    q.pop();
    REACH("returns"); wf(q, g_n - 1, g_c - (t == g_v));
}
//@ entry vh_pq_erase_if unwind=10 defs=VN=3 tdefs=VN=4 cost=8
ENTRY(vh_pq_erase_if)
{
    PQ q; state(q); E x = u8(); E m = u8();
    const E* d = q.container().data(); unsigned hits = 0;
    for(unsigned i = 0; i < VN; i++) { UNROLL; if(i < g_n && (d[i] & m) == (x & m)) hits++; }
    unsigned cv = 0; E removed = 0;
    bool r = q.erase_if([&](E e) { if((e & m) == (x & m)) { removed = e; return true; } return false; });
    REACH("returns");
    ENS(r == (hits > 0), "priority_queue erase_if: true exactly if an element matched");
    wf(q, r ? g_n - 1 : g_n, r ? g_c - (removed == g_v) : g_c); (void)cv;
}
//@ entry vh_pq_erase_deep unwind=9 defs=VN=6 cost=9 kind=bounded
ENTRY(vh_pq_erase_deep)
{
    // large enough that the erased element and the one that replaces it lie in different branches
    PQ q; state(q); REQ(g_n == VN); const E* d = q.container().data(); for(unsigned i = 0; i < VN; i++) { UNROLL; REQ(d[i] < 8); }
    unsigned i = small(0, VN - 1); E x = d[i];
    q.erase(q.container().at(i));
    REACH("returns"); wf(q, g_n - 1, g_c - (x == g_v));
}
//@ entry vh_pq_full unwind=10
ENTRY(vh_pq_full)
{
    // pushing to a full fixed-capacity queue may stop the program (assert), never corrupt it
    PQ q; state(q); REQ(g_n == VN); REACH("full"); __vh_allow(ABORT); E x = u8(); q.push(x);
    wf(q, VN, g_c);
}
//@ entry vh_pq_copy unwind=10
ENTRY(vh_pq_copy)
{
    PQ q, p; state(q); p = q;
    REACH("returns"); wf(p, g_n, g_c); wf(q, g_n, g_c);
}
