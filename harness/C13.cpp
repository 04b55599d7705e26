// C13: fixed deques, queues and stacks hold exactly the elements pushed and not popped, in order, from every
// front position and fill level; a push to a full or pop from an empty deque reports failure and changes nothing.
#include <assert.h>
#include "vh.h"
#include <estd/queue.h>
#include <estd/stack.h>
using namespace vh;
#ifndef VT
#define VT int32_t
#endif
#ifndef VN
#define VN 4
#endif
struct Pr { int16_t a; int32_t b; Pr() : a(0), b(0) {} Pr(int16_t a, int32_t b) : a(a), b(b) {} bool operator==(const Pr& o) const { return a == o.a && b == o.b; } };
namespace vh { template <> struct any_<Pr> { static Pr get() { return Pr(i16(), i32()); } }; }
typedef VT T;
typedef estd::layer1::deque<T, VN> D;
typedef estd::layer1::queue<T, VN> Q;
struct Seq { size_t n; T e[VN + 1];
    void back(const T& x) { e[n] = x; n++; }
    void front(const T& x) { for(size_t k = 0; k < VN; k++) { UNROLL; e[VN - k] = e[VN - k - 1]; } e[0] = x; n++; }
    void popf() { for(size_t i = 0; i < VN; i++) { UNROLL; e[i] = e[i + 1]; } n--; }
    void popb() { n--; } };
struct Box { T g0; D v; T g1; Box() {} };
// every reachable position of the front and number of elements
static void build(Box& b, Seq& m, size_t f, size_t n)
{
    b.g0 = any<T>(); b.g1 = any<T>();
    ENS(b.v.empty() && b.v.size() == 0, "a new deque is empty");
    for(size_t i = 0; i < f; i++) { UNROLL; b.v.push_back(any<T>()); b.v.pop_front(); }
    m.n = 0; for(size_t i = 0; i <= VN; i++) { UNROLL; m.e[i] = any<T>(); if(i < n) b.v.push_back((const T&)m.e[i]); }
    m.n = n;
}
static bool same(D& v, const Seq& m)
{
    const D& c = v; bool r = c.size() == m.n && c.empty() == (m.n == 0) && c.max_size() == VN;
    if(m.n) r = r && c.front() == m.e[0] && v.front() == m.e[0] && v.back() == m.e[m.n - 1] && c.back() == m.e[m.n - 1];
    size_t k = 0; for(typename D::iterator it = v.begin(); it != v.end(); ++it) { UNROLL; if(k >= m.n || !(*it == m.e[k < VN ? k : 0])) { r = false; break; } k++; }
    if(k != m.n) r = false;
    typename D::iterator it = v.end(); for(k = m.n; k > 0; k--) { UNROLL; --it; if(!(*it == m.e[k - 1])) r = false; }
    if(!(it == v.begin())) r = false;
    return r;
}
static void deque_op(size_t f, size_t n, size_t op)
{
    Box b; Seq m; build(b, m, f, n); T g0 = b.g0, g1 = b.g1, x = any<T>(), y = x; D& v = b.v; bool r = true, room = n < VN; REACH("entry");
    ENS(same(v, m), "push_back: exact elements, forwards and backwards");
    if(op == 0) { r = v.push_back((const T&)x); ENS(r == room, "push_back reports room"); if(r) m.back(x); }
    if(op == 1) { r = v.push_back(static_cast<T&&>(y)); ENS(r == room, "push_back (move) reports room"); if(r) m.back(x); }
    if(op == 2) { r = v.push_front(x); ENS(r == room, "push_front reports room"); if(r) m.front(x); }
    if(op == 3) { r = v.pop_back(); ENS(r == (n > 0), "pop_back reports an element"); if(r) m.popb(); }
    if(op == 4) { r = v.pop_front(); ENS(r == (n > 0), "pop_front reports an element"); if(r) m.popf(); }
    if(op == 5 && room) { T& e = v.emplace_back(x); ENS(&e == &v.back(), "emplace_back returns the new element"); m.back(x); }
    if(op == 6 && room) { T& e = v.emplace_front(x); ENS(&e == &v.front(), "emplace_front returns the new element"); m.front(x); }
    if(op == 7 && n > 0) { v.front() = x; m.e[0] = x; if(n > 1) { v.back() = x; m.e[n - 1] = x; } }
    REACH("done");
    ENS(same(v, m), "deque operation: exact elements, forwards and backwards"); ENS(b.g0 == g0 && b.g1 == g1, "deque operation: nothing else changed");
}
//@ entry vh_deque unwind=12 defs=VN=3
//@ entry vh_deque unwind=12 defs=VN=4,VT=uint8_t tier=thorough timeout=600
//@ entry vh_deque unwind=12 defs=VN=2,VT=uint8_t
//@ entry vh_deque unwind=12 defs=VN=1
//@ entry vh_deque unwind=12 defs=VN=3,VT=Pr tier=thorough
//@ entry vh_deque unwind=16 defs=VN=5,VT=uint8_t tier=thorough timeout=600
ENTRY(vh_deque) { split(0, VN - 1, [](size_t f) { split(0, VN, [f](size_t n) { split(0, 7, [f, n](size_t op) { deque_op(f, n, op); }); }); }); }

static void moved(size_t f, size_t n)
{
    Box b; Seq m; build(b, m, f, n); T x = any<T>(); REACH("entry");
    D w(static_cast<D&&>(b.v));
    { Box junk; junk.v.push_back(x); }
    for(size_t i = 0; i < 2; i++) { UNROLL; b.v.push_back(x); b.v.pop_front(); }   // the source is free to be used
    ENS(same(w, m), "a moved deque holds the elements");
    if(n < VN) { w.push_back(x); m.back(x); ENS(same(w, m), "a moved deque works on its own storage"); }
    else { w.pop_front(); m.popf(); ENS(same(w, m), "a moved deque works on its own storage"); }
}
//@ entry vh_move unwind=12 defs=VN=3
ENTRY(vh_move) { split(0, VN - 1, [](size_t f) { split(0, VN, [f](size_t n) { moved(f, n); }); }); }

static void queue_op(size_t f, size_t n, size_t op)
{
    Q q; T e[VN + 1]; REACH("entry");
    for(size_t i = 0; i < f; i++) { UNROLL; q.push(any<T>()); q.pop(); }
    for(size_t i = 0; i <= VN; i++) { UNROLL; e[i] = any<T>(); if(i < n) ENS(q.push((const T&)e[i]), "push accepts while there is room"); }
    const Q& c = q; T x = any<T>(), y = x; size_t k = n;
    ENS(c.size() == n && c.empty() == (n == 0), "queue size");
    if(op == 0) { bool r = q.push((const T&)x); ENS(r == (n < VN), "push reports room"); if(r) e[k++] = x; }
    if(op == 1) { bool r = q.push(static_cast<T&&>(y)); ENS(r == (n < VN), "push reports room"); if(r) e[k++] = x; }
    if(op == 2 && n < VN) { T& t = q.emplace(x); ENS(t == x, "emplace returns the element"); e[k++] = x; }
    if(op == 3 && n > 0) { q.front() = x; e[0] = x; if(n > 1) { q.back() = x; e[n - 1] = x; } }
    REACH("filled");
    if(op == 4) { Q w(static_cast<Q&&>(q)); T junk = any<T>(); q.push(junk); for(size_t i = 0; i < VN; i++) { UNROLL; if(i < n) { ENS(w.front() == e[i], "a moved queue yields the elements in order"); w.pop(); } } ENS(w.empty(), "a moved queue empties"); return; }
    for(size_t i = 0; i < VN; i++) { UNROLL; if(i < k) { ENS(c.front() == e[i] && c.back() == e[k - 1] && c.size() == k - i, "first in, first out"); ENS(q.pop(), "pop reports the element"); } }
    ENS(q.empty() && c.size() == 0 && !q.pop(), "the queue empties exactly, then pop reports failure");
}
//@ entry vh_queue unwind=12 defs=VN=3
//@ entry vh_queue unwind=12 defs=VN=4,VT=uint8_t
//@ entry vh_queue unwind=12 defs=VN=3,VT=Pr tier=thorough
ENTRY(vh_queue) { split(0, VN - 1, [](size_t f) { split(0, VN, [f](size_t n) { split(0, 4, [f, n](size_t op) { queue_op(f, n, op); }); }); }); }

template <class S> static void stack_op(S& s, size_t n, size_t op)
{
    T e[VN + 1]; const S& c = s; ENS(c.empty() && c.size() == 0, "a new stack is empty");
    for(size_t i = 0; i <= VN; i++) { UNROLL; e[i] = any<T>(); if(i < n) s.push((const T&)e[i]); }
    T x = any<T>(), y = x; size_t k = n; REACH("entry");
    ENS(c.size() == n && c.empty() == (n == 0), "stack size");
    if(op == 0 && n < VN) { s.push(static_cast<T&&>(y)); e[k++] = x; }
    if(op == 1 && n > 0) { s.pop(); k--; }
    REACH("done");
    for(size_t i = 0; i < VN; i++) { UNROLL; if(i < k) { ENS(s.top() == e[k - 1 - i] && c.top() == e[k - 1 - i] && s.size() == k - i, "last in, first out"); s.pop(); } }
    ENS(s.empty(), "the stack empties exactly");
}
//@ entry vh_stack unwind=12 defs=VN=4
//@ entry vh_stack unwind=12 defs=VN=3,VT=Pr
ENTRY(vh_stack) { split(0, VN, [](size_t n) { split(0, 2, [n](size_t op) { estd::layer1::stack<T, VN> s; stack_op(s, n, op); }); }); }
//@ entry vh_stack_deque unwind=12 defs=VN=4
ENTRY(vh_stack_deque) { split(0, VN, [](size_t n) { split(0, 2, [n](size_t op) { estd::stack<T, D> s; stack_op(s, n, op); }); }); }
