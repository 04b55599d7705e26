// C24: linked lists link exactly the elements put in, in order, whatever the nodes were linked to before.
#include <assert.h>
#include "vh.h"
#include <estd/forward_list.h>
#include <estd/list.h>
using namespace vh;
#ifndef VN
#define VN 4
#endif
enum { M = VN + 1 };
// the elements of a list, in order, as indices into the pool of nodes; x is the node which is not in the list
struct Seq { unsigned n; uint8_t e[VN + 3];
    void insert(unsigned at, uint8_t v) { for(unsigned k = VN + 1; k > 0; k--) { UNROLL; if(k > at) e[k] = e[k - 1]; } e[at] = v; n++; }
    void erase(unsigned at) { for(unsigned k = 0; k + 1 < VN + 2; k++) { UNROLL; if(k >= at) e[k] = e[k + 1]; } n--; } };
static void arrange(Seq& m, unsigned lo = 0)
{
    m.n = small(lo, VN); uint8_t p[M]; bool seen[M] = {};
    for(unsigned i = 0; i < M; i++) { UNROLL; p[i] = (uint8_t)small(0, M - 1); REQ(!seen[p[i]]); seen[p[i]] = true; m.e[i] = p[i]; } m.e[M] = m.e[M + 1] = 0;
}
#if VK == 1 || VK == 2
// ---- intrusive lists: the nodes belong to the user and carry links from wherever they were before -------------
struct Nd : estd::experimental::forward_node_base { uint8_t v; bool operator==(const Nd& o) const { return v == o.v; } };
static Nd g_p[M];
static Nd* link_(unsigned i) { return i < M ? &g_p[i] : nullptr; }
static void stale() { for(unsigned i = 0; i < M; i++) { UNROLL; g_p[i].v = u8(); g_p[i].next(link_(small(0, M))); } }
#if VK == 1
typedef estd::intrusive_forward_list<Nd> L0;
#else
typedef estd::intrusive_forward_list_with_back<Nd> L0;
#endif
struct L : L0 { Nd*& front_() { return L0::m_front; } 
#if VK == 2
    Nd*& back_() { return L0::m_back; }
#endif
};
static void set(L& l, const Seq& m)
{
    for(unsigned i = 0; i < M; i++) { UNROLL; if(i < m.n) g_p[m.e[i]].next(i + 1 < m.n ? &g_p[m.e[i + 1]] : nullptr); }
    l.front_() = m.n ? &g_p[m.e[0]] : nullptr;
#if VK == 2
    l.back_() = m.n ? &g_p[m.e[m.n - 1]] : nullptr;
#endif
}
static void same(L& l, const Seq& m, const uint8_t* v)
{
    ENS(l.empty() == (m.n == 0), "empty says whether there is an element"); auto i = l.begin(); const L& c = l; auto j = c.begin(); bool walk = true;
    for(unsigned k = 0; k < M + 1; k++) { UNROLL; if(k >= m.n) break; walk = walk && i != l.end() && j != c.end() && &*i == &g_p[m.e[k]] && &*j == &g_p[m.e[k]]; if(!walk) break; if(k & 1) i++; else ++i; j += 1; }
    ENS(walk && i == l.end() && j == c.end(), "the elements are those put in and not taken out, in order");
    if(m.n) ENS(&l.front() == &g_p[m.e[0]], "front is the first element");
#if VK == 2
    if(m.n) ENS(&l.back() == &g_p[m.e[m.n - 1]], "back is the last element");
#endif
    for(unsigned k = 0; k < M; k++) { UNROLL; ENS(g_p[k].v == v[k], "no element is changed"); }
}
#define STATE L l; Seq m; ENS(l.empty(), "a new list is empty"); stale(); arrange(m); set(l, m); uint8_t v[M]; for(unsigned k = 0; k < M; k++) { UNROLL; v[k] = g_p[k].v; } uint8_t x = m.e[m.n]; REACH("entry"); same(l, m, v)
//@ entry vh_push_front kind=full unwind=8 defs=VK=1
//@ entry vh_push_front kind=full unwind=8 defs=VK=2
ENTRY(vh_push_front) { STATE; l.push_front(g_p[x]); m.insert(0, x); same(l, m, v); REACH("done"); }
//@ entry vh_pop_front kind=full unwind=8 defs=VK=1
//@ entry vh_pop_front kind=full unwind=8 defs=VK=2
ENTRY(vh_pop_front) { STATE; REQ(m.n > 0); x = m.e[0]; l.pop_front(); m.erase(0); same(l, m, v);
    bool again = flag(); if(again) {
#if VK == 2
        l.push_back(g_p[x]); m.insert(m.n, x);
#else
        l.push_front(g_p[x]); m.insert(0, x);
#endif
        same(l, m, v); } REACH("done"); }
#if VK == 2
//@ entry vh_push_back kind=full unwind=8 defs=VK=2
ENTRY(vh_push_back) { STATE; l.push_back(g_p[x]); m.insert(m.n, x); same(l, m, v); REACH("done"); }
#else
//@ entry vh_after kind=full unwind=8 defs=VK=1
ENTRY(vh_after) { STATE; REQ(m.n > 0); unsigned k = small(0, VN - 1); REQ(k < m.n); auto i = l.begin() + (int)k; ENS(&*i == &g_p[m.e[k]], "begin() + k is the k-th element"); bool ins = flag(); REQ(ins || k + 1 < m.n);
    if(ins) { auto r = l.insert_after(i, g_p[x]); m.insert(k + 1, x); ENS(&*r == &g_p[x], "insert_after returns the inserted element"); }
    else { auto r = l.erase_after(i); m.erase(k + 1); ENS(k + 1 < m.n ? r != l.end() && &*r == &g_p[m.e[k + 1]] : r == l.end(), "erase_after returns the element after the erased"); }
    same(l, m, v); REACH("done"); }
//@ entry vh_remove kind=full unwind=8 defs=VK=1
ENTRY(vh_remove) { STATE; bool first = flag(), value = flag(); uint8_t t = u8(), mask = u8(); Nd q; q.v = t;
    if(value) l.remove(q, first); else l.remove_if([mask](const Nd& n) { return (n.v & mask) != 0; }, first);
    Seq w; w.n = 0; bool done = false; for(unsigned k = 0; k < VN + 3; k++) { UNROLL; w.e[k] = 0; } for(unsigned k = 0; k < VN; k++) { UNROLL; if(k >= m.n) break; bool hit = value ? v[m.e[k]] == t : (v[m.e[k]] & mask) != 0; if(hit && !(first && done)) { done = true; continue; } w.e[w.n++] = m.e[k]; }
    same(l, w, v); REACH("done"); }
#endif
#elif VK == 3
// ---- lists that own their nodes: an allocator with a ghost account of the nodes that are allocated -----------
typedef estd::experimental::ValueNode<int32_t, estd::experimental::forward_node_base> N;
struct Pool { alignas(N) unsigned char mem[M][sizeof(N)]; bool live[M]; unsigned n; };
static Pool g;
static unsigned ix(const N* p) { for(unsigned i = 0; i < M; i++) { UNROLL; if((const unsigned char*)p == g.mem[i]) return i; } return M; }
template <class T> struct pool_alloc : estd::experimental_std_allocator<T> {
    T* allocate(size_t c) { REQ(c == 1); unsigned i = small(0, M - 1); REQ(!g.live[i]); g.live[i] = true; g.n++; return (T*)(void*)g.mem[i]; }
    void deallocate(T* p, size_t c) { unsigned i = ix(p); ENS(c == 1 && i < M && g.live[i], "only an allocated node is given back"); if(i < M) g.live[i] = false; g.n--; }
};
typedef estd::internal::forward_list<int32_t, N, pool_alloc<N> > L;
struct Vals { unsigned n; int32_t e[VN + 3]; 
    void insert(unsigned at, int32_t v) { for(unsigned k = VN + 1; k > 0; k--) { UNROLL; if(k > at) e[k] = e[k - 1]; } e[at] = v; n++; }
    void erase(unsigned at) { for(unsigned k = 0; k + 1 < VN + 2; k++) { UNROLL; if(k >= at) e[k] = e[k + 1]; } n--; } };
static void same(L& l, const Vals& m)
{
    ENS(l.empty() == (m.n == 0), "empty says whether there is an element"); auto i = l.begin(); bool walk = true;
    for(unsigned k = 0; k < M; k++) { UNROLL; if(k >= m.n) break; walk = walk && i != l.end() && *i == m.e[k]; if(!walk) break; if(k & 1) i++; else ++i; }
    ENS(walk && i == l.end(), "the elements are those put in and not taken out, in order"); ENS(g.n == m.n, "exactly the nodes of the elements are allocated");
}
static void build(L& l, Vals& m) { g.n = 0; for(unsigned i = 0; i < M; i++) { UNROLL; g.live[i] = false; } m.n = 0; unsigned n = small(0, VN); for(unsigned i = 0; i < VN; i++) { UNROLL; if(i < n) { int32_t v = i32(); m.insert(0, v); bool e = flag(); if(e) l.emplace_front(v); else l.push_front(v); } } }
//@ entry vh_owned kind=full unwind=8 defs=VK=3
ENTRY(vh_owned) { L l; Vals m; build(l, m); REACH("entry"); same(l, m); unsigned op = small(0, 4), k = small(0, VN); int32_t v = i32();
    if(op == 0) { if(flag()) l.push_front(v); else l.push_front((const int32_t&)v); m.insert(0, v); }
    else if(op == 1) { REQ(m.n > 0); l.pop_front(); m.erase(0); }
    else if(op == 2) { REQ(k < m.n); auto r = l.insert_after(l.begin() + (int)k, v); m.insert(k + 1, v); ENS(*r == v, "insert_after returns the inserted element"); }
    else if(op == 3) { Vals w = m; w.n = 0; for(unsigned i = 0; i < VN; i++) { UNROLL; if(i < m.n && m.e[i] != v) w.e[w.n++] = m.e[i]; } l.remove_if([v](const N& n) { return n.value() == v; }); m = w; }
    else { REQ(k + 1 < m.n); auto r = l.erase_after(l.begin() + (int)k); m.erase(k + 1); ENS(k + 1 < m.n ? r != l.end() && *r == m.e[k + 1] : r == l.end(), "erase_after returns the element after the erased"); }
    same(l, m); REACH("done"); }
#elif VK == 4
// ---- doubly linked ----------------------------------------------------------------------------------------
typedef estd::experimental::ValueNode<int32_t, estd::experimental::double_node_base> N;
static N* g_n[M]; static unsigned g_u;
template <class T> struct pool_alloc : estd::experimental_std_allocator<T> { T* allocate(size_t c) { REQ(c == 1); T* p = (T*)__vh_fresh(sizeof(T)); return p; } };
typedef estd::inlinevalue_node_traits_new_base<N, pool_alloc<N>, estd::nothing_allocator<int32_t> > NT;
typedef estd::internal::list_base<int32_t, N, pool_alloc<N>, NT> L;
struct Vals { unsigned n; int32_t e[VN + 3]; 
    void insert(unsigned at, int32_t v) { for(unsigned k = VN + 1; k > 0; k--) { UNROLL; if(k > at) e[k] = e[k - 1]; } e[at] = v; n++; } };
static void same(L& l, const Vals& m)
{
    ENS(l.empty() == (m.n == 0), "empty says whether there is an element"); auto i = l.begin(), last = i; bool walk = true;
    for(unsigned k = 0; k < M; k++) { UNROLL; if(k >= m.n) break; walk = walk && i != l.end() && *i == m.e[k]; if(!walk) break; last = i; if(k & 1) i++; else ++i; }
    ENS(walk && i == l.end(), "the elements are those put in, in order"); if(m.n) ENS(l.back() == m.e[m.n - 1], "back is the last element");
    for(unsigned k = M; k > 0; k--) { UNROLL; if(k > m.n) continue; walk = walk && *last == m.e[k - 1]; if(!walk) break; if(k > 1) { if(k & 1) last--; else --last; } }
    ENS(walk, "walking backward from the last element visits the same elements");
}
static void build(L& l, Vals& m) { m.n = 0; unsigned n = small(0, VN); for(unsigned i = 0; i < VN; i++) { UNROLL; if(i < n) { int32_t v = i32(); if(flag()) { m.insert(0, v); l.push_front(v); } else { m.insert(m.n, v); l.push_back(v); } } } }
//@ entry vh_double kind=full unwind=8 defs=VK=4
ENTRY(vh_double) { L l; Vals m; build(l, m); REACH("entry"); same(l, m); unsigned op = small(0, 4), k = small(0, VN); int32_t v = i32();
    if(op == 0) { l.push_front(v); m.insert(0, v); } else if(op == 1) { l.push_back(v); m.insert(m.n, v); } else if(op == 2) { l.push_back((int32_t)v); m.insert(m.n, v); } else if(op == 3) { l.emplace_front(v); m.insert(0, v); }
    else { REQ(k < m.n || (k == 0 && m.n == 0)); auto at = l.begin(); at += (int)k; auto r = l.insert(at, v); m.insert(k, v); ENS(*r == v, "insert returns the inserted element"); }
    same(l, m); REACH("done"); }
#elif VK == 5 || VK == 6
// ---- the link-only lists of internal/list: any chain of nodes ----------------------------------------------
struct Nd : estd::experimental::forward_node_base_base<Nd*> { uint8_t v; Nd() : estd::experimental::forward_node_base_base<Nd*>(nullptr) {} };
static Nd g_p[M];
#if VK == 5
typedef estd::internal::list::intrusive_forward<Nd> L;
#else
typedef estd::internal::list::circular_intrusive_forward<Nd> L;
#endif
static Nd* link_(unsigned i) { return i < M ? &g_p[i] : nullptr; }
static void stale() { for(unsigned i = 0; i < M; i++) { UNROLL; g_p[i].v = u8(); g_p[i].next(link_(small(0, M))); } }
static Nd* chain(const Seq& m, bool ring) { for(unsigned i = 0; i < M; i++) { UNROLL; if(i < m.n) g_p[m.e[i]].next(i + 1 < m.n ? &g_p[m.e[i + 1]] : ring ? &g_p[m.e[0]] : nullptr); } return m.n ? &g_p[m.e[0]] : nullptr; }
#if VK == 5
static void same(L& l, const Seq& m)
{
    ENS(l.empty() == (m.n == 0), "empty says whether there is an element"); auto i = l.begin(); const L& c = l; auto j = c.begin(); auto j2 = l.cbegin(); bool walk = true;
    for(unsigned k = 0; k < M + 1; k++) { UNROLL; if(k >= m.n) break; walk = walk && i != l.end() && i != l.cend() && &*i == &g_p[m.e[k]] && &*j == &g_p[m.e[k]] && &*j2 == &g_p[m.e[k]]; if(!walk) break; if(k & 1) { auto o = i++; walk = &*o == &g_p[m.e[k]]; } else ++i; ++j; ++j2; }
    ENS(walk && i == l.end() && i == l.cend() && j == l.cend() && j2 == l.cend(), "the elements are those put in and not taken out, in order");
    if(m.n) ENS(&l.front() == &g_p[m.e[0]], "front is the first element");
}
//@ entry vh_links kind=full unwind=8 defs=VK=5
ENTRY(vh_links) { Seq m; stale(); arrange(m); L l(chain(m, false)); uint8_t x = m.e[m.n]; REACH("entry"); same(l, m); unsigned op = small(0, 5), k = small(0, VN); typedef L::const_iterator CI; typedef L::iterator I;
    if(op == 0) { l.push_front(g_p[x]); m.insert(0, x); } else if(op == 1) { REQ(m.n > 0); l.pop_front(); m.erase(0); } else if(op == 2) { l.clear(); m.n = 0; }
    else if(op == 3) { REQ(k < m.n); I r = L::insert_after(CI(&g_p[m.e[k]]), g_p[x]); m.insert(k + 1, x); ENS(&*r == &g_p[x], "insert_after returns the inserted element"); }
    else { REQ(k + 1 < m.n); bool rep = op == 5; I r = rep ? L::replace_after(CI(&g_p[m.e[k]]), g_p[x]) : L::erase_after(CI(&g_p[m.e[k]])); m.erase(k + 1); if(rep) m.insert(k + 1, x); ENS(k + 1 < m.n ? r != l.end() && &*r == &g_p[m.e[k + 1]] : r == l.end(), "the element now following is returned"); }
    same(l, m); REACH("done"); }
#else
//@ entry vh_ring kind=full unwind=8 defs=VK=6
ENTRY(vh_ring) { Seq m; stale(); arrange(m, 1); L l(chain(m, true)); REACH("entry"); auto b = l.before_begin(); ENS(&*b == &g_p[m.e[m.n - 1]], "before_begin is the node before the first"); ++b; ENS(&*b == &g_p[m.e[0]] && &l.front() == &g_p[m.e[0]], "the first follows it"); REACH("done"); }
#endif
#endif
