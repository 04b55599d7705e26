// C25: unordered maps and sets associate every key with what was last stored for it, from every state they can be in.
#include <assert.h>
#ifndef TRACK_MAX
#define TRACK_MAX 6
#endif
#include "vh.h"
#include "vh_track.h"
#include <estd/functional.h>
#include <estd/unordered_set.h>
#include <estd/unordered_map.h>
using namespace vh;
template <class T> static const T& asc(const T& x) { return x; }
#ifndef VN
#define VN 8
#endif
typedef int16_t K;
struct H3 { constexpr size_t operator()(const K& k) const { return (size_t)(k & 7); } };
#ifndef VHASH
#define VHASH estd::hash<K>
#endif
SPEC unsigned idx(K k) { return (unsigned)(4u * VHASH{}(k) % (size_t)VN); }
#if VK != 2
typedef estd::layer1::unordered_map<K, int32_t, VN, VHASH> M0;
template <class C_, class T_> estd::internal::unordered_base<C_, T_> ub_of(estd::internal::unordered_base<C_, T_>*);
typedef decltype(ub_of((M0*)nullptr)) UB;
struct M : M0 { auto& c() { return this->UB::container_; } static constexpr auto npos() { return UB::npos; } auto fll(K k) { return this->UB::find_ll(k); } };
typedef UB::control_type C;
SPEC bool active(const C& c) { return c.first != 0; }
SPEC K key_of(const C& c) { return c.first; }
SPEC bool sparse(const C& c) { return c.first == 0 && c.second.marked_for_gc; }
SPEC bool sparse(const C& c, unsigned b) { return sparse(c) && c.second.bucket == b; }
static int32_t val_of(C& c) { return c.second.mapped(); }
static void any_slot(C& c) { unsigned kind = small(0, 2); c.second.mapped() = i32(); if(kind == 0) { c.first = (K)i16(); REQ(c.first != 0); } else { c.first = 0; c.second.marked_for_gc = kind == 1; if(kind == 1) c.second.bucket = (uint16_t)upto(0, VN - 1); } }
#else
typedef estd::layer1::unordered_set<K, VN, VHASH> M0;
template <class C_, class T_> estd::internal::unordered_base<C_, T_> ub_of(estd::internal::unordered_base<C_, T_>*);
typedef decltype(ub_of((M0*)nullptr)) UB;
struct M : M0 { auto& c() { return this->UB::container_; } static constexpr auto npos() { return UB::npos; } auto fll(K k) { return this->UB::find_ll(k); } };
typedef K C;
SPEC bool active(const C& c) { return c != 0; }
SPEC K key_of(const C& c) { return c; }
SPEC bool sparse(const C&) { return false; }
SPEC bool sparse(const C&, unsigned) { return false; }
static int32_t val_of(C&) { return 0; }
static void any_slot(C& c) { c = (K)i16(); }
#endif
// the invariant of the slots: an element is reached from the start of its bucket over elements and erased slots of it
static bool inv(M& m)
{
    bool ok = true; C* s = m.c().begin();
    for(unsigned p = 0; p < VN; p++) { UNROLL; if(!active(s[p])) continue; unsigned b = idx(key_of(s[p])); ok = ok && b <= p; for(unsigned q = 0; q < p; q++) { UNROLL; if(q >= b) ok = ok && (active(s[q]) ? idx(key_of(s[q])) == b : sparse(s[q], b)); if(active(s[q])) ok = ok && key_of(s[q]) != key_of(s[p]); } }
    return ok;
}
struct Mod { K k[VN + 1]; int32_t v[VN + 1]; };     // key 0: nothing
static bool has(const Mod& d, K w, int32_t& v) { bool r = false; for(unsigned p = 0; p < VN + 1; p++) { UNROLL; if(d.k[p] == w && w != 0) { r = true; v = d.v[p]; } } return r; }
static void store(Mod& d, K w, int32_t v) { bool r = false; for(unsigned p = 0; p < VN + 1; p++) { UNROLL; if(d.k[p] == w) { d.v[p] = v; r = true; } } if(!r) { d.k[VN] = w; d.v[VN] = v; } }
static void drop(Mod& d, K w) { for(unsigned p = 0; p < VN + 1; p++) { UNROLL; if(d.k[p] == w) d.k[p] = 0; } }
static void get(M& m, Mod& d) { C* s = m.c().begin(); for(unsigned p = 0; p < VN; p++) { UNROLL; d.k[p] = active(s[p]) ? key_of(s[p]) : (K)0; d.v[p] = val_of(s[p]); } d.k[VN] = 0; d.v[VN] = 0; }
// which slot a new element goes to, VN if there is no room in its bucket
static unsigned room(M& m, K k)
{
    C* s = m.c().begin(); unsigned b = idx(k), r = VN; bool end = false;
    for(unsigned p = 0; p < VN; p++) { UNROLL; if(p < b || end) continue; if(active(s[p])) { if(idx(key_of(s[p])) != b) end = true; } else if(sparse(s[p])) { if(sparse(s[p], b)) { if(r == VN) r = p; } else end = true; } else { if(r == VN) r = p; end = true; } }
    return r;
}
static void same(M& m, const Mod& d)
{
    ENS(inv(m), "invariant of the slots");
    unsigned n = 0; for(unsigned p = 0; p < VN + 1; p++) { UNROLL; if(d.k[p] != 0) n++; }
    ENS(m.size() == n && m.empty() == (n == 0), "size is the number of elements");
    K w = (K)i16(); int32_t v = 0; bool in = has(d, w, v); auto f = m.fll(w); ENS((f.second != M::npos()) == in && m.contains(w) == in && asc(m).count(w) == (in ? 1u : 0u), "exactly the keys put in and not erased are found");
    if(in) ENS(key_of(*f.first) == w && val_of(*f.first) == v, "a key has the value last stored for it"); else ENS(f.first == m.c().end(), "a key not there is at the end");
}
#define STATE M m; { Mod z; get(m, z); int32_t u; ENS(m.size() == 0 && m.empty() && !has(z, (K)i16(), u) && inv(m), "a new container is empty"); } for(unsigned p = 0; p < VN; p++) { UNROLL; any_slot(m.c()[p]); } REQ(inv(m)); Mod d; get(m, d); K k = (K)i16(); int32_t v = i32(), old = 0; bool in = has(d, k, old); unsigned at = k == 0 ? VN : room(m, k); REACH("entry")
#define PUT(R, W) do { auto r = R; if(in) ENS(!r.second && key_of(*(C*)&*r.first) == k && val_of(*(C*)&*r.first) == (W), "a key which is there is not put in again"); else if(at == VN) ENS(!r.second && &*r.first == nullptr, "no insertion without room"); else { ENS(r.second && (C*)&*r.first == &m.c()[at] && key_of(m.c()[at]) == k && val_of(m.c()[at]) == v, "the element is put in and returned"); store(d, k, v); } } while(0)
#ifndef VU
#define VU 10
#endif
#if VK == 1
//@ entry vh_map_find kind=full unwind=10 defs=VK=1,VN=5,VHASH=H3
ENTRY(vh_map_find) { STATE; same(m, d); auto i = m.begin(); auto ci = asc(m).begin(); C* s = m.c().begin(); bool walk = true; for(unsigned p = 0; p < VN; p++) { UNROLL; if(!active(s[p])) continue; walk = walk && i != m.end() && (C*)&*i == &s[p] && ci != m.cend() && (const C*)&*ci == &s[p]; if(!walk) break; ++i; ++ci; } ENS(walk && i == m.end() && ci == m.cend(), "iteration visits every element once");
    auto f = m.find(k); auto cf = asc(m).find(k); ENS((f == m.end()) == !in && (cf == m.cend()) == !in, "find says whether the key is there"); if(in) ENS(f->first == k && f->second == old && cf->first == k && cf->second == old, "find yields the element");
    if(k != 0) { unsigned b = m.bucket(k), n = 0, e = 0; ENS(b == idx(k), "the bucket of a key"); for(auto it = m.cbegin(b); it != m.cend(b); ++it) { walk = walk && idx(it->first) == b; n++; } for(unsigned p = 0; p < VN; p++) { UNROLL; if(active(s[p]) && idx(key_of(s[p])) == b) e++; } ENS(walk && n == e && m.bucket_size(b) == e, "a bucket holds exactly its elements"); } REACH("done"); }
//@ entry vh_map_insert kind=full unwind=10 defs=VK=1
//@ entry vh_map_insert kind=full unwind=10 defs=VK=1,VN=6,VHASH=H3
ENTRY(vh_map_insert) { STATE; const M::value_type e(k, v); PUT(m.insert(e), old); same(m, d); REACH("done"); }
//@ entry vh_map_emplace kind=full unwind=10 defs=VK=1,VN=5,VHASH=H3
ENTRY(vh_map_emplace) { STATE; unsigned op = small(0, 2); if(op == 0) PUT(m.emplace(k, v), old); else if(op == 1) PUT(m.try_emplace(k, v), old); else PUT(m.insert(M::value_type(k, v)), old); same(m, d); REACH("done"); }
//@ entry vh_map_assign kind=full unwind=10 defs=VK=1,VN=5,VHASH=H3
ENTRY(vh_map_assign) { STATE; REQ(in || at < VN); bool br = flag(); if(br) { int32_t& x = m[k]; ENS(!in || x == old, "operator[] yields the value of a key which is there"); x = v; } else { auto r = m.insert_or_assign(k, v); ENS(r.second == !in && r.first->first == k && r.first->second == v, "insert_or_assign says whether it inserted"); } store(d, k, v); same(m, d); REACH("done"); }
//@ entry vh_map_erase kind=full unwind=10 defs=VK=1
//@ entry vh_map_erase kind=full unwind=10 defs=VK=1,VN=6,VHASH=H3
ENTRY(vh_map_erase) { STATE; ENS(m.erase(k) == (in ? 1u : 0u), "erase says whether the key was there"); if(in) drop(d, k); same(m, d); if(in) { auto r = m.insert(M::value_type(k, v)); ENS(r.second, "an erased key can be put in again"); } REACH("done"); }
//@ entry vh_map_erase_it kind=full unwind=10 defs=VK=1,VN=5,VHASH=H3
ENTRY(vh_map_erase_it) { STATE; REQ(in); auto f = m.fll(k); C* p = f.first; bool gc = flag(); if(gc) m.erase_and_gc(m.find(k)); else { auto r = m.erase(m.find(k)); C* q = p + 1; C* e = m.c().end(); for(unsigned j = 0; j < VN; j++) { UNROLL; if(q != e && !active(*q)) q++; } ENS(r == M::iterator(&m, (M::pointer)q), "erase returns the element after the erased"); } drop(d, k); same(m, d); REACH("done"); }
//@ entry vh_map_clear kind=full unwind=10 defs=VK=1,VN=5,VHASH=H3
ENTRY(vh_map_clear) { STATE; m.clear(); for(unsigned p = 0; p < VN + 1; p++) { UNROLL; d.k[p] = 0; } same(m, d); REQ(k != 0); auto r = m.insert(M::value_type(k, v)); ENS(r.second, "a cleared container takes elements"); REACH("done"); }
#elif VK == 2
//@ entry vh_set_insert kind=full unwind=10 defs=VK=2
//@ entry vh_set_insert kind=full unwind=10 defs=VK=2,VN=6,VHASH=H3
ENTRY(vh_set_insert) { STATE; v = 0; same(m, d); PUT(m.insert(k), 0); same(m, d); REACH("done"); }
//@ entry vh_set_erase kind=full unwind=10 defs=VK=2
//@ entry vh_set_erase kind=full unwind=10 defs=VK=2,VN=6,VHASH=H3
ENTRY(vh_set_erase) { STATE; ENS(m.erase(k) == (in ? 1u : 0u), "erase says whether the key was there"); if(in) drop(d, k); same(m, d); auto i = m.begin(); C* s = m.c().begin(); bool walk = true; for(unsigned p = 0; p < VN; p++) { UNROLL; if(!active(s[p])) continue; walk = walk && i != m.end() && &*i == &s[p]; if(!walk) break; ++i; } ENS(walk && i == m.end(), "iteration visits every element once"); REACH("done"); }
#else
// lifetimes of the values: the map built by its own operations, each value destroyed once
typedef estd::layer1::unordered_map<K, Tr, VN, VHASH> T;
template <class F> static void lives(F f)
{
    K a = (K)i16(), b = (K)i16(), c = (K)i16(); REQ(a != 0 && b != 0 && c != 0); track_start(); T m; int32_t va = i32(), vb = i32();
    REACH("entry"); m.try_emplace(a, va); m.emplace(b, vb); f(m, a, b, c);
    unsigned n = 0; for(auto& e : m) { used(&e.second); n++; } ENS(m.size() == n && live_count() == n, "exactly the values of the elements are alive"); m.clear(); ENS(live_count() == 0 && m.empty(), "clear destroys every value once"); REACH("done");
}
//@ entry vh_live_erase kind=full unwind=10 defs=VK=3,VN=5,VHASH=H3
ENTRY(vh_live_erase) { lives([](T& m, K a, K, K c) { bool in = m.contains(c); ENS(m.erase(c) == (in ? 1u : 0u) && !m.contains(c), "erase removes the element"); auto i = m.find(a); if(i != m.end()) m.erase(i); ENS(!m.contains(a), "erase removes the element"); }); }
//@ entry vh_live_gc kind=full unwind=10 defs=VK=3,VN=5,VHASH=H3
ENTRY(vh_live_gc) { lives([](T& m, K a, K b, K) { if(!m.contains(b)) return; auto i = m.find(a); m.erase_and_gc(i); ENS(!m.contains(a) && (a == b || m.contains(b)), "erase_and_gc removes the element"); }); }
//@ entry vh_live_clear kind=full unwind=10 defs=VK=3,VN=5,VHASH=H3
ENTRY(vh_live_clear) { lives([](T& m, K, K, K c) { m.clear(); ENS(m.empty() && live_count() == 0, "clear destroys every value once"); m.try_emplace(c, 5); }); }
//@ entry vh_live_assign kind=full unwind=10 defs=VK=3,VN=5,VHASH=H3
ENTRY(vh_live_assign) { lives([](T& m, K a, K b, K c) { if(!m.contains(b) || (c != a && c != b)) return; int32_t v = i32(); auto r = m.insert_or_assign(c, v); ENS(!r.second && r.first->second.v == v && m.size() == (a == b ? 1u : 2u), "insert_or_assign assigns to the value of a key which is there"); }); }
//@ entry vh_slot_bucket kind=full unwind=10 defs=VK=3,VN=5,VHASH=H3
ENTRY(vh_slot_bucket) { C c; c.first = 0; c.second.raw = (uint16_t)u32(); c.second.marked_for_gc = 1; unsigned b = upto(0, 32767), o = u32(); c.second.bucket = b; REACH("entry"); ENS(UB::traits::is_sparse(c, b) && (o == b || !UB::traits::is_sparse(c, o)) && UB::traits::is_empty(c), "an erased slot knows its bucket whatever the number of buckets"); UB::traits::set_null(&c); ENS(UB::traits::is_empty(c) && !UB::traits::is_sparse(c), "a slot set to null is empty and not an erased one"); REACH("done"); }
#endif
