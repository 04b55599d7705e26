// C09: span and array are exact views of their elements.
#include <assert.h>
#include "vh.h"
#include <estd/span.h>
#include <estd/array.h>
using namespace vh;
typedef estd::span<int> S; typedef estd::span<int, 5> SF;
//@ entry vh_span_dynamic
ENTRY(vh_span_dynamic)
{
    int a[8]; fill(a); unsigned lo = small(0, 8), n = small(0, 8); REQ(lo + n <= 8); REACH("entry");
    S s(a + lo, (size_t)n);
    ENS(s.size() == n && s.size_bytes() == 4 * n && s.empty() == (n == 0), "span: size");
    ENS(s.data() == a + lo && s.begin() == a + lo && s.end() == a + lo + n && s.cbegin() == a + lo && s.cend() == a + lo + n, "span: bounds");
    S p(a + lo, a + lo + n); ENS(p.size() == n && p.data() == a + lo, "span: from two pointers");
    S w(a); ENS(w.size() == 8 && w.data() == a, "span: from an array");
    S c(s); ENS(c.data() == s.data() && c.size() == n, "span: copy views the same elements");
    S z; ENS(z.size() == 0 && z.empty(), "span: default is empty");
    z = s; ENS(z.data() == s.data() && z.size() == n, "span: assignment views the same elements");
    unsigned i = small(0, 7); REQ(i < n); REACH("element");
    const S& k = s;
    ENS(&s[i] == a + lo + i && &k[i] == a + lo + i, "span: element i");
    int v = i32(); s[i] = v; ENS(a[lo + i] == v, "span: writes reach the viewed element");
}
//@ entry vh_subspan
ENTRY(vh_subspan)
{
    int a[8]; unsigned n = small(0, 8), off = small(0, 8), cnt = small(0, 8); REQ(off <= n && off + cnt <= n); REACH("entry");
    S s(a, (size_t)n);
    S r = s.subspan(off); ENS(r.data() == a + off && r.size() == n - off, "subspan(offset): the rest of the elements");
    S q = s.subspan(off, cnt); ENS(q.data() == a + off && q.size() == cnt, "subspan(offset, count)");
    S f = s.first(cnt); ENS(f.data() == a && f.size() == cnt, "first(count)");
    estd::span<int, 2> g = s.first<2>(); ENS(g.data() == a && g.size() == 2, "first<count>");
    SF x(a + 1); S y = x.subspan(1, 3); ENS(y.data() == a + 2 && y.size() == 3, "fixed extent: subspan");
}
//@ entry vh_span_fixed
ENTRY(vh_span_fixed)
{
    int a[5]; fill(a); REACH("entry");
    SF s(a); ENS(s.size() == 5 && s.size_bytes() == 20 && !s.empty() && s.data() == a && s.end() == a + 5 && s.cend() == a + 5, "fixed extent: size and bounds");
    S d(s); ENS(d.size() == 5 && d.data() == a, "fixed extent converts to dynamic");
    auto b = estd::as_bytes(d); ENS((const void*)b.data() == (const void*)a && b.size() == 20, "as_bytes: every byte of the elements");
    auto bf = estd::as_bytes(s); ENS((const void*)bf.data() == (const void*)a && bf.size() == 20, "as_bytes (fixed)");
    auto w = estd::as_writable_bytes(d); ENS((void*)w.data() == (void*)a && w.size() == 20, "as_writable_bytes");
    unsigned i = small(0, 4); ENS(&s[i] == a + i, "fixed extent: element i");
    SF t(s); ENS(t.data() == a, "fixed extent: copy");
}
//@ entry vh_array
ENTRY(vh_array)
{
    typedef estd::array<int, 5> A; A a; int m[5]; fill(m); for(unsigned i = 0; i < 5; i++) { UNROLL; a[i] = m[i]; } REACH("entry");
    const A& c = a; unsigned i = small(0, 4);
    ENS(a.size() == 5 && a.max_size() == 5 && !a.empty(), "array: size");
    ENS(c[i] == m[i] && a.data()[i] == m[i] && *(a.begin() + i) == m[i], "array: element i");
    ENS(&a.front() == a.data() && &c.front() == a.data(), "array: front is the first element");
    ENS(&a.back() == a.data() + 4 && &c.back() == a.data() + 4, "array: back is the last element");
    ENS(a.end() - a.begin() == 5 && c.cend() - c.cbegin() == 5 && c.end() == a.end(), "array: bounds");
    int v = i32(); A f = a; f.fill(v); ENS(f[i] == v && a[i] == m[i], "array: fill writes every element, copies are independent");
    A g = a; ENS(g == a && !(g != a), "array: copies are equal"); int x = i32(); g[i] = x; ENS((g == a) == (x == m[i]) && (g != a) == (x != m[i]), "array: equality compares every element");
    auto t = estd::to_array(m); ENS(t.size() == 5 && t[i] == m[i], "to_array: copies every element");
    estd::array<int, 4> h; ENS(!(h == a) && h != a, "array: different lengths are unequal");
}
struct O { uint8_t v; uint16_t w; O(uint8_t x = 7) : v(x), w(x) {} };
//@ entry vh_uninitialized_array
ENTRY(vh_uninitialized_array)
{
    estd::internal::uninitialized_array<O, 4> a; unsigned i = small(0, 3), j = small(0, 3); REACH("entry");
    ENS((char*)&a[i] == (char*)a.data() + i * sizeof(O) && a.end() - a.begin() == 4, "uninitialized_array: elements are contiguous");
    new (&a[i]) O(3); REQ(i != j); new (&a[j]) O(9); ENS(a[i].v == 3 && a[j].w == 9, "uninitialized_array: elements do not overlap");
}
