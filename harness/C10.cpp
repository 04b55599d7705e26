// C10: searching and comparing strings and string views; views of any content, reads stay inside.
#include <assert.h>
#include "vh.h"
#include <estd/string_view.h>
#include <estd/string.h>
using namespace vh;
typedef estd::string_view SV;
typedef estd::layer3::const_string CS;
#ifndef VB
#define VB 3      // longest haystack
#endif
#ifndef VN
#define VN 2      // longest needle
#endif
// exact-size objects: any read outside the text is a failed obligation
static char* text(size_t n, size_t max) { char* p = (char*)__vh_fresh(n); for(size_t i = 0; i < max; i++) { UNROLL; if(i < n) p[i] = ch(); } return p; }
static char* cstr(size_t n, size_t max) { char* p = (char*)__vh_fresh(n + 1); for(size_t i = 0; i < max; i++) { UNROLL; if(i < n) { p[i] = ch(); REQ(p[i] != 0); } } p[n] = 0; return p; }
static bool at(const char* h, size_t n, size_t i, const char* s, size_t c)
{
    if(i > n || c > n - i) return false;
    bool r = true; for(size_t j = 0; j < VN; j++) { UNROLL; if(j < c && h[i + j] != s[j]) r = false; } return r;
}
static size_t first_at(const char* h, size_t n, const char* s, size_t c, size_t pos)
{ size_t r = SV::npos; for(size_t k = 0; k <= VB; k++) { UNROLL; size_t i = VB - k; if(i >= pos && at(h, n, i, s, c)) r = i; } return r; }
static size_t last_at(const char* h, size_t n, const char* s, size_t c, size_t pos)
{ size_t r = SV::npos; for(size_t i = 0; i <= VB; i++) { UNROLL; if(i <= pos && at(h, n, i, s, c)) r = i; } return r; }
static bool isin(char x, const char* s, size_t c) { bool r = false; for(size_t j = 0; j < VN; j++) { UNROLL; if(j < c && s[j] == x) r = true; } return r; }
static size_t anypos() { size_t p = u64(); REQ(p <= VB + 2 || p == SV::npos); return p; }

//@ entry vh_find_short unwind=5 kind=bounded tdefs=VB=5,VN=3 tunwind=7
ENTRY(vh_find_short)
{
    size_t n = small(0, VB), c = small(0, VN), pos = anypos(); char* h = text(n, VB); char* s = text(c, VN); REACH("entry");
    SV v(h, n);
    ENS(v.find(s, pos, c) == first_at(h, n, s, c, pos), "find(s, pos, count): first occurrence at or after pos, else npos");
    ENS(v.rfind(s, pos, c) == last_at(h, n, s, c, pos), "rfind(s, pos, count): last occurrence at or before pos, else npos");
    ENS(v.find(SV(s, c), pos) == first_at(h, n, s, c, pos) && v.rfind(SV(s, c), pos) == last_at(h, n, s, c, pos), "find, rfind of a string view");
}
//@ entry vh_find_of unwind=5 kind=bounded tdefs=VB=5,VN=3 tunwind=7
ENTRY(vh_find_of)
{
    size_t n = small(0, VB), c = small(0, VN), pos = anypos(); char* h = text(n, VB); char* s = text(c, VN); REACH("entry");
    SV v(h, n);
    size_t f = SV::npos, l = SV::npos;
    for(size_t k = 0; k < VB; k++) { UNROLL; size_t i = VB - 1 - k; if(i < n && i >= pos && isin(h[i], s, c)) f = i; }
    for(size_t i = 0; i < VB; i++) { UNROLL; if(i < n && i <= pos && isin(h[i], s, c)) l = i; }
    ENS(v.find_first_of(s, pos, c) == f, "find_first_of: first character of the set at or after pos, else npos");
    ENS(v.find_last_of(s, pos, c) == l, "find_last_of: last character of the set at or before pos, else npos");
    ENS(v.find_first_of(SV(s, c), pos) == f && v.find_last_of(SV(s, c), pos) == l, "find_first_of, find_last_of of a string view");
}
//@ entry vh_find_cstr unwind=5 kind=bounded
ENTRY(vh_find_cstr)
{
    size_t n = small(0, VB), c = small(0, VN); char* h = text(n, VB); char* s = cstr(c, VN); REACH("entry");
    SV v(h, n);
    ENS(v.find(s) == first_at(h, n, s, c, 0) && v.rfind(s) == last_at(h, n, s, c, SV::npos), "find, rfind of a C string: default position covers the whole string");
}
//@ entry vh_find_cstr_pos unwind=5 kind=bounded defs=VB=2,VN=2
ENTRY(vh_find_cstr_pos)
{
    size_t n = small(0, VB), c = small(0, VN), pos = anypos(); char* h = text(n, VB); char* s = cstr(c, VN); REACH("entry");
    SV v(h, n);
    ENS(v.find(s, pos) == first_at(h, n, s, c, pos) && v.rfind(s, pos) == last_at(h, n, s, c, pos), "find, rfind of a C string from a position");
}
//@ entry vh_find_chars unwind=5 kind=bounded
ENTRY(vh_find_chars)
{
    size_t n = small(0, VB), c = small(0, VN), pos = anypos(); char* h = text(n, VB); char* s = cstr(c, VN); char x = ch(); REACH("entry");
    SV v(h, n);
    ENS(v.find(x, pos) == first_at(h, n, &x, 1, pos), "find(ch): first occurrence at or after pos");
    size_t f = SV::npos, l = SV::npos;
    for(size_t i = 0; i < VB; i++) { UNROLL; if(i < n && isin(h[i], s, c)) { l = i; if(f == SV::npos) f = i; } }
    ENS(v.find_first_of(s) == f && v.find_last_of(s) == l, "find_first_of, find_last_of of a C string over the whole string");
}
//@ entry vh_affix unwind=8 kind=bounded tdefs=VB=7,VN=4 tunwind=10
ENTRY(vh_affix)
{
    size_t n = small(0, VB), c = small(0, VN); char* h = text(n, VB); char* s = cstr(c, VN); char x = ch(); REACH("entry");
    SV v(h, n), w(s, c);
    bool pre = at(h, n, 0, s, c), suf = c <= n && at(h, n, n - c, s, c);
    ENS(v.starts_with(w) == pre && v.starts_with(s) == pre, "starts_with: exactly if the prefix is there");
    ENS(v.ends_with(w) == suf && v.ends_with(s) == suf, "ends_with: exactly if the suffix is there");
    ENS(v.starts_with(x) == (n > 0 && h[0] == x), "starts_with(ch)"); ENS(v.ends_with(x) == (n > 0 && h[n - 1] == x), "ends_with(ch)");
}
//@ entry vh_compare unwind=8 kind=bounded tdefs=VB=7,VN=7 tunwind=10
ENTRY(vh_compare)
{
    size_t n = small(0, VB), c = small(0, VN); char* h = text(n, VB); char* s = cstr(c, VN); REACH("entry");
    SV v(h, n), w(s, c); bool eq = n == c && at(h, n, 0, s, c);
    int a = v.compare(w), b = w.compare(v);
    ENS((a == 0) == eq, "compare: zero exactly for equal text"); ENS((a < 0) == (b > 0), "compare: antisymmetric");
    ENS(v.compare(s) == a, "compare: C string and view agree");
    ENS((v == w) == eq && (v == (const char*)s) == eq && ((const char*)s == v) == eq, "==: exactly for equal text");
    char* p = text(c, VN); SV y(p, c); int d = w.compare(y); int e = v.compare(y);
    ENS(!(a < 0 && d < 0) || e < 0, "compare: transitive");
}
//@ entry vh_view unwind=8
ENTRY(vh_view)
{
    size_t n = u64(), k = u64(), m = u64(); char buf[8]; SV v(buf, n); REQ(n <= 8 && k <= n && m <= n - k); REACH("entry");
    ENS(v.data() == buf && v.size() == n && v.length() == n && v.empty() == (n == 0) && v.begin() == buf && v.end() == buf + n, "string_view: data and size");
    SV a(v); a.remove_prefix(k); ENS(a.data() == buf + k && a.size() == n - k, "remove_prefix"); ENS(v.size() == n && v.data() == buf, "a copied view is independent");
    SV b(v); b.remove_suffix(k); ENS(b.data() == buf && b.size() == n - k, "remove_suffix");
    SV c = v.substr(k, m); ENS(c.data() == buf + k && c.size() == m, "substr(pos, count)");
    size_t big = u64(); REQ(big >= n - k); SV d = v.substr(k, big); ENS(d.data() == buf + k && d.size() == n - k, "substr: count is limited to the rest of the view");
    SV e = v.substr(k); ENS(e.data() == buf + k && e.size() == n - k, "substr(pos): the rest of the view");
    SV z; ENS(z.size() == 0 && z.empty(), "default view is empty");
}
//@ entry vh_const_string unwind=8
ENTRY(vh_const_string)
{
    size_t n = small(0, 5); char b[6]; fill(b); REACH("entry");
    const char* q = b; CS s(q, n); ENS(s.size() == n && s.empty() == (n == 0), "const_string: size and empty");
    size_t i = small(0, 4); REQ(i < n); char d[6]; fill(d); char g = d[5];
    size_t c = u64(), r = s.copy(d, c, i); // any count, npos included
    ENS(r == (c < n - i ? c : n - i), "copy: number of characters copied");
    size_t k = small(0, 5); if(k < r) ENS(d[k] == b[i + k], "copy: the characters from pos"); ENS(d[5] == g, "copy: nothing past the count");
    ENS((char)s[i] == b[i] && (char)s.front() == b[0] && (char)s.back() == b[n - 1], "const_string: element, front, back");
}
