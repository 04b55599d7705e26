// C10: searching a string view, for texts of any length.
#include <assert.h>
#include "vh.h"
#include <estd/string_view.h>
using namespace vh;
typedef estd::string_view SV;
static const char *g_h, *g_s; static size_t g_n, g_c, g_pos, g_g, g_i; static bool g_match; static char g_x;
static void texts()
{
    g_n = len(); g_h = array<char>(g_n); g_c = len(); g_s = array<char>(g_c); g_pos = u64(); g_g = u64(); g_i = u64();
    __vh_ghost_index(g_g);
    g_match = flag() && g_c <= g_n && g_i <= g_n - g_c; if(g_match) __vh_declare_equal(g_s, g_h + g_i, g_c);
}
#if VF == 1
INV(from)(size_t p) { return p >= g_pos && p <= g_n; }
INV(fits)(size_t p) { return p >= g_pos && g_c <= g_n && p <= g_n - g_c + 1; }
INV(least)(size_t p) { return !(g_match && g_i >= g_pos) || p <= g_i; }
INV(keepc)(size_t v) { return v == g_c; }
INV(keepn)(size_t v) { return v == g_n; }
INV(keepl)(size_t v) { return v == g_n - g_c; }
#endif
//@ entry vh_find kind=proof defs=VF=1 twin=7
ENTRY(vh_find)
{
    texts(); SV v(g_h, g_n); size_t pos = g_pos; const char* s = g_s; size_t c = g_c;
    size_t r = v.find(s, pos, c);
    REACH("returns");
    if(r != SV::npos)
    {
        REACH("found");
        ENS(r >= g_pos && g_c <= g_n && r <= g_n - g_c, "find: position at or after pos, occurrence inside the text");
        if(g_g < g_c) ENS(g_h[r + g_g] == g_s[g_g], "find: every character of the occurrence matches");
    }
    if(g_match && g_i >= g_pos) ENS(r != SV::npos && r <= g_i, "find: no earlier occurrence is missed");
}
#if VF == 2
SPEC size_t hi() { size_t m = g_n - g_c; return g_pos < m ? g_pos : m; }
INV(upto)(size_t p) { return g_c <= g_n && p <= hi(); }
INV(greatest)(size_t p) { return !(g_match && g_i <= g_pos) || p >= g_i; }
INV(keepc)(size_t v) { return v == g_c; }
#endif
//@ entry vh_rfind kind=proof defs=VF=2 twin=7
ENTRY(vh_rfind)
{
    texts(); SV v(g_h, g_n); size_t pos = g_pos; const char* s = g_s; size_t c = g_c;
    size_t r = v.rfind(s, pos, c);
    REACH("returns");
    if(r != SV::npos)
    {
        REACH("found");
        ENS(r <= g_pos && g_c <= g_n && r <= g_n - g_c, "rfind: position at or before pos, occurrence inside the text");
        if(g_g < g_c) ENS(g_h[r + g_g] == g_s[g_g], "rfind: every character of the occurrence matches");
    }
    if(g_match && g_i <= g_pos) ENS(r != SV::npos && r >= g_i, "rfind: no later occurrence is missed");
}
#if VF == 3
INV(in)(const char* p) { return __vh_same(p, g_h) && __vh_diff(p, g_h) >= 0 && __vh_diff(p, g_h) <= (int64_t)g_n; }
INV(off)(const char* p, size_t i) { return __vh_same(p, g_h) && (uint64_t)__vh_diff(p, g_h) == i && i >= g_pos; }
INV(range)(size_t i) { return i >= g_pos && (i <= g_n || i == g_pos); }
INV(none)(size_t i) { return !(g_i >= g_pos && g_i < g_n && g_h[g_i] == g_x) || i <= g_i; }
#endif
//@ entry vh_find_ch kind=proof defs=VF=3 twin=7
ENTRY(vh_find_ch)
{
    g_n = len(); g_h = array<char>(g_n); g_pos = u64(); REQ(g_pos <= MAXN * 2); g_i = u64(); char x = g_x = ch(); SV v(g_h, g_n); size_t pos = g_pos, n = g_n; const char* h = g_h;
    size_t r = v.find(x, pos);
    REACH("returns");
    if(r != SV::npos) { REACH("found"); ENS(r >= pos && r < n && h[r] == x, "find(ch): finds the character at or after pos"); }
    if(g_i >= pos && g_i < n && h[g_i] == x) ENS(r <= g_i, "find(ch): no earlier one is missed");
}

#if VF == 4
INV(in_h)(const char* p) { return __vh_same(p, g_h) && __vh_diff(p, g_h) >= (int64_t)g_pos && __vh_diff(p, g_h) <= (int64_t)g_n; }
INV(in_s)(const char* p) { return __vh_same(p, g_s) && __vh_diff(p, g_s) >= 0 && __vh_diff(p, g_s) <= (int64_t)g_c; }
INV(none)(const char* p) { return !(__vh_same(p, g_h) && __vh_diff(p, g_h) > (int64_t)g_i && g_i >= g_pos) || g_h[g_i] != g_s[g_g]; }
INV(none_in)(const char* p, const char* q) { return !(__vh_same(p, g_h) && __vh_same(q, g_s) && __vh_diff(p, g_h) == (int64_t)g_i && __vh_diff(q, g_s) > (int64_t)g_g) || g_h[g_i] != g_s[g_g]; }
#endif
//@ entry vh_find_first_of kind=proof defs=VF=4 twin=7
ENTRY(vh_find_first_of)
{
    g_n = len(); g_h = array<char>(g_n + 1); g_c = len(); g_s = array<char>(g_c + 1); g_pos = u64(); g_i = u64(); g_g = u64(); REQ(g_i < g_n && g_g < g_c);
    const char *h = g_h, *s = g_s; size_t n = g_n, c = g_c, pos = g_pos; SV v(h, n);
    size_t r = v.find_first_of(s, pos, c);
    REACH("returns");
    if(r != SV::npos) { REACH("found"); ENS(r >= pos && r < n, "find_first_of: inside the text, at or after pos"); if(g_i >= pos && g_i < r) ENS(h[g_i] != s[g_g], "find_first_of: no earlier character of the set"); }
    else if(g_i >= pos) ENS(h[g_i] != s[g_g], "find_first_of: npos only without a character of the set");
}
#if VF == 5
SPEC size_t hi5() { return g_pos < g_n ? g_pos : g_n - 1; }
INV(in_h)(const char* p) { return __vh_same(p, g_h) && __vh_diff(p, g_h) >= 0 && __vh_diff(p, g_h) <= (int64_t)hi5(); }
INV(in_s)(size_t j) { return j <= g_c; }
INV(none)(const char* p) { return !(__vh_same(p, g_h) && __vh_diff(p, g_h) < (int64_t)g_i && g_i <= g_pos) || g_h[g_i] != g_s[g_g]; }
INV(none_in)(const char* p, size_t j) { return !(__vh_same(p, g_h) && __vh_diff(p, g_h) == (int64_t)g_i && j > g_g) || g_h[g_i] != g_s[g_g]; }
#endif
//@ entry vh_find_last_of kind=proof defs=VF=5 twin=7
ENTRY(vh_find_last_of)
{
    g_n = len(); REQ(g_n > 0); g_h = array<char>(g_n); g_c = len(); g_s = array<char>(g_c + 1); g_pos = u64(); g_i = u64(); g_g = u64(); REQ(g_i < g_n && g_g < g_c);
    const char *h = g_h, *s = g_s; size_t n = g_n, c = g_c, pos = g_pos; SV v(h, n);
    size_t r = v.find_last_of(s, pos, c);
    REACH("returns");
    if(r != SV::npos) { REACH("found"); ENS(r <= pos && r < n, "find_last_of: inside the text, at or before pos"); if(g_i <= pos && g_i > r) ENS(h[g_i] != s[g_g], "find_last_of: no later character of the set"); }
    else if(g_i <= pos) ENS(h[g_i] != s[g_g], "find_last_of: npos only without a character of the set");
}

#if VF == 6
static size_t g_o; static bool g_eqs;
// hypothesis "every character matches", instantiated where the loop stands
INV(inst)(const char* q) { if(g_eqs && __vh_same(q, g_s) && __vh_diff(q, g_s) >= 0 && __vh_diff(q, g_s) < (int64_t)g_c) REQ(g_h[g_o + __vh_diff(q, g_s)] == g_s[__vh_diff(q, g_s)]); return true; }
INV(left)(int l) { return l >= -1 && l <= (int)g_c; }
INV(left0)(int l) { return l >= 0; }
INV(left1)(int l) { return l >= 1; }
INV(inh)(const char* p) { return __vh_same(p, g_h) && __vh_diff(p, g_h) >= 0 && __vh_diff(p, g_h) <= (int64_t)g_n; }
INV(pre)(const char* p, const char* q, int l) { return __vh_same(p, g_h) && __vh_same(q, g_s) && __vh_diff(p, g_h) == __vh_diff(q, g_s) && __vh_diff(q, g_s) + l == (int64_t)g_c; }
INV(suf)(const char* p, const char* q) { return __vh_same(p, g_h) && __vh_same(q, g_s) && __vh_diff(p, g_h) == __vh_diff(q, g_s) + (int64_t)(g_n - g_c) && __vh_diff(q, g_s) >= 0 && __vh_diff(q, g_s) <= (int64_t)g_c; }
INV(eq)(const char* q) { return !(__vh_same(q, g_s) && __vh_diff(q, g_s) > (int64_t)g_g) || g_h[g_o + g_g] == g_s[g_g]; }
INV(end)(const char* p) { return __vh_same(p, g_h) && __vh_diff(p, g_h) == (int64_t)g_n; }
static bool affix(bool suffix)
{
    g_n = len(); REQ(g_n < (1u << 30)); g_h = array<char>(g_n + 1); g_c = len(); REQ(g_c < (1u << 30)); g_s = array<char>(g_c + 1); g_g = u64(); REQ(g_g < g_c);
    g_o = suffix ? g_n - g_c : 0; g_eqs = flag() && g_c <= g_n;
#ifdef VH_BOUNDED
    if(g_eqs) for(size_t i = 0; i < g_c; i++) { UNROLL; REQ(g_h[g_o + i] == g_s[i]); }
#endif
    SV v(g_h, g_n), w(g_s, g_c); bool r = suffix ? v.ends_with(w) : v.starts_with(w);
    if(g_eqs) ENS(r, "affix: true whenever all characters match");
    if(r) { ENS(g_c <= g_n && g_h[g_o + g_g] == g_s[g_g], "affix: true only if every character matches"); REACH("yes"); }
    else REACH("no");
    return r;
}
//@ entry vh_starts_with kind=proof defs=VF=6 twin=7
ENTRY(vh_starts_with) { affix(false); }
//@ entry vh_ends_with kind=proof defs=VF=6 twin=7
ENTRY(vh_ends_with) { affix(true); }
#endif
