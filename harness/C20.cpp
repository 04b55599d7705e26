// C20: stream buffers over memory deliver every character in order and stay inside their memory.
#include <assert.h>
#include "vh.h"
#include <estd/istream.h>
#include <estd/ostream.h>
#include <estd/sstream.h>
#include <estd/span.h>
#include <estd/internal/impl/streambuf/buffer.h>
using namespace vh;

typedef const char const_;
#ifndef VT
#define VT char
#endif
template <class T> static const T& asc(const T& x) { return x; }
typedef estd::ios_base ios;
namespace layer1 = estd::layer1;
// ---- spans of any length: proved by loop invariants -------------------------------------------
static const VT* g_d; static size_t g_n;        // the span
static char *g_buf; static const char* g_in; static size_t g_c;   // a block being moved
static size_t g_k; static char g_v;
static size_t g_j; static char g_u;
SPEC int64_t D(const void* p, const void* q) { return __vh_diff((const char*)p, (const char*)q); }
INV(lock)(const char* p, const char* q) { return __vh_same(p, g_in) && __vh_same(q, g_buf) && D(p, g_in) == D(q, g_buf) && D(p, g_in) >= 0 && D(p, g_in) <= (int64_t)g_c; }
INV(cnt)(const char* p, size_t c) { return __vh_same(p, g_in) && D(p, g_in) == (int64_t)(g_c - c) && c <= g_c; }
INV(cnti)(const char* p, int c) { return __vh_same(p, g_in) && D(p, g_in) == (int64_t)g_c - c && c >= 0 && c <= (int64_t)g_c; }
#ifdef P_FRAME
INV(frame)() { return !g_buf || g_buf[g_j] == g_u; }
#else
INV(done)(const char* q) { return D(q, g_buf) <= (int64_t)g_k || g_buf[g_k] == g_v; }
INV(todo)(const char* q) { return !g_in || g_in[g_k] == g_v; }
#endif

typedef estd::internal::streambuf<estd::internal::impl::in_span_streambuf<VT> > IB;
typedef IB::traits_type IT;
SPEC bool is_ch(IB::int_type r, VT c) { return r != IT::eof() && (uint8_t)IT::to_char_type(r) == (uint8_t)c && r == (IB::int_type)(uint8_t)c; }
SPEC size_t at(const IB& b) { return (size_t)D(b.gptr(), b.eback()); }
static size_t span_len() { size_t n = len(); REQ(n > 0 && n < ((size_t)1 << 30)); return n; }
//@ entry vh_in_span kind=proof
//@ entry vh_in_span defs=VT=const_ kind=proof
ENTRY(vh_in_span)
{
    g_n = span_len(); VT* d = (VT*)vh::array<char>(g_n); g_d = d; IB sb(estd::span<VT>(d, g_n)); size_t p = upto(0, MAXN); REQ(p <= g_n);
    REACH("entry"); size_t r0 = (size_t)(long)sb.pubseekoff((long)p, ios::beg, ios::in); ENS(r0 == p && at(sb) == p, "seeking to a position");
    ENS(sb.eback() == d && sb.gptr() == d + p && sb.egptr() == d + g_n, "the get area is the span"); ENS(sb.in_avail() == (p < g_n ? (int)(g_n - p) : -1), "in_avail");
    { IB t(asc(sb)); IB::int_type r = t.sgetc(); ENS(at(t) == p && (p < g_n ? is_ch(r, d[p]) : r == IT::eof()), "sgetc yields the current character"); }
    { IB t(asc(sb)); IB::int_type r = t.sbumpc(); ENS(at(t) == (p < g_n ? p + 1 : p) && (p < g_n ? is_ch(r, d[p]) : r == IT::eof()), "sbumpc yields the current character and advances"); }
    { IB t(asc(sb)); IB::int_type r = t.snextc(); ENS(at(t) == (p < g_n ? p + 1 : p) && (p + 1 < g_n ? is_ch(r, d[p + 1]) : r == IT::eof()), "snextc advances and yields the next character"); }
    { IB t(asc(sb)); IB::int_type r = t.sungetc(); ENS(at(t) == (p ? p - 1 : 0) && (p ? is_ch(r, d[p - 1]) : r == IT::eof()), "sungetc steps back"); }
    { IB t(asc(sb)); long o = (long)u64(); REQ(o >= -(long)p && o <= (long)(g_n - p)); long q = (long)t.pubseekoff(o, ios::cur, ios::in); ENS(at(t) == p + o && q == (long)p + o, "seeking relative to the position"); } REACH("done");
}
//@ entry vh_in_span_n kind=proof
//@ entry vh_in_span_n defs=VT=const_ kind=proof
//@ entry vh_in_span_n defs=P_FRAME kind=proof
ENTRY(vh_in_span_n)
{
    g_n = span_len(); VT* d = (VT*)vh::array<char>(g_n); g_d = d; IB sb(estd::span<VT>(d, g_n)); size_t p = upto(0, MAXN); REQ(p < g_n); sb.pubseekoff((long)p, ios::beg, ios::in);
    size_t n = upto(1, MAXN); REQ(n < ((size_t)1 << 30)); size_t c = n < g_n - p ? n : g_n - p; g_in = (const char*)d + p; g_c = c; char* o = vh::array<char>(n); g_buf = o; __vh_writable(g_buf, n);
#ifdef P_FRAME
    g_j = upto(0, MAXN); REQ(g_j >= c && g_j < n); g_u = g_buf[g_j];
#else
    g_k = upto(0, MAXN); REQ(g_k < c); g_v = g_in[g_k];
#endif
    REACH("entry"); int r = sb.sgetn(o, (int)n); ENS(r == (int)c && at(sb) == p + c, "sgetn consumes what is available, at most count");
#ifdef P_FRAME
    ENS(o[g_j] == g_u, "sgetn writes only what it delivers");
#else
    ENS(o[g_k] == g_v, "sgetn copies the characters in order");
#endif
    REACH("done");
}
// ---- writing into a span ----------------------------------------------------------------------
typedef estd::internal::streambuf<estd::internal::impl::out_span_streambuf<char> > OB;
//@ entry vh_out_span kind=proof
ENTRY(vh_out_span)
{
    g_n = span_len(); char* d = vh::array<char>(g_n); OB sb(estd::span<char>(d, g_n)); size_t p = upto(0, MAXN); REQ(p <= g_n); __vh_writable(d, g_n); g_j = upto(0, MAXN); REQ(g_j < g_n); g_u = d[g_j];
    REACH("entry"); sb.pubseekoff((long)p, ios::beg, ios::out); ENS(sb.pos() == p && sb.pbase() == d && sb.pptr() == d + p && sb.epptr() == d + g_n, "the put area is the span"); char c = ch();
    OB::int_type r = sb.sputc(c); ENS(p < g_n ? r == (uint8_t)c && sb.pos() == p + 1 : r == OB::traits_type::eof() && sb.pos() == p, "sputc stores one character or fails"); ENS(d[g_j] == (g_j == p ? c : g_u), "sputc writes only the current position");
    long o = (long)u64(); size_t q = sb.pos(); REQ(o >= -(long)q && o <= (long)(g_n - q)); sb.pubseekoff(o, ios::cur, ios::out); ENS(sb.pos() == q + o, "seeking relative to the position"); sb.pubseekoff(-(long)p, ios::end, ios::out); ENS(sb.pos() == g_n - p, "seeking from the end"); REACH("done");
}
//@ entry vh_out_span_n kind=proof
//@ entry vh_out_span_n defs=P_FRAME kind=proof
ENTRY(vh_out_span_n)
{
    g_n = span_len(); char* d = vh::array<char>(g_n); OB sb(estd::span<char>(d, g_n)); size_t p = upto(0, MAXN); REQ(p <= g_n); sb.pubseekoff((long)p, ios::beg, ios::out); __vh_writable(d, g_n);
    size_t n = upto(1, MAXN); REQ(n < ((size_t)1 << 30)); size_t c = n < g_n - p ? n : g_n - p; const char* s = vh::array<char>(n);
#ifdef P_FRAME
    g_j = upto(0, MAXN); REQ(g_j < g_n && (g_j < p || g_j >= p + c)); g_u = d[g_j];
#else
    g_k = upto(0, MAXN); REQ(g_k < c); g_v = s[g_k];
#endif
    REACH("entry"); int r = sb.sputn(s, (int)n); ENS(r == (int)c && sb.pos() == p + c, "sputn stores what fits and reports how much");
#ifdef P_FRAME
    ENS(d[g_j] == g_u, "sputn writes only what it reports");
#else
    ENS(d[p + g_k] == g_v, "sputn stores the characters in order");
#endif
    REACH("done");
}
// ---- string buffers of fixed capacity: every state of the type --------------------------------
#ifndef VN
#define VN 6
#endif
#ifndef VNT
#define VNT true
#endif
typedef layer1::stringbuf<VN, VNT> SB; enum { CAP = VNT ? VN - 1 : VN };
typedef SB::traits_type ST;
struct Model { char c[VN + 1]; unsigned n, p; };
static SB make(Model& m) { SB sb; m.n = small(0, CAP); for(unsigned i = 0; i < VN; i++) { UNROLL; m.c[i] = ch(); if(VNT) REQ(m.c[i] != 0); } for(unsigned i = 0; i < VN; i++) { UNROLL; if(i < m.n) sb.sputc(m.c[i]); } m.p = small(0, CAP); REQ(m.p <= m.n); sb.pubseekoff((long)m.p, ios::beg, ios::in); return sb; }
SPEC bool holds(SB& sb, const Model& m)
{
    bool ok = sb.str().size() == m.n && sb.pos() == m.p; const char* d = sb.str().data();
    for(unsigned i = 0; i < VN; i++) { UNROLL; if(i < m.n && d[i] != m.c[i]) ok = false; } return ok;
}
//@ entry vh_string kind=full unwind=9
//@ entry vh_string defs=VNT=false kind=full unwind=9
ENTRY(vh_string)
{
    Model m; SB sb = make(m); REACH("entry"); ENS(holds(sb, m), "characters put are the string, in order"); ENS(sb.in_avail() == (m.p < m.n ? (int)(m.n - m.p) : -1), "in_avail");
    { SB t(asc(sb)); int r = t.sgetc(); ENS(holds(t, m) && (m.p < m.n ? r == (uint8_t)m.c[m.p] : r == ST::eof()), "sgetc"); }
    { SB t(asc(sb)); Model k = m; int r = t.sbumpc(); if(m.p < m.n) k.p++; ENS(holds(t, k) && (m.p < m.n ? r == (uint8_t)m.c[m.p] : r == ST::eof()), "sbumpc"); }
    { SB t(asc(sb)); Model k = m; int r = t.snextc(); if(m.p < m.n) k.p++; ENS(holds(t, k) && (m.p + 1 < m.n ? r == (uint8_t)m.c[m.p + 1] : r == ST::eof()), "snextc"); }
    { SB t(asc(sb)); Model k = m; int r = t.sungetc(); if(m.p) k.p--; ENS(holds(t, k) && (m.p ? r == (uint8_t)m.c[m.p - 1] : r == ST::eof()), "sungetc"); }
    { SB t(asc(sb)); Model k = m; int o = (int)small(0, CAP); REQ(m.p + o <= m.n); k.p += o; ENS((int)(long)t.pubseekoff(o, ios::cur, ios::in) == (int)k.p && holds(t, k), "seek forward"); k.p = m.p; ENS((int)(long)t.pubseekoff(-o, ios::cur, ios::in) == (int)k.p && holds(t, k), "seek back"); k.p = m.n - o; ENS((int)(long)t.pubseekoff(-o, ios::end, ios::in) == (int)k.p && holds(t, k), "seek from the end"); }
    REACH("done");
}
//@ entry vh_string_n kind=full unwind=9
//@ entry vh_string_n defs=VNT=false kind=full unwind=9
ENTRY(vh_string_n)
{
    Model m; SB sb = make(m); REACH("entry"); char o[VN + 2], old[VN + 2]; fill(o); for(unsigned i = 0; i < VN + 2; i++) { UNROLL; old[i] = o[i]; } unsigned cnt = small(0, VN + 2), c = cnt < m.n - m.p ? cnt : m.n - m.p;
    { SB t(asc(sb)); Model k = m; int r = t.sgetn(o, (int)cnt); k.p += c; ENS(r == (int)c && holds(t, k), "sgetn consumes what is available"); for(unsigned i = 0; i < VN + 2; i++) { UNROLL; ENS(o[i] == (i < c ? m.c[m.p + i] : old[i]), "sgetn delivers exactly those characters"); } }
    unsigned add = small(0, VN); REQ(m.n + add <= CAP); { SB t(asc(sb)); Model k = m; if(VNT) for(unsigned i = 0; i < VN; i++) { UNROLL; REQ(old[i] != 0); } int r = t.sputn(old, (int)add); for(unsigned i = 0; i < VN; i++) { UNROLL; if(i < add) k.c[k.n++] = old[i]; } ENS(r == (int)add && holds(t, k), "sputn appends the characters"); } REACH("done");
}
// ---- output collected in a buffer in front of another stream buffer ------------------------------
typedef estd::internal::out_buffered_stringbuf<layer1::stringbuf<10, false>, 3> OBS;
//@ entry vh_out_buffered kind=full unwind=12 defs=VOP=0
//@ entry vh_out_buffered kind=full unwind=12 defs=VOP=1
#ifdef VOP
ENTRY(vh_out_buffered)
{
    OBS sb; char s[12]; fill(s); unsigned n = 0, a = small(0, 3); for(unsigned i = 0; i < 3; i++) { UNROLL; if(i < a) { ENS(sb.sputc(s[n]) != OBS::traits_type::eof(), "sputc accepts a character while there is room"); n++; } }
    REACH("entry"); ENS(sb.rdbuf().str().empty(), "nothing is passed on before the buffer is full");
#if VOP == 0
    unsigned b = small(0, 4); for(unsigned i = 0; i < 4; i++) { UNROLL; if(i < b) { ENS(sb.sputc(s[n]) != OBS::traits_type::eof(), "sputc flushes a full buffer and stores the character"); n++; } }
#else
    unsigned b = small(0, 6); int r = sb.sputn(s + n, (int)b); ENS(r >= 0 && r <= (int)b && (b == 0 || r > 0), "sputn reports how much it took"); ENS(b > 3 || r == (int)b, "sputn takes whatever fits after flushing"); n += r;
#endif
    ENS(sb.rdbuf().str().size() <= n, "never more than was put"); for(unsigned i = 0; i < 7; i++) { UNROLL; if(i < sb.rdbuf().str().size()) ENS(sb.rdbuf().str().data()[i] == s[i], "characters pass on in order"); }
    ENS(sb.pubsync() == 0 && sb.rdbuf().str().size() == n, "pubsync passes on everything taken"); for(unsigned i = 0; i < 10; i++) { UNROLL; if(i < n) ENS(sb.rdbuf().str().data()[i] == s[i], "every character arrives once and in order"); } REACH("done");
}
#endif
