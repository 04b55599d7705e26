// C22: extraction yields the next characters or values of the stream in order and reports what is missing.
#include <assert.h>
#include "vh.h"
#include <estd/istream.h>
#include <estd/sstream.h>
#include <estd/locale.h>
#include <estd/internal/locale/num_get.h>
using namespace vh;
#ifndef VT
#define VT int16_t
#endif
#ifndef VBASE
#define VBASE 10
#define VFMT dec
#endif
typedef VT T; typedef estd::ios_base ios;
#ifndef VN
#define VN 6
#endif
typedef estd::layer1::istringstream<VN, false> IS; typedef IS::traits_type CT;
struct Text { char c[VN + 1]; unsigned n, p; };       // what is in the stream, and how far it was read
SPEC bool space(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
static void put(IS& in, Text& m) { m.n = small(0, VN); m.p = 0; m.c[VN] = 0; for(unsigned i = 0; i < VN; i++) { UNROLL; m.c[i] = ch(); if(i < m.n) in.rdbuf()->sputc(m.c[i]); } }
static void advance(IS& in, Text& m) { unsigned p = small(0, VN); REQ(p <= m.n); for(unsigned i = 0; i < VN; i++) { UNROLL; if(i < p) in.get(); } m.p = p; }
SPEC bool at(IS& in, unsigned p) { return in.rdbuf()->pos() == p; }
enum { EOFS = ios::eofbit | ios::failbit };
//@ entry vh_get kind=full unwind=9
ENTRY(vh_get)
{
    IS in; Text m; put(in, m); advance(in, m); REACH("entry"); bool more = m.p < m.n; unsigned char c = (unsigned char)m.c[m.p]; ENS(in.good() && at(in, m.p), "characters read before are gone");
    ENS(in.peek() == (more ? (int)c : CT::eof()) && at(in, m.p) && in.good(), "peek shows the next character");
    int r = in.get(); ENS(more ? r == (int)c && in.good() && at(in, m.p + 1) : r == CT::eof() && in.rdstate() == EOFS && at(in, m.n), "get takes the next character or fails at the end"); ENS((bool)in == more && in.eof() == !more && in.fail() == !more, "state of the stream");
    in.clear(); in.unget(); unsigned q = more ? m.p + 1 : m.p; ENS(q ? in.good() && at(in, q - 1) && in.peek() == (int)(unsigned char)m.c[q - 1] : in.bad() && at(in, 0), "unget gives the last character back"); REACH("done");
}
//@ entry vh_read kind=full unwind=9
ENTRY(vh_read)
{
    IS in; Text m; put(in, m); advance(in, m); char o[VN + 3], old[VN + 3]; for(unsigned i = 0; i < VN + 3; i++) { UNROLL; o[i] = old[i] = ch(); } unsigned k = small(0, VN + 2), c = k < m.n - m.p ? k : m.n - m.p; bool some = flag(); REACH("entry");
    if(some) { int r = in.readsome(o, (int)k); ENS(r == (int)c && in.good(), "readsome takes what is available"); } else { in.read(o, (int)k); ENS(c == k ? in.good() : in.rdstate() == EOFS, "read fails unless all characters are there"); }
    ENS(at(in, m.p + c), "exactly those characters are taken"); for(unsigned i = 0; i < VN + 3; i++) { UNROLL; ENS(o[i] == (i < c ? m.c[m.p + i] : old[i]), "the characters are delivered in order, nothing else is written"); } REACH("done");
}
//@ entry vh_getline kind=full unwind=10
ENTRY(vh_getline)
{
    IS in; Text m; put(in, m); advance(in, m); char o[VN + 3], old[VN + 3]; for(unsigned i = 0; i < VN + 3; i++) { UNROLL; o[i] = old[i] = ch(); } unsigned k = small(1, VN + 2); char d = ch(); REACH("entry"); unsigned l = 0; bool found = false;
    for(unsigned i = 0; i < VN; i++) { UNROLL; if(!found && m.p + i < m.n) { if(m.c[m.p + i] == d) found = true; else l = i + 1; } }
    unsigned take = l < k - 1 ? l : k - 1; in.getline(o, (int)k, d); bool all = l <= k - 1;
    for(unsigned i = 0; i < VN + 3; i++) { UNROLL; ENS(o[i] == (i < take ? m.c[m.p + i] : i == take ? 0 : old[i]), "the line and its terminator are stored within the count"); }
    ENS(at(in, m.p + take + (all && found ? 1 : 0)), "the line and its delimiter are taken"); ENS(all ? (found ? in.good() : in.rdstate() == ios::eofbit) : in.rdstate() == ios::failbit, "a line which does not fit fails, the end of the stream is reported"); REACH("done");
}
//@ entry vh_ignore kind=full unwind=10
ENTRY(vh_ignore)
{
    IS in; Text m; put(in, m); advance(in, m); unsigned k = small(0, VN + 2); int d = i16(); REQ(d >= -1 && d <= 255); bool with = flag(); REACH("entry"); unsigned t = 0; bool stop = false; for(unsigned i = 0; i < VN; i++) { UNROLL; if(!stop && i < k && m.p + i < m.n) { t = i + 1; if(with && d == (int)(unsigned char)m.c[m.p + i]) stop = true; } }
    if(with) in.ignore((int)k, d); else in.ignore((int)k); ENS(at(in, m.p + t), "ignore takes count characters or up to the delimiter"); ENS(in.eof() == (!stop && t < k), "the end of the stream is reported"); REACH("done");
}
//@ entry vh_words kind=full unwind=10
ENTRY(vh_words)
{
    IS in; Text m; put(in, m); REACH("entry"); unsigned s = 0; for(unsigned i = 0; i < VN; i++) { UNROLL; if(s == i && i < m.n && space(m.c[i])) s = i + 1; } unsigned e = s; for(unsigned i = 0; i < VN; i++) { UNROLL; if(i >= s && e == i && i < m.n && !space(m.c[i])) e = i + 1; }
    unsigned op = small(0, 2);
    if(op == 0) { in >> estd::ws; ENS(at(in, s) && in.good(), "ws skips white space only"); } else if(op == 1) { char v = 1, w = ch(); v = w; in >> v; ENS(s < m.n ? v == m.c[s] && at(in, s + 1) && in.good() : v == w && at(in, m.n) && in.rdstate() == EOFS, "the next character after white space"); }
    else { for(unsigned i = 0; i < VN; i++) { UNROLL; REQ(m.c[i] != 0); } estd::layer1::string<VN + 1, true> w; w += 'z'; in >> w; ENS(at(in, e) && w.size() == e - s, "a word ends at white space or at the end"); for(unsigned i = 0; i < VN; i++) { UNROLL; if(i < e - s) ENS(w.data()[i] == m.c[s + i], "characters of the word"); } ENS(e < m.n ? in.good() : in.eof() && in.fail() == (s == e), "a missing word fails"); } REACH("done");
}
SPEC int digit_of(char c) { int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : -1; return d >= 0 && d < VBASE ? d : -1; }
//@ entry vh_number kind=full unwind=10
//@ entry vh_number defs=VT=uint16_t kind=full unwind=10
//@ entry vh_number defs=VT=int8_t kind=full unwind=10
//@ entry vh_number defs=VT=uint8_t,VBASE=8,VFMT=oct kind=full unwind=10
//@ entry vh_number defs=VT=uint16_t,VBASE=16,VFMT=hex kind=full unwind=10
//@ entry vh_number defs=VT=int32_t,VBASE=16,VFMT=hex kind=full unwind=10
ENTRY(vh_number)
{
    IS in; Text m; put(in, m); in.setf(ios::VFMT, ios::basefield); T v = any<T>(); REACH("entry"); unsigned s = 0; for(unsigned i = 0; i < VN; i++) { UNROLL; if(s == i && i < m.n && space(m.c[i])) s = i + 1; }
    const bool sig = (T)-1 < 0; bool neg = sig && s < m.n && m.c[s] == '-'; unsigned b = s + (neg ? 1 : 0), e = b; int64_t acc = 0; for(unsigned i = 0; i < VN; i++) { UNROLL; if(i >= b && e == i && i < m.n && digit_of(m.c[i]) >= 0) { e = i + 1; acc = acc * VBASE + digit_of(m.c[i]); } } if(neg) acc = -acc;
    const int64_t hi = sig ? ((int64_t)1 << (8 * sizeof(T) - 1)) - 1 : ((int64_t)1 << (8 * sizeof(T))) - 1, lo = sig ? -hi - 1 : 0; bool over = acc > hi || acc < lo;
    in >> v; ENS(at(in, e), "exactly the text of the number is taken"); ENS(v == (T)(acc > hi ? hi : acc < lo ? lo : acc), "the value of the number, saturated"); ENS(in.fail() == (e == b || over), "no number, or one out of range, fails"); ENS(!in.bad() && (e == m.n || !in.eof()) , "the end of the stream is reported only there"); REACH("done");
}
// the extraction state machine, one character at a time, for every state and value
enum { SAT = 1 };
typedef estd::iterated::num_get<VBASE, char, estd::internal::classic_locale_type> NG;
//@ entry vh_step kind=full
//@ entry vh_step defs=VT=uint8_t kind=full
//@ entry vh_step defs=VT=int32_t kind=full
//@ entry vh_step defs=VT=uint32_t kind=full
//@ entry vh_step defs=VT=int64_t kind=full solver=int
//@ entry vh_step defs=VT=uint64_t kind=full solver=int
//@ entry vh_step defs=VT=uint32_t,VBASE=16,VFMT=hex kind=full
//@ entry vh_step defs=VT=int64_t,VBASE=8,VFMT=oct kind=full
ENTRY(vh_step)
{
    NG g; unsigned st = small(0, 6); REQ(st == NG::Start || st == NG::FirstNegative || st == NG::NominalNegative || st == NG::NominalPositive || st == NG::Overflow); T v = any<T>(); if(st == NG::Start || st == NG::FirstNegative) v = 0; const bool sig = (T)-1 < 0; REQ(sig || (st != NG::FirstNegative && st != NG::NominalNegative)); REQ(!(st == NG::NominalPositive && v < 0) && !(st == NG::NominalNegative && v > 0));
    g.state_.state_ = (NG::state)st; char c = ch(); ios::iostate err = 0; T o = v; REACH("entry"); bool stop = g.template get<false>(c, err, v); int d = digit_of(c); bool neg = st == NG::FirstNegative || st == NG::NominalNegative, first = st == NG::Start || st == NG::FirstNegative;
    typedef __int128 W; const W hi = sig ? ((W)1 << (8 * sizeof(T) - 1)) - 1 : ((W)1 << (8 * sizeof(T))) - 1, lo = sig ? -hi - 1 : 0;
    if(st == NG::Overflow) { ENS(stop == (d < 0) && v == o && err == 0 && g.state_.state_ == NG::Overflow, "after an overflow the remaining digits are skipped"); }
    else if(d < 0) { bool minus = st == NG::Start && sig && c == '-'; ENS(stop == !minus && v == o, "another character ends the number"); ENS(err == (first && !minus ? ios::failbit : 0), "without a digit there is no number"); ENS(!minus || g.state_.state_ == NG::FirstNegative, "the sign"); }
    else { W x = (W)o * VBASE + (neg ? -d : d); bool over = x > hi || x < lo; ENS(!stop && v == (T)(x > hi ? hi : x < lo ? lo : x), "a digit is appended, or the value saturates"); ENS(err == (over ? ios::failbit : 0) && g.state_.state_ == (over ? NG::Overflow : neg ? NG::NominalNegative : NG::NominalPositive), "overflow is reported once"); } REACH("done");
}
