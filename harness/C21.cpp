// C21: formatted output is exactly the text of the value in its field, and failure to deliver is reported.
#include <assert.h>
#include "vh.h"
#include <estd/ostream.h>
#include <estd/sstream.h>
#include <estd/iomanip.h>
#include <estd/span.h>
#include <estd/locale.h>
#include <estd/internal/locale/num_put.h>
using namespace vh;
#ifndef VT
#define VT int16_t
#endif
#ifndef VFMT
#define VFMT dec
#define VBASE 10
#define VLEN 6
#endif
#ifndef VADJ
#define VADJ right
#endif
typedef VT T; typedef estd::ios_base ios;
#define VN 10
typedef estd::layer1::ostringstream<VN, false> OS;
SPEC int digit_of(char c, bool upper)
{
    int d = c >= '0' && c <= '9' ? c - '0' : upper ? (c >= 'A' && c <= 'Z' ? c - 'A' + 10 : -1) : (c >= 'a' && c <= 'z' ? c - 'a' + 10 : -1);
    return d >= 0 && d < VBASE ? d : -1;
}
// is t[0..n) the text of v in the field: padding on the right side, then an independent reading of the text
static VH_NOSAN bool field(const char* t, unsigned n, T v, unsigned width, char fill, bool left, bool upper)
{
    bool good = true; unsigned neg = v < 0 ? 1 : 0; uint64_t mag = v < 0 ? 0 - (uint64_t)v : (uint64_t)v, p = VBASE; unsigned len = neg + 1;
    for(unsigned i = 1; i < VLEN; i++) { UNROLL; if(mag >= p) len = neg + i + 1; p *= VBASE; }
    if(n != (len < width ? width : len)) return false; unsigned b = left ? 0 : n - len; uint64_t acc = 0;
    for(unsigned i = 0; i < VN; i++)
    {
        UNROLL; if(i >= n) continue; char c = t[i];
        if(i < b || i >= b + len) { if(c != fill) good = false; } else if(neg && i == b) { if(c != '-') good = false; } else { int d = digit_of(c, upper); if(d < 0) good = false; acc = acc * VBASE + (uint64_t)(unsigned)d; }
    }
    return good && acc == mag;
}
enum { ADJ = ios::VADJ };
//@ entry vh_int kind=full unwind=12
//@ entry vh_int defs=VADJ=left kind=full unwind=12
//@ entry vh_int defs=VADJ=goodbit kind=full unwind=12
//@ entry vh_int defs=VT=uint16_t,VFMT=oct,VBASE=8,VLEN=6 kind=full unwind=12
//@ entry vh_int defs=VT=uint16_t,VFMT=hex,VBASE=16,VLEN=4 kind=full unwind=12
//@ entry vh_int defs=VT=uint16_t,VFMT=hex,VBASE=16,VLEN=4,VADJ=left kind=full unwind=12
//@ entry vh_int defs=VT=int8_t,VFMT=dec,VBASE=10,VLEN=4 kind=full unwind=12
//@ entry vh_int defs=VT=bool,VFMT=dec,VBASE=10,VLEN=1 kind=full unwind=12
//@ entry vh_int defs=VT=uint32_t,VFMT=hex,VBASE=16,VLEN=8 kind=full unwind=12
#ifndef VP
ENTRY(vh_int)
{
    OS os; T v = any<T>(); unsigned w = small(0, 9); char f = ch(); REQ(f >= ' ' && f <= '_'); bool up = flag(); ios::fmtflags fl = (ios::fmtflags)(ios::VFMT | (up ? ios::uppercase : 0) | ADJ);
    os.flags(fl); os.fill(f); REACH("entry"); ENS(os.fill() == f, "the fill character is kept"); ENS(os.width() == 0, "no width to begin with");
    os << estd::setw(w); ENS(os.width() == (int)w, "setw sets the width"); OS* r = (OS*)&(os << v); ENS(r == &os && os.good(), "output succeeded"); ENS(os.width() == 0 && os.flags() == fl && os.fill() == f, "the width is used up, other settings are kept");
    const char* t = os.rdbuf()->str().data(); unsigned n = os.rdbuf()->str().size(); ENS(n <= VN && field(t, n, v, w, f, ADJ == ios::left, up), "the text is the value, padded to the field"); REACH("done");
}
#endif
//@ entry vh_num_put defs=VP=1,VADJ=right kind=full unwind=12
//@ entry vh_num_put defs=VP=1,VADJ=left kind=full unwind=12
//@ entry vh_num_put defs=VP=1,VADJ=goodbit kind=full unwind=12
//@ entry vh_num_put defs=VP=1,VT=uint16_t,VFMT=hex,VBASE=16,VLEN=4 kind=full unwind=12
//@ entry vh_num_put defs=VP=1,VT=uint16_t,VFMT=oct,VBASE=8,VLEN=6 kind=full unwind=12
#ifdef VP
struct Str : ios {};
ENTRY(vh_num_put)
{
    Str s; T v = any<T>(); unsigned w = small(0, 9); char f = ch(), b[VN + 1]; fill(b); char last = b[VN]; bool up = flag(); s.flags((ios::fmtflags)(ios::VFMT | (up ? ios::uppercase : 0) | ADJ)); s.width((int)w); REACH("entry");
    char* e = estd::num_put<char, char*>::put(b, s, f, v); unsigned n = (unsigned)(e - b); ENS(n <= VN && field(b, n, v, w, f, ADJ == ios::left, up) && b[VN] == last, "num_put puts the value padded to the field");
    bool z = flag(); char o[8]; s.setf(ios::boolalpha); e = estd::num_put<char, char*>::put(o, s, f, z); ENS(z ? e == o + 4 && o[0] == 't' && o[1] == 'r' && o[2] == 'u' && o[3] == 'e' : e == o + 5 && o[0] == 'f' && o[1] == 'a' && o[2] == 'l' && o[3] == 's' && o[4] == 'e', "boolalpha puts the name");
    s.unsetf(ios::boolalpha); e = estd::num_put<char, char*>::put(o, s, f, z); ENS(e == o + 1 && o[0] == (z ? '1' : '0'), "a bool is put as a digit"); REACH("done");
}
#endif
#ifdef VTEXT
//@ entry vh_text defs=VTEXT=1 kind=full unwind=14
ENTRY(vh_text)
{
    OS os; char c = ch(), f = ch(), s[5]; fill(s); REQ(f >= ' ' && f <= '_'); s[4] = 0; unsigned l = 0; while(s[l]) { UNROLL; l++; } os.fill(f); unsigned w = small(0, 4), k = small(0, 4); REACH("entry"); unsigned pad = w ? w - 1 : 0;
    os.width((int)w); os << c; const char* t = os.rdbuf()->str().data(); ENS(os.rdbuf()->str().size() == pad + 1 && t[pad] == c && os.width() == 0, "a character fills its field"); for(unsigned i = 0; i < 3; i++) { UNROLL; if(i < pad) ENS(t[i] == f, "a character is padded on the left"); }
    { OS o; o << (const char*)s; ENS(o.rdbuf()->str().size() == l && o.good(), "a string is put up to its terminator"); for(unsigned i = 0; i < 4; i++) { UNROLL; if(i < l) ENS(o.rdbuf()->str().data()[i] == s[i], "characters of a string"); } o.put(c); o.write(s, (int)k); ENS(o.rdbuf()->str().size() == l + 1 + k && o.rdbuf()->str().data()[l] == c, "put and write append"); for(unsigned i = 0; i < 4; i++) { UNROLL; if(i < k) ENS(o.rdbuf()->str().data()[l + 1 + i] == s[i], "write appends the characters"); } }
    { OS o; bool z = flag(); unsigned nl = z ? 4 : 5, ww = small(0, 8), fw = nl < ww ? ww : nl; o.setf(ios::boolalpha); o.width((int)ww); o << z; const char* nm = z ? "true" : "false"; ENS(o.rdbuf()->str().size() == fw && o.width() == 0, "the name of a bool fills its field"); for(unsigned i = 0; i < 8; i++) { UNROLL; if(i < fw) ENS(o.rdbuf()->str().data()[i] == (i < fw - nl ? ' ' : nm[i - (fw - nl)]), "the name of a bool"); } }
    { OS o; estd::layer1::string<5> x(s); o << x << estd::endl; ENS(o.rdbuf()->str().size() == l + 1 && o.rdbuf()->str().data()[l] == '\n', "a string object, then the end of line"); for(unsigned i = 0; i < 4; i++) { UNROLL; if(i < l) ENS(o.rdbuf()->str().data()[i] == s[i], "characters of a string object"); } } REACH("done");
}
//@ entry vh_full defs=VTEXT=1 kind=full unwind=14
ENTRY(vh_full)
{
    char b[5], g = ch(), s[6]; fill(b); fill(s); b[4] = g; estd::detail::ospanstream os(estd::span<char>(b, 4)); unsigned a = small(0, 4), n = small(0, 6); REACH("entry"); for(unsigned i = 0; i < 4; i++) { UNROLL; if(i < a) os.put(s[i]); } ENS(os.good(), "no failure while there is room");
    os.write(s, (int)n); ENS(os.good() == (a + n <= 4) && os.fail() == !os.good() && (bool)os == os.good(), "writing more than fits is reported"); for(unsigned i = 0; i < 4; i++) { UNROLL; if(i < a) ENS(b[i] == s[i], "characters put before"); else if(i < a + n) ENS(b[i] == s[i - a], "what fits is written"); } ENS(b[4] == g, "nothing is written outside the span");
    os.clear(); os.put('x'); ENS(os.fail() == (a + n >= 4) && b[4] == g, "a character which does not fit is reported"); REACH("done");
}
//@ entry vh_state defs=VTEXT=1 kind=full
struct Str : ios {};
ENTRY(vh_state)
{
    Str s; ENS(s.good() && !s.fail() && !s.bad() && !s.eof() && s.width() == 0 && s.flags() == (ios::dec | ios::right), "initial state"); ios::iostate a = u8(), b = u8(); REQ(a < 16 && b < 16); REACH("entry"); s.clear(a); s.setstate(b); ios::iostate r = a | b;
    ENS(s.rdstate() == r && s.good() == (r == 0) && s.fail() == ((r & (ios::failbit | ios::badbit)) != 0) && s.bad() == ((r & ios::badbit) != 0) && s.eof() == ((r & ios::eofbit) != 0), "state bits accumulate"); s.clear(); ENS(s.good(), "clear");
    ios::fmtflags f = u8(), g = u8(), m = u8(); REQ((g & m) == g); ios::fmtflags p = s.flags(f); ENS(p == (ios::dec | ios::right) && s.flags() == f, "flags"); p = s.setf(g, m); ENS(p == f && s.flags() == (ios::fmtflags)((f & ~m) | g), "setf under a mask"); p = s.unsetf(g); ENS(s.flags() == (ios::fmtflags)((f & ~m) & ~g) && p == (ios::fmtflags)((f & ~m) | g), "unsetf"); p = s.setf(g); ENS(s.flags() == (ios::fmtflags)((f & ~m) | g), "setf");
    int w = (int)small(0, 15); ENS(s.width(w) == 0 && s.width() == w, "width keeps what is set"); REACH("done");
}
#endif
