// C07: character classification and digit conversion agree with the ASCII tables, for every character.
#include <assert.h>
#include "vh.h"
#include <estd/cctype.h>
#include <estd/locale.h>
#include <estd/charconv.h>
using namespace vh;
SPEC bool up(int c) { return c >= 65 && c <= 90; }
SPEC bool lo(int c) { return c >= 97 && c <= 122; }
SPEC bool dg(int c) { return c >= 48 && c <= 57; }
SPEC bool sp(int c) { return c == 32 || (c >= 9 && c <= 13); }
SPEC int val(int c) { return dg(c) ? c - 48 : up(c) ? c - 55 : lo(c) ? c - 87 : 99; }
typedef estd::internal::classic_locale_type L;
//@ entry vh_cctype
ENTRY(vh_cctype)
{
    int c = i32(); REACH("entry");
    ENS((estd::isupper(c) != 0) == up(c), "isupper"); ENS((estd::islower(c) != 0) == lo(c), "islower");
    ENS((estd::isalpha(c) != 0) == (up(c) || lo(c)), "isalpha"); ENS((estd::isdigit(c) != 0) == dg(c), "isdigit");
}
//@ entry vh_ctype
ENTRY(vh_ctype)
{
    typedef estd::ctype<char, L> F; typedef estd::ctype_base B;
    char c = ch(); uint8_t m = u8() & 0x7f; REACH("entry");
    ENS(F::isspace(c) == sp(c), "ctype isspace"); ENS(F::isupper(c) == up(c), "ctype isupper"); ENS(F::islower(c) == lo(c), "ctype islower");
    ENS(F::widen(c) == c, "ctype widen is the identity on char");
    bool pu = c > 32 && c < 127 && !up(c) && !lo(c) && !dg(c);
    bool e = ((m & B::space) && sp(c)) || ((m & B::digit) && dg(c)) || ((m & B::xdigit) && val(c) < 16) || ((m & B::upper) && up(c)) ||
             ((m & B::lower) && lo(c)) || ((m & B::alpha) && (up(c) || lo(c))) || ((m & B::punct) && pu);
    ENS(F::is(m, c) == e, "ctype is(mask, c): c belongs to one of the categories of the mask");
}
template <class F> static void digits(const F& f, unsigned base, char c)
{
    bool in = val(c) < (int)base;
    ENS(F::is_in_base(c, base) == in, "cbase is_in_base: exactly the digits of the base, either case");
    auto d = F::from_char(c, (unsigned short)base);
    ENS(d.has_value() == in, "cbase from_char: a value exactly for digits of the base");
    if(in) { ENS(d.value() == val(c), "cbase from_char: the digit's value"); ENS(F::from_char_raw(c) == val(c), "cbase from_char_raw: the digit's value"); }
}
//@ entry vh_cbase
ENTRY(vh_cbase)
{
    char c = ch(); unsigned b10 = small(2, 10), b36 = small(11, 36); REACH("entry");
    digits(estd::cbase<char, 10, L>(), b10, c); digits(estd::cbase<char, 36, L>(), b36, c);
    ENS(estd::cbase<char, 8, L>::is_in_base(c) == (val(c) < 8) && estd::cbase<char, 2, L>::is_in_base(c) == (val(c) < 2) && estd::cbase<char, 16, L>::is_in_base(c) == (val(c) < 16), "cbase default base");
    ENS(estd::cbase<char, 16, L>::from_char(c).has_value() == (val(c) < 16) && estd::cbase<char, 8, L>::from_char(c).has_value() == (val(c) < 8), "cbase default base of from_char");
    int d = small(0, 35); estd::cbase<char, 36, L> f;
    ENS(val(f.to_char((int16_t)d)) == d && !up(f.to_char((int16_t)d)), "cbase to_char: the lower case digit for the value");
    if(d < 10) ENS(val(estd::cbase<char, 10, L>::to_char((int16_t)d)) == d, "cbase to_char base 10");
    estd::internal::cbase_utf<char, 36, estd::internal::CBASE_POLICY_CASE_DYNAMIC> u(estd::internal::CBASE_POLICY_CASE_UPPER), l(estd::internal::CBASE_POLICY_CASE_LOWER);
    ENS(val(u.to_char((int16_t)d)) == d && !lo(u.to_char((int16_t)d)), "cbase upper case");
    ENS(val(l.to_char((int16_t)d)) == d && !up(l.to_char((int16_t)d)), "cbase lower case");
}
