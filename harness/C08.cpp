// C08: byte order, byte operations and flag sets.
#include <assert.h>
#include "vh.h"
#include <estd/bit.h>
#include <estd/cstddef.h>
#include <estd/flags.h>
using namespace vh;
template <class T> static void swapped(T v)
{
    T r = estd::byteswap(v); const uint8_t* a = (const uint8_t*)&v; const uint8_t* b = (const uint8_t*)&r;
    for(unsigned i = 0; i < sizeof(T); i++) { UNROLL; ENS(a[i] == b[sizeof(T) - 1 - i], "byteswap: bytes in reverse order"); }
    ENS(estd::byteswap(r) == v, "byteswap: its own inverse");
}
//@ entry vh_byteswap
ENTRY(vh_byteswap)
{
    REACH("entry");
    swapped<uint16_t>(u16()); swapped<int16_t>(i16()); swapped<uint32_t>(u32()); swapped<int32_t>(i32()); swapped<uint64_t>(u64());
}
//@ entry vh_byte
ENTRY(vh_byte)
{
    uint8_t x = u8(), y = u8(); unsigned s = small(0, 8); REACH("entry");
    estd::byte a = estd::to_byte(x), b = estd::to_byte(y);
    ENS(estd::to_integer<uint8_t>(a) == x && estd::to_integer<unsigned>(a) == x, "byte: to_byte and to_integer are inverse");
    ENS(estd::to_integer<unsigned>(a << s) == (((unsigned)x << s) & 0xff), "byte: shift left drops bits past 8");
    ENS(estd::to_integer<unsigned>(a | b) == (x | y), "byte: or");
    estd::byte c = a; estd::byte& r = (c |= b); ENS(&r == &c && estd::to_integer<unsigned>(c) == (x | y), "byte: |= in place");
    c = a; estd::byte& r2 = (c <<= s); ENS(&r2 == &c && estd::to_integer<unsigned>(c) == (((unsigned)x << s) & 0xff), "byte: <<= in place");
    c = a; estd::byte& r3 = (c >>= s); ENS(&r3 == &c && estd::to_integer<unsigned>(c) == ((unsigned)x >> s), "byte: >>= in place");
}
enum Fl : unsigned { F0 = 0 };
//@ entry vh_flags
ENTRY(vh_flags)
{
    typedef estd::detail::v1::flags<Fl> F; unsigned x = u32(), y = u32(); REACH("entry");
    F a((Fl)x), b((Fl)y);
    ENS((unsigned)a.value() == x, "flags: value"); ENS((bool)a == (x != 0), "flags: true exactly if any flag is set");
    ENS((unsigned)(a | (Fl)y).value() == (x | y) && (unsigned)(a & (Fl)y).value() == (x & y) && (unsigned)(a ^ (Fl)y).value() == (x ^ y), "flags: or, and, xor");
    ENS((unsigned)(~a).value() == ~x, "flags: complement");
    ENS((a == b) == (x == y) && (a != b) == (x != y), "flags: equality");
}
//@ entry vh_swap
#include <estd/utility.h>
template <class T> static void sw() { T a = any<T>(), b = any<T>(), x = a, y = b; estd::swap(a, b); ENS(a == y && b == x, "swap: exchanges two objects"); estd::swap(a, a); ENS(a == y, "swap: of an object with itself keeps it"); }
ENTRY(vh_swap)
{
    REACH("entry"); sw<char>(); sw<short>(); sw<int>(); sw<long>(); sw<unsigned char>(); sw<unsigned short>(); sw<unsigned>(); sw<unsigned long>(); sw<long long>(); sw<bool>();
}
