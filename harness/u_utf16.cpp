// U04: UTF-16
#include "sv.h"
#include <char_encoding.h>
extern "C" void sv_main()
{
	UCS4 c = sv_u32("c"), d = sv_u32("d");
	sv_assume(c < 0x110000 && !(c >= 0xD800 && c < 0xE000));
	sv_assume(d < 0x110000 && !(d >= 0xD800 && d < 0xE000));
	bool swap = sv_choose("swap", 2);
	UTF16* buf = new UTF16[4]; UTF16* p = buf;
	UTF16Put(p, c, swap);
	int n = p - buf;
	sv_check(n == (c > 0xFFFF ? 2 : 1), "units stored");
	sv_check(n == UTF16Len(c), "UTF16Len(UCS4)");
	sv_check(n == UTF16Len(buf, swap), "UTF16Len(units)");
	UTF16 u0 = swap ? UTF16Swab(buf[0]) : buf[0];
	if (n == 1) sv_check(u0 == c && !UTF16IsSurrogate(u0), "a BMP character is stored as itself");
	else {
		UTF16 u1 = swap ? UTF16Swab(buf[1]) : buf[1];
		sv_check(UTF16Is1st(u0) && UTF16Is2nd(u1) && !UTF16Is2nd(u0) && !UTF16Is1st(u1), "surrogates come as high then low");
		sv_check(0x10000u + ((uint32_t)(u0 - 0xD800) << 10) + (u1 - 0xDC00) == c, "surrogates encode the value");
		sv_reach("pair");
	}
	if (swap) sv_check((uint16_t)((buf[0] << 8) | (buf[0] >> 8)) == u0, "byte swapping swaps bytes");
	UTF16Put(p, d, swap);
	sv_check(p - buf <= 4, "at most two units each");
	const UTF16* q = buf;
	sv_check(UTF16Get(q, swap) == c && q == buf + n, "first character decodes to itself");
	sv_check(UTF16Get(q, swap) == d && q == p, "second character decodes to itself");
	uint16_t x = sv_u16("x");
	sv_check(UTF16Swab(UTF16Swab(x)) == x, "swapping twice is the identity");
	sv_check(UTF16IsSurrogate(x) == (x >= 0xD800 && x <= 0xDFFF) && UTF16Is1st(x) == (x >= 0xD800 && x < 0xDC00) && UTF16Is2nd(x) == (x >= 0xDC00 && x <= 0xDFFF), "surrogate predicates");
	sv_out(u0);
	delete[] buf;
}
