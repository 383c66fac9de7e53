// U05: classification and case conversion: the answer for q never depends on the characters asked about before.
#include "sv.h"
#include "ref_case.h"
#include <char_encoding.h>
static int32_t look(const RefRange* t, int n, uint32_t c, bool& in)
{
	int lo = 0, hi = n - 1;
	while (lo <= hi) {
		int m = (lo + hi) / 2;
		if (c < t[m].lo) hi = m - 1;
		else if (c > t[m].hi) lo = m + 1;
		else { in = true; return t[m].delta; }
	}
	in = false;
	return 0;
}
#define CNT(t) (int)(sizeof(t)/sizeof(t[0]))
static uint32_t rup(uint32_t c) { bool in; return c + look(ref_up, CNT(ref_up), c, in); }
static uint32_t rlo(uint32_t c) { bool in; return c + look(ref_lo, CNT(ref_lo), c, in); }
static int rdig(uint32_t c) { for (int i = 0; i < CNT(ref_digits); i++) if (c >= ref_digits[i].lo && c <= ref_digits[i].hi) return ref_digits[i].first + (c - ref_digits[i].lo); return -1; }
extern "C" void sv_main()
{
	uint32_t p = sv_u32("p"), q = sv_u32("q");
#if PART == 1
	UCS4ToUpper(p);
	uint32_t r = UCS4ToUpper(q);
	sv_check(r == rup(q), "to upper case, whatever was converted before");
	if (r != q) { sv_reach("conv"); }
	sv_out(r);
#elif PART == 2
	UCS4ToLower(p);
	uint32_t r = UCS4ToLower(q);
	sv_check(r == rlo(q), "to lower case, whatever was converted before");
	if (r != q) sv_reach("conv");
	sv_out(r);
#elif PART == 3
	UCS4Digit(p);
	int d = UCS4Digit(q);
	sv_check(d == rdig(q), "digit value, whatever was asked before");
	sv_check(UCS4IsDecimal(q) == (d >= 0) && isdigit((UCS4)q) == (d >= 0), "decimal predicate agrees");
	int h = UCS4HexDigit(q), a = ASCIIDigit(q);
	int rh = d >= 0 ? d : q >= 'A' && q <= 'F' ? (int)q - 'A' + 10 : q >= 'a' && q <= 'f' ? (int)q - 'a' + 10 : -1;
	sv_check(h == rh, "hexadecimal digit value");
	sv_check(a == (q >= '0' && q <= '9' ? (int)q - '0' : -1), "ASCII digit value");
	bool w = q == ' ' || q == 9 || q == 10 || q == 13 || q == 0xA0 || (q >= 0x2000 && q <= 0x200B) || q == 0x2028 || q == 0x2029 || q == 0x3000;
	sv_check(UCS4IsWhite(q) == w && isspace((UCS4)q) == w, "white space");
	sv_check(UCS4IsASCII(q) == (q < 128) && UCS4IsLatin1(q) == (q < 256) && UCS4IsUnicode(q) == (q < 0x110000) && UCS4IsUTF16(q) == (q < 65536) && UCS4IsASCIIPrintable(q) == (q >= 32 && q < 127), "range predicates");
	sv_check(UCS4IsIllegal(q) == ((q >> 8) == 0x800000 || q == 0xFFFFFFFF), "illegal-byte codes");
	if (d == 3 && q > 128) sv_reach("digit");
	sv_out(d); sv_out(h);
#elif PART == 4
	// title case: idempotent; the digraphs have their own titlecase form, everything else uses upper case
	uint32_t t = UCS4ToTitle(q);
	uint32_t want = q >= 0x1C4 && q <= 0x1C6 ? 0x1C5 : q >= 0x1C7 && q <= 0x1C9 ? 0x1C8 : q >= 0x1CA && q <= 0x1CC ? 0x1CB : q >= 0x1F1 && q <= 0x1F3 ? 0x1F2 : rup(q);
	sv_check(t == want, "title case");
	sv_check(UCS4ToTitle(t) == t, "title casing twice is the same as once");
	if (q == 0x1C4) sv_reach("digraph");
	sv_out(t);
#else
	bool in; look(ref_nocase, CNT(ref_nocase), q, in);
	bool want = rup(q) != q || rlo(q) != q || in;
	bool al = UCS4IsAlphabetic(q);
	sv_check(al == want && isalpha((UCS4)q) == want, "alphabetic");
	if (in) sv_reach("nocase");
	if (!al) sv_reach("not");
	sv_out(al);
#endif
}
