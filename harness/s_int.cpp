// S04: asInt32: sign, white space, radix prefixes, digits, overflow and trailing text, for every text and radix.
#include "strmodel.h"
#include "ref_case.h"
static bool white(uint32_t c) { return c == ' ' || c == 9 || c == 10 || c == 13 || c == 0xA0 || (c >= 0x2000 && c <= 0x200B) || c == 0x2028 || c == 0x2029 || c == 0x3000; }
static int digit(uint32_t c)	// decimal digits of every script, and ASCII letters
{
	if (c >= 'a' && c <= 'z') return c - 'a' + 10;
	if (c >= 'A' && c <= 'Z') return c - 'A' + 10;
	for (unsigned i = 0; i < sizeof(ref_digits)/sizeof(ref_digits[0]); i++)
		if (c >= ref_digits[i].lo && c <= ref_digits[i].hi) return ref_digits[i].first + (c - ref_digits[i].lo);
	return 99;
}
static M m; static int n;
static uint32_t at(int i) { return i < n ? m.at(i) : 0; }
enum { OK, TRAIL, NODIG, OVER, NOTNUM, RADIX };
static int ref(int radix, uint64_t& mag, bool& neg, int& scanned, bool& lenient)
{
	int i = 0;
	mag = 0; neg = false; scanned = 0; lenient = false;
	if (radix < 0 || radix > 36) return RADIX;
	while (i < n && white(at(i))) i++;
	scanned = i;
	if (i == n) return NODIG;
	if (at(i) == '+' || at(i) == '-') { neg = at(i) == '-'; i++; while (i < n && white(at(i))) i++; }
	scanned = i;
	if (i == n) return NODIG;
	bool zero = digit(at(i)) == 0;
	if (zero && i + 1 < n && (at(i + 1) == 'x' || at(i + 1) == 'X') && (radix == 0 || radix == 16)) { radix = 16; i += 2; }
	else if (zero && i + 1 < n && (at(i + 1) == 'b' || at(i + 1) == 'B') && (radix == 0 || radix == 2)) { radix = 2; i += 2; }
	else if (radix == 0) radix = zero && i + 1 < n ? 8 : 10;
	scanned = i;
	if (i == n) return NODIG;
	if (digit(at(i)) >= radix) return NOTNUM;
	bool over = false;
	while (i < n && digit(at(i)) < radix) {
		mag = mag * radix + digit(at(i)); i++;
		if (mag > 0xFFFFFFFFFFFFull) { over = true; lenient = true; mag = 0xFFFFFFFFFFFFull; }	// far beyond 32 bits
	}
	int d = i;
	while (i < n && white(at(i))) i++;
	scanned = i;
	if (mag > 0x7FFFFFFFull + neg) return OVER;
	if (i != n) return TRAIL;
	return OK;
}
extern "C" void sv_main()
{
#if defined(DIGITS)		// DIGITS symbolic digits in RADIXV
	M g; 
	if (sv_choose("minus", 2)) { MC c; c.w = 1; c.b[0] = '-'; g.add(c); }
#ifdef LEAD
	static const char* const leads[] = { LEAD };
	for (const char* p = leads[sv_choose("lead", sizeof(leads) / sizeof(leads[0]))]; *p; p++) { MC c; c.w = 1; c.b[0] = *p; g.add(c); }
#endif
	for (int i = 0; i < DIGITS; i++) { MC c; c.w = 1; c.b[0] = sv_u8("d"); sv_assume(digit(c.b[0]) < RADIXV && (c.b[0] < 'A' || c.b[0] > 'Z')); g.add(c); }
	m = g;
	int radix = RADIXV;
#else
	static const char* const ps[] = { PATS };
	m = genText(ps[sv_choose("pat", sizeof(ps) / sizeof(ps[0]))]);
	static const int rs[] = { RADICES };
	int radix = rs[sv_choose("radix", sizeof(rs) / sizeof(rs[0]))];
#ifdef PREFIX
	{ M g; for (const char* p = PREFIX; *p; p++) { MC c; c.w = 1; c.b[0] = *p; g.add(c); } g.ins(g.n, m); m = g; }
#endif
#endif
	n = m.n;
	StrVal s = mkStr(m);
	ErrNum e; StrValIndex sc = 77;
	int32_t v = s.asInt32(&e, radix, &sc);
	uint64_t mag; bool neg; int wsc; bool lenient;
	int want = ref(radix, mag, neg, wsc, lenient);
	ErrNum codes[] = { ErrNum(0), STRERR_TRAIL_TEXT, STRERR_NO_DIGITS, STRERR_NUMBER_OVERFLOW, STRERR_NOT_NUMBER, STRERR_ILLEGAL_RADIX };
	sv_check((int32_t)e == (int32_t)codes[want], "error code");
	if (want == OK || want == TRAIL) sv_check(v == (neg ? -(int64_t)mag : (int64_t)mag), "value");
	else if (want != OVER) sv_check(v == 0, "no number reads as zero");
	if (want == OK || want == TRAIL || want == RADIX) sv_check((int)sc == wsc, "characters scanned");
	else sv_check((int)sc <= n, "characters scanned is within the text");
	sv_check(s.asInt32(0, radix) == v, "same value without the optional results");
	if (want == OK) sv_reach("ok");
	if (want == OVER) sv_reach("overflow");
	if (want == TRAIL) sv_reach("trail");
	sv_out((uint32_t)v); sv_out(want);
}
