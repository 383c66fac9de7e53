// G01: guarded pointers. KIND 0 UnGuardedCharPtr, 1 NulGuardedCharPtr, 2 GuardedCharPtr, 3 NulGuardedUTF8Ptr, 4 GuardedUTF8Ptr
// A history of SV_K operations on a pointer into N free bytes, against a list of the character boundaries.
#include "sv.h"
#include "ref_utf8.h"
#include <char_ptr.h>
#include <utf8_ptr.h>
#if KIND == 0
typedef UnGuardedCharPtr Ptr;
#elif KIND == 1
typedef NulGuardedCharPtr Ptr;
#elif KIND == 2
typedef GuardedCharPtr Ptr;
#elif KIND == 3
typedef NulGuardedUTF8Ptr Ptr;
#else
typedef GuardedUTF8Ptr Ptr;
#endif
static const int PRE = KIND == 3 ? 6 : 0;	// a pointer that does not know where the text starts may look at 6 bytes before it
static char* buf;
static int at[N + 2], ns;			// the boundaries from the place where the pointer started: at[0..ns-1], at[ns-1] is the NUL
static void see(Ptr& p, int k)
{
	sv_check((const char*)p == buf + at[k], "the pointer is at the character it should be");
	sv_check(p.at_eof() == (k == ns - 1), "at_eof exactly at the NUL");
#if KIND == 2 || KIND == 4
	sv_check(p.at_bot() == (k == 0), "at_bot exactly at the origin");
#endif
#if KIND >= 3
	uint32_t v; int len = ref_utf8_get((const unsigned char*)buf + at[k], v);
	sv_check(*p == v, "the character under the pointer");
	sv_check(p.len() == len, "its length");
	sv_check(p.is1st() == ((buf[at[k]] & 0xC0) != 0x80), "is1st");
#else
	sv_check(*p == buf[at[k]], "the byte under the pointer");
#endif
	sv_out(at[k]);
}
static int move(int k, int i)
{
	int to = k + i;
	if (to >= ns) { to = ns - 1; if (KIND == 0) sv_done(); sv_reach("clamp_eof"); }
	if (to < 0) {
		to = 0;
		if (KIND == 2 || KIND == 4) sv_reach("clamp_bot"); else sv_done();	// outside the promise
	}
	return to;
}
extern "C" void sv_main()
{
	int n = sv_choose("n", N + 1);
	char* store = new char[PRE + n + 1];
	for (int i = 0; i < PRE; i++) store[i] = 'a';
	buf = store + PRE;
	for (int i = 0; i < n; i++) { buf[i] = sv_u8("b"); sv_assume(buf[i] != 0); }
	buf[n] = 0;
	int from = KIND == 3 ? 0 : sv_choose("from", n + 1);	// the text need not start at the origin
	ns = 0;
	for (int o = from; ;) {
		at[ns++] = o;
		if (o == n) break;
#if KIND >= 3
		uint32_t v; int l = (int)sv_fork(ref_utf8_get((const unsigned char*)buf + o, v));
		sv_assume(v != 0);	// an overlong NUL is both a character and an end: no promise
		if (l > 1) sv_reach("wide");
		o += l;
#else
		o++;
#endif
	}
	Ptr p(buf + from);
	int k = 0;
	see(p, k);
	for (int step = 0; step < SV_K; step++) {
		int op = sv_choose("op", 10);
		int i = op >= 4 && op < 8 ? sv_choose("i", 2 * N + 3) - N - 1 : 1;
		int to = op == 0 || op == 1 ? move(k, 1) : op == 2 || op == 3 ? move(k, -1) : op == 4 || op == 6 ? move(k, i) : op == 5 || op == 7 ? move(k, -i) : k;
		switch (op) {
		case 0: { const char* r = ++p; sv_check(r == buf + at[to], "++p yields the new place"); k = to; break; }
		case 1: { const char* r = p++; sv_check(r == buf + at[k], "p++ yields the old place"); k = to; break; }
		case 2: { const char* r = --p; sv_check(r == buf + at[to], "--p yields the new place"); k = to; break; }
		case 3: { const char* r = p--; sv_check(r == buf + at[k], "p-- yields the old place"); k = to; break; }
		case 4: { const char* r = (p += i); sv_check(r == buf + at[to], "p += i yields the new place"); k = to; break; }
		case 5: { const char* r = (p -= i); sv_check(r == buf + at[to], "p -= i yields the new place"); k = to; break; }
		case 6: { auto q = p + i; sv_check((const char*)q == buf + at[to], "p + i is i characters on, within bounds"); sv_check(q - p == at[to] - at[k], "difference of pointers"); break; }
		case 7: { auto q = p - i; sv_check((const char*)q == buf + at[to], "p - i is i characters back, within bounds"); sv_check(p - (const char*)q == at[k] - at[to], "difference of pointer and address"); break; }
		case 8: { Ptr q(p); Ptr z; z = q; p = z; break; }
		case 9: { const Ptr q(p); Ptr z(q); if (k + 1 < ns) ++z; see(p, k); p = q; break; }
		}
		see(p, k);
	}
	sv_reach("end");
	delete[] store;
}
