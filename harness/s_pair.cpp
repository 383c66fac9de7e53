// S01/S03: two slices of one body (every pair of ranges, overlapping, adjacent, equal or apart): combining, editing and
// comparing them works on their characters, and never disturbs the slices or the original.
#include "strmodel.h"
static int sgn(int x) { return (x > 0) - (x < 0); }
static int refCmp(const M& a, const M& b)
{
	char x[64], y[64]; int nx = a.put(x), ny = b.put(y);
	int r = nx < ny ? -1 : nx > ny ? 1 : 0;
	for (int i = (nx < ny ? nx : ny); i-- > 0; ) r = (unsigned char)x[i] < (unsigned char)y[i] ? -1 : (unsigned char)x[i] > (unsigned char)y[i] ? 1 : r;
	return r;
}
static void go()
{
	static const char* const pats[] = { PATS };
	M w = genText(pats[sv_choose("layout", sizeof(pats) / sizeof(pats[0]))]);
	StrVal s = mkStr(w);
	int i = sv_choose("i", w.n), li = sv_choose("li", w.n - i + 1), j = sv_choose("j", w.n), lj = sv_choose("lj", w.n - j + 1);
	StrVal a = s.substr(i, li), b = s.substr(j, lj);
	M ma = w.sub(i, li), mb = w.sub(j, lj);
#ifdef COMPARE
	int want = refCmp(ma, mb);
	sv_check(sgn(a.compare(b)) == want, "compare() orders by bytes");
	sv_check((a == b) == (want == 0) && (a != b) == (want != 0), "==, !=");
	sv_check((a < b) == (want < 0) && (a <= b) == (want <= 0) && (a > b) == (want > 0) && (a >= b) == (want >= 0), "ordering operators");
	sv_check(StrVal::equiv(a, b) == (want == 0) && StrVal::compare(a, b) == (want > 0), "map comparators");
	if (want == 0 && ma.n && i != j) sv_reach("equal");
	sv_out(want);
#else
	if (sv_choose("drop", 2)) { s = StrVal(); w = M(); }
	switch (sv_choose("op", 5)) {
	case 0: { M t = ma; t.ins(t.n, mb); StrVal c = a + b; same(c, t, "a + b"); sameChars(c, t, "a + b");
		// and edit the result: it may be a slice of the same body
		M x = t; x.ins(1 < x.n ? 1 : x.n, mb); c.insert(1 < t.n ? 1 : t.n, b); same(c, x, "edited a + b"); break; }
	case 1: { M t = ma; t.ins(t.n, mb); a += b; ma = t; break; }
	case 2: { int p = sv_choose("pos", ma.n + 1); M t = ma; t.ins(p, mb); a.insert(p, b); ma = t; break; }
	case 3: { M t = ma; t.ins(0, mb); a.prepend(b); ma = t; break; }
	case 4: { M t = ma; t.ins(t.n, mb); a.append(b); ma = t; StrVal c = a; M mc = ma; mb.add(w.n ? w.c[0] : genChar(1)); b += (UCS4)M::code(mb.c[mb.n - 1]); same(c, mc, "copy"); break; }
	}
	same(a, ma, "first slice"); same(b, mb, "second slice"); same(s, w, "the original");
	sameChars(a, ma, "first slice by index"); sameChars(b, mb, "second slice by index"); sameChars(s, w, "original by index");
	sv_reach("end");
	sv_out(ma.n * 100 + mb.n);
#endif
}
extern "C" void sv_main()
{
	uint64_t h0 = sv_heap();
	go();
	sv_check(sv_heap() == h0, "no memory outlives the strings");
}
