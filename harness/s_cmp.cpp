// S03: comparison is the lexicographic order of the UTF-8 bytes, total and consistent across all operators.
#include "strmodel.h"
static int refCmp(const M& a, const M& b)
{
	char x[64], y[64]; int nx = a.put(x), ny = b.put(y);
	int r = nx < ny ? -1 : nx > ny ? 1 : 0;
	for (int i = (nx < ny ? nx : ny); i-- > 0; ) r = (unsigned char)x[i] < (unsigned char)y[i] ? -1 : (unsigned char)x[i] > (unsigned char)y[i] ? 1 : r;
	return r;
}
static int sgn(int x) { return (x > 0) - (x < 0); }
static M part(const M& w, StrVal& s, const char* nm)
{
	StrVal b = mkStr(w);
	switch (sv_choose(nm, 3)) {
	case 0: s = b; return w;
	case 1: { int at = w.n > 1; s = b.substr(at); return w.sub(at, -1); }
	default: { int k = w.n > 1 ? w.n - 1 : w.n; s = b.head(k); return w.sub(0, k); }
	}
}
extern "C" void sv_main()
{
	static const char* const ps[] = { PATS };
	const int np = sizeof(ps) / sizeof(ps[0]);
	StrVal a, b;
	M wa = genText(ps[sv_choose("pa", np)]), wb = genText(ps[sv_choose("pb", np)]);
	M ma = part(wa, a, "sa"), mb = part(wb, b, "sb");
	int want = refCmp(ma, mb);
	sv_check(sgn(a.compare(b)) == want, "compare() orders by bytes");
	sv_check(sgn(b.compare(a)) == -want, "compare() is antisymmetric");
	sv_check((a == b) == (want == 0), "==");
	sv_check((a != b) == (want != 0), "!=");
	sv_check((a < b) == (want < 0), "<");
	sv_check((a <= b) == (want <= 0), "<=");
	sv_check((a > b) == (want > 0), ">");
	sv_check((a >= b) == (want >= 0), ">=");
	sv_check(StrVal::equiv(a, b) == (want == 0), "equiv()");
	sv_check(StrVal::compare(a, b) == (want > 0), "static compare()");
	if (want == 0 && ma.n) sv_reach("equal");
	if (want < 0) sv_reach("less");
	sv_out(want);
}
