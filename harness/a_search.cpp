// A02: searching, comparing and the functional methods of arrays and slices, for every content.
#include "sv.h"
#include <array.h>
typedef Array<uint32_t> A;
static uint32_t rot(uint32_t x) { return x << 5 | x >> 27; }
static uint32_t v[16]; static int n;
static void need(const A& a) { bool eq = (int)a.length() == n; for (int i = 0; i < n; i++) eq &= a[i] == v[i]; sv_check(eq, "the array is unchanged"); }
static A make(const char* nm)		// an array of n symbolic elements: whole, or a slice of a larger one, or never filled
{
	uint32_t b[18];
	int l = sv_choose("len", LEN + 1), form = sv_choose("form", 3);
	n = l;
	b[0] = sv_u32("before"); b[1] = sv_u32("before");
	for (int i = 0; i < l; i++) b[2 + i] = v[i] = sv_u32(nm);
	b[2 + l] = sv_u32("after");
	if (form == 0) return l ? A(b + 2, l) : A();
	A w(b, l + 3);
	if (form == 1) return w.slice(2, l);
	A t = w.slice(1); w = A(); t.remove(0, 1); t.remove(l, 1); return t;
}
extern "C" void sv_main()
{
	uint64_t h0 = sv_heap();
	{
	A a = make("v");
#ifdef BSEARCH
	for (int i = 0; i + 1 < n; i++) sv_assume(v[i] <= v[i + 1]);
	uint32_t key = sv_u32("key");
	bool in = false; for (int i = 0; i < n; i++) in |= v[i] == key;
	const A& ca = a; int calls = 0;
	int r = ca.bsearch([&](const uint32_t& e) { calls++; return e < key ? -1 : e > key ? 1 : 0; });
	if (r >= 0) { sv_check(r < n && v[r] == key, "bsearch() finds an element that matches"); sv_reach("found"); }
	else { sv_check(r == -1 && !in, "bsearch() finds a matching element if there is one"); sv_reach("absent"); }
	sv_out(r);
#elif defined(COMPARE)
	uint32_t x[16]; int nx = n; for (int i = 0; i < n; i++) x[i] = v[i];
	A b = make("w");
	int want = 0;
	for (int i = 0; i < nx && i < n && want == 0; i++) want = x[i] < v[i] ? -1 : x[i] > v[i] ? 1 : 0;
	if (want == 0) want = nx < n ? -1 : nx > n ? 1 : 0;
	int c = a.compare(b), d = b.compare(a);
	sv_check((c > 0) - (c < 0) == want, "compare() is the lexicographic order");
	sv_check((d > 0) - (d < 0) == -want, "compare() is antisymmetric");
	sv_check((a == b) == (want == 0) && (a != b) == (want != 0), "equality");
	if (want == 0) sv_reach("equal");
	sv_out(want);
#else
	uint32_t e = sv_u32("e");
	int at = sv_range("at", -1, n);		// search position
	// is element i a match?  for the plain searches: equal to e; for the others any set of elements (a symbolic mask)
	uint32_t mask = sv_u32("mask");
	uint32_t k;
	int first = -1, last = -1, mfirst = -1, mlast = -1, count = 0;
	for (int i = 0; i < n; i++) {
		bool me = v[i] == e, mm = mask >> (v[i] & 31) & 1;
		if (me && i > at && first < 0) first = i;
		if (me && (at < 0 || i < at)) last = i;
		if (mm && i > at && mfirst < 0) mfirst = i;
		if (mm && (at < 0 || i < at)) mlast = i;
		count += mm;
	}
	std::function<bool(const uint32_t&)> f = [&](const uint32_t& x) { return (bool)(mask >> (x & 31) & 1); };
	const A& ca = a;
	int r = 0;
	switch (sv_choose("what", 9)) {
	case 0: r = ca.find(e, at); sv_check(r == first, "find(element)"); if (r > 0) sv_reach("found"); break;
	case 1: r = ca.rfind(e, at); sv_check(r == last, "rfind(element)"); break;
	case 2: r = ca.find(f, at); sv_check(r == mfirst, "find(condition)"); if (at < 0) sv_check(ca.detect(f) == mfirst, "detect()"); break;
	case 3: r = ca.rfind(f, at); sv_check(r == mlast, "rfind(condition)"); break;
	case 4: r = ca.all(f); sv_check(r == (count == n), "all()"); break;
	case 5: r = ca.any(f); sv_check(r == (count > 0), "any()"); break;
	case 6: r = ca.one(f); sv_check(r == (count == 1), "one()"); break;
	case 7: { A s = ca.select(f); int o = 0; bool eq = true; for (int i = 0; i < n; i++) if (mask >> (v[i] & 31) & 1) { eq &= o < (int)s.length() && s[o] == v[i]; o++; }
		sv_check(eq && o == (int)s.length(), "select() gives the matching elements in order"); r = o;
		s.push(e); need(a); break; }
	case 8: { A p = ca.map<A, uint32_t>([&](const uint32_t& x) { return (x ^ e) + 1; }); bool eq = (int)p.length() == n; for (int i = 0; i < n; i++) eq &= p[i] == (v[i] ^ e) + 1;
		sv_check(eq, "map() gives each result in order");
		uint32_t acc = ca.inject<uint32_t>(e, [](uint32_t& j, const uint32_t& x) { return rot(j) ^ x; }), want = e; for (int i = 0; i < n; i++) want = rot(want) ^ v[i];
		sv_check(acc == want, "inject() folds in order");
		uint32_t h = e; int c = 0; ca.each([&](const uint32_t& x) { h = rot(h) ^ x; c++; }); sv_check(h == want && c == n, "each() visits every element once, in order"); break; }
	}
	need(a);
	if (n == 0) sv_reach("empty");
	sv_out(r);
#endif
	}
	sv_check(sv_heap() == h0, "no memory is leaked");
}
