// S02: every search answers as its definition over the characters says, on whole strings and on slices.
#include "strmodel.h"
static M hm, sm;
static bool inSet(uint32_t c) { bool in = false; for (int i = 0; i < sm.n; i++) in |= c == sm.at(i); return in; }
static bool matchAt(int n) { bool ok = true; for (int i = 0; i < sm.n; i++) ok &= hm.at(n + i) == sm.at(i); return ok; }
// the least / greatest n in lo..hi satisfying hit(n), or -1
template<class F> static int firstOf(int lo, int hi, F hit) { int r = -1; for (int n = hi; n >= lo; n--) r = hit(n) ? n : r; return r; }
template<class F> static int lastOf(int lo, int hi, F hit) { int r = -1; for (int n = lo; n <= hi; n++) r = hit(n) ? n : r; return r; }
static int go()
{
	static const char* const hp[] = { HAY };
	static const char* const np[] = { NEEDLE };
	M whole = genText(hp[sv_choose("hay", sizeof(hp) / sizeof(hp[0]))]);
	sm = genText(np[sv_choose("needle", sizeof(np) / sizeof(np[0]))]);
	StrVal body = mkStr(whole), h = body;
	hm = whole;
	int sl = sv_choose("slice", 4);
	if (sl == 1) { hm = whole.sub(1, whole.n - 2); h = body.substr(1, whole.n - 2); }
	if (sl == 2) { hm = whole.sub(2, -1); h = body.substr(2); }
	if (sl == 3) { hm = M(); h = StrVal(); }
	StrVal s = mkStr(sm);
	int len = hm.n;
	int at = sv_choose("at", len + 2) - 1;			// -1..len
	int end = at == -1 ? len - 1 : at - 1;			// where a backward search starts
	int r = 0, want = 0;
	auto isCh = [&](int n) { return hm.at(n) == sm.at(0); };
	auto isIn = [&](int n) { return inSet(hm.at(n)); };
	auto notIn = [&](int n) { return !inSet(hm.at(n)); };
	int last = len - sm.n;
	int kind = sv_choose("kind", 8);
	if ((kind == 0 || kind == 1) && sm.n == 0) { sv_done(); return 0; }
	switch (kind) {
	case 0: r = h.find((UCS4)sm.at(0), at); want = firstOf(at + 1, len - 1, isCh); break;
	case 1: r = h.rfind((UCS4)sm.at(0), at); want = lastOf(0, end, isCh); break;
	case 2: r = h.find(s, at); want = firstOf(at + 1, last, matchAt); break;
	case 3: r = h.rfind(s, at); want = lastOf(0, at == -1 ? last : at - 1 < last ? at - 1 : last, matchAt); break;
	case 4: r = h.findAny(s, at); want = firstOf(at + 1, len - 1, isIn); break;
	case 5: r = h.rfindAny(s, at); want = lastOf(0, end, isIn); break;
	case 6: r = h.findNot(s, at); want = firstOf(at + 1, len - 1, notIn); break;
	case 7: r = h.rfindNot(s, at); want = lastOf(0, end, notIn); break;
	}
	static const char* const what[] = { "find(character)", "rfind(character)", "find(string)", "rfind(string)", "findAny", "rfindAny", "findNot", "rfindNot" };
	sv_check(r == want, what[kind]);
	if (r > 0) sv_reach("found");
	if (r < 0) sv_reach("absent");
	same(h, hm, "searching changes nothing");
	return r;
}
extern "C" void sv_main() { int r = go(); sv_out((uint32_t)r); }
