// S01: StrVals are values: any sequence of edits through any of several strings sharing storage
// leaves every other string unchanged and gives the edited one its specified contents.
#include "strmodel.h"
#ifndef SV_K
#define SV_K 2
#endif
#ifndef SV_NV
#define SV_NV 3
#endif
static M m[SV_NV + 1];
static int pick(int n, const char* nm)		// a position 0..n: both ends, next to them, the middle
{
#ifdef ALLPOS
	return sv_choose(nm, n + 1);
#else
#ifdef POS3
	int cand[] = { 0, n / 2, n }, uniq[6], k = 0;
#else
	int cand[] = { 0, 1, n / 2, n - 1, n, 4 }, uniq[6], k = 0;
#endif
	for (int i = 0; i < (int)(sizeof(cand) / sizeof(cand[0])); i++) {
		if (cand[i] < 0 || cand[i] > n) continue;
		bool dup = false;
		for (int j = 0; j < k; j++) dup |= uniq[j] == cand[i];
		if (!dup) uniq[k++] = cand[i];
	}
	return uniq[sv_choose(nm, k)];
#endif
}
static void step(StrVal* v)
{
	static const int ops[] = { OPS };
	int op = ops[sv_choose("op", sizeof(ops) / sizeof(ops[0]))];
	int i = sv_choose("i", SV_NV), j = sv_choose("j", SV_NV);
	switch (op) {
	case 0: sv_note("assign"); v[i] = v[j]; m[i] = m[j]; break;
	case 1: { sv_note("substr"); int at = pick(m[j].n, "at"), len = pick(m[j].n, "len") ; if (sv_choose("open", 2)) len = -1; v[i] = v[j].substr(at, len); m[i] = m[j].sub(at, len); break; }
	case 2: { sv_note("insert"); int pos = pick(m[i].n, "pos"); M t = m[j]; v[i].insert(pos, v[j]); m[i].ins(pos, t); break; }
	case 3: { sv_note("+="); M t = m[j]; v[i] += v[j]; m[i].ins(m[i].n, t); break; }
	case 4: { sv_note("+"); int k = (j + 1) % SV_NV; M t = m[j]; t.ins(t.n, m[k]); v[i] = v[j] + v[k]; m[i] = t; break; }
	case 5: { if (j > 1) { sv_done(); return; } sv_note("+=char"); MC c = genChar(j ? 3 : 1); v[i] += (UCS4)M::code(c); m[i].add(c); break; }
	case 6: { if (j) { sv_done(); return; } sv_note("asUTF8"); const char* p = v[i].asUTF8(); int want = m[i].bytes(); bool eq = true; int t = 0;
		for (int a = 0; a < m[i].n; a++) for (int b = 0; b < m[i].c[a].w; b++, t++) eq &= (unsigned char)p[t] == m[i].c[a].b[b];
		sv_check(eq && p[want] == 0, "asUTF8() returns the bytes and a NUL"); break; }
	case 7: { sv_note("*"); M t = m[j]; t.ins(t.n, m[j]); v[i] = v[j] * 2; m[i] = t; break; }
	case 8: { sv_note("+char"); M t = m[j]; MC c = genChar(2); v[i] = v[j] + (UCS4)M::code(c); t.add(c); m[i] = t; break; }
	case 9: { sv_note("prepend"); M t = m[j]; v[i].prepend(v[j]); m[i].ins(0, t); break; }
	case 10: { sv_note("head/tail/shorter"); int k = pick(m[j].n, "k"); int w = sv_choose("w", 3); M t = w == 0 ? m[j].sub(0, k) : w == 1 ? m[j].sub(m[j].n - k, k) : m[j].sub(0, m[j].n - k);
		v[i] = w == 0 ? v[j].head(k) : w == 1 ? v[j].tail(k) : v[j].shorter(k); m[i] = t; break; }
	}
}
static int go()
{
	StrVal v[SV_NV];
	static const char* const pats[] = { PATS };
	m[0] = genText(pats[sv_choose("layout", sizeof(pats) / sizeof(pats[0]))]);
	v[0] = mkStr(m[0]);
	int st = sv_choose("start", 3);
	if (st == 0) { m[1] = m[0]; v[1] = v[0]; }
	else if (st == 1) { m[1] = m[0].sub(m[0].n / 2, -1); v[1] = v[0].substr(m[0].n / 2); v[0] = StrVal(); m[0] = M(); }	// the only reference, to a suffix
	else { m[1] = genText("21"); v[1] = mkStr(m[1]); }
	for (int k = 0; k < SV_K; k++) {
		step(v);
		for (int i = 0; i < SV_NV; i++) same(v[i], m[i], "every string holds its own value after an edit");
	}
	for (int i = 0; i < SV_NV; i++) sameChars(v[i], m[i], "indexing agrees with the value");
	sv_reach("end");
	int h = 0; for (int i = 0; i < SV_NV; i++) h = h * 40 + m[i].n;
	return h;
}
extern "C" void sv_main()
{
	uint64_t h0 = sv_heap();
	int h = go();
	sv_check(sv_heap() == h0, "no memory outlives the strings");
	sv_out(h);
}
