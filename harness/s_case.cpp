// S06: case conversion and transform() of a string or slice: every character mapped, in order, nothing else touched.
#include "strmodel.h"
#include "ref_case.h"
static int32_t look(const RefRange* t, int n, uint32_t c)
{
	int lo = 0, hi = n - 1;
	while (lo <= hi) {
		int m = (lo + hi) / 2;
		if (c < t[m].lo) hi = m - 1;
		else if (c > t[m].hi) lo = m + 1;
		else return t[m].delta;
	}
	return 0;
}
#ifdef ROOM		// the storage allocated for the result, at every size around where it is full
static int go()
{
	M w; int nn = sv_choose("n", ROOM), wide = 1 + sv_choose("wide", 3);
	for (int i = 0; i < nn; i++) w.add(genChar(1));
	for (int i = 0; i < wide; i++) w.add(genChar(4));
	if (sv_choose("tail", 2)) w.add(genChar(3));
	StrVal t = mkStr(w), s; M ms;
	if (sv_choose("keep", 2)) s = t, ms = w;
	int at = nn ? sv_choose("at", 2) * (nn - 1) : 0, r = sv_choose("r", 10);
	M rep; char rb[16]; for (int i = 0; i < r; i++) { MC x; x.w = 1; x.b[0] = rb[i] = 'a' + i; rep.add(x); } rb[r] = 0;
	int calls = 0;
	t.transform([&](const char*& cp, const char* ep) -> StrVal { calls++; return StrVal(rb); }, at - 1);	// once, consuming nothing
	sv_check(calls == 1, "the function is called once");
	M want = w.sub(0, at); want.ins(want.n, rep); want.ins(want.n, w.sub(at, w.n - at));
	same(t, want, "transformed"); sameChars(t, want, "transformed, by index"); same(s, ms, "the original");
	sv_reach("end");
	return want.n;
}
#else
#define CNT(t) (int)(sizeof(t)/sizeof(t[0]))
static MC mapc(const MC& c, bool up)
{
	uint32_t u = M::code(c);
	if (u & 0x80000000u) return c;
	int32_t d = up ? look(ref_up, CNT(ref_up), u) : look(ref_lo, CNT(ref_lo), u);
	return d ? encChar(u + d) : c;
}
static M mapm(const M& m, bool up) { M r; for (int i = 0; i < m.n; i++) r.c[r.n++] = mapc(m.c[i], up); return r; }
static int go()
{
	static const char* const pats[] = { PATS };
	M w = genText(pats[sv_choose("layout", sizeof(pats) / sizeof(pats[0]))]);
	StrVal s = mkStr(w), t; M mt;
	// what is converted: the whole string, or a slice of it
	int at = 0, len = -1;
	if (sv_choose("slice", 2)) { at = sv_choose("at", w.n + 1); len = sv_choose("len", w.n - at + 1); }
	t = s.substr(at, len); mt = w.sub(at, len);
	switch (sv_choose("share", 3)) {
	case 0: break;					// s still refers to the body
	case 1: s = StrVal(); w = M(); break;		// the slice is the only reference
	case 2: if (mt.n) { t[mt.n / 2]; t[mt.n - 1]; } break;
	}
	M mu = mt; StrVal u = t;
	if (sv_choose("alone", 2)) { u = StrVal(); mu = M(); }
#ifndef TRANSFORM
	bool up = sv_choose("up", 2);
	if (sv_choose("as", 2)) {
		StrVal v = up ? t.asUpper() : t.asLower(); M mv = mapm(mt, up);
		same(v, mv, "converted copy"); sameChars(v, mv, "converted copy, by index");
		v += StrVal("x"); MC x; x.w = 1; x.b[0] = 'x'; mv.add(x); same(v, mv, "converted copy, edited");
	} else {
		if (up) t.toUpper(); else t.toLower();
		mt = mapm(mt, up);
	}
#else
	// at each character after 'after': consume k characters, put r there instead; stop when k is 0
	int after = sv_choose("after", mt.n + 1) - 1;
	int ks[4], rs[4], n = 0;
	M want; int pos = 0;
	static const char* const reps[] = { "", "!", "\xC3\xA9", "ab\xE2\x82\xAC" };
	bool stopped = false; int calls = 0;
	for (; pos <= after && pos < mt.n; pos++) want.add(mt.c[pos]);
	while (pos < mt.n) {
		if (stopped || calls == 4) { want.add(mt.c[pos++]); continue; }
		int k = sv_choose("k", 3), r = sv_choose("r", 4);
		if (k > mt.n - pos) { sv_done(); return 0; }
		if (calls == 3) { k = 0; }
		ks[calls] = k; rs[calls] = r; calls++;
		M rep; const char* rp = reps[r];
		if (r == 1) { MC x; x.w = 1; x.b[0] = '!'; rep.add(x); }
		if (r == 2) rep.add(encChar(0xE9));
		if (r == 3) { MC x; x.w = 1; x.b[0] = 'a'; rep.add(x); x.b[0] = 'b'; rep.add(x); rep.add(encChar(0x20AC)); }
		want.ins(want.n, rep);
		pos += k;
		if (k == 0) stopped = true;
	}
	int call = 0;
	bool ok = true;
	t.transform([&](const char*& cp, const char* ep) -> StrVal {
		if (call >= calls) { ok = false; return StrVal(); }
		ok &= cp < ep && *ep == 0;
		for (int i = 0; i < ks[call]; i++) UTF8Get(cp);
		return StrVal(reps[rs[call++]]);
	}, after);
	sv_check(ok && call == calls, "the function is called once per transformed position, until it stops");
	mt = want;
#endif
	same(t, mt, "converted"); sameChars(t, mt, "converted, by index");
	same(s, w, "the original"); same(u, mu, "another reference");
	// and the result is an ordinary string
	MC x; x.w = 1; x.b[0] = 'x';
	StrVal y("x"); int pos2 = mt.n / 2; t.insert(pos2, y); M mx; mx.add(x); mt.ins(pos2, mx);
	same(t, mt, "converted and edited"); sameChars(t, mt, "converted and edited, by index");
	same(u, mu, "another reference"); same(s, w, "the original");
	if (mt.n > 1) sv_reach("end");
	return mt.bytes() * 100 + mt.n;
}
#endif
extern "C" void sv_main()
{
	uint64_t h0 = sv_heap();
	int h = go();
	sv_check(sv_heap() == h0, "no memory outlives the strings");
	sv_out(h);
}
