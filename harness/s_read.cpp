// S08: reading a string: every way to build one, slicing, indexing in any order, raw binary data.
#include "strmodel.h"
static MC byteChar(unsigned char b) { MC m; m.w = 1; m.b[0] = b; return m; }
static bool rawEq(const StrVal& s, const M& m)
{
	if ((int)s.length() != m.n) return false;
	StrValIndex nb; const char* p = s.asUTF8(nb);
	if ((int)nb != m.n) return false;
	bool eq = true;
	for (int i = 0; i < m.n; i++) eq &= (unsigned char)p[i] == m.c[i].b[0] && (uint32_t)s[i] == m.c[i].b[0];
	return eq;
}
static int go()
{
#ifdef RAW
	M m; int n = sv_choose("n", RAW + 1); char buf[RAW + 1];
	for (int i = 0; i < n; i++) { unsigned char b = sv_u8("b"); m.add(byteChar(b)); buf[i] = b; }
	buf[n] = 0;
	if (n == 0) { sv_done(); return 0; }	// a zero length means "use strlen"
	StrVal s(new StrBody(buf, StrRawBinary, n));
	sv_check(rawEq(s, m), "raw binary data reads as its bytes");
	sv_check(s[n] == 0, "NUL at the end");
	int at = sv_choose("at", n), len = sv_choose("len", n - at + 1);
	StrVal t = s.substr(at, len); M mt = m.sub(at, len);
	sv_check(rawEq(t, mt), "slice of raw binary data");
	UCS4 want = sv_u8("want"); int f = -1, l = -1;
	for (int i = 0; i < mt.n; i++) if (mt.c[i].b[0] == want) { if (f < 0) f = i; l = i; }
	sv_check(t.find(want) == f && t.rfind(want) == l, "searching raw binary data");
	t.asUTF8(); sv_check(rawEq(t, mt) || mt.n == 0, "still the same when terminated"); 
	StrVal u = s; u.insert(at, t); m.ins(at, mt);
	sv_check(rawEq(u, m), "raw binary data inserted into raw binary data");
	sv_reach("end");
	return f * 10 + l;
#else
	static const char* const pats[] = { PATS };
	M w = genText(pats[sv_choose("layout", sizeof(pats) / sizeof(pats[0]))]);
	char buf[MAXC * 4 + 1]; int nb = w.put(buf);
	bool hasNul = false; for (int i = 0; i < w.n; i++) hasNul |= w.c[i].b[0] == 0;
	StrVal s;
	StrBody st(nb || !hasNul ? buf : "", StrStatic, nb);
	switch (sv_choose("ctor", 6)) {
	case 0: if (hasNul) { sv_done(); return 0; } s = StrVal((const char*)buf); break;
	case 1: s = StrVal(buf, (StrValIndex)nb); break;
	case 2: s = StrVal(buf, (StrValIndex)nb, nb + 9); break;
	case 3: if (w.n != 1 || (w.c[0].w == 1 && w.c[0].b[0] >= 0x80)) { sv_done(); return 0; } s = StrVal((UCS4)w.at(0)); break;
	case 4: { StrRef r(buf, (StrValIndex)nb); s = StrVal(r); break; }
	case 5: if (nb == 0) { sv_done(); return 0; } { StrVal x(&st); StrVal y(x); s = y; break; }		// a copy of a static string is independent of it
	}
	same(s, w, "as constructed"); sameChars(s, w, "as constructed, by index");
	for (int i = 0; i < nb; i++) buf[i] = 'Z';	// the data was copied
	same(s, w, "independent of the data it was made from");
	sv_check((bool)s == (w.n > 0), "true unless empty");
	sv_check((int)s.numBytes() == w.bytes(), "numBytes()");
	sv_check(s[w.n + 1] == UCS4_NONE && s[-1] == UCS4_NONE, "no character outside the string");
	int at = sv_choose("at", w.n + 2), len = sv_choose("len", w.n + 3) - 1;
	StrVal t = s.substr(at, len); M mt = w.sub(at, len);
	same(t, mt, "substr()"); sameChars(t, mt, "substr(), by index");
	sv_check(t[mt.n + 1] == UCS4_NONE && t[-1] == UCS4_NONE, "no character outside the slice");
	// a slice of the slice, after reading it in different orders
	int a2 = sv_choose("a2", mt.n + 1), l2 = sv_choose("l2", mt.n - a2 + 1);
	switch (sv_choose("use", 3)) {
	case 0: break;
	case 1: { const char* p = t.asUTF8(); int k = 0; bool eq = true;
		for (int i = 0; i < mt.n; i++) for (int j = 0; j < mt.c[i].w; j++, k++) eq &= (unsigned char)p[k] == mt.c[i].b[j];
		sv_check(eq && p[k] == 0, "asUTF8() is NUL terminated"); break; }
	case 2: { StrVal r = t * 2; M mr = mt; mr.ins(mr.n, mt); same(r, mr, "repeated"); break; }
	}
	StrVal v = t.substr(a2, l2); M mv = mt.sub(a2, l2);
	same(v, mv, "slice of a slice"); sameChars(v, mv, "slice of a slice, by index");
	same(t, mt, "slice after slicing it"); sameChars(t, mt, "slice after slicing it, by index");
	StrVal h = t.head(a2), ta = t.tail(a2), sh = t.shorter(a2);
	same(h, mt.sub(0, a2), "head()"); same(ta, a2 ? mt.sub(mt.n - a2, a2) : M(), "tail()"); same(sh, mt.sub(0, mt.n - a2), "shorter()");
	same(s, w, "the string sliced");
	if (mv.n > 1) sv_reach("end");
	return w.n * 100 + mv.n;
#endif
}
extern "C" void sv_main()
{
	uint64_t h0 = sv_heap();
	int h = go();
	sv_check(sv_heap() == h0, "no memory outlives the strings");
	sv_out(h);
}
