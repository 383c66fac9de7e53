// S08 (joins): a string put together from pieces that are not all well-formed UTF-8 has the bytes of the pieces in order, and
// its length, characters and slices are those of these bytes, also where bytes of two pieces make one character.
#include "sv.h"
#include "ref_utf8.h"
#include <strval.h>
enum { MAXB = 24 };
struct T { unsigned char b[MAXB + 8]; int n; T() : n(0) { b[0] = 0; } };
static void add(T& t, const unsigned char* p, int k) { for (int i = 0; i < k; i++) t.b[t.n++] = p[i]; t.b[t.n] = 0; }
static T piece(const char* nm, int max) { T t; int n = sv_choose(nm, max + 1); for (int i = 0; i < n; i++) { unsigned char c = sv_u8("b"); sv_assume(c != 0); add(t, &c, 1); } return t; }
static bool minimal(const T& t) { for (int p = 0; p < t.n; ) { uint32_t v; int l = ref_utf8_get(t.b + p, v); if (!(v >> 31) && ref_utf8_len(v) != l) return false; p += l; } return true; }	// a character written again takes the shortest form
static StrVal str(const T& t) { return StrVal((const char*)t.b); }
static int bounds(const T& t, int* at) { int k = 0, p = 0; while (p < t.n) { uint32_t v; at[k++] = p; p += ref_utf8_get(t.b + p, v); } at[k] = p; return k; }
static void agree(const StrVal& s, const T& t, const char* what)
{
	StrValIndex nb; const char* p = s.asUTF8(nb);
	bool eq = (int)nb == t.n;
	for (int i = 0; eq && i < t.n; i++) eq = (unsigned char)p[i] == t.b[i];
	sv_check(eq, what);
	int at[MAXB + 8], k = bounds(t, at);
	sv_check((int)s.length() == k, "its length is the number of characters in its bytes");
	for (int i = 0; i < k; i++) { uint32_t v; ref_utf8_get(t.b + at[i], v); sv_check((uint32_t)s[i] == v, "each character is the one its bytes make"); }
	sv_check(s[k] == 0, "and NUL at the end");
}
extern "C" void sv_main()
{
	uint64_t h0 = sv_heap();
	{
		T a = piece("a", NA), b = piece("b", NB), w;
		int at[MAXB + 8], ka = bounds(a, at);
		StrVal s, sb = str(b);
		switch (sv_choose("how", 9)) {
		case 0: s = str(a) + sb; w = a; add(w, b.b, b.n); break;
		case 1: s = str(a); s += sb; w = a; add(w, b.b, b.n); break;
		case 2: { s = str(a); int p = sv_choose("pos", ka + 1); s.insert(p, sb); add(w, a.b, at[p]); add(w, b.b, b.n); add(w, a.b + at[p], a.n - at[p]); break; }
		case 3: s = str(a); s.prepend(sb); w = b; add(w, a.b, a.n); break;
		case 4: { if (!minimal(b)) { sv_done(); return; } s = str(a); w = a; int p = 0; while (p < b.n) { uint32_t v; p += ref_utf8_get(b.b + p, v); s += (UCS4)v; } add(w, b.b, b.n); break; }	// character by character
		case 5: { T x; add(x, (const unsigned char*)"x", 1); add(x, a.b, a.n); s = str(x); s = s.substr(1); s += sb; w = a; add(w, b.b, b.n); break; }	// a lone slice
		case 6: { T x = a; add(x, (const unsigned char*)"xyz", 3); s = str(x); s = s.substr(0, ka); s += sb; w = a; add(w, b.b, b.n); break; }	// and one that ends early
		case 7: { StrVal k = str(a); s = k; s += sb; w = a; add(w, b.b, b.n); agree(k, a, "a copy keeps its bytes"); break; }
		case 8: {	// one character taken out
			if (!ka || !minimal(a)) { sv_done(); return; }
			int p = sv_choose("pos", ka), i = 0; s = str(a);
			s.transform([&](const char*& cp, const char* ep) -> StrVal { UCS4 ch = UTF8Get(cp); return i++ == p ? StrVal() : StrVal(ch); });
			add(w, a.b, at[p]); add(w, a.b + at[p + 1], a.n - at[p + 1]); break; }
		}
		agree(s, w, "the string has the bytes of its pieces in order");
		int wt[MAXB + 8], kw = bounds(w, wt), f = sv_choose("from", kw + 1);
		T r; add(r, w.b + wt[f], w.n - wt[f]);
		StrVal t = s.substr(f);
		agree(t, r, "a slice has the bytes of its characters");
		s += (UCS4)'z'; add(w, (const unsigned char*)"z", 1);
		agree(s, w, "more can be added");
		agree(t, r, "and a slice stays as it was");
		sv_reach("end");
		sv_out(kw);
	}
	sv_check(sv_heap() == h0, "no memory outlives the strings");
}
