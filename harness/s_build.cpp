// S07: text assembled by joining, repeating, mixing with literals, and by format() is exactly the pieces in order; an array of
// strings holds the strings put in it; nothing that was used is changed.
#include "strmodel.h"
#include <variant.h>
static const char* const pats[] = { PATS };
static const char* const joins[] = { JOINS };
#define N(a) (int)(sizeof(a) / sizeof((a)[0]))
static StrVal* whole; static M wholeM[4];
// a text given whole, as an inner slice, or as a slice of the text made before it (so that one may continue the other)
static void piece(int k, const char* pat, StrVal& s, M& m)
{
	wholeM[k] = genText(pat); whole[k] = mkStr(wholeM[k]);
	int n = wholeM[k].n, how = sv_pick("slice", 3);
	if (how == 0) { s = whole[k]; m = wholeM[k]; return; }
	if (how == 1) { if (n < 2) sv_done(); s = whole[k].substr(1, n - 2); m = wholeM[k].sub(1, n - 2); return; }
	if (!k || wholeM[k - 1].n < 2) sv_done();
	n = wholeM[k - 1].n;
	s = whole[k - 1].substr(n / 2); m = wholeM[k - 1].sub(n / 2, -1);
	if (sv_pick("head", 2)) { s = whole[k - 1].head(n / 2); m = wholeM[k - 1].sub(0, n / 2); }
}
static void cat(M& a, const M& b) { a.ins(a.n, b); }
static M lit(const char* p) { M m; for (; *p; p++) { MC c; c.w = 1; c.b[0] = *p; m.add(c); } return m; }
static void unchanged(StrVal* s, M* m, int n)
{
	for (int i = 0; i < n; i++) { same(s[i], m[i], "a text that was used is unchanged"); same(whole[i], wholeM[i], "nor is the text it is a slice of"); }
}
static void joining()
{
	int n = sv_pick("n", 4);
	StrVal s[4], j; M m[4], jm;
	const char* jp = joins[sv_pick("joiner", N(joins))];
	for (int i = 0; i < n; i++) piece(i, pats[sv_pick("layout", N(pats))], s[i], m[i]);
	jm = genText(jp); j = mkStr(jm);
	StringArray a;
	if (sv_pick("built", 2)) a = StringArray(s, n);
	else for (int i = 0; i < n; i++) a.append(s[i]);
	StrVal r = a.join(j);
	M w;
	for (int i = 0; i < n; i++) { if (i) cat(w, jm); cat(w, m[i]); }
	same(r, w, "join() is the elements in order with the joiner between them");
	sameChars(r, w, "join() reads character by character");
	sv_check((int)a.length() == n, "the array is unchanged");
	for (int i = 0; i < n; i++) same(a[i], m[i], "its elements are unchanged");
	same(j, jm, "the joiner is unchanged");
	r += (UCS4)'z';
	for (int i = 0; i < n; i++) same(a.elem(i), m[i], "the text joined is independent of the elements");
	unchanged(s, m, n);
	sv_out(n);
}
static void repeating()
{
	StrVal s; M m;
	piece(0, pats[sv_pick("layout", N(pats))], s, m);
	int k = sv_pick("times", 4);
	StrVal r = s * k;
	M w; for (int i = 0; i < k; i++) cat(w, m);
	same(r, w, "a text times n is the text n times over");
	sameChars(r, w, "a text times n reads character by character");
	r += s; cat(w, m);
	same(r, w, "and can be added to");
	unchanged(&s, &m, 1);
	sv_out(k);
}
static void literals()
{
	StrVal s; M m, w;
	piece(0, pats[sv_pick("layout", N(pats))], s, m);
	StrVal r; MC c;
	char b[16]; M lm = genText(joins[sv_pick("literal", N(joins))]);
	int z = lm.put(b);
	for (int i = 0; i < lm.n; i++) sv_assume(lm.c[i].b[0] != 0);
	switch (sv_pick("form", 7)) {
	case 0: r = s + (const char*)b; w = m; cat(w, lm); break;
	case 1: r = (const char*)b + s; w = lm; cat(w, m); break;
	case 2: c = genChar(1 + sv_pick("width", 4)); r = s + (UCS4)M::code(c); w = m; w.add(c); break;
	case 3: c = genChar(1 + sv_pick("width", 4)); r = StrVal((UCS4)M::code(c)) + s; w.add(c); cat(w, m); break;
	case 4: r = s; r.prepend(StrVal(b, (StrValIndex)z)); w = lm; cat(w, m); break;
	case 5: r = s; r.append((const char*)b); w = m; cat(w, lm); break;
	case 6: r = s; r += (const char*)b; w = m; cat(w, lm); r += r; { M t = w; cat(w, t); } break;
	}
	same(r, w, "texts put together are the pieces in order");
	sameChars(r, w, "texts put together read character by character");
	unchanged(&s, &m, 1);
	sv_out(w.n);
}
// arrays of strings: what the typed accessors give
static void arrays()
{
	StrVal s[3]; M m[3];
	for (int i = 0; i < 3; i++) piece(i, i == 1 ? "21" : pats[sv_pick("layout", N(pats))], s[i], m[i]);
	int n = 1 + sv_pick("n", 3);
	StringArray a(s, n);
	StringArray b = a;
	M am[4]; int an = n; for (int i = 0; i < n; i++) am[i] = m[i];
	M bm[4]; for (int i = 0; i < n; i++) bm[i] = m[i];
	switch (sv_pick("op", 6)) {
	case 0: same(a.last(), am[an - 1], "last() is the last string"); break;
	case 1: { StrVal r = a.pull(); same(r, am[--an], "pull() gives the last string and removes it"); break; }
	case 2: { int at = sv_pick("at", 3); if (at >= n) sv_done(); StrVal r = a.delete_at(at); same(r, am[at], "delete_at() gives the string removed"); an--; for (int i = at; i < an; i++) am[i] = am[i + 1]; break; }
	case 3: { a.append(s[0]); am[an++] = m[0]; break; }
	case 4: { StrVal r = a[0]; r += (UCS4)'q'; break; }	// a copy
	case 5: { a.push(s[2]); am[an++] = m[2]; s[2] = "gone"; m[2] = lit("gone"); break; }
	}
	sv_check((int)a.length() == an && (int)b.length() == n, "each array has the strings it should");
	for (int i = 0; i < an; i++) same(a[i], am[i], "an array holds the strings put in it");
	for (int i = 0; i < n; i++) same(b.elem(i), bm[i], "a copy of an array is unchanged");
	unchanged(s, m, 3);
	sv_out(an);
}
#ifdef FMT
// format(): %s, %d, numbered or in sequence, with any other text between
static void decimal(M& w, int32_t v)
{
	char t[12]; int k = 0; uint32_t u = v < 0 ? 0u - (uint32_t)v : (uint32_t)v;
	do { t[k++] = '0' + u % 10; u /= 10; } while (u);
	if (v < 0) t[k++] = '-';
	while (k) { MC c; c.w = 1; c.b[0] = t[--k]; w.add(c); }
}
static void formats()
{
	static const int32_t nums[] = { 0, 7, -12, 2147483647, (int32_t)0x80000000 };
	M f, w;
	StrVal s; M m;
	piece(0, pats[sv_pick("layout", N(pats))], s, m);
	M arg[3]; bool num[3]; int32_t val[3];
	VariantArray args;
	for (int i = 0; i < 3; i++) {
		num[i] = sv_pick("number", 2);
		if (num[i]) { int32_t v = val[i] = nums[sv_pick("value", N(nums))]; args.append(Variant((int)v)); decimal(arg[i], v); }
		else { args.append(Variant(s)); arg[i] = m; }
	}
	int next = 0, k = 1 + sv_pick("parts", PARTS);
	for (int p = 0; p < k; p++) {
		int what = sv_pick("part", 7);
		if (what < 2) { MC c = genChar(what ? 3 : 1); if (!what) sv_assume(c.b[0] != '%'); f.add(c); w.add(c); continue; }
		bool star = what == 5;		// a size given by a parameter: 0, so that it changes nothing
		if (star) { if (next >= 2 || !num[next] || val[next]) sv_done(); next++; }
		bool precise = what == 6;	// a precision given by a parameter: for a number 0, for text more than it has
		if (precise) { if (next >= 2 || !num[next] || (num[next + 1] ? val[next] || !val[next + 1] : val[next] != 2147483647)) sv_done(); next++; }
		int at = what == 3 ? sv_pick("which", 3) : next++;
		if (at >= 3) sv_done();
		cat(f, lit("%"));
		if (what == 3) { MC c; c.w = 1; c.b[0] = '1' + at; f.add(c); cat(f, lit("$")); }
		if (what == 4) switch (sv_pick("size", 4)) {	// sizes and precisions that change nothing
		case 0: cat(f, lit("1")); break;	// no text is shorter, but the empty one
		case 1: cat(f, lit(num[at] ? "0" : "1.10")); break;
		case 2: cat(f, lit(num[at] ? ".1" : ".98")); break;
		default: cat(f, lit(num[at] ? "01.1" : "01.765")); break;
		}
		if (precise) cat(f, lit(".*"));
		if (what == 4 && !num[at] && !arg[at].n) sv_done();
		if (star) cat(f, lit("*"));
		cat(f, lit(num[at] ? "d" : "s"));
		cat(w, arg[at]);
	}
	if (sv_pick("percent", 2)) { cat(f, lit("%")); cat(w, lit("%")); }	// at the very end it is just a character
	StrVal fs = mkStr(f);
	StrVal r = StrVal::format(fs, args);
	same(r, w, "a formatted text is the format with each parameter in its place");
	same(fs, f, "the format is unchanged");
	for (int i = 0; i < 3; i++) if (!num[i]) same(args[i].as_strval(), arg[i], "the parameters are unchanged");
	unchanged(&s, &m, 1);
	sv_out(w.n);
}
#endif
extern "C" void sv_main()
{
	uint64_t before = sv_heap();
	StrVal texts[4]; whole = texts;
#ifdef FMT
	formats();
#else
	switch (sv_pick("part", 4)) {
	case 0: joining(); sv_reach("join"); break;
	case 1: repeating(); sv_reach("repeat"); break;
	case 2: literals(); sv_reach("literal"); break;
	case 3: arrays(); sv_reach("array"); break;
	}
#endif
	for (int i = 0; i < 4; i++) whole[i] = StrVal();
	sv_check(sv_heap() == before, "all storage is released");
	sv_reach("end");
}
