// V01: variants are values, and coercion never loses anything.
#include "sv.h"
#include <variant.h>
struct M { int type; int64_t num; int n; char s[24]; const M* kid[4]; };	// a value; never changed once made
static M pool[64]; static int np;
static M& mk(int type) { M& m = pool[np++]; m.type = type; m.n = 0; m.num = 0; return m; }
typedef Variant V;
static bool strEq(const StrVal& s, const M& m) { StrValIndex n; const char* p = s.asUTF8(n); if ((int)n != m.n) return false; bool e = true; for (int i = 0; i < m.n; i++) e &= p[i] == m.s[i]; return e; }
static bool same(const V& v, const M& m)
{
	if (v.type() != m.type || v.is_null() != (m.type == V::None)) return false;
	switch (v.type()) {
	case V::None: return true;
	case V::Integer: return v.as_int() == m.num;
	case V::Long: return v.as_long() == m.num;
	case V::LongLong: return v.as_longlong() == m.num;
	case V::String: return strEq(v.as_strval(), m);
	case V::StrArray: { StringArray a = v.as_string_array(); if ((int)a.length() != m.n) return false; for (int i = 0; i < m.n; i++) if (!strEq(a[i], *m.kid[i])) return false; return true; }
	case V::VarArray: { VariantArray a = v.as_variant_array(); if ((int)a.length() != m.n) return false; for (int i = 0; i < m.n; i++) { const V e = a[i]; if (!same(e, *m.kid[i])) return false; } return true; }
	case V::StrVarMap: { StrVariantMap a = v.as_variant_map(); if ((int)a.size() != m.n) return false; int i = 0; for (auto it = a.begin(); it != a.end(); it++, i++) { char k = 'j' + i; StrVal key = it->first; if (key.length() != 1 || (char)key[0] != k) return false; const V e = it->second; if (!same(e, *m.kid[i])) return false; } return true; }
	}
	return false;
}
static const char* key(int i) { static const char k[][2] = { "j", "k", "l" }; return k[i]; }
static bool small;	// fewer alternatives
static const M& scalar(V& v, int kind)
{
	M& m = mk(kind);
	switch (kind) {
	case V::None: v = V(); break;
	case V::Integer: { int x = sv_u32("i"); m.num = x; v = V(x); break; }
	case V::Long: { long x = sv_u64("l"); m.num = x; v = V(x); break; }
	case V::LongLong: { long long x = sv_u64("ll"); m.num = x; v = V(x); break; }
	case V::String: m.n = small ? 1 : sv_choose("slen", 3); for (int i = 0; i < m.n; i++) { m.s[i] = sv_u8("c"); sv_assume(m.s[i] > 0); } m.s[m.n] = 0; if (!small && sv_choose("ctor", 2)) v = V(m.s); else v = V(StrVal(m.s)); break;
	}
	return m;
}
static const M& fresh(V& v, bool full)
{
	int kind = sv_choose("kind", 8);
	small = !full || kind > V::String;
	if (full && sv_choose("empty", 2)) { v = V((V::VariantType)kind); return mk(kind); }
	if (kind < V::StrArray) return scalar(v, kind);
	M& m = mk(kind);
	m.n = full ? 1 + sv_choose("n", 2) : 1;
	if (kind == V::StrArray) {
		StrVal e[2];
		for (int i = 0; i < m.n; i++) { V t; const M& k = scalar(t, V::String); m.kid[i] = &k; const V& ct = t; e[i] = ct.as_strval(); }
		if (sv_choose("ctor", 2)) v = V(StringArray(e, m.n)); else v = V(e, m.n);
	} else {
		V e[2]; StrVal ks[2];
		for (int i = 0; i < m.n; i++) { m.kid[i] = &scalar(e[i], i ? V::String : V::Integer); ks[i] = key(i); }
		if (kind == V::VarArray) { if (sv_choose("ctor", 2)) v = V(VariantArray(e, m.n)); else v = V(e, m.n); }
		else if (sv_choose("ctor", 2)) { StrVariantMap mp; for (int i = m.n; i-- > 0; ) mp.put(ks[i], e[i]); v = V(mp); }
		else v = V(ks, e, m.n);
	}
	return m;
}
static const M& plus(const M& a, const M* x) { M& m = mk(a.type); m = a; m.kid[m.n++] = x; return m; }
static void values()
{
	V v[3]; const M* m[3] = { &mk(V::None), 0, 0 }; m[1] = m[2] = m[0];
	m[0] = &fresh(v[0], true);
	if (sv_choose("share", 2)) { v[1] = v[0]; m[1] = m[0]; }
	for (int k = 0; k < SV_K; k++) {
		static const int ops[] = { OPS };
		int i = sv_choose("i", 2), j = sv_choose("j", 3);
		switch (ops[sv_choose("op", sizeof(ops) / sizeof(ops[0]))]) {
		case 0: v[i] = v[j]; m[i] = m[j]; break;
		case 1: if (j) sv_done(); m[i] = &fresh(v[i], k + 1 == SV_K && k == 0); break;
		case 2: { V c(v[j]); const M* o = m[j]; sv_check(same(c, *o), "a copy equals its original"); v[i] = V(); m[i] = &mk(V::None); sv_check(same(c, *o), "a copy outlives its original"); break; }
		case 3: {	// writing through the accessors
			if (j) sv_done();
			M& n = mk(m[i]->type); n = *m[i];
			switch (v[i].type()) {
			case V::Integer: { int x = sv_u32("w"); v[i].as_int() = x; n.num = x; break; }
			case V::Long: { long x = sv_u64("w"); v[i].as_long() = x; n.num = x; break; }
			case V::LongLong: { long long x = sv_u64("w"); v[i].as_longlong() = x; n.num = x; break; }
			default: sv_done();
			}
			m[i] = &n; break; }
		case 4: {	// changing what an accessor returned leaves the variant alone, and makes a value of its own
			V got;
			switch (v[j].type()) {
			case V::String: { StrVal s = v[j].as_strval(); s += "z"; M& n = mk(V::String); n = *m[j]; if (n.n > 20) sv_done(); n.s[n.n++] = 'z'; v[i] = V(s); m[i] = &n; break; }
			case V::StrArray: { if (m[j]->n > 3) sv_done(); StringArray a = v[j].as_string_array(); a << StrVal("z"); M& z = mk(V::String); z.n = 1; z.s[0] = 'z'; v[i] = V(a); m[i] = &plus(*m[j], &z); break; }
			case V::VarArray: { if (m[j]->n > 3) sv_done(); VariantArray a = v[j].as_variant_array(); V c(v[2 - j]); a += c; const M* x = m[2 - j]; v[i] = V(a); m[i] = &plus(*m[j], x); break; }
			case V::StrVarMap: { if (m[j]->n > 2) sv_done(); StrVariantMap a = v[j].as_variant_map(); V c(v[2 - j]); a.put(key(m[j]->n), c); const M* x = m[2 - j]; v[i] = V(a); m[i] = &plus(*m[j], x); break; }
			default: sv_done();
			}
			break; }
		case 5: { VariantArray a = v[i] << v[j]; M& n = mk(V::VarArray); n.n = 2; n.kid[0] = m[i]; n.kid[1] = m[j]; v[2] = V(a); m[2] = &n; break; }
		}
		for (int x = 0; x < 3; x++) sv_check(same(v[x], *m[x]), "every variant holds its own value");
	}
	sv_out(v[0].type() | v[1].type() << 8);
	sv_reach("end");
}
#ifdef COERCE
// text of a number written out the long way, as digits chosen one by one
static int64_t number(char* t, int& n)
{
	static const char* const leads[] = { LEADS };
	const char* l = leads[sv_choose("lead", sizeof(leads) / sizeof(leads[0]))];
	bool neg = sv_choose("neg", 2); n = 0; uint64_t v = 0;
	if (neg) t[n++] = '-';
	for (; *l; l++) { t[n++] = *l; v = v * 10 + (*l - '0'); }
	int first = n, k = sv_choose("k", DIGITS + 1);
	for (int i = 0; i < k; i++) { unsigned char c = sv_u8("d"); sv_assume(c >= '0' && c <= '9'); if (n == neg && k > 1) sv_assume(c != '0'); t[n++] = c; v = v * 10 + (c - '0'); }
	if (n == neg) sv_done();
	sv_assume(v <= 9223372036854775807ull + neg);
	if (neg && first == 1) sv_assume(v != 0);
	t[n] = 0;
	return neg ? (int64_t)(0 - v) : (int64_t)v;
}
static void coercions()
{
	int from = sv_choose("from", 8), to = 1 + sv_choose("to", 7);
	V v, keep; char t[32]; int n; int64_t x = 0; bool fits = true;
	bool numeric = from == V::Integer || from == V::Long || from == V::LongLong;
	M& want = mk(to);
	if (numeric && to == V::String) { x = number(t, n); want.n = n; for (int i = 0; i < n; i++) want.s[i] = t[i]; }
	else if (numeric) x = sv_u64("x");
	if (from == V::Integer) { sv_assume(x == (int)x); v = V((int)x); }
	else if (from == V::Long) v = V((long)x);
	else if (from == V::LongLong) v = V((long long)x);
	else if (from == V::String) {
		if (to == V::String) { x = number(t, n); want.n = n; for (int i = 0; i < n; i++) want.s[i] = t[i]; }
		else if (to < V::String) {
			x = number(t, n);
			switch (sv_choose("junk", 3)) { case 1: t[n++] = 'x'; t[n] = 0; fits = false; break; case 2: t[0] = 0; fits = false; break; }
		}
		else t[0] = 0;
		v = V(t);
		if (to < V::String && x != (int)x) fits = false;		// "int32 only, or it fails"
	}
	else { v = V((V::VariantType)from); if (from != to) fits = false; }
	if (to > V::String && from != to) fits = false;
	if (to == V::Integer && numeric && x != (int)x) fits = false;
	want.num = x;
	keep = v;
	if (!fits) { sv_reach("refused"); sv_expect_abort(); }
	switch (to) {
	case V::Integer: { int r = v.as_int(); if (fits) sv_check(r == x, "the same number"); break; }
	case V::Long: { long r = v.as_long(); if (fits) sv_check(r == x, "the same number"); break; }
	case V::LongLong: { long long r = v.as_longlong(); if (fits) sv_check(r == x, "the same number"); break; }
	case V::String: { StrVal r = v.as_strval(); if (fits) sv_check(strEq(r, want), "the same text"); break; }
	case V::StrArray: v.as_string_array(); break;
	case V::VarArray: v.as_variant_array(); break;
	case V::StrVarMap: v.as_variant_map(); break;
	}
	sv_check(fits, "a coercion that would lose something does not return");
	sv_check(v.type() == to, "the variant is of the type asked for");
	if (to <= V::String) {
		sv_check(same(v, want), "the variant holds the same value in its new type");
		switch (to) {	// as a place to write to
		case V::Integer: { int y = sv_u32("y"); v.as_int() = y; want.num = y; break; }
		case V::Long: { long y = sv_u64("y"); v.as_long() = y; want.num = y; break; }
		case V::LongLong: { long long y = sv_u64("y"); v.as_longlong() = y; want.num = y; break; }
		}
		sv_check(same(v, want), "the variant holds what was written to it");
	}
	sv_check(keep.type() == from, "a copy made before keeps its type");
	sv_out(to); sv_reach("coerced");
}
#endif
extern "C" void sv_main()
{
	uint64_t h0 = sv_heap();
	np = 0;
#ifdef COERCE
	coercions();
#else
	values();
#endif
	sv_check(sv_heap() == h0, "no memory outlives the variants");
}
