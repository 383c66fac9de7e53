// V02: as_json() of any variant is JSON that an independent reader turns back into the same data, in every layout mode.
#include "sv.h"
#include <variant.h>
typedef Variant V;
struct M { int type; int64_t num; int n; unsigned char s[4]; M* kid[3]; unsigned char key[3]; };
static M pool[24]; static int np;
static M& mk(int type) { M& m = pool[np++]; m.type = type; m.n = 0; m.num = 0; return m; }
static int budget; static bool any_;	// the first character is any, the others need no escape
static unsigned char ch() { unsigned char c = sv_u8("c"); if (!any_) { any_ = true; sv_assume(c != 0 && c < 0x80); } else sv_assume(c >= '#' && c < 0x7F && c != '\\'); return c; }
static StrVal str(M& m, int maxlen) { m.n = sv_choose("slen", maxlen + 1); char b[8]; for (int i = 0; i < m.n; i++) b[i] = m.s[i] = ch(); return StrVal(b, m.n); }
// every number of up to three digits, and the extreme ones
template<typename T> static T num(bool all)
{
	T mx = (T)(~(uint64_t)0 >> (65 - 8 * sizeof(T)));
	switch (all ? sv_choose("num", 4) : 0) {
	case 1: return mx;
	case 2: return -mx - 1;
	case 3: return mx / 10 + 1;
	default: { T x = (T)sv_u64("x"); T lim = all ? 999 : 9; sv_assume(x >= -lim && x <= lim); return x; }
	}
}
static M& scalar(V& v, bool all)
{
	int k = sv_choose("scalar", all ? 5 : 2);
	if (!all) k = k ? V::String : V::Integer;
	M& m = mk(k);
	switch (k) {
	case V::None: v = V(); break;
	case V::Integer: { int x = num<int>(all); m.num = x; v = V(x); break; }
	case V::Long: { long x = num<long>(all); m.num = x; v = V(x); break; }
	case V::LongLong: { long long x = num<long long>(all); m.num = x; v = V(x); break; }
	case V::String: v = V(str(m, all ? 2 : 1)); break;
	}
	return m;
}
static M& gen(V& v, int depth)
{
	int k = depth == 0 ? 0 : sv_choose("shape", 4);
	if (k == 0) return scalar(v, depth == DEPTH);
	M& m = mk(k == 1 ? V::StrArray : k == 2 ? V::VarArray : V::StrVarMap);
	int n = sv_choose("n", budget < 2 ? budget + 1 : 3);
	budget -= n;
	switch (m.type) {
	case V::StrArray: { StringArray a; for (int i = 0; i < n; i++) { M& e = mk(V::String); a << str(e, 1); m.kid[m.n++] = &e; } v = V(a); break; }
	case V::VarArray: { VariantArray a; for (int i = 0; i < n; i++) { V e; m.kid[m.n++] = &gen(e, depth - 1); a << e; } v = V(a); break; }
	default: {
		StrVariantMap a;
		for (int i = 0; i < n; i++) { m.key[i] = ch(); if (i) sv_assume(m.key[i - 1] < m.key[i]); char k[2] = { (char)m.key[i], 0 }; V e; m.kid[m.n++] = &gen(e, depth - 1); a.put(k, e); }
		v = V(a); break; }
	}
	return m;
}
// ---- the reader
static const unsigned char *rp, *re; static int mode; static bool bad;
static void space(int depth)	// white space, where the mode allows it: depth is the nesting the next token is at, -1 anywhere else
{
	const unsigned char* b = rp;
	while (rp < re && (*rp == ' ' || *rp == '\n')) rp++;
	if (mode == -2) bad |= rp != b;
	else if (mode == -1) for (; b < rp; b++) bad |= *b != ' ';
	else if (depth >= 0) {	// a line of its own, two spaces for each level
		bad |= rp - b != 1 + 2 * (mode + depth);
		for (; b < rp; b++) bad |= *b != (b == rp - 1 - 2 * (mode + depth) ? '\n' : ' ');
	} else if (depth == -1) for (; b < rp; b++) bad |= *b != ' ';
}
static bool tok(char c) { if (rp < re && *rp == (unsigned char)c) { rp++; return true; } return false; }
static int hexv(unsigned c) { return c >= '0' && c <= '9' ? (int)c - '0' : c >= 'A' && c <= 'F' ? (int)c - 'A' + 10 : c >= 'a' && c <= 'f' ? (int)c - 'a' + 10 : -1; }
static bool rdStr(const unsigned char* s, int n)
{
	if (!tok('"')) return false;
	bool eq = true;
	for (int i = 0; i < n; i++) {
		if (rp >= re) return false;
		unsigned c = *rp++;
		if (c < 0x20 || c == '"') return false;
		if (c == '\\') {
			if (rp >= re) return false;
			switch (*rp++) {
			case '"': c = '"'; break; case '\\': c = '\\'; break; case '/': c = '/'; break;
			case 'b': c = 8; break; case 'f': c = 12; break; case 'n': c = 10; break; case 'r': c = 13; break; case 't': c = 9; break;
			case 'u': { if (re - rp < 4) return false; c = 0; for (int j = 0; j < 4; j++) { int h = hexv(rp[j]); if (h < 0) return false; c = c << 4 | h; } rp += 4; break; }
			default: return false;
			}
		}
		eq &= c == s[i];
	}
	return tok('"') && eq;
}
static bool word(const char* w) { for (; *w; w++) if (!tok(*w)) return false; return true; }
static bool rdNum(int64_t x)
{
	bool neg = tok('-'); uint64_t v = 0; int n = 0; bool zero = false;
	for (; rp < re && *rp >= '0' && *rp <= '9'; rp++, n++) if (n == 0) zero = *rp == '0';
	uint64_t w = 1;
	for (int i = 1; i <= n; i++, w *= 10) { unsigned char c = rp[-i]; v += (uint64_t)(c - '0') * w; }
	return n > 0 && n < 20 && !(zero && n > 1) && (neg ? x < 0 && v == 0 - (uint64_t)x : x >= 0 && v == (uint64_t)x);
}
static bool rd(M& m, int depth)
{
	switch (m.type) {
	case V::None: return word("null");
	case V::Integer: case V::Long: case V::LongLong: return rdNum(m.num);
	case V::String: return rdStr(m.s, m.n);
	}
	bool map = m.type == V::StrVarMap;
	if (!tok(map ? '{' : '[')) return false;
	if (m.n == 0) { space(-2); return tok(map ? '}' : ']'); }
	for (int i = 0; i < m.n; i++) {
		if (i && !tok(',')) return false;
		space(depth + 1);
		if (map) { if (!rdStr(&m.key[i], 1)) return false; if (!tok(':')) return false; space(-1); }
		if (!rd(*m.kid[i], depth + 1)) return false;
	}
	space(depth);
	return tok(map ? '}' : ']');
}
static int go()
{
	np = 0; bad = any_ = false; budget = NODES;
	V v; M& m = gen(v, DEPTH);
	static const int modes[] = { MODES };
	mode = modes[sv_choose("mode", sizeof(modes) / sizeof(modes[0]))];
	StrVal j = v.as_json(mode);
	StrValIndex n; rp = (const unsigned char*)j.asUTF8(n); re = rp + n;
	sv_note(j.asUTF8());
	bool ok = rd(m, 0);
	sv_check(ok && rp == re, "the text reads back as the same data");
	sv_check(!bad, "white space as the mode asks for");
	sv_reach("end");
	if (m.n) sv_reach("filled");
	return m.type << 8 | (int)n;
}
extern "C" void sv_main()
{
	uint64_t h0 = sv_heap();
	int r = go();
	sv_check(sv_heap() == h0, "no memory outlives the variant");
	sv_out(r);
}
