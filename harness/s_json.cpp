// S05: asJSON()/toJSON(): an independent reader of JSON string contents gets back exactly the characters, for every text.
#include "strmodel.h"
static int hexv(uint32_t c) { return c >= '0' && c <= '9' ? (int)c - '0' : c >= 'A' && c <= 'F' ? (int)c - 'A' + 10 : c >= 'a' && c <= 'f' ? (int)c - 'a' + 10 : -1; }
// the next UTF-16-or-scalar unit of JSON string contents at p; returns false if it is not valid JSON
static bool unit(const unsigned char*& p, const unsigned char* e, uint32_t& out)
{
	if (p >= e) return false;
	uint32_t c = *p++;
	if (c < 0x20 || c == '"') return false;
	if (c == '\\') {
		if (p >= e) return false;
		switch (*p++) {
		case '"': out = '"'; return true;
		case '\\': out = '\\'; return true;
		case '/': out = '/'; return true;
		case 'b': out = 8; return true;
		case 'f': out = 12; return true;
		case 'n': out = 10; return true;
		case 'r': out = 13; return true;
		case 't': out = 9; return true;
		case 'u': {
			if (e - p < 4) return false;
			out = 0;
			for (int i = 0; i < 4; i++) { int h = hexv(p[i]); if (h < 0) return false; out = out << 4 | h; }
			p += 4;
			return true; }
		default: return false;
		}
	}
	if (c < 0x80) { out = c; return true; }
	int n = c >= 0xF0 && c < 0xF5 ? 3 : c >= 0xE0 && c < 0xF0 ? 2 : c >= 0xC2 && c < 0xE0 ? 1 : 0;
	if (!n || e - p < n) return false;
	out = c & (0x3F >> n);
	for (int i = 0; i < n; i++) { if ((p[i] & 0xC0) != 0x80) return false; out = out << 6 | (p[i] & 0x3F); }
	p += n;
	return true;
}
static int go()
{
	static const char* const pats[] = { PATS };
	M w = genText(pats[sv_choose("layout", sizeof(pats) / sizeof(pats[0]))]);
	StrVal s = mkStr(w), t; M mt;
	int at = 0, len = -1;
	if (sv_choose("slice", 2)) { at = sv_choose("at", w.n + 1); len = sv_choose("len", w.n - at + 1); }
	t = s.substr(at, len); mt = w.sub(at, len);
	if (sv_choose("drop", 2)) { s = StrVal(); w = M(); }
	StrVal j;
	if (sv_choose("as", 2)) j = t.asJSON(); else { j = t; j.toJSON(); }
	same(t, mt, "the original"); same(s, w, "the original's body");
	const unsigned char* p = (const unsigned char*)j.asUTF8(); const unsigned char* e = p;
	while (*e) e++;
	StrValIndex nb; j.asUTF8(nb);
	sv_check((const unsigned char*)p + nb == e, "no stray NUL");
	for (int i = 0; i < mt.n; i++) {
		uint32_t want = mt.at(i), u = 0, u2 = 0;
		sv_check(unit(p, e, u), "valid JSON string contents");
		if (want > 0x10FFFF) { sv_check(u == 0xFFFD, "what is not Unicode is replaced"); sv_reach("illegal"); continue; }
		if (u >= 0xD800 && u < 0xDC00 && want > 0xFFFF) {
			sv_check(unit(p, e, u2) && u2 >= 0xDC00 && u2 < 0xE000, "a lead surrogate is followed by a trail surrogate");
			u = 0x10000 + ((u - 0xD800) << 10 | (u2 - 0xDC00));
			sv_reach("pair");
		}
		sv_check(u == want, "reading the JSON gives the character back");
	}
	sv_check(p == e, "nothing more");
	// the result is an ordinary string: its character count and indexing agree with its bytes
	M mj; const unsigned char* q = (const unsigned char*)j.asUTF8();
	while (q < e && mj.n < MAXC) { MC c; c.w = *q < 0x80 ? 1 : *q < 0xE0 ? 2 : *q < 0xF0 ? 3 : 4; for (int k = 0; k < c.w; k++) c.b[k] = *q++; mj.add(c); }
	if (q == e) { same(j, mj, "the result"); sameChars(j, mj, "the result, by index"); sv_reach("end"); }
	return (int)nb;
}
extern "C" void sv_main()
{
	uint64_t h0 = sv_heap();
	int h = go();
	sv_check(sv_heap() == h0, "no memory outlives the strings");
	sv_out(h);
}
