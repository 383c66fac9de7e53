// P02: every way to write a single-character atom (class, escape, property) matches the characters it says, and is
// skipped as exactly the same text.
#include "sv.h"
#include <pegexp.h>
static char pat[64]; static int np;
static void out(unsigned char c) { pat[np++] = c; }
#ifndef CTXS
#define CTXS 0,1,2,3,4,5,6,7
#endif
static bool prop(char p, uint32_t u)
{
	switch (p) {
	case 'a': return UCS4IsAlphabetic(u);
	case 'd': return UCS4IsDecimal(u);
	case 'h': return UCS4IsDecimal(u) | (u >= 'a' && u <= 'f') | (u >= 'A' && u <= 'F');
	case 's': return UCS4IsWhite(u);
	case 'w': return UCS4IsDecimal(u) || UCS4IsAlphabetic(u);
	case 'L': return UCS4ToLower(u) == u && UCS4ToUpper(u) != u;
	default: return UCS4ToUpper(u) == u && UCS4ToLower(u) != u;
	}
}
static const char* hexd = "0123456789abcdefABCDEF";
static int hexv(unsigned char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static unsigned char hexDigit() { unsigned char c = sv_u8("hex"); sv_assume((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')); return c; }
static unsigned char octDigit() { unsigned char c = sv_u8("oct"); sv_assume(c >= '0' && c <= '7'); return c; }
static unsigned char plain(const char* not_) { unsigned char c = sv_u8("lit"); sv_assume(c >= ' ' && c < 0x7F); for (; *not_; not_++) sv_assume(c != (unsigned char)*not_); return c; }
static bool open_;	// the escape just written would take one more digit if there were one
// write one escape and return the character it stands for
static uint32_t escape(int kind, bool inClass)
{
	uint32_t v = 0; int n;
	open_ = false;
	out('\\');
	if (inClass && kind >= 1 && kind <= 5) {	// in a class: one symbolic digit among fixed ones
		static const char* const f[] = { "14o", "x4h", "x{7h}", "u00h5", "u{20h}" };
		for (const char* p = f[kind - 1]; *p; p++) {
			unsigned char c = *p == 'o' ? octDigit() : *p == 'h' ? hexDigit() : *p;
			out(c);
			if (*p == 'o') v = v << 3 | (c - '0'); else if (*p == 'h' || (*p >= '0' && *p <= '9')) v = v << (kind == 1 ? 3 : 4) | hexv(c);
		}
		return v;
	}
	switch (kind) {
	case 0: { static const char e[] = "n\nt\tr\rb\be\033f\f"; int i = sv_choose("esc", 6) * 2; out(e[i]); return (unsigned char)e[i + 1]; }
	case 1: n = 1 + sv_choose("digits", 3); for (int i = 0; i < n; i++) { unsigned char c = octDigit(); out(c); v = v << 3 | (c - '0'); } open_ = n < 3; return v;
	case 2: out('x'); n = 1 + sv_choose("digits", 2); for (int i = 0; i < n; i++) { unsigned char c = hexDigit(); out(c); v = v << 4 | hexv(c); } open_ = n < 2; return v;
	case 3: out('x'); out('{'); n = 1 + sv_choose("digits", 2); for (int i = 0; i < n; i++) { unsigned char c = hexDigit(); out(c); v = v << 4 | hexv(c); } out('}'); return v;
	case 4: out('u'); n = 1 + sv_choose("digits", 4); for (int i = 0; i < n; i++) { unsigned char c = hexDigit(); out(c); v = v << 4 | hexv(c); } open_ = n < 4; return v;
	case 5: out('u'); out('{'); n = 1 + sv_choose("digits", 8); for (int i = 0; i < n; i++) { unsigned char c = hexDigit(); out(c); v = v << 4 | hexv(c); } out('}'); return v;
	default: {	// any other character stands for itself
		unsigned char c = sv_u8("self"); sv_assume(c >= ' ' && c < 0x7F);
		for (const char* p = "01234567ntrbefxuadhswLU"; *p; p++) sv_assume(c != (unsigned char)*p);
		out(c); return c; }
	}
}
static bool in;			// does u belong to the class so far
static void item(uint32_t u, bool first, bool last)
{
	uint32_t a, b;
	switch (sv_choose("item", first ? 6 : 5)) {
	case 0: a = plain("\\]^-"); out(a); in |= u == a; break;
	case 1: a = plain("\\]^-"); out(a); out('-'); b = plain("\\]^-"); out(b); in |= (u >= a) & (u <= b); break;
	case 2: { static const char ps[] = "adhswLU"; char p = ps[sv_choose("prop", 7)]; out('\\'); out(p); in |= prop(p, u); if (last && sv_choose("hyphen", 2)) { out('-'); in |= u == '-'; } break; }
	case 3: a = escape(sv_choose("ekind", 7), true); in |= u == a; break;
	case 4: a = escape(1 + sv_choose("ekind", 5), true); out('-'); b = escape(1 + sv_choose("ekind", 5), true); in |= (u >= a) & (u <= b); break;
	case 5: out('-'); in |= u == '-'; break;	// a literal hyphen may occur at the start
	}
}
static int go()
{
	np = 0;
	char text[12]; int w = 1, nb = 0;
	uint32_t u;
	switch (sv_choose("width", WIDTHS)) {
	case 0: u = (unsigned char)(text[0] = sv_u8("t")); sv_assume(u != 0 && u < 0x80); break;
	case 1: w = 2; text[0] = sv_u8("t"); text[1] = sv_u8("t"); sv_assume((unsigned char)text[0] >= 0xC2 && (unsigned char)text[0] < 0xE0 && ((unsigned char)text[1] & 0xC0) == 0x80); u = (text[0] & 0x1F) << 6 | (text[1] & 0x3F); break;
	case 2: w = 3; for (int i = 0; i < 3; i++) { text[i] = sv_u8("t"); if (i) sv_assume(((unsigned char)text[i] & 0xC0) == 0x80); } sv_assume((unsigned char)text[0] >= 0xE1 && (unsigned char)text[0] < 0xF0); u = ((text[0] & 0x0F) << 6 | (text[1] & 0x3F)) << 6 | (text[2] & 0x3F); break;
	}
	text[w] = 'Z'; text[w + 1] = 0;
	char body[40]; int nbody;
	bool want;
#ifdef CLASSES
	out('[');
	bool neg = sv_choose("neg", 2); if (neg) out('^');
	in = false;
	int n = 1 + sv_choose("items", CLASSES);
	for (int i = 0; i < n; i++) item(u, i == 0, i + 1 == n);
	out(']');
	want = in != neg;
#else
	int k = sv_choose("kind", 7);
	want = escape(k, false) == u;
#endif
	nbody = np; for (int i = 0; i < np; i++) body[i] = pat[i];
	// in the contexts that match it and skip it
	np = 0;
	static const int ctxs[] = { CTXS };
	int ctx = ctxs[sv_choose("ctx", sizeof(ctxs) / sizeof(ctxs[0]))], expect;	// expect: bytes matched, or -1
	switch (ctx) {
	case 0: case 1: break;
	case 2: out('?'); break;
	case 3: out('*'); break;
	case 4: out('&'); break;
	case 5: out('!'); break;
	case 6: out('|'); out('Q'); out('Q'); out('|'); break;
	case 7: out('('); out('|'); break;
	}
	for (int i = 0; i < nbody; i++) out(body[i]);
	switch (ctx) {
	case 0: expect = want ? w : -1; break;
	case 1: out('Z'); expect = want ? w + 1 : -1; break;
	case 2: out('Z'); expect = want ? w + 1 : u == 'Z' ? 1 : -1; break;
	case 3: out('!'); out('.'); expect = -2; break;		// see below
	case 4: out('.'); out('Z'); expect = want ? w + 1 : -1; break;
	case 5: out('.'); out('Z'); expect = want ? -1 : w + 1; break;
	case 6: expect = want ? w : -1; break;
	case 7: out('|'); out('.'); out(')'); out('Z'); expect = w + 1; break;	// either alternate takes one character
	}
	out(0); np--;
	sv_note(pat); sv_note(text);
	PegexpDefaultSource src(text);
	Pegexp<> peg(pat);
	PegexpDefaultContext<> c;
	auto m = peg.match_here(src, &c);
	if (expect == -2) {	// all of the text is taken, or the match fails
		if (!want) sv_check(m.is_failure(), "a repetition stops at the first character that does not match");
		else sv_check(m.is_failure() || src.current_byte() == w + 1, "a repetition takes every character");
		return want;
	}
	sv_check(m.is_failure() == (expect < 0), "matches exactly the characters it stands for");
	if (expect >= 0) { sv_check(src.current_byte() == expect, "matches as much as it should"); sv_reach("matched"); } else sv_reach("failed");
	return expect;
}
extern "C" void sv_main() { sv_out(go()); }
