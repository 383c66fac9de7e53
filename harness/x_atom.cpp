// X01 (atoms): every way to write one character or class in a regular expression, against every character, alone, between
// literals and repeated; features that are disabled (taken literally) or rejected; the extended syntax
#include "sv.h"
#include <strregex.h>
#ifndef WIDTHS
#define WIDTHS 3
#endif
static char pat[64]; static int np;
static void P(const char* s) { while (*s) pat[np++] = *s++; }
static void C(unsigned char c) { pat[np++] = c; }
static char text[16]; static int nt;
static uint32_t textChar()		// a character of 1..WIDTHS bytes
{
	int w = 1 + sv_choose("w", WIDTHS);
	unsigned char b = sv_u8("t"), b2, b3, b4; text[nt++] = b;
	if (w == 1) { sv_assume(b != 0 && b < 0x80); return b; }
	b2 = sv_u8("t"); sv_assume((b2 & 0xC0) == 0x80); text[nt++] = b2;
	if (w == 2) { sv_assume(b >= 0xC2 && b < 0xE0); return (b & 0x1Fu) << 6 | (b2 & 0x3F); }
	b3 = sv_u8("t"); sv_assume((b3 & 0xC0) == 0x80); text[nt++] = b3;
	if (w == 3) { sv_assume(b >= 0xE1 && b < 0xF0); return ((b & 0x0Fu) << 6 | (b2 & 0x3F)) << 6 | (b3 & 0x3F); }
	b4 = sv_u8("t"); sv_assume((b4 & 0xC0) == 0x80); text[nt++] = b4;
	sv_assume(b == 0xF1);
	return (((b & 0x07u) << 6 | (b2 & 0x3F)) << 6 | (b3 & 0x3F)) << 6 | (b4 & 0x3F);
}
static uint32_t digits(int n, int radix)
{
	uint32_t v = 0;
	while (n-- > 0) {
		unsigned char c = sv_u8("d"); uint32_t d;
		sv_assume(c < 0x80);
		bool dec = c >= '0' && c <= '9';
		if (radix == 8) { sv_assume(c >= '0' && c <= '7'); d = c - '0'; }
		else {
			bool lo = (c >= 'a') & (c <= 'f'), up = (c >= 'A') & (c <= 'F');
			sv_assume(dec | lo | up);
			d = dec ? c - '0' : (c | 0x20) - 'a' + 10;
		}
		C(c); v = v * radix + d;
	}
	return v;
}
struct Part { uint32_t lo, hi; };
static Part parts[4]; static int nparts; static bool neg;
static void addPart(uint32_t lo, uint32_t hi) { parts[nparts].lo = lo; parts[nparts++].hi = hi; }
static unsigned char classLit() { unsigned char c = sv_u8("lit"); sv_assume(c >= ' ' && c < 0x7F && c != '\\' && c != ']' && c != '^' && c != '-'); return c; }
static uint32_t classItem(bool escaped)
{
	unsigned char c;
	if (escaped) { C('\\'); c = sv_u8("lit"); sv_assume(c >= ' ' && c < 0x7F); }
	else c = classLit();
	C(c); return c;
}
static int prop;
static bool matches(uint32_t u)
{
	if (prop) {
		bool d = u < 0x80 ? (u >= '0') & (u <= '9') : UCS4Digit(u) >= 0;
		return prop == 's' ? UCS4IsWhite(u) : prop == 'd' ? d : d | (u >= 'a' && u <= 'f') | (u >= 'A' && u <= 'F');
	}
	bool in = false;
	for (int i = 0; i < nparts; i++) in |= (u >= parts[i].lo) & (u <= parts[i].hi);
	return in != neg;
}
static const int All = (int)RxFeature::AllFeatures;
#ifdef FEATURES
struct F { RxFeature f; const char* pat; const char* literal; bool rejectable; };
static const F fs[] = {
	{ RxFeature::BOL, "q^r", "q^r", true }, { RxFeature::EOL, "q$r", "q$r", true }, { RxFeature::ZeroOrMore, "q*r", "q*r", true },
	{ RxFeature::OneOrMore, "q+r", "q+r", true }, { RxFeature::CountRepetition, "q{2}r", "q{2}r", true }, { RxFeature::CharClasses, "[r]", "[r]", true },
	{ RxFeature::Alternates, "q|r", "q|r", true }, { RxFeature::Group, "(qr)", "(qr)", true },
	{ RxFeature::CEscapes, "q\\n", "qn", false }, { RxFeature::CEscapes, "q\\t", "qt", false }, { RxFeature::Shorthand, "q\\s", "qs", false }, { RxFeature::Shorthand, "q\\d", "qd", false },
	{ RxFeature::OctalChar, "q\\101", "q101", false }, { RxFeature::HexChar, "q\\x41", "qx41", false }, { RxFeature::UnicodeChar, "q\\u41", "qu41", false }, { RxFeature::PropertyChars, "q\\p", "qp", false },
};
#endif
extern "C" void sv_main()
{
	np = nt = nparts = 0; prop = 0; neg = false;
#ifdef FEATURES
	const F& f = fs[sv_choose("feature", sizeof(fs) / sizeof(fs[0]))];
	int mode = sv_choose("mode", 3);
	if (mode == 1 && !f.rejectable) { sv_done(); return; }
	P(f.pat); pat[np] = 0;
	RxCompiler rx((StrVal(pat)), (RxFeature)(mode == 0 ? All & ~(int)f.f : All), (RxFeature)(mode == 1 ? (int)f.f : mode == 2 ? All & ~(int)f.f & ~(int)RxFeature::Group : 0));
	char* nfa = 0;
	bool ok = rx.compile(nfa);
	if (mode == 1) { sv_check(!ok && rx.errorMessage(), "a rejected feature is an error where it is used"); sv_reach("rejected"); sv_out(1); return; }
	if (mode == 2) { if (f.f == RxFeature::PropertyChars) { delete[] nfa; return; } sv_check(ok, "only where it is used"); delete[] nfa; return; }
	sv_check(ok, "a disabled feature is taken literally: it compiles");
	RxProgram prog(nfa, true);
	const char* l = f.literal; bool same = true;
	unsigned char t[8]; int n = 0;
	for (; l[n]; n++) { t[n] = sv_u8("t"); sv_assume(t[n] != 0 && t[n] < 0x80); same &= t[n] == (unsigned char)l[n]; }
	RxResult r = prog.matchAt(StrVal((char*)t, n));
	if (same) { sv_reach("matched"); sv_check(r.succeeded() && (int)r.length() == n, "a disabled feature is taken literally"); } else { sv_check(!r.succeeded(), "and matches nothing else"); sv_reach("failed"); }
	sv_out(r.succeeded());
#else
	int ctx = sv_choose("ctx", 4);		// alone, between literals, followed by +, after a literal and optional, followed by a literal
	bool extended = ctx == 3;		// the extended syntax: white space and comments between
	if (ctx) P("q");
	if (extended) P(sv_choose("space", 2) ? " \t\r" : "  #)([\n ");
	switch (sv_choose("form", 8)) {
	case 0: { C('\\'); int i = sv_choose("esc", 6); C("befntr"[i]); addPart("\b\033\f\n\t\r"[i], "\b\033\f\n\t\r"[i]); break; }
	case 1: { C('\\'); uint32_t v = digits(1 + sv_choose("digits", 3), 8); sv_assume(v != 0); addPart(v, v); break; }
	case 2: { P("\\x"); uint32_t v = digits(1 + sv_choose("digits", 2), 16); sv_assume(v != 0); addPart(v, v); break; }
	case 3: { P("\\u"); uint32_t v = digits(1 + sv_choose("digits", 5), 16); sv_assume(v != 0); addPart(v, v); break; }
	case 4: { C('\\'); prop = "sdh"[sv_choose("prop", 3)]; C(prop); break; }
	case 5: { C('\\'); unsigned char c = sv_u8("lit"); sv_assume(c > ' ' && c < 0x7F && !((c >= '0' && c <= '7') | (c >= 'a' && c <= 'z'))); C(c); addPart(c, c); break; }
	case 6: { unsigned char c = sv_u8("lit"); sv_assume(c > ' ' && c < 0x7F); for (const char* z = "^$.\\[?*+{()|"; *z; z++) sv_assume(c != (unsigned char)*z); if (extended) sv_assume(c != '#'); C(c); addPart(c, c); break; }
	case 7: {
		C('['); if ((neg = sv_choose("neg", 2))) C('^');
		int edge = sv_choose("edge", 4);
		if (edge == 1) { C('-'); addPart('-', '-'); }
		if (edge == 2) { C(']'); addPart(']', ']'); }
		int n = 1 + sv_choose("parts", PARTS);
		for (int i = 0; i < n; i++) {
			int k = sv_choose("part", 4);		// literal, escaped, range, range of escaped
			uint32_t lo = classItem(k & 1), hi = lo;
			if (k & 2) { C('-'); hi = classItem(k & 1); }
			addPart(lo, hi);
		}
		if (edge == 3) { C('-'); addPart('-', '-'); }
		C(']'); break; }
	}
	if (extended && sv_choose("space", 2)) P(" ");
	if (ctx >= 2) P("+");
	if (ctx) P("!");
	pat[np] = 0;
	if (ctx) text[nt++] = 'q';
	uint32_t u = textChar(), v = 0;
	bool two = ctx == 2;
	if (two) v = textChar();
	if (ctx) text[nt++] = '!';
	text[nt] = 0;
	sv_note(pat); sv_note(text);
	StrVal target(text);
	RxCompiler rx((StrVal(pat)), (RxFeature)(All | (extended ? (int)RxFeature::ExtendedRE : 0)));
	char* nfa = 0;
	sv_check(rx.compile(nfa), "a well-formed expression compiles");
	RxProgram prog(nfa, true);
	RxResult r = prog.matchAt(target);
	bool in = matches(u);
	int want = ctx == 0 ? (in ? 1 : -1) : ctx == 1 || ctx == 3 ? (in ? 3 : -1) : in ? (matches(v) ? 4 : -1) : -1;
	if (two && in && v == '!' && want < 0) want = 3;	// (the '!' that follows is the one in the text)
	if (want < 0) { sv_reach("failed"); sv_check(!r.succeeded(), "matches no other character"); }
	else { sv_reach("matched"); sv_check(r.succeeded() && (int)r.length() == want, "matches the characters it stands for"); }
	sv_out(want);
#endif
}
