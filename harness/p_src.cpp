// P07: a text source knows where it is: bytes, lines and columns, ends and starts of lines, and how it relates to its copies.
#include "sv.h"
#include <strval.h>
#include <variant.h>
#include <peg.h>
#include <peg_ast.h>
#ifndef KIND
#define KIND 0
#endif
#if KIND == 0
typedef PegexpPointerSource<> Src;			// characters
#elif KIND == 1
typedef PegexpPointerSource<const UTF8*, char> Src;	// bytes
#elif KIND == 2
typedef PegMemorySource Src;				// characters, through a guarded pointer
#endif
static char* text; static int tn;
// how many bytes make up the character at text[i], and its value (an illegal byte is a character by itself)
static int clen(int i, uint32_t& v)
{
	unsigned char b = text[i]; int n = b < 0x80 ? 1 : b < 0xC0 ? 0 : b < 0xE0 ? 2 : b < 0xF0 ? 3 : b < 0xF8 ? 4 : b < 0xFC ? 5 : 6;
	if (n == 1) { v = b; return 1; }
	bool bad = n == 0;
	v = n ? b & (n == 6 ? 3 : 0xFF >> (n + 1)) : 0;
	for (int k = 1; k < n && !bad; k++) { unsigned char c = i + k < tn ? text[i + k] : 0; if ((c & 0xC0) != 0x80) bad = true; else v = v << 6 | (c & 0x3F); }
	if (bad) { v = 0x80000000u | b; return 1; }
	return n;
}
struct At { int byte, line, col; };
static void same(Src& s, At& a)
{
	sv_check(s.current_byte() == a.byte, "as many bytes as were taken");
	sv_check(s.current_line() == a.line, "the line counts the newlines taken");
	sv_check(s.current_column() == a.col, "the column counts what was taken since");
	sv_check(s.at_eof() == (a.byte == tn), "the end is at the end");
	sv_check(s.at_bol() == (a.col == 1), "a line starts after a newline or at the start");
	sv_check(!s.is_null(), "a source of text is not null");
}
#ifdef PEG
static int count(const char* s, int n, At& a) { a.byte = 0; a.line = a.col = 1; uint32_t v; while (a.byte < n) { int k = clen(a.byte, v); if (v == '\n') { a.line++; a.col = 1; } else a.col++; a.byte += k; } return 0; }
#endif
extern "C" void sv_main()
{
	text = new char[TLEN + 1];
	tn = sv_choose("n", TLEN + 1);
	for (int i = 0; i < tn; i++) { text[i] = sv_u8("t"); sv_assume(text[i] != 0); }
	text[tn] = 0;
	sv_note(text);
#ifdef PEG	// where a match starts and ends
	static const char* pats[] = { "ab", ".", "*[a-c]\n", "^.", "*.$", "\n^?a", "+(a\n)b", "&.a", "[^a]+[^b]\\n" };
	Src src(text), start(src);
	Pegexp<PegexpDefaultContext<PegexpDefaultMatch<PegexpState<Src>>>> peg(pats[sv_choose("pattern", sizeof(pats) / sizeof(pats[0]))]);
	PegexpDefaultContext<PegexpDefaultMatch<PegexpState<Src>>> c;
	sv_note(peg.pattern);
	PegexpDefaultMatch<PegexpState<Src>> m = peg.match(src, &c);
	if (!m.is_failure()) {
		At a; count(text, m.from.source.current_byte(), a); same(m.from.source, a);
		count(text, m.to.source.current_byte(), a); same(m.to.source, a);
		sv_check(m.to.source.bytes_from(start) == (size_t)a.byte, "bytes_from is the distance in bytes");
		sv_reach("matched");
	}
	sv_out(src.current_byte());
#else
	Src s(text), t(s), nul;
	At a[2] = { { 0, 1, 1 }, { 0, 1, 1 } };
	sv_check(nul.is_null() && nul.at_eof() && nul.current_byte() == 0, "a default source is null and at its end");
	for (int k = 0; k < SV_K; k++) {
		int w = sv_choose("which", 2);
		Src& x = w ? t : s; Src& y = w ? s : t;
		At& b = a[w];
		switch (sv_choose("op", 4)) {
		case 0: {
			char c = x.get_byte();
			if (b.byte == tn) { sv_check(c == 0, "nothing is taken at the end"); sv_reach("end"); break; }
			sv_check(c == text[b.byte], "the next byte");
			if (text[b.byte] == '\n') { b.line++; b.col = 1; } else b.col++;
			b.byte++; break; }
		case 1: {
			Src::Char c = x.get_char();
			if (b.byte == tn) { sv_check(sizeof c == 1 ? c == 0 : (uint32_t)c == 0xFFFFFFFFu, "nothing is taken at the end"); sv_reach("end"); break; }
			if (sizeof c == 1) { sv_check(c == text[b.byte], "the next byte"); if (c == '\n') { b.line++; b.col = 1; } else b.col++; b.byte++; break; }
			uint32_t v; int n = clen(b.byte, v);
			sv_check((uint32_t)c == v, "the next character");
			if (v == '\n') { b.line++; b.col = 1; } else b.col++;
			b.byte += n; if (n > 1) sv_reach("wide");
			break; }
		case 2: x = y; b = a[!w]; break;
		case 3: { Src z(x); z.get_char(); z.get_byte(); Src q(y); x = x; break; }	// a copy moves by itself
		}
		same(s, a[0]); same(t, a[1]);
	}
	sv_check(s.same(t) == (a[0].byte == a[1].byte), "same means the same place");
	sv_check((s < t) == (a[0].byte < a[1].byte), "sources order by place");
	sv_check(s - t == a[0].byte - a[1].byte, "the difference is in bytes");
	if (a[0].byte <= a[1].byte) {
		sv_check(t.bytes_from(s) == (size_t)(a[1].byte - a[0].byte), "bytes_from is the distance in bytes");
	}
	sv_out(a[0].byte * 64 + a[1].byte);
#endif
	delete[] text;
}
