// Reference model of a character string, and generators of texts with symbolic characters.
#pragma once
#include "sv.h"
#include "ref_utf8.h"
#include <strval.h>
#ifndef MAXC
#define MAXC 32
#endif
struct MC { unsigned char w; unsigned char b[4]; };		// one character: its bytes
struct M {
	MC	c[MAXC]; int n;
	M() : n(0) {}
	uint32_t at(int i) const { return code(c[i]); }
	static uint32_t code(const MC& m) {
		switch (m.w) {
		case 1: return m.b[0] < 0x80 ? (uint32_t)m.b[0] : 0x80000000u | m.b[0];
		case 2: return (uint32_t)(m.b[0] & 0x1F) << 6 | (m.b[1] & 0x3F);
		case 3: return ((uint32_t)(m.b[0] & 0x0F) << 6 | (m.b[1] & 0x3F)) << 6 | (m.b[2] & 0x3F);
		default: return (((uint32_t)(m.b[0] & 7) << 6 | (m.b[1] & 0x3F)) << 6 | (m.b[2] & 0x3F)) << 6 | (m.b[3] & 0x3F);
		}
	}
	int bytes() const { int t = 0; for (int i = 0; i < n; i++) t += c[i].w; return t; }
	int put(char* p) const { int t = 0; for (int i = 0; i < n; i++) for (int j = 0; j < c[i].w; j++) p[t++] = c[i].b[j]; p[t] = 0; return t; }
	M sub(int at, int len) const {		// as documented for substr(): clamped
		M r;
		if (at >= n || len == 0 || len < -1) return r;
		if (len == -1 || len > n - at) len = n - at;
		for (int i = 0; i < len; i++) r.c[i] = c[at + i];
		r.n = len;
		return r;
	}
	void ins(int pos, const M& o) {
		if (n + o.n > MAXC) { sv_done(); return; }
		M t = o;
		for (int i = n; i-- > pos; ) c[i + t.n] = c[i];
		for (int i = 0; i < t.n; i++) c[pos + i] = t.c[i];
		n += t.n;
	}
	void add(const MC& ch) { if (n >= MAXC) { sv_done(); return; } c[n++] = ch; }
};
static MC encChar(uint32_t u)	// a concrete or symbolic Unicode value as UTF-8 (forks on its length)
{
	MC m;
	if (u < 0x80) { m.w = 1; m.b[0] = u; }
	else if (u < 0x800) { m.w = 2; m.b[0] = 0xC0 | u >> 6; m.b[1] = 0x80 | (u & 0x3F); }
	else if (u < 0x10000) { m.w = 3; m.b[0] = 0xE0 | u >> 12; m.b[1] = 0x80 | (u >> 6 & 0x3F); m.b[2] = 0x80 | (u & 0x3F); }
	else { m.w = 4; m.b[0] = 0xF0 | u >> 18; m.b[1] = 0x80 | (u >> 12 & 0x3F); m.b[2] = 0x80 | (u >> 6 & 0x3F); m.b[3] = 0x80 | (u & 0x3F); }
	return m;
}
// one symbolic character of a class: 1 ASCII, 2..4 well-formed sequences of that length, 5 a lone continuation byte
static MC genChar(int cls)
{
	MC m; m.w = cls >= 5 ? 1 : cls;
	if (cls < 6) m.b[0] = sv_u8("c");
	switch (cls) {
	case 1: sv_assume(m.b[0] != 0 && m.b[0] < 0x80); break;
	case 2: sv_assume(m.b[0] >= 0xC2 && m.b[0] < 0xE0); break;
	case 3: sv_assume(m.b[0] >= 0xE1 && m.b[0] < 0xF0 && m.b[0] != 0xED); break;
	case 4: sv_assume(m.b[0] >= 0xF1 && m.b[0] < 0xF4); break;
	case 6: {	// characters whose case mappings change their width, and their neighbours
		static const uint32_t sp[] = { 0x131, 0x17F, 0xFF, 0xB5, 0x1FBE, 0x130, 0x2126, 0x212A, 0x212B, 0x178, 0x41, 0x7A, 0x3A3, 0x1C5, 0xDF };
		return encChar(sp[sv_choose("sp", sizeof(sp) / sizeof(sp[0]))]); }
	case 8: m.w = 1; m.b[0] = 0; return m;	// an embedded NUL
	case 7: { char c = sv_choose("ab", 2) ? 'b' : 'A'; m.w = 1; m.b[0] = c; return m; }
	case 5: sv_assume(m.b[0] >= 0x80 && m.b[0] < 0xC0); break;
	}
	for (int i = 1; i < m.w; i++) { m.b[i] = sv_u8("c"); sv_assume((m.b[i] & 0xC0) == 0x80); }
	return m;
}
// a text whose characters have the classes given by the digits of pat
static M genText(const char* pat) { M m; for (; *pat; pat++) m.c[m.n++] = genChar(*pat - '0'); return m; }
static StrVal mkStr(const M& m) { char buf[MAXC * 4 + 1]; int n = m.put(buf); return StrVal(buf, (StrValIndex)n); }
// s reads as m, through every reading interface
static void same(const StrVal& s, const M& m, const char* what)
{
	sv_check((int)s.length() == m.n, what);
	sv_check(s.isEmpty() == (m.n == 0), what);
	StrValIndex nb;
	const char* p = s.asUTF8(nb);
	int want = m.bytes();
	sv_check((int)nb == want, what);
	bool eq = true;
	for (int i = 0, t = 0; i < m.n; i++)
		for (int j = 0; j < m.c[i].w; j++, t++)
			eq &= (unsigned char)p[t] == m.c[i].b[j];
	sv_check(eq, what);
}
static void sameChars(const StrVal& s, const M& m, const char* what)
{
	bool eq = true;
	for (int i = 0; i < m.n; i++) eq &= (uint32_t)s[i] == m.at(i);
	sv_check(eq, what);
	sv_check(s[m.n] == 0, what);
}
