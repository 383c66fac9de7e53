// X01 (sizes): expressions long enough that the offsets in the compiled program take two or three bytes, at every size
// around the places where an offset or the whole program needs one byte more; and groups of many alternatives
#include "sv.h"
#include <strregex.h>
static char pat[4000], text[4000]; static int np, nt;
static void P(const char* s) { while (*s) pat[np++] = *s++; }
static void Pn(char c, int n) { while (n--) pat[np++] = c; }
static void Tn(char c, int n) { while (n--) text[nt++] = c; }
#ifndef PADS
#define PADS 0, 560
#endif
extern "C" void sv_main()
{
	static const int pads[] = { PADS };
	np = nt = 0;
	int form = sv_choose("form", 16), k = KLO + sv_choose("k", KHI - KLO + 1), reps = 1;
	unsigned char c = sv_u8("c"), t = sv_u8("t");
	sv_assume(c >= 'a' && c <= 'w'); sv_assume(t >= 'a' && t <= 'w');
	if (form == 9) sv_assume(c != 'q');
	bool hit = sv_fork(t == c);
	switch (form) {
	case 0: P("("); Pn('x', k); P(")*"); Tn('x', 2 * k); break;
	case 1: P("("); Pn('x', k); P(")*"); break;
	case 2: P("("); Pn('x', k); P(")?"); Tn('x', k); break;
	case 3: P("("); Pn('x', k); P(")?"); break;
	case 4: P("("); Pn('x', k); P(")+"); Tn('x', 2 * k); break;
	case 5: P("("); Pn('x', k); P("){2}"); Tn('x', 2 * k); break;
	case 6: P("(X|"); Pn('x', k); P(")"); Tn('X', 1); break;
	case 7: P("("); Pn('x', k); P("|X)"); Tn('X', 1); break;
	case 8: P("(Y|"); Pn('x', k); P("|X)"); Tn(sv_choose("alt", 2) ? 'X' : 'Y', 1); break;
	case 9: P("(?!"); Pn('x', k); P("q)x*"); Tn('x', k); break;
	case 10: P("(?<g>"); for (int i = 0; i < k; i++) { if (i) P("|"); pat[np++] = i == k - 1 ? 'X' : 'Y'; } P(")"); Tn('X', 1); break;
	case 12: for (int i = 0; i < k; i++) { P("(?<"); pat[np++] = 'a' + i / 26; pat[np++] = 'a' + i % 26; P(">X)"); } Tn('X', k); break;
	case 13: for (int i = 0; i < k; i++) P(i & 1 ? "[X-Z]" : "[^a-w]"); Tn('Y', k); break;
	case 14: for (int i = 0; i < k; i++) P(i & 1 ? "(X{2})" : "Y{1,2}"); for (int i = 0; i < k; i++) Tn(i & 1 ? 'X' : 'Y', 2); break;
	case 15: for (int i = 0; i < k; i++) P(i & 1 ? "(Y|X)?" : "(?!Y|W)Z*"); for (int i = 0; i < k / 2; i++) Tn('X', 1); break;
	case 11: P("(?<"); Pn('n', k); P(">X)"); Tn('X', 1); break;
	}
	pat[np++] = c; text[nt++] = t;
	int pad = pads[sv_choose("pad", sizeof(pads) / sizeof(pads[0]))];
	if (pad) { P("("); Pn('Z', pad); P(")?"); }
	pat[np] = text[nt] = 0;
	RxCompiler rx((StrVal(pat)));
	char* nfa = 0;
	sv_check(rx.compile(nfa), "a well-formed expression compiles");
	RxProgram prog(nfa, true);
	RxResult r = sv_choose("search", 2) ? prog.matchAfter(StrVal(text)) : prog.matchAt(StrVal(text));
	if (hit) sv_reach("matched"); else sv_reach("failed");
	sv_check(r.succeeded() == hit || form == 1 || form == 3, "matches exactly when the expression does");
	if (hit) sv_check(r.succeeded() && r.offset() == 0 && (int)r.length() == nt, "the whole text");
	sv_out(r.succeeded());
}
