// X01 (counts): a counted repetition accepts exactly the numbers of repetitions it says, for counts at every boundary of
// how they are written and stored; the repeated and the following character are symbolic
#include "sv.h"
#include <strregex.h>
#ifndef MINS
#define MINS 0, 1, 2, 9, 126, 127, 128, 254
#endif
#ifndef FORMS
#define FORMS 3
#endif
static char pat[64], text[800]; static int np, nt;
static void P(const char* s) { while (*s) pat[np++] = *s++; }
static void num(int n) { if (n >= 100) pat[np++] = '0' + n / 100; if (n >= 10) pat[np++] = '0' + n / 10 % 10; pat[np++] = '0' + n % 10; }
extern "C" void sv_main()
{
	static const int lo[] = { MINS }, gap[] = { 0, 1, 2, 50, 126, 127, 128, 254 };
	np = nt = 0;
	int min = lo[sv_choose("min", sizeof(lo) / sizeof(lo[0]))], max;
	unsigned char c = sv_u8("c"), d = sv_u8("d");
	sv_assume(c >= 'a' && c <= 'z' && d >= 'a' && d <= 'z' && c != d);
	int form = sv_choose("form", FORMS);
	if (form == 2) { P("(X|"); pat[np++] = c; P(")"); } else if (form == 1) { P("(?<g>"); pat[np++] = c; P(")"); } else pat[np++] = c;
	switch (sv_choose("range", 3)) {
	case 0: max = min; P("{"); num(min); P("}"); break;
	case 1: max = 0; P("{"); num(min); P(",}"); break;
	default: max = min + gap[sv_choose("gap", 8)]; if (max > 254) { sv_done(); return; } P("{"); if (min || sv_choose("zero", 2)) num(min); P(","); num(max); P("}"); break;
	}
	if (max == 0 && pat[np - 2] != ',') { sv_done(); return; }		// {0} and {0,0} are taken as "no maximum"
	pat[np++] = d;
	int ks[] = { 0, 1, min - 1, min, min + 1, max - 1, max, max + 1, max + 40 }, u[9], n = 0;
	for (int i = 0; i < 9; i++) { bool dup = ks[i] < 0; for (int j = 0; j < n; j++) dup |= u[j] == ks[i]; if (!dup) u[n++] = ks[i]; }
	int k = u[sv_choose("k", n)];
	for (int i = 0; i < k; i++) text[nt++] = c;
	text[nt++] = d;
	pat[np] = text[nt] = 0;
	sv_note(pat);
	bool ok = k >= min && (max == 0 || k <= max);
	RxCompiler rx((StrVal(pat)));
	char* nfa = 0;
	sv_check(rx.compile(nfa), "a well-formed expression compiles");
	RxProgram prog(nfa, true);
	RxResult r = prog.matchAt(StrVal(text));
	if (ok) sv_reach("matched"); else sv_reach("failed");
	sv_check(r.succeeded() == ok, "matches exactly when the number of repetitions is allowed");
	if (ok) sv_check(r.offset() == 0 && (int)r.length() == nt, "the whole text");
	sv_out(ok);
}
