// P04: every rule of a grammar is found by its own name, whatever the other names are, and an unknown name is not found.
#include "sv.h"
#include <peg.h>
typedef Peg<> P;
#ifndef PRE
#define PRE ""		// text every name starts with
#endif
enum { PL = sizeof(PRE) - 1 };
static bool nameCh(unsigned char c) { return (c >= 'a' && c <= 'z') | (c >= 'A' && c <= 'Z') | (c >= '0' && c <= '9') | (c == '_'); }
static void name(char* b, int n) { for (int i = 0; i < PL; i++) b[i] = PRE[i]; for (int i = PL; i < n; i++) { b[i] = sv_u8("n"); sv_assume(nameCh(b[i])); } b[n] = 0; }
static bool eq(const char* a, int n, const char* b, int m) { if (n != m) return false; bool e = true; for (int i = 0; i < n; i++) e &= a[i] == b[i]; return e; }
extern "C" void sv_main()
{
	static char nm[NR][PL + 8]; int len[NR];
	for (int i = 0; i < NR; i++) { len[i] = PL + 1 + sv_choose("len", 2); name(nm[i], len[i]); }
	for (int i = 0; i < NR; i++) for (int j = 0; j < i; j++) sv_assume(!eq(nm[i], len[i], nm[j], len[j]));
	P::Rule rules[NR] = { RULEINIT };
	P peg(rules, NR);
	char key[PL + 8]; int kl = (PL ? PL : 1) + sv_choose("klen", 2);
	name(key, kl); key[kl] = sv_choose("end", 2) ? '>' : 0; key[kl + 1] = 0;
	int want = -1;
	for (int i = 0; i < NR; i++) if (eq(key, kl, nm[i], len[i])) want = i;
	P::Rule* r = peg.lookup(key);
	sv_check((r != 0) == (want >= 0), "a rule is found exactly when it is there");
	if (r) { sv_check(r->name == nm[want], "the rule found is the one named"); sv_reach("found"); } else sv_reach("absent");
	sv_out(want);
}
