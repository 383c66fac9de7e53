// X07: an expression is refused exactly when it breaks a rule of the syntax: something to repeat before every repetition,
// groups closed and opened in pairs and not too deep, names that differ, counts in order and not above 254, and escapes,
// classes and groups that are whole. Decided by a recogniser of its own over the tokens the expression is put together from.
#include "sv.h"
#include <strregex.h>
#include <string.h>
#ifndef TOKENS
#define TOKENS 4
#endif
static char	re[8192];
static int	n;
static void put(const char* s) { while (*s) re[n++] = *s++; re[n] = 0; }
static void judge(bool right, const char* what)
{
	char* nfa = 0;
	sv_note(re);
	RxCompiler rx((StrVal(re)));
	bool ok = rx.compile(nfa);
	sv_check(ok == right, right ? "an expression that keeps the rules is compiled" : "an expression that breaks a rule is refused");
	sv_check(ok == (nfa != 0) && ok == (rx.errorMessage() == 0), "a program, or a message");
	if (!ok) sv_check(rx.errorOffset() >= 0 && rx.errorOffset() <= n, "the message is about a place in the expression");
	delete[] nfa;
	if (ok) sv_reach("compiled"); else sv_reach("refused");
	sv_out(ok);
}
#if defined(RULES)
static bool	right;
static int	depth, names;
static bool	open_, atom;
// kinds: a atom, - neither, q repetition, ( opens, n opens, named, ) closes, b broken whatever follows
static const struct { const char* s; char k; } T[] = {
	{"z", 'a'}, {".", 'a'}, {"[x]", 'a'}, {"[^x-z]", 'a'}, {"\\d", 'a'}, {"\\p{q}", 'a'}, {"\\x4a", 'a'}, {"\\101", 'a'}, {"\\*", 'a'}, {"{2}", 'q'}, {"{,3}", 'q'}, {"{2,}", 'q'},
	{"?", 'q'}, {"*", 'q'}, {"+", 'q'}, {"^", '-'}, {"$", '-'}, {"|", '-'}, {"(", '('}, {"(?:", '('}, {"(?!", '('}, {"(?<n>", 'n'}, {"(?<m>", 'm'}, {")", ')'},
	{"(?x", 'b'}, {"(?<>", 'b'}, {"{3,2}", 'b'}, {"{255}", 'b'}, {"{1,255}", 'b'}, {"{-1}", 'b'}, {"{1x}", 'b'}, {"\\xg", 'b'}, {"\\ug", 'b'}, {"\\p{}", 'b'}, {"\\pq", 'b'}, {0, 0}
};
static const char* const last[] = { "", "[", "[x", "[x-", "[x\\", "[^", "{", "{2", "{2,3", "(?", "(?<n", "(?<", "\\p{q", "\\p{", "\\p", "\\x", "\\u" };
enum { NT = 35, NL = 17 };
extern "C" void sv_main()
{
	uint64_t h0 = sv_heap();
	right = true; depth = names = n = 0; atom = false; put("");
	char prev = 0;
	int many = sv_choose("tokens", TOKENS + 1);
	for (int t = many; t > 0; t--) {
		int i = sv_choose("token", NT);
		char k = T[i].k;
		if (k == 'q' && prev == '(' && T[i].s[0] == '?') { sv_done(); return; }	// reads as a kind of group
		put(T[i].s);
		prev = k == '(' && T[i].s[1] == 0 ? '(' : 0;
		switch (k) {
		case 'a': atom = true; break;
		case 'q': if (!atom) right = false; atom = false; break;
		case 'n': case 'm': if (names & (1 << (k - 'm'))) right = false; names |= 1 << (k - 'm'); depth++; atom = false; break;
		case '(': depth++; atom = false; break;
		case ')': if (--depth < 0) right = false; atom = true; break;
		case 'b': right = false; break;
		default: atom = false;
		}
	}
	if (prev) { put(")"); depth--; }
	int l = many > 3 ? 0 : sv_choose("last", NL);
	if (l) { put(last[l]); right = false; }
	if (depth) right = false;
	judge(right, "");
	sv_check(sv_heap() == h0, "no memory outlives the compiler");
}
#elif defined(COUNTS)
static unsigned long long digits(const char* name, int c) { unsigned long long v = 0; while (c-- > 0) { unsigned char d = sv_u8(name); sv_assume(d >= '0' && d <= '9'); re[n++] = d; v = v * 10 + (d - '0'); } re[n] = 0; return v; }
extern "C" void sv_main()
{
	n = 0; put("z{");
	bool right = true;
	int nd = sv_choose("digits", MAXD + 1), comma = sv_choose("comma", 2);
	unsigned long long lo = digits("min", nd), hi = lo;
	if (nd && lo > 254) right = false;
	if (comma) {
		put(",");
		int md = sv_choose("more", MAXD + 1);
		hi = digits("max", md);
		if (hi > 254 || (hi && hi < lo)) right = false;	// none, and 0, are taken as no maximum
	}
	put("}z");
	judge(right, "");
}
#elif defined(LIMITS)
extern "C" void sv_main()
{
	static const char* const opens[] = { "(", "(?:", "(?!", "(?<" };
	n = 0; put("");
	if (sv_choose("what", 2)) {	// as deep as the documentation of the compiler says: the whole is one level
		int d = sv_choose("depth", 15), k = sv_choose("kind", 4), mix = sv_choose("mix", 2), more = sv_choose("more", d + 1);
		for (int i = 0; i < d; i++) { int q = mix ? (i + k) % 4 : k; put(opens[q]); if (q == 3) { re[n++] = 'a' + i; put(">"); } if (i == more) put("z|"); }
		put("z");
		for (int i = 0; i < d; i++) put(")");
		if (sv_choose("again", 2)) put("(z)");
		judge(d < 12, "");
	} else {
		static const int many[] = { 1, 2, 126, 127, 128, 129, 253, 254, 255, 256, 257 };
		int m = many[sv_choose("names", 11)], same = sv_choose("same", 2), clash = same ? sv_choose("which", 3) : 0;
		if (same && m < 3) { sv_done(); return; }
		for (int i = 0; i < m; i++) {
			int q = same && i == m - 1 ? (clash == 0 ? 0 : clash == 1 ? m / 2 : m - 2) : i;
			put("(?<"); re[n++] = 'a' + q / 16; re[n++] = 'a' + q % 16; put(">z)");
		}
		judge(m <= 254 && !same, "");
	}
}
#else
extern "C" void sv_main()	// names: two groups, refused exactly when their names are the same
{
	n = 0; put("(?<");
	int a = sv_choose("first", 3) + 1, b = sv_choose("second", 3) + 1;
	unsigned char x[3], y[3];
	for (int i = 0; i < a; i++) { x[i] = sv_u8("x"); sv_assume(x[i] > ' ' && x[i] < 127 && x[i] != '>'); re[n++] = x[i]; }
	re[n] = 0; put(">z)");
	put(sv_choose("apart", 2) ? "|(?<" : "(?<");
	bool same = a == b;
	for (int i = 0; i < b; i++) { y[i] = sv_u8("y"); sv_assume(y[i] > ' ' && y[i] < 127 && y[i] != '>'); re[n++] = y[i]; if (i < a && x[i] != y[i]) same = false; }
	re[n] = 0; put(">z)");
	judge(!same, "");
}
#endif
