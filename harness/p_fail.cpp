// P06: what a parse says about where it could not go further.
#include "sv.h"
#include <strval.h>
#include <variant.h>
#include <peg.h>
#include <peg_ast.h>
typedef Peg<PegMemorySource, PegMatch, PegContext> P;
static char text[16]; static int tn;
// An independent reading of the rules, recording the literals and classes that fail
static const char* rname[] = { "TOP", "n", "w", "k", "e", "v" };
static const char* rpat[6];
struct F { const char* atom; int len; int depth; int path[20]; };
static F fs[16]; static int nf, fat;
static int st[20], sd, la;
static void rec(const char* p, int len, int i)
{
	if (la || (nf && i < fat)) return;
	if (nf && i > fat) nf = 0;
	fat = i;
	for (int k = 0; k < nf; k++) if (fs[k].atom == p) return;
	F& f = fs[nf++]; f.atom = p; f.len = len; f.depth = sd;
	for (int k = 0; k < sd; k++) f.path[k] = st[k];
}
static const char* skip(const char* p)
{
	switch (*p++) {
	case '?': case '*': case '+': case '&': case '!': return skip(p);
	case '(': while (*p != ')') p = skip(p); return p + 1;
	case '|': while (*p && *p != '|' && *p != ')') p = skip(p); return p;
	case '[': while (*p != ']') p++; return p + 1;
	case '<': while (*p != '>') p++; return p + 1;
	case '\\': return p + 1;
	default: return p;
	}
}
static bool in(const char* p, char c)
{
	bool neg = *p == '^', yes = false; if (neg) p++;
	for (; *p != ']'; p++) if (p[1] == '-') { yes |= c >= p[0] && c <= p[2]; p += 2; } else yes |= c == *p;
	return yes != neg;
}
static int seq(const char* p, int i);
static int atom(const char* p, int i)	// where the atom at p leaves the text, or -1
{
	const char* q = p + 1; int r;
	switch (*p) {
	case '?': r = atom(q, i); return r < 0 ? i : r;
	case '+': if ((i = atom(q, i)) < 0) return -1;
	case '*': for (;;) { r = atom(q, i); if (r <= i) return i; i = r; }	// (only what consumes is repeated here)
	case '&': la++; r = atom(q, i); la--; return r < 0 ? -1 : i;
	case '!': la++; r = atom(q, i); la--; return r < 0 ? i : -1;
	case '(': return seq(q, i);
	case '|': for (; *p == '|'; p = skip(p)) if ((r = seq(p + 1, i)) >= 0) return r; return -1;
	case '<': {
		int k = 0; while (rname[k][0] != q[0]) k++;
		st[sd++] = k; r = seq(rpat[k], i); sd--; return r; }
	case '\\': return i < tn && text[i] >= '0' && text[i] <= '9' ? i + 1 : -1;	// \d only
	case '$': return i == tn || text[i] == '\n' ? i : -1;
	case '.': return i < tn ? i + 1 : -1;
	case '[': if (i < tn && in(q, text[i])) return i + 1; rec(p, skip(p) - p, i); return -1;
	default: if (i < tn && text[i] == *p) return i + 1; rec(p, 1, i); return -1;
	}
}
static int seq(const char* p, int i)
{
	if (*p == '|') { i = atom(p, i); while (*p == '|') p = skip(p); if (i < 0) return -1; }
	while (*p && *p != ')' && *p != '|') { if ((i = atom(p, i)) < 0) return -1; p = skip(p); }
	return i;
}
static const char* cN[] = { "n", 0 };
static const char* tops[] = {
	"ab", "|ab|ac|b", "*ab", "<n>+<w>z", "&<k><w>", "!aab", "|<n>,<n>|<n>-<n>", "<e>", "?(ab)ac", "<n>!<k>q",
	"&(<n>,)<n>-", "*(<n>,)<n>$", "*[^,],[,-.]", "+(|<n>a|<w>b)=", "\\d.a", "!(<n>a)<n>b", "*<n>", "<k>?<w><k>", "(a(b(c)))", "|!<e>.a|<e>b",
	"|ab|.\\d|c", "*[ab].$", "<v>=", "*(|<v>,|x<n>)b", "|<v>|<k>|<w>x" };
enum { NT = sizeof(tops)/sizeof(tops[0]) };
static int go()
{
	tn = sv_choose("n", TLEN + 1);
	for (int i = 0; i < tn; i++) { text[i] = sv_u8("t"); sv_assume(text[i] > 0); }
	text[tn] = 0;
	int gi = sv_choose("grammar", NT);
	rpat[0] = tops[gi];
	rpat[1] = "[0-9]"; rpat[2] = "+[a-c]"; rpat[3] = "if"; rpat[4] = "|x<e>y|<n>"; rpat[5] = "!(<k>z)&(<w>)+[a-i]";
	nf = 0; fat = 0; sd = 0; la = 0;
	st[sd++] = 0;
	int end = seq(rpat[0], 0);
	sv_note(rpat[0]); sv_note(text);
	P::Rule rules[] = {
		P::Rule("TOP", P::PegexpT(rpat[0]), gi == 3 || gi == 7 || gi == 15 ? cN : 0), P::Rule("n", P::PegexpT(rpat[1]), 0), P::Rule("w", P::PegexpT(rpat[2]), 0),
		P::Rule("k", P::PegexpT(rpat[3]), 0), P::Rule("e", P::PegexpT(rpat[4]), cN), P::Rule("v", P::PegexpT(rpat[5]), 0) };
	P peg(rules, 6);
	PegMemorySource src(text);
	PegMatch m = peg.parse(src);
	sv_check(m.is_failure() == (end < 0), "the parse succeeds exactly when the rules match");
	if (end >= 0) sv_check(src.current_byte() == end, "the parse ends where it should");
	sv_check((int)m.failures.length() == nf, "as many failures are reported as atoms failed at the furthest place");
	if (nf) sv_check(m.furthermost_success.current_byte() == fat, "the furthest place is where they failed");
	for (int i = 0; i < nf; i++) {
		PegFailure f = m.failures[i];
		sv_check(f.atom == fs[i].atom, "each is an atom that failed there, in order");
		sv_check(f.atom_len == fs[i].len, "its length covers the atom");
		sv_check((int)f.path.length() == fs[i].depth, "as many rules as were being parsed");
		for (int k = 0; k < fs[i].depth; k++) sv_check(strcmp(f.path[k], rname[fs[i].path[k]]) == 0, "the rules that were being parsed");
		if (fs[i].depth > 1) sv_reach("nested");
	}
	if (nf > 1) sv_reach("several");
	sv_reach(end >= 0 ? "passed" : "failed");
	return end * 8 + nf;
}
extern "C" void sv_main()
{
	uint64_t h0 = sv_heap();
	int r = go();
	sv_check(sv_heap() == h0, "no memory outlives the parse");
	sv_out(r);
}
