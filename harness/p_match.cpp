// P01: a pegular expression matches exactly what its operators mean: every pattern tree of the given size with symbolic
// literals, against every text, compared with a reference matcher that works on the tree.
#include "sv.h"
#include <pegexp.h>
#ifdef PEG
#include <peg.h>
// the same for a grammar of PEG rules that call each other: calling a rule means matching its expression there; a rule
// that is already being matched at the same place cannot be called again (left recursion)
static const char* const ruleName[] = { RULES };
enum { NR = sizeof(ruleName) / sizeof(ruleName[0]) };
#endif
#ifndef NODES
#define NODES 3
#endif
#ifndef KINDS
#define KINDS "L.^$[NEK?*+&!(|:"
#endif
#ifndef TEXTS
#define TEXTS "", "1", "11"
#endif
// ---- pattern trees
enum { Lit, Any, Bol, Eol, Class, NClass, Prop, Esc, Opt, Star, Plus, And, Not, Group, Alts, Call };
struct Node { char k; unsigned char c1, c2; char label; int kid[4]; int nk; Node() : label(0), nk(0) {} };
static Node N[16]; static int nn;
struct Seq { int e[6]; int n; };
static Seq SQ[16]; static int nsq;
static int budget;
static bool has(char c) { for (const char* p = KINDS; *p; p++) if (*p == c) return true; return false; }
static unsigned char lit(bool inClass)
{
	unsigned char c = sv_u8("lit");
	sv_assume(c >= ' ' && c < 0x7F);
	for (const char* p = inClass ? "\\]^-" : "^$.\\[]?*+{()}|&!~@#%_;<`:"; *p; p++) sv_assume(c != (unsigned char)*p);
	return c;
}
static int genSeq(bool top, bool inAlt);
static int genNode(bool last, bool operand)
{
	char ks[16]; int n = 0;
	for (const char* p = KINDS; *p; p++) {
		bool comp = *p == '?' || *p == '*' || *p == '+' || *p == '&' || *p == '!' || *p == '(';
		if (*p == ':' || (*p == '|' && (!last || operand))) continue;
		if ((comp || *p == '|') && budget < 2 && *p != '(') continue;
		ks[n++] = *p;
	}
	int id = nn++; Node& d = N[id]; d = Node();
	budget--;
	switch (ks[sv_choose("kind", n)]) {
	case 'L': d.k = Lit; d.c1 = lit(false); break;
	case '.': d.k = Any; break;
#ifdef PEG
	case '<': d.k = Call; d.c1 = sv_choose("rule", NR + (UNDEF)); break;
#endif
	case '^': d.k = Bol; break;
	case '$': d.k = Eol; break;
	case '[': d.k = Class; d.c1 = lit(true); d.c2 = lit(true); break;
	case 'N': d.k = NClass; d.c1 = lit(true); d.c2 = lit(true); break;
	case 'E': d.k = Prop; d.c1 = "adhswLU"[sv_choose("prop", 7)]; break;
	case 'K': { d.k = Esc; static const char sp[] = "^$.\\[]?*+{()}|&!~@#%_;<`:"; d.c1 = sp[sv_choose("esc", sizeof(sp) - 1)]; break; }
	case '?': d.k = Opt; d.kid[0] = genNode(last, true); d.nk = 1; break;
	case '*': d.k = Star; d.kid[0] = genNode(last, true); d.nk = 1; break;
	case '+': d.k = Plus; d.kid[0] = genNode(last, true); d.nk = 1; break;
	case '&': d.k = And; d.kid[0] = genNode(last, true); d.nk = 1; break;
	case '!': d.k = Not; d.kid[0] = genNode(last, true); d.nk = 1; break;
	case '(': d.k = Group; { int s = genSeq(true, false); d.kid[0] = s; } break;
	case '|': { d.k = Alts; int m = 1 + sv_choose("alts", 3); for (int i = 0; i < m; i++) { if (budget < 1) { sv_done(); } int s = genSeq(false, true); d.kid[d.nk++] = s; } break; }
	}
	if (has(':') && d.k != Opt && d.k != Star && d.k != Plus && d.k != And && d.k != Not && d.k != Alts && budget > 0 && sv_choose("label", 2)) { budget--; d.label = 'a' + nn; }
	return id;
}
static int genSeq(bool canBeEmpty, bool inAlt)
{
	int id = nsq++; SQ[id].n = 0;
	int n = canBeEmpty ? sv_choose("len", budget + 1) : 1 + sv_choose("len", budget);
	for (int i = 0; i < n; i++) {
		if (budget < 1) sv_done();
		int x = genNode(i + 1 == n && !inAlt, false);
		SQ[id].e[SQ[id].n++] = x;
	}
	return id;
}
static char pat[96]; static int np;
static void out(unsigned char c) { pat[np++] = c; }
static void prSeq(int s);
static void prNode(int i)
{
	Node& d = N[i];
	switch (d.k) {
	case Lit: out(d.c1); break;
	case Any: out('.'); break;
#ifdef PEG
	case Call: out('<'); for (const char* p = d.c1 < NR ? ruleName[d.c1] : "undefined"; *p; p++) out(*p); out('>'); break;
#endif
	case Bol: out('^'); break;
	case Eol: out('$'); break;
	case Class: case NClass: out('['); if (d.k == NClass) out('^'); out(d.c1); out('-'); out(d.c2); out(']'); break;
	case Prop: case Esc: out('\\'); out(d.c1); break;
	case Opt: out('?'); prNode(d.kid[0]); break;
	case Star: out('*'); prNode(d.kid[0]); break;
	case Plus: out('+'); prNode(d.kid[0]); break;
	case And: out('&'); prNode(d.kid[0]); break;
	case Not: out('!'); prNode(d.kid[0]); break;
	case Group: out('('); prSeq(d.kid[0]); out(')'); break;
	case Alts: for (int j = 0; j < d.nk; j++) { out('|'); prSeq(d.kid[j]); } break;
	}
	if (d.label) { out(':'); out(d.label); out('_'); out(':'); }
}
static void prSeq(int s) { for (int j = 0; j < SQ[s].n; j++) prNode(SQ[s].e[j]); }
// ---- text
struct Ch { uint32_t u; unsigned char b[4]; int w; };
static Ch T[8]; static int tn;
// ---- the reference
struct Cap { char label; int from, to; bool rep; };
struct Caps { Cap c[16]; int n; Caps() : n(0) {} };
static Caps caps;
static bool bol(int at) { return at == 0 || T[at - 1].u == '\n'; }
static bool prop(char p, uint32_t u)
{
	bool d = u >= '0' && u <= '9', up = u >= 'A' && u <= 'Z', lo = u >= 'a' && u <= 'z', sp = (u == 0x20) | (u == 9) | (u == 10) | (u == 13), a = up | lo;
	if (u >= 0x80) d = UCS4IsDecimal(u), up = UCS4ToUpper(u) == u && UCS4ToLower(u) != u, lo = UCS4ToLower(u) == u && UCS4ToUpper(u) != u, sp = UCS4IsWhite(u), a = UCS4IsAlphabetic(u);	// (property U05)
	switch (p) {
	case 'a': return a;
	case 'd': return d;
	case 'h': return d | (u >= 'a' && u <= 'f') | (u >= 'A' && u <= 'F');
	case 's': return sp;
	case 'w': return d | a;
	case 'L': return lo;
	default: return up;
	}
}
#ifdef PEG
static int ruleSeq[NR], ruleAt[NR];
static struct { int rule, at; } act[12]; static int nact;
#endif
static int refSeq(int s, int at, int rep);		// the position after the match, or -1
static int refNode(int i, int at, int rep, bool look)
{
	Node& d = N[i]; int e = -1, keep = caps.n;
	switch (d.k) {
	case Lit: case Esc: e = at < tn && T[at].u == d.c1 ? at + 1 : -1; break;
	case Any: e = at < tn ? at + 1 : -1; break;
#ifdef PEG
	case Call: {
		if (d.c1 >= NR) break;
		bool left = false;
		for (int j = 0; j < nact; j++) left |= act[j].rule == d.c1 && act[j].at == at;
		if (left) { sv_reach("left recursion"); break; }
		if (nact >= 12) { sv_done(); break; }
		act[nact].rule = d.c1; act[nact++].at = at;
		e = refSeq(ruleSeq[d.c1], at, 0);
		nact--;
		break; }
#endif
	case Bol: e = bol(at) ? at : -1; break;
	case Eol: e = at == tn || T[at].u == '\n' ? at : -1; break;
	case Class: e = at < tn && ((T[at].u >= d.c1) & (T[at].u <= d.c2)) ? at + 1 : -1; break;
	case NClass: e = at < tn && !((T[at].u >= d.c1) & (T[at].u <= d.c2)) ? at + 1 : -1; break;
	case Prop: e = at < tn && prop(d.c1, T[at].u) ? at + 1 : -1; break;
	case Opt: e = refNode(d.kid[0], at, rep, look); if (e < 0) { caps.n = keep; e = at; } break;
	case Star: case Plus: {
		int cur = at; bool first = d.k == Plus;
		for (;;) {
			int k2 = caps.n;
			int nx = refNode(d.kid[0], cur, rep + 1, look);
			if (nx < 0) { caps.n = k2; if (first) { cur = -1; } break; }
			if (nx == cur && !first) break;
			first = false; cur = nx;
		}
		e = cur; break; }
	case And: case Not: e = refNode(d.kid[0], at, rep, true); caps.n = keep; e = (e >= 0) == (d.k == And) ? at : -1; break;
	case Group: e = refSeq(d.kid[0], at, rep); break;
	case Alts: for (int j = 0; j < d.nk && e < 0; j++) { caps.n = keep; e = refSeq(d.kid[j], at, rep); } break;
	}
	if (e < 0) { caps.n = keep; return -1; }
	if (d.label && caps.n < 16) { Cap c = { d.label, at, e, rep > 0 }; caps.c[caps.n++] = c; }
	return e;
}
static int refSeq(int s, int at, int rep) { for (int j = 0; j < SQ[s].n && at >= 0; j++) at = refNode(SQ[s].e[j], at, rep, false); return at; }
#ifndef PEG
// ---- a context that records captures
typedef PegexpDefaultMatch<PegexpState<PegexpDefaultSource>> Match;
struct Ctx : PegexpDefaultContext<Match> {
	struct C { const char* name; int len; Match m; bool rep; };
	C c[24]; int n;
	Ctx() : n(0) {}
	int capture_count() const { return n; }
	int capture(PatternP name, int name_len, Match m, bool in_rep) { if (n < 24) { C x; x.name = name; x.len = name_len; x.m = m; x.rep = in_rep; c[n] = x; n++; } return n; }
	void rollback_capture(int k) { sv_check(k <= n, "captures are only ever rolled back"); n = k; }
};
#endif
extern "C" void sv_main()
{
	static const char* const texts[] = { TEXTS };
	nn = nsq = np = tn = 0; budget = NODES;
#ifdef PEG
	for (int r = 0; r < NR; r++) { ruleSeq[r] = genSeq(true, false); ruleAt[r] = np; prSeq(ruleSeq[r]); out(0); }
#else
	int s = genSeq(true, false);
	prSeq(s); pat[np] = 0;
#endif
	char text[40]; int nb = 0, off[9];
	for (const char* t = texts[sv_choose("text", sizeof(texts) / sizeof(texts[0]))]; *t; t++) {
		Ch& c = T[tn]; c.w = *t == 'n' ? 1 : *t - '0';
		off[tn++] = nb;
		if (*t == 'n') c.b[0] = c.u = '\n';
		else if (c.w == 1) { c.b[0] = sv_u8("t"); sv_assume(c.b[0] != 0 && c.b[0] < 0x80); c.u = c.b[0]; }
		else {
			c.b[0] = sv_u8("t"); c.b[1] = sv_u8("t"); sv_assume((c.b[1] & 0xC0) == 0x80);
			if (c.w == 2) { sv_assume(c.b[0] >= 0xC2 && c.b[0] < 0xE0); c.u = (c.b[0] & 0x1Fu) << 6 | (c.b[1] & 0x3F); }
			else { c.b[2] = sv_u8("t"); sv_assume((c.b[2] & 0xC0) == 0x80); sv_assume(c.b[0] >= 0xE1 && c.b[0] < 0xF0); c.u = ((c.b[0] & 0x0Fu) << 6 | (c.b[1] & 0x3F)) << 6 | (c.b[2] & 0x3F); }
		}
		for (int j = 0; j < c.w; j++) text[nb++] = c.b[j];
	}
	off[tn] = nb; text[nb] = 0;
	sv_note(text);
#ifdef PEG
	for (int r = 0; r < NR; r++) sv_note(pat + ruleAt[r]);
	typedef Peg<> P;
	PegexpDefaultSource src(text);
	act[0].rule = 0; act[0].at = 0; nact = 1;
	int to = refSeq(ruleSeq[0], 0, 0);
	P::Rule rules[NR] = { RULEINIT };
	P peg(rules, NR);
	P::Match m = peg.parse(src);
	sv_check(m.is_failure() == (to < 0), "the parse succeeds exactly when the rules match");
	if (to >= 0) sv_check(src.current_byte() == off[to], "the parse ends where it should");
	if (to > 0) sv_reach("matched");
	if (to < 0) sv_reach("failed");
	sv_out(to);
#else
	sv_note(pat);
	PegexpDefaultSource src(text);
	Pegexp<Ctx> peg(pat);
	Ctx ctx;
	int from = 0, to = -1;
	Match m;
	if (sv_choose("search", 2)) {
		for (from = 0; from <= tn; from++) { caps.n = 0; to = refSeq(s, from, 0); if (to >= 0) break; }
		m = peg.match(src, &ctx);
	} else {
		caps.n = 0;
		to = refSeq(s, 0, 0);
		m = peg.match_here(src, &ctx);
		if (to >= 0) sv_check(src.current_byte() == off[to], "match_here() leaves the source after the match");
		else sv_check(src.current_byte() == 0, "match_here() leaves the source where it was on failure");
	}
	sv_check(m.is_failure() == (to < 0), "matches exactly when the pattern does");
	if (to >= 0) {
		sv_check(m.from.source.current_byte() == off[from], "the match starts where it should");
		sv_check(m.to.source.current_byte() == off[to], "the match ends where it should");
		sv_check(m.from.pattern == pat && m.to.pattern == pat + np, "the whole pattern is used");
		int line = 1, col = 1;
		for (int i = 0; i < to; i++) if (T[i].u == '\n') { line++; col = 1; } else col++;
		sv_check(m.to.source.current_line() == line && m.to.source.current_column() == col, "line and column");
		bool eq = ctx.n == caps.n;
		for (int i = 0; i < caps.n && eq; i++) {
			Cap& c = caps.c[i];
			eq &= ctx.c[i].name[0] == c.label && ctx.c[i].len == 2 && ctx.c[i].rep == c.rep
			 && ctx.c[i].m.from.source.current_byte() == off[c.from] && ctx.c[i].m.to.source.current_byte() == off[c.to];
		}
		sv_check(eq, "the captures are those of the match");
		if (to > from) sv_reach("matched");
		if (caps.n) sv_reach("captured");
	} else {
		sv_check(ctx.n == 0, "no captures from a failure");
		sv_reach("failed");
	}
	sv_check(ctx.capture_disabled == 0 && ctx.repetition_nesting == 0, "nesting counts are balanced");
	sv_out((uint64_t)(to + 1) << 8 | from << 4 | caps.n);
#endif
}
