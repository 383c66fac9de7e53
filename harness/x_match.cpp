// X01/X03: a compiled regular expression matches exactly what its syntax means: every expression tree of the given size
// with symbolic literals against every text, compared with a reference matcher that works on the tree; the match is the
// leftmost, then the longest, and its captures are those of one way of matching that text.
#include "sv.h"
#include <strregex.h>
#ifndef NODES
#define NODES 3
#endif
#ifndef KINDS
#define KINDS "L.^$[NPK?*+{(<!|"
#endif
#ifndef COUNTS
#define COUNTS { 2, 2, "{2}" }, { 0, 2, "{,2}" }, { 1, 2, "{1,2}" }, { 2, 0, "{2,}" }, { 0, 3, "{0,3}" }, { 2, 3, "{2,3}" }
#endif
#ifndef TLEN
#define TLEN 2
#endif
#ifndef LPRE
#define LPRE ""		// concrete text before each literal (makes expressions long)
#endif
enum { Lit, Any, Bol, Eol, Class, NClass, Prop, Esc, Group, Named, Look };
struct Node { int k; unsigned char c1, c2; int body, name; int min, max; const char* rep; };
static Node N[16]; static int nn, names, alts;
struct Seq { int e[6], n, next; };			// a sequence, and the next alternative
static Seq SQ[16]; static int nsq;
static int budget;
struct Count { int min, max; const char* text; };
static const Count counts[] = { COUNTS };
static bool has(char c) { for (const char* q = KINDS; *q; q++) if (*q == c) return true; return false; }
static unsigned char lit(bool inClass)
{
	unsigned char c = sv_u8("lit");
	sv_assume(c >= ' ' && c < 0x7F);
	for (const char* q = inClass ? "\\]^-" : "^$.\\[?*+{()|"; *q; q++) sv_assume(c != (unsigned char)*q);
	return c;
}
static int genSeq();
static int genNode(char kind)
{
	int id = nn++; Node& d = N[id]; d.c1 = d.c2 = 0; d.body = -1; d.name = 0; d.min = d.max = 1; d.rep = "";
	budget--;
	switch (kind) {
	case 'L': d.k = Lit; d.c1 = lit(false); break;
	case '.': d.k = Any; break;
	case '^': d.k = Bol; return id;
	case '$': d.k = Eol; return id;
	case '[': d.k = Class; d.c1 = lit(true); d.c2 = lit(true); break;
	case 'N': d.k = NClass; d.c1 = lit(true); d.c2 = lit(true); break;
	case 'P': d.k = Prop; d.c1 = "sdh"[sv_choose("prop", 3)]; break;
	case 'K': d.k = Esc; { static const char sp[] = "^$.\\[]?*+{()|-_"; d.c1 = sp[sv_choose("esc", sizeof(sp) - 1)]; } break;
	case '(': d.k = Group; { int b = genSeq(); d.body = b; } break;
	case '<': d.k = Named; d.name = ++names; { int b = genSeq(); d.body = b; } break;
	case '!': d.k = Look; { int b = genSeq(); d.body = b; } break;
	}
	char rs[5]; int nr = 0;
	for (const char* q = "?*+{"; *q; q++) if (has(*q) && budget > 0) rs[nr++] = *q;
	int r = sv_choose("rep", nr + 1);
	if (r < nr) {
		budget--;
		switch (rs[r]) {
		case '?': d.min = 0; d.max = 1; d.rep = "?"; break;
		case '*': d.min = 0; d.max = 0; d.rep = "*"; break;
		case '+': d.min = 1; d.max = 0; d.rep = "+"; break;
		case '{': { const Count& c = counts[sv_choose("count", sizeof(counts) / sizeof(counts[0]))]; d.min = c.min; d.max = c.max; d.rep = c.text; break; }
		}
	}
	return id;
}
static int genSeq()
{
	int first = nsq++, id = first; SQ[id].n = 0; SQ[id].next = -1;
	for (;;) {
		char ks[16]; int n = 0;
		if (budget > 0) for (const char* q = KINDS; *q; q++) {
			if (*q == '?' || *q == '*' || *q == '+' || *q == '{') continue;
			ks[n++] = *q;
		}
		int c = sv_choose("item", n + 1);
		if (c == n) return first;
		if (ks[c] == '|') { budget--; int nx = nsq++; SQ[id].next = nx; id = nx; SQ[id].n = 0; SQ[id].next = -1; continue; }
		int x = genNode(ks[c]);
		SQ[id].e[SQ[id].n++] = x;
	}
}
static char pat[1200]; static int np;
static void out(unsigned char c) { pat[np++] = c; }
static void puts_(const char* q) { while (*q) out(*q++); }
static void prSeq(int s);
static void prNode(int i)
{
	Node& d = N[i];
	switch (d.k) {
	case Lit: puts_(LPRE); out(d.c1); break;
	case Any: out('.'); break;
	case Bol: out('^'); break;
	case Eol: out('$'); break;
	case Class: case NClass: out('['); if (d.k == NClass) out('^'); out(d.c1); out('-'); out(d.c2); out(']'); break;
	case Prop: case Esc: out('\\'); out(d.c1); break;
	case Group: if (i & 1) puts_("(?:"); else out('('); prSeq(d.body); out(')'); break;
	case Named: puts_("(?<g"); out('0' + d.name); out('>'); prSeq(d.body); out(')'); break;
	case Look: puts_("(?!"); prSeq(d.body); out(')'); break;
	}
	puts_(d.rep);
}
static void prSeq(int s) { for (;;) { for (int j = 0; j < SQ[s].n; j++) prNode(SQ[s].e[j]); if ((s = SQ[s].next) < 0) return; out('|'); } }
// ---- text
struct Ch { uint32_t u; unsigned char b[4]; int w; };
static Ch T[16]; static int tn;
// ---- the reference: every way of matching, with an explicit continuation
struct Caps { int from[8], to[8]; };
struct Result { int end; Caps c; };
static Result R[200]; static int nR, best, looking; static bool lost;
enum { KSeq, KRep, KCap };
struct K { int kind, id, at, count; K* next; };
static void run(K* k, int at, Caps c);
static bool prop(char q, uint32_t u)
{
	bool d = u < 0x80 ? u >= '0' && u <= '9' : UCS4Digit(u) >= 0;
	switch (q) {
	case 's': return UCS4IsWhite(u);
	case 'd': return d;
	default: return d | (u >= 'a' && u <= 'f') | (u >= 'A' && u <= 'F');
	}
}
static void alt(int s, K* k, int at, Caps c) { for (; s >= 0; s = SQ[s].next) { K q = { KSeq, s, 0, 0, k }; run(&q, at, c); } }
static bool any(int s, int at)		// does this match anything here?
{
	int keep = best; Caps c = {};
	best = -1; looking++;
	alt(s, 0, at, c);
	bool r = best >= 0;
	best = keep; looking--;
	return r;
}
static void atom(int i, K* k, int at, Caps c)
{
	Node& d = N[i]; bool ok = false; int e = at;
	switch (d.k) {
	case Lit: {
		ok = true;
		for (const char* q = LPRE; *q && ok; q++, e++) ok = e < tn && T[e].u == (unsigned char)*q;
		ok = ok && e < tn && T[e].u == d.c1; e++; break; }
	case Esc: ok = at < tn && T[at].u == d.c1; e = at + 1; break;
	case Any: ok = at < tn; e = at + 1; break;
	case Bol: ok = at == 0 || T[at - 1].u == '\n'; break;
	case Eol: ok = at == tn || T[at].u == '\n'; break;
	case Class: ok = at < tn && ((T[at].u >= d.c1) & (T[at].u <= d.c2)); e = at + 1; break;
	case NClass: ok = at < tn && !((T[at].u >= d.c1) & (T[at].u <= d.c2)); e = at + 1; break;
	case Prop: ok = at < tn && prop(d.c1, T[at].u); e = at + 1; break;
	case Group: alt(d.body, k, at, c); return;
	case Named: { K q = { KCap, d.name - 1, at, 0, k }; alt(d.body, &q, at, c); return; }
	case Look: ok = !any(d.body, at); if (!ok) sv_reach("lookahead"); break;
	}
	if (ok) run(k, e, c);
}
static void run(K* k, int at, Caps c)
{
	if (!k) {
		if (at > best) best = at;
		if (looking) return;
		for (int i = 0; i < nR; i++) {
			bool same = R[i].end == at;
			for (int j = 0; j < names; j++) same &= R[i].c.from[j] == c.from[j] && R[i].c.to[j] == c.to[j];
			if (same) return;
		}
		if (nR < 200) { R[nR].end = at; R[nR++].c = c; } else lost = true;
		return;
	}
	switch (k->kind) {
	case KSeq: {
		if (k->at == SQ[k->id].n) return run(k->next, at, c);
		K rest = { KSeq, k->id, k->at + 1, 0, k->next };
		int x = SQ[k->id].e[k->at]; Node& d = N[x];
		if (!*d.rep) return atom(x, &rest, at, c);
		K rep = { KRep, x, -1, 0, &rest };
		return run(&rep, at, c); }
	case KCap: c.from[k->id] = k->at; c.to[k->id] = at; return run(k->next, at, c);
	case KRep: {		// count repetitions are done, the last one began at k->at
		Node& d = N[k->id];
		if (k->count >= d.min) run(k->next, at, c);
		bool empty = k->at == at;
		if ((d.max == 0 || k->count < d.max) && !(empty && k->count >= d.min)) {
			K again = { KRep, k->id, at, k->count + 1, k->next };
			atom(k->id, &again, at, c);
		}
		return; }
	}
}
extern "C" void sv_main()
{
	nn = nsq = np = tn = names = 0; budget = NODES;
	int s = genSeq();
	prSeq(s); pat[np] = 0;
#ifdef NAMED
	if (!names) sv_done();
#endif
	char text[40]; int nb = 0;
	int len = sv_choose("len", TLEN + 1);
	for (int i = 0; i < len; i++) {
		Ch& c = T[tn++]; c.w = 1 + (WIDE ? sv_choose("w", 3) : 0);
		c.b[0] = sv_u8("t");
		if (c.w == 1) { sv_assume(c.b[0] != 0 && c.b[0] < 0x80); c.u = c.b[0]; }
		else {
			c.b[1] = sv_u8("t"); sv_assume((c.b[1] & 0xC0) == 0x80);
			if (c.w == 2) { sv_assume(c.b[0] >= 0xC2 && c.b[0] < 0xE0); c.u = (c.b[0] & 0x1Fu) << 6 | (c.b[1] & 0x3F); }
			else { c.b[2] = sv_u8("t"); sv_assume((c.b[2] & 0xC0) == 0x80); sv_assume(c.b[0] >= 0xE1 && c.b[0] < 0xF0); c.u = ((c.b[0] & 0x0Fu) << 6 | (c.b[1] & 0x3F)) << 6 | (c.b[2] & 0x3F); }
		}
		for (int j = 0; j < c.w; j++) text[nb++] = c.b[j];
	}
	text[nb] = 0;
	sv_note(pat); sv_note(text);
	uint64_t before = sv_heap();
	{
		StrVal re(pat), target(text);
		RxCompiler rx(re);
		char* nfa = (char*)1;
		bool ok = rx.compile(nfa);
		sv_check(ok && nfa && !rx.errorMessage(), "a well-formed expression compiles");
		RxProgram prog(nfa, true);
		for (int g = 1; g <= names; g++) { char nm[3] = { 'g', (char)('0' + g), 0 }; sv_check(prog.group_name(g) == StrVal(nm), "group names"); }
		int off = sv_choose("offset", tn + 1), from;
		bool search = sv_choose("search", 2);
		best = -1;
		for (from = off; from <= (search ? tn : off); from++) {
			nR = 0; lost = false; best = -1;
			Caps c = {};
			alt(s, 0, from, c);
			if (best >= 0) break;
		}
		if (lost) { sv_done(); return; }
		RxResult r = search ? prog.matchAfter(target, off) : prog.matchAt(target, off);
		sv_check(r.succeeded() == (best >= 0), "matches exactly when the expression does");
		if (best >= 0) {
			sv_check((int)r.offset() == from && (int)r.capture(0) == from, "the leftmost match");
			sv_check((int)(r.offset() + r.length()) == best && (int)r.capture(1) == best, "the longest match from there");
			bool found = false;
			for (int i = 0; i < nR && !found; i++) {
				if (R[i].end != best) continue;
				bool same = true;
				for (int j = 0; j < names; j++) same &= (int)r.capture(2 * j + 2) == R[i].c.from[j] && (int)r.capture(2 * j + 3) == R[i].c.to[j];
				found = same;
			}
			sv_check(found, "the captures are those of a way the text matches");
			sv_reach("matched");
		} else
			sv_reach("failed");
		sv_out(best >= 0 ? from * 16 + best : -1);
		// the program is unchanged by a match: again
		RxResult r2 = search ? prog.matchAfter(target, off) : prog.matchAt(target, off);
		sv_check(r2.succeeded() == r.succeeded() && r2.offset() == r.offset() && r2.length() == r.length(), "the same again");
	}
	sv_check(sv_heap() == before, "no memory is leaked");
}
