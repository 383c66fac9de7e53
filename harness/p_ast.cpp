// P05: the tree a PEG parse returns holds exactly the captures the grammar asks for, from the path that matched.
#include "sv.h"
#include <strval.h>
#include <variant.h>
#include <peg.h>
#include <peg_ast.h>
typedef Peg<PegMemorySource, PegMatch, PegContext> P;
static char text[16]; static int tn;
static bool dig(int i) { return i < tn && text[i] >= '0' && text[i] <= '9'; }
static bool alp(int i) { return i < tn && ((text[i] >= 'a' && text[i] <= 'z') || (text[i] >= 'A' && text[i] <= 'Z')); }
static int A(int i) { return dig(i) ? i + 1 : -1; }
static int B(int i) { if (!alp(i)) return -1; while (alp(i)) i++; return i; }
// expected tree, as text
static char ex[256]; static int nx;
static void o(char c) { if (nx < 250) ex[nx++] = c; }
static void os(const char* s) { while (*s) o(*s++); }
static void span(int a, int b) { o('\''); for (int i = a; i < b; i++) o(text[i]); o('\''); }
// the tree returned, as text
static char got[256]; static int ng;
static void g(char c) { if (ng < 250) got[ng++] = c; }
static void gs(const StrVal& s) { StrValIndex n; const char* p = s.asUTF8(n); for (int i = 0; i < (int)n; i++) g(p[i]); }
static void ser(Variant v)
{
	switch (v.type()) {
	case Variant::String: g('\''); gs(v.as_strval()); g('\''); break;
	case Variant::VarArray: { VariantArray a = v.as_variant_array(); g('['); for (int i = 0; i < (int)a.length(); i++) ser(a[i]); g(']'); break; }
	case Variant::StrVarMap: { StrVariantMap m = v.as_variant_map(); g('{'); for (auto it = m.begin(); it != m.end(); it++) { gs(it->first); g(':'); ser(it->second); } g('}'); break; }
	case Variant::None: g('-'); break;
	default: g('?'); break;
	}
}
static const char* cNone[] = { 0 };
static const char* cX[] = { "x", 0 };
static const char* cXY[] = { "x", "y", 0 };
static const char* cPQ[] = { "p", "q", 0 };
static const char* cU[] = { "x_1", "_y2", 0 };
static const char* cA[] = { "a", 0 };
static const char* cN[] = { "n", 0 };
static int nested(int i, int& a, int& b, bool& hasb) { a = A(i); if (a < 0) return -1; b = B(a); hasb = b >= 0; if (b < 0) b = a; return b; }
static int go()
{
	nx = ng = 0;
	tn = sv_choose("n", TLEN + 1);
	for (int i = 0; i < tn; i++) { text[i] = sv_u8("t"); sv_assume(text[i] > 0); }
	text[tn] = 0;
	const char* top; const char** caps = cX; const char* nexp = "<a>:p?<b>:q"; const char** ncaps = cPQ;
	int end = -1; bool ok = false;
	int p, q, pb; bool hb;
	switch (sv_choose("grammar", 15)) {
	case 0: top = "<a>:x"; end = A(0); if ((ok = end >= 0)) { os("{x:"); span(0, end); o('}'); } break;
	case 1: top = "*<a>:x"; ok = true; end = 0; { bool any = false; while (A(end) >= 0) { if (!any) os("{x:["); any = true; span(end, end + 1); end++; } os(any ? "]}" : "{}"); } break;
	case 2: top = "<a>:x:<b>:y:"; caps = cXY; p = A(0); end = p < 0 ? -1 : B(p); if ((ok = end >= 0)) { os("{x:"); span(0, p); os("y:"); span(p, end); o('}'); } break;
	case 3: top = "<a>:x<a>:x"; p = A(0); end = p < 0 ? -1 : A(p); if ((ok = end >= 0)) { os("{x:["); span(0, 1); span(1, 2); os("]}"); } break;
	case 4: top = "|<a>:x<b>|<a>:y<a>|<b>:x"; caps = cXY;	// a failed alternate leaves nothing
		p = A(0); q = p < 0 ? -1 : B(p);
		if (q >= 0) { end = q; os("{x:"); span(0, p); o('}'); }
		else if (p >= 0 && A(p) >= 0) { end = A(p); os("{y:"); span(0, p); o('}'); }
		else if (B(0) >= 0) { end = B(0); os("{x:"); span(0, end); o('}'); }
		ok = end >= 0; break;
	case 5: top = "&<a>:x<a>:y"; caps = cXY; end = A(0); if ((ok = end >= 0)) { os("{y:"); span(0, 1); o('}'); } break;
	case 6: top = "!<a>:x<b>:y"; caps = cXY; end = A(0) >= 0 ? -1 : B(0); if ((ok = end >= 0)) { os("{y:"); span(0, end); o('}'); } break;
	case 7: top = "<n>:x"; end = nested(0, p, pb, hb); if ((ok = end >= 0)) { os("{x:{p:"); span(0, p); if (hb) { os("q:"); span(p, pb); } os("}}"); } break;
	case 8: top = "+<n>"; caps = cN; { int i = 0; bool any = false; for (;;) { int e = nested(i, p, pb, hb); if (e < 0) break; if (!any) os("{n:["); any = true; os("{p:"); span(i, p); if (hb) { os("q:"); span(p, pb); } o('}'); i = e; } if (any) { os("]}"); end = i; ok = true; } } break;
	case 9: top = "<a>:xx<b>:x"; p = A(0); end = p < 0 ? -1 : B(p); if ((ok = end >= 0)) { os("{x:"); span(p, end); o('}'); } break;	// only the names asked for
	case 10: top = "<a><ab>"; caps = cA; p = A(0); end = p < 0 ? -1 : B(p); if ((ok = end >= 0)) { os("{a:"); span(0, p); o('}'); } break;
	case 11: top = "<n>:x"; nexp = "(+\\d):v"; ncaps = cNone; { int i = 0; while (dig(i)) i++; end = i ? i : -1; } if ((ok = end >= 0)) { os("{x:{v:"); span(0, end); os("}}"); } break;
	case 13: top = "<a>:x_1:<b>:_y2"; caps = cU; p = A(0); end = p < 0 ? -1 : B(p); if ((ok = end >= 0)) { os("{_y2:"); span(p, end); os("x_1:"); span(0, p); o('}'); } break;	// names in order
	case 14: top = "|!<a>:x_1<b>:_y2:|<a>:x_1"; caps = cU; end = A(0); if (end < 0) { end = B(0); if (end >= 0) { os("{_y2:"); span(0, end); o('}'); } } else { os("{x_1:"); span(0, end); o('}'); } ok = end >= 0; break;
	default: top = "<b>:x<e>:y"; caps = cXY; end = p = B(0); while (end >= 0 && dig(end)) end++; if ((ok = end >= 0)) { os("{x:"); span(0, p); if (end > p) { os("y:"); span(p, end); } o('}'); } break;	// an empty capture is dropped
	}
	sv_note(top); sv_note(text);
	P::Rule rules[] = {
		P::Rule("TOP", P::PegexpT(top), caps), P::Rule("a", P::PegexpT("\\d"), 0), P::Rule("b", P::PegexpT("+\\a"), cNone),
		P::Rule("n", P::PegexpT(nexp), ncaps), P::Rule("ab", P::PegexpT("+\\a"), 0), P::Rule("e", P::PegexpT("*\\d"), 0) };
	P peg(rules, 6);
	PegMemorySource src(text);
	PegMatch m = peg.parse(src);
	sv_check(m.is_failure() == !ok, "the parse succeeds exactly when the rules match");
	if (!ok) { sv_reach("failed"); return -1; }
	sv_check(src.current_byte() == end, "the parse ends where it should");
	ser(m.var);
	sv_check(m.furthermost_success.current_byte() >= 0 && m.furthermost_success.current_byte() <= tn, "the furthest position lies within the text");
	bool eq = ng == nx;
	for (int i = 0; i < nx && eq; i++) eq &= got[i] == ex[i];
	got[ng] = 0; ex[nx] = 0; sv_note(got); sv_note(ex);
	sv_check(eq, "the tree holds exactly the captures");
	if (nx > 2) sv_reach("captured");
	return end;
}
extern "C" void sv_main()
{
	uint64_t h0 = sv_heap();
	int r = go();
	sv_check(sv_heap() == h0, "no memory outlives the parse");
	sv_out(r);
}
