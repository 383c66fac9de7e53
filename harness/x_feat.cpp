// X06: a feature of the syntax that is not enabled is plain text, one that is rejected is refused where it is used, and one
// that is not used makes no difference. The expression is compiled with any set of features enabled and rejected, and compared
// with the program made, with every feature, for the expression that spells the same out.
#include "sv.h"
#include <strregex.h>
#include <string.h>
#ifndef TOKENS
#define TOKENS 2
#endif
#ifndef SET
#define SET "z", "^", "$", ".", "?", "*", "+", "{2}", "{1,2}", "\\n", "\\b", "\\101", "\\x4A", "\\u0263a", "\\s", "\\d", "\\p{q}", "[ab]", "[^a]", "|", "(", "(?:", "(?<n>", "(?!", ")", " ", " #c\n", "\\*", "\\y"
#endif
static const char* const toks[] = { SET };
enum { NTOK = sizeof(toks) / sizeof(toks[0]) };
typedef RxFeature F;
static uint32_t	feat, rej;
static bool	refused, skip;
static int	refused_at;
static char	pat[128], *out;
static bool on(F f) { return feat & ~rej & (uint32_t)f; }
static bool off(F f) { return !on(f); }
static void put(const char* s) { while (*s) *out++ = *s++; *out = 0; }
static void refuse(F f, int at) { if ((rej & (uint32_t)f) && !refused) { refused = true; refused_at = at; } }
// Spell out this token of the expression, with only what is enabled special
static void spell(const char* t, int at)
{
	switch (*t) {
	case '^': refuse(F::BOL, at); put(on(F::BOL) ? t : "\\^"); break;
	case '$': refuse(F::EOL, at); put(on(F::EOL) ? t : "\\$"); break;
	case '.': put(on(F::AnyIsQuest) ? "\\." : "."); break;
	case '?': if (on(F::AnyIsQuest)) { put("."); break; } refuse(F::ZeroOrOneQuest, at); put(on(F::ZeroOrOneQuest) ? "?" : "\\?"); break;
	case '*': refuse(F::ZeroOrMore, at); put(off(F::ZeroOrMore) ? "\\*" : on(F::ZeroOrMoreAny) ? ".*" : "*"); break;
	case '+': refuse(F::OneOrMore, at); put(on(F::OneOrMore) ? t : "\\+"); break;
	case '{': refuse(F::CountRepetition, at); if (off(F::CountRepetition)) put("\\"); put(t); break;
	case '|': refuse(F::Alternates, at); put(on(F::Alternates) ? t : "\\|"); break;
	case '[': refuse(F::CharClasses, at);
		if (on(F::CharClasses)) { put(t); break; }
		put("\\["); if (t[1] == '^') { spell("^", at + 1); put("a]"); } else put(t + 1); break;
	case ')': put(on(F::Group) ? t : "\\)"); break;
	case '(': {
		refuse(F::Group, at);
		if (t[1] != '?') { put(on(F::Group) ? t : "\\("); break; }
		F kind = t[2] == ':' ? F::NonCapture : t[2] == '<' ? F::Capture : F::NegLookahead;
		bool any = on(F::NonCapture) || on(F::Capture) || on(F::NegLookahead);
		if (on(F::Group)) {
			if (on(kind)) { put(t); break; }
			if (any) { refuse(kind, at); put("(?x"); break; }	// no such kind of group
			if (rej & (uint32_t)kind) { skip = true; break; }
			put("(");
			if (off(F::AnyIsQuest) && on(F::ZeroOrOneQuest)) { put("*"); put(t + 2); break; }	// nothing to repeat: not a kind of group
		} else
			put("\\(");
		spell("?", at + 1); put(t + 2); break;
	}
	case '\\': {
		F kind;
		switch (t[1]) {
		case 'n': case 'b': kind = F::CEscapes; break;
		case '1': kind = F::OctalChar; break;
		case 'x': kind = F::HexChar; break;
		case 'u': kind = F::UnicodeChar; break;
		case 's': case 'd': kind = F::Shorthand; break;
		case 'p': kind = F::PropertyChars; break;
		default: put(t); return;
		}
		refuse(kind, at);
		if (on(kind)) { put(t); break; }
		*out++ = t[1];
		if (t[2] == '{') { spell("{", at + 2); put(t + 3); } else put(t + 2);
		*out = 0;
		break;
	}
	case ' ': if (off(F::ExtendedRE)) put(t); break;
	default: put(t);
	}
}
extern "C" void sv_main()
{
	uint64_t h0 = sv_heap();
	{
		feat = sv_u32("features"); rej = sv_u32("rejected");
		// Alternative meanings are chosen, not rejected, and what is to be done is not there yet
		sv_assume(!(rej & ((uint32_t)F::AnyIsQuest | (uint32_t)F::ZeroOrMoreAny | (uint32_t)F::ExtendedRE)));
		sv_assume(!(feat & ((uint32_t)F::AnyExcludesNL | (uint32_t)F::CaseInsensitive)));
		char re[64]; re[0] = 0;
		int n = sv_choose("tokens", TOKENS + 1), at[TOKENS + 1], tok[TOKENS + 1];
		for (int i = 0; i < n; i++) { tok[i] = sv_choose("token", NTOK); if (i && toks[tok[i]][0] == '?' && !strcmp(toks[tok[i - 1]], "(")) { sv_done(); return; } at[i] = strlen(re); strcat(re, toks[tok[i]]); }
		at[n] = strlen(re);
		char* nfa = 0;
		RxCompiler rx(StrVal(re), (F)feat, (F)rej);
		bool ok = rx.compile(nfa);
		out = pat; *out = 0;
		for (int i = 0; i < n; i++) spell(toks[tok[i]], at[i]);
		if (!skip) {
			char* plain = 0;
			RxCompiler all(StrVal(pat), F::AllFeatures);
			bool fine = all.compile(plain);
			if (refused) {
				sv_check(!ok && rx.errorMessage(), "an expression using a rejected feature is refused");
				int e = rx.errorOffset(), end = 0;
				for (int i = 0; i < n && end <= refused_at; i++) end = at[i + 1];
				sv_check(e >= 0 && e < end, "at or before the place where it is used");
				sv_reach("rejected");
			} else if (fine) {
				sv_check(ok, "an expression is compiled if it is right with the features enabled");
				sv_check(ok && 0 == strcmp(nfa, plain), "features that are off are plain text, others mean what they mean");
				sv_reach("compiled");
			} else {
				sv_check(!ok && rx.errorMessage(), "an expression is refused if it is wrong with the features enabled");
				sv_reach("wrong");
			}
			delete[] plain;
		}
		delete[] nfa;
		sv_out(n);
	}
	sv_check(sv_heap() == h0, "no memory outlives the compilers");
}
