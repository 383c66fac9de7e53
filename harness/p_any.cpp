// P03: whatever bytes the pattern holds, matching ends, reads neither past the pattern nor past the text, and reports a
// match that lies within the text or a failure that leaves the source alone.
#include "sv.h"
#include <pegexp.h>
extern "C" void sv_main()
{
	char* pat = new char[PLEN + 1]; char* text = new char[TLEN + 1];	// exactly as long as they are
	int np = 0, nt = 0;
	static const char lead[] = LEAD;
	for (; lead[np]; np++) pat[np] = lead[np];
	for (; np < PLEN; np++) { pat[np] = sv_u8("p"); sv_assume(pat[np] != 0); }
	pat[np] = 0;
	for (; nt < TLEN; nt++) { text[nt] = sv_u8("t"); sv_assume(text[nt] != 0); if (ASCII) sv_assume(text[nt] > 0); }
	text[nt] = 0;
	PegexpDefaultSource src(text);
	Pegexp<> peg(pat);
	PegexpDefaultContext<> c;
	PegexpDefaultMatch<> m;
	bool search = sv_choose("search", 2);
	if (search) m = peg.match(src, &c); else m = peg.match_here(src, &c);
	sv_check(src.current_byte() <= nt, "the source stays within the text");
	sv_check(c.capture_disabled == 0 && c.repetition_nesting == 0, "nesting counts are balanced");
	if (m.is_failure()) { if (!search) sv_check(src.current_byte() == 0, "a failure leaves the source alone"); sv_reach("failed"); }
	else {
		sv_check(m.from.source.current_byte() <= m.to.source.current_byte() && m.to.source.current_byte() <= nt, "the match lies within the text");
		sv_check(m.to.pattern >= pat && m.to.pattern <= pat + np, "the pattern position lies within the pattern");
		sv_reach("matched");
	}
	sv_out(m.is_failure() ? 99 : m.to.source.current_byte());
	delete[] pat; delete[] text;
}
