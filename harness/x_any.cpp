// X02: any expression text at all either compiles, to a program that can be run on any text, or is refused with a message
#include "sv.h"
#include <strregex.h>
#ifndef LEAD
#define LEAD ""
#endif
#ifndef TAIL
#define TAIL ""
#endif
#ifndef MODES
#define MODES 1
#endif
extern "C" void sv_main()
{
	char pat[64], text[8]; int np = 0, tn = TLEN;
	for (const char* q = LEAD; *q; q++) pat[np++] = *q;
	for (int i = 0; i < PLEN; i++) {
		unsigned char c = sv_u8("p");
		sv_assume(c != 0 && (!ASCII || c < 0x80));
		pat[np++] = c;
	}
	for (const char* q = TAIL; *q; q++) pat[np++] = *q;
	pat[np] = 0;
	for (int i = 0; i < tn; i++) { unsigned char c = sv_u8("t"); sv_assume(c != 0 && (!ASCII || c < 0x80)); text[i] = c; }
	text[tn] = 0;
	sv_note(pat); sv_note(text);
	uint64_t before = sv_heap();
	{
		StrVal re(pat), target(text);
		int features = (int)RxFeature::AllFeatures, reject = 0;
		int mode = sv_choose("mode", MODES);
		if (mode == 1) features |= (int)RxFeature::ExtendedRE;
		if (mode == 2) features = 0;
		if (mode >= 3) reject = 1 << (mode - 3);
		RxCompiler rx(re, (RxFeature)features, (RxFeature)reject);
		char* nfa = (char*)1;
		bool ok = rx.compile(nfa);
		if (ok) {
			sv_reach("compiled");
			sv_check(nfa != 0 && !rx.errorMessage(), "no error is reported for an expression that compiles");
			RxProgram prog(nfa, true);
			int off = sv_choose("offset", target.length() + 2);
			RxResult r = sv_choose("search", 2) ? prog.matchAfter(target, off) : prog.matchAt(target, off);
			if (r.succeeded()) {
				sv_reach("matched");
				sv_check(r.offset() >= (StrValIndex)off && r.offset() + r.length() <= target.length(), "the match lies within the text");
				for (int i = 1; i < r.captureMax(); i++) {
					StrValIndex a = r.capture(2 * i), b = r.capture(2 * i + 1);
					sv_check(a <= b && b <= target.length(), "a capture lies within the text");
				}
			}
			sv_out(r.succeeded() ? r.length() : 99);
		} else {
			sv_reach("refused");
			sv_check(nfa == 0, "no program when it is refused");
			sv_check(rx.errorMessage() != 0, "an expression that is refused has a message");
			sv_check(rx.errorOffset() >= 0 && (StrValIndex)rx.errorOffset() <= re.length(), "the error is somewhere in the expression");
			sv_out(rx.errorOffset());
		}
		// compiling again gives the same answer
		char* nfa2 = (char*)1;
		sv_check(rx.compile(nfa2) == ok && !nfa2 == !ok, "the same compiler can be used again");
		delete[] nfa2;
	}
	sv_check(sv_heap() == before, "no memory is leaked");
}
