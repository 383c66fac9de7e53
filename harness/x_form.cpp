// X04: every program the compiler produces is well formed, whatever text it may later be run on
#include "sv.h"
#include <cstdio>
#include <rxmatch.cpp>
#ifndef LEAD
#define LEAD ""
#endif
#ifndef TAIL
#define TAIL ""
#endif
#ifndef ASCII
#define ASCII 1
#endif
#ifndef PLEN
#define PLEN 0
#endif
#ifndef TOKS
#define TOKS "a"
#endif
#ifndef NTOK
#define NTOK 0
#endif
static char pat[8000]; static int np;
static void P(const char* s) { while (*s) pat[np++] = *s++; }
enum { MAXN = 9000 };
static signed char depth[MAXN];		// counters in use on reaching each station
static short todo[MAXN]; static int nt;
static bool accepts, captures, counters;
static void go(long s, int d)
{
	sv_check(s > 0 && s < MAXN, "every branch leads into the program");
	if (depth[s] >= 0) { sv_check(depth[s] == d, "the counters in use at an instruction do not depend on how it was reached"); return; }
	depth[s] = d;
	todo[nt++] = s;
}
static void walk(const char* nfa, const RxProgram& prog, long from)
{
	go(from, 0);
	while (nt) {
		long s = todo[--nt]; int d = depth[s];
		RxDecoded i, c;
		prog.decode(s, i);
		const char* p = nfa + s;
		sv_check(RxCompiler::dumpInstruction(nfa, p), "it is an instruction");
		sv_check(p == nfa + i.next, "the dump shows the instructions that run");
		switch (i.op) {
		case RxOp::RxoAccept: sv_check(d == 0, "no counter is left over at the end"); accepts = true; break;
		case RxOp::RxoJump: go(i.alternate, d); break;
		case RxOp::RxoSplit: go(i.alternate, d); go(i.next, d); break;
		case RxOp::RxoNegLookahead: go(i.next, 0); go(i.alternate, d); break;
		case RxOp::RxoZero: {
			long n = i.next;
			do { prog.decode(n, c); sv_check(c.op != RxOp::RxoAccept || n != prog.startStation(), "a counter is counted"); n = c.next; } while (c.op != RxOp::RxoCount || (long)c.alternate != (long)i.next);
			counters = true;
			sv_check(d + 1 <= prog.maxCounter(), "no more counters are in use than the program declares");
			if (c.repetition.min == 0) go(c.next, d);
			go(i.next, d + 1); break; }
		case RxOp::RxoCount:
			sv_check(d > 0, "a counter counted was started");
			sv_check(i.repetition.max == 0 || i.repetition.max >= i.repetition.min, "the range of a count is not empty");
			go(i.alternate, d); go(i.next, d - 1); break;
		case RxOp::RxoCaptureStart: case RxOp::RxoCaptureEnd:
			sv_check(i.capture_number >= 0 && i.capture_number < prog.maxCapture(), "every capture is one the program declares");
			if (i.capture_number) { captures = true; sv_check(prog.group_name(i.capture_number).length() > 0, "every group captured has a name"); }
			go(i.next, d); break;
		case RxOp::RxoChar: case RxOp::RxoCharClass: case RxOp::RxoNegCharClass: case RxOp::RxoCharProperty: case RxOp::RxoAny: case RxOp::RxoBOL: case RxOp::RxoEOL:
			go(i.next, d); break;
		default: sv_check(false, "only instructions are reached"); return;
		}
	}
}
extern "C" void sv_main()
{
	printf("\n");		// the output buffer is not ours
	uint64_t before = sv_heap();
	np = nt = 0; accepts = captures = counters = false;
	for (int i = 0; i < MAXN; i++) depth[i] = -1;
	P(LEAD);
	for (int i = 0; i < PLEN; i++) { unsigned char c = sv_u8("p"); sv_assume(c != 0 && (!ASCII || c < 0x80)); pat[np++] = c; }
	static const char* toks[] = { TOKS };
	for (int i = 0; i < NTOK; i++) P(toks[sv_choose("tok", sizeof(toks) / sizeof(toks[0]))]);
#ifdef FAR
	static const int pads[] = { PADS };
	enum { NK = sizeof(toks) / sizeof(toks[0]) };
	P("(");
	for (int i = 0; i < FAR; i++) P(toks[sv_choose("t1", NK)]);
	for (int i = pads[sv_choose("pad", sizeof(pads) / sizeof(pads[0]))]; i > 0; i--) P("c");
	P(toks[sv_choose("t2", NK)]); P(")"); P(toks[sv_choose("t3", NK)]);
#endif
#ifdef MANY		// many long classes, properties or names
	static const int pads[] = { PADS };
	int form = sv_choose("form", 3), len = pads[sv_choose("pad", sizeof(pads) / sizeof(pads[0]))], many = 1 + sv_choose("many", MANY) * 8;
	for (int k = 0; k < many; k++) {
		P(form == 0 ? "[" : form == 1 ? "[^" : "(?<");
		for (int i = form == 2 ? 0 : len / 2 + len % 2; i > 0; i--) P("c");
		if (form == 2) { char c[2] = { (char)('a' + k), 0 }; for (int i = 1; i < len; i++) P("n"); P(c); P(">"); }
		P(form == 2 ? ")" : "]");
	}
#endif
	P(TAIL);
	pat[np] = 0;
	sv_note(pat);
	{
		RxCompiler rx((StrVal(pat)));
		char* nfa = 0;
		if (rx.compile(nfa)) {
			RxProgram prog(nfa, true);
			const char* p = nfa;
			sv_check(RxCompiler::dumpInstruction(nfa, p) && p == nfa + prog.startStation(), "the dump of the header ends where the program starts");
			walk(nfa, prog, prog.startStation());
			sv_check(accepts, "the program can come to its end");
			walk(nfa, prog, prog.searchStation());
			sv_reach("compiled");
			if (captures) sv_reach("captures");
			if (counters) sv_reach("counters");
			sv_out(prog.startStation());
		} else { sv_reach("refused"); sv_out(-1); }
	}
	sv_check(sv_heap() == before, "no memory is leaked");
}
