// X05: a compiled expression may be matched by different threads at once, on texts that share contents: each gets the result
// it would get alone, and copies of a result may be used and changed by different threads.
#include <pthread.h>
#include "sv.h"
#include <strregex.h>
#ifndef NT
#define NT 2
#endif
#ifndef PATTERNS
#define PATTERNS "(?<x>a)*b", "^a?.?$", "(?!b)\\s|[d]", "a{1,2}"
#endif
static const char* const pats[] = { PATTERNS };
enum { NP = sizeof(pats) / sizeof(pats[0]) };
struct Out { bool ok; uint32_t off, len, cap[4]; int nc; };
static RxProgram*	prog;
static StrVal*		text[NT];
static RxResult*	res[NT];
static int		op[NT], from[NT];
static Out		want[NT];
static int		which, named;
static Out look(const RxResult& r)
{
	Out o;
	o.ok = r.succeeded(); o.off = r.offset(); o.len = r.length(); o.nc = r.captureMax();
	for (int i = 0; i < 4; i++) o.cap[i] = i < 2 * o.nc ? r.capture(i) : 0;
	return o;
}
static Out act(const RxProgram& p, const StrVal& t, int o, int f) { return look(o ? p.matchAfter(t, f) : p.matchAt(t, f)); }
static void same(const Out& a, const Out& b, const char* what)
{
	sv_check(a.ok == b.ok && a.off == b.off && a.len == b.len && a.nc == b.nc && a.cap[0] == b.cap[0] && a.cap[1] == b.cap[1] && a.cap[2] == b.cap[2] && a.cap[3] == b.cap[3], what);
}
static void* run(void* a)
{
	int me = (int)(intptr_t)a;
#ifdef RESULTS
	RxResult mine(*res[me]);
	delete res[me];
	switch (op[me]) {
	case 0: same(look(mine), want[me], "a copy of a result is as the result"); break;
	case 1: if (mine.captureMax() < 2) break; mine.captureSet(2, 7 + me); want[me].cap[2] = 7 + me; break;
	case 2: { if (mine.captureMax() < 2) break; RxResult other(mine); other.captureSet(3, 9 + me); sv_check(other.capture(3) == (uint32_t)9 + me, "a changed copy has the change"); break; }
	case 3: mine.counterPushZero(me); mine.counterIncr(me + 1); sv_check(mine.counterNum() == 1 && mine.counterGet() == 1 && mine.counterOffset() == (uint32_t)me + 1, "a result has its own counters"); break;
	}
	same(look(mine), want[me], "a result stays as it was, whatever others do to copies");
#else
	same(act(*prog, *text[me], op[me], from[me]), want[me], "each thread gets the result it would get alone");
	StrVal name = prog->group_name(1);
	sv_check((int)name.length() == named && (!named || name[0] == pats[which][3]), "group names");
	delete text[me];
#endif
	return 0;
}
static RxProgram* make(const char* re)
{
	char* nfa = 0;
	RxCompiler c((StrVal(re)));
	bool ok = c.compile(nfa);
	sv_check(ok, "the expression compiles");
	return new RxProgram(nfa, true);
}
static void body()
{
	int k = sv_choose("expression", NP);
	which = k; named = pats[k][0] == '(' && pats[k][1] == '?' && pats[k][2] == '<';
	prog = make(pats[k]);
	RxProgram* alone = make(pats[k]);
	char b[4]; int n = TLEN;
	for (int i = 0; i < n; i++) { b[i] = sv_u8("c"); sv_assume(b[i] > 0 && (uint8_t)b[i] < 0x80); }
	b[n] = 0;
	StrVal plain(b);
#ifdef RESULTS
	RxResult r = prog->matchAfter(plain, 0);
	if (!r.succeeded()) r = RxResult(1, 2);
	for (int i = 0; i < NT; i++) { res[i] = new RxResult(r); op[i] = sv_pick("op", 4); want[i] = look(r); }
	bool keep = sv_pick("keep", 2);
	Out w = look(r);
	if (!keep) r = RxResult();
#else
	StrVal whole;
	for (int i = 0; i < n; i++) whole += (UCS4)b[i];		// nothing has looked at it since
	for (int i = 0; i < NT; i++) { op[i] = sv_pick("op", 2); from[i] = i ? sv_pick("from", 2) : 0; want[i] = act(*alone, plain, op[i], from[i]); text[i] = new StrVal(whole); }
#endif
	pthread_t id[NT];
	for (int i = 0; i < NT; i++) pthread_create(&id[i], 0, run, (void*)(intptr_t)i);
	for (int i = 0; i < NT; i++) pthread_join(id[i], 0);
#ifdef RESULTS
	if (keep) same(look(r), w, "the result copied stays as it was");
#else
	for (int i = 0; i < NT; i++) if (want[i].ok) sv_reach("matched"); else sv_reach("failed");
#endif
	delete prog; delete alone;
	sv_out(k);
}
extern "C" void sv_main()
{
	uint64_t h0 = sv_heap();
	body();
	sv_check(sv_heap() == h0, "no memory outlives the matches");
	sv_reach("end");
}
