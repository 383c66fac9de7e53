// X03 (results): a result is a value: however it has been copied, changing its captures or counters changes no other result
#include "sv.h"
#include <strregex.h>
#ifndef SV_K
#define SV_K 3
#endif
enum { NV = 3, CAPS = 3, CTRS = 2 };
struct M { bool live; uint32_t cap[2 * CAPS]; struct { uint32_t off, n; } ctr[CTRS]; int nc; };
static M m[NV];
static void none(M& x, bool live) { x.live = live; for (int i = 0; i < 2 * CAPS; i++) x.cap[i] = 0; x.cap[1] = (uint32_t)-1; x.nc = 0; }
extern "C" void sv_main()
{
	uint64_t h0 = sv_heap();
	{
		RxResult first(CTRS, CAPS), v[NV] = { first, first, RxResult() };
		none(m[0], true); none(m[1], true); none(m[2], false);
		if (sv_choose("alone", 2)) { first = RxResult(); v[1] = RxResult(CTRS, CAPS); }
		for (int s = 0; s < SV_K; s++) {
			int i = sv_choose("i", NV), j = sv_choose("j", NV);
			uint32_t x = sv_u32("x"); sv_assume(x < 1000);
			switch (sv_choose("op", 6)) {
			case 0: sv_note("copy"); v[i] = v[j]; m[i] = m[j]; break;
			case 1: { if (j || !m[i].live) { sv_done(); return; } sv_note("captureSet"); int c = sv_range("c", 0, 2 * CAPS - 1); v[i].captureSet(c, x); m[i].cap[c] = x; break; }
			case 2: { if (j || !m[i].live || m[i].nc == CTRS) { sv_done(); return; } sv_note("counterPushZero"); v[i].counterPushZero(x); m[i].ctr[m[i].nc].off = x; m[i].ctr[m[i].nc++].n = 0; break; }
			case 3: { if (j || !m[i].nc) { sv_done(); return; } sv_note("counterIncr"); sv_check(v[i].counterIncr(x) == ++m[i].ctr[m[i].nc - 1].n, "counterIncr() returns the count"); m[i].ctr[m[i].nc - 1].off = x; break; }
			case 4: { if (j || !m[i].nc) { sv_done(); return; } sv_note("counterPop"); v[i].counterPop(); m[i].nc--; break; }
			case 5: { if (j) { sv_done(); return; } sv_note("clear"); v[i].clear(); none(m[i], false); break; }
			}
			for (int k = 0; k < NV; k++) {
				sv_check(v[k].succeeded() == (m[k].cap[1] != (uint32_t)-1) && v[k].captureMax() == (m[k].live ? CAPS : 1), "the kind of result");
				bool eq = v[k].capture(0) == m[k].cap[0] && v[k].offset() == m[k].cap[0] && v[k].capture(1) == (v[k].succeeded() ? m[k].cap[1] : 0);
				for (int c = 2; c < 2 * CAPS; c++) eq &= v[k].capture(c) == m[k].cap[c];
				sv_check(eq, "each result has its own captures");
				eq = v[k].counterNum() == m[k].nc && v[k].hasCounter() == (m[k].nc > 0);
				for (int c = 0; c < m[k].nc && eq; c++) eq &= (uint32_t)v[k].counterGet(c) == m[k].ctr[m[k].nc - 1 - c].n && v[k].counterOffset(c) == m[k].ctr[m[k].nc - 1 - c].off;
				sv_check(eq, "each result has its own counters");
				if (m[k].nc) { RxResult::Counter t = v[k].counterTop(); sv_check(t.count == m[k].ctr[m[k].nc - 1].n && t.offset == m[k].ctr[m[k].nc - 1].off, "counterTop()"); }
			}
		}
		sv_reach("end");
	}
	sv_check(sv_heap() == h0, "no memory outlives the results");
	sv_out(m[0].nc * 3 + m[1].nc);
}
