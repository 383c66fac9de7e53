// T03: a thread that waits on a condition releases the latch, sleeps until the condition is signalled, and has the latch again
// when wait() returns; signal() wakes a waiter if there is one, broadcast() all of them; a timed wait gives up no earlier
// than its delay from now, and says so.
#include <pthread.h>
#include "sv.h"
#include <lockfree.h>
#include <thread.h>
#include <condition.h>
#ifndef NW
#define NW 2
#endif
static Latch*		la;
static Condition*	co;
static uint32_t		item[NW], got[NW], given;
static int		avail, taken, mode, waiting;
static uint32_t		total;
static void* taker(void* a)
{
	int me = (int)(intptr_t)a;
	la->enter();
	while (avail == 0) {
		waiting++;
		co->wait(la);
		waiting--;
		sv_check(la->holding(), "the latch is held when wait() returns");
		sv_reach("waited");
	}
	if (mode != 1) avail--;
	got[me] = item[taken++];
	total ^= got[me];
	la->leave();
	return 0;
}
extern "C" void sv_main()
{
	Latch latch; Condition cond; la = &latch; co = &cond;
	avail = taken = waiting = 0; total = 0;
	sv_check(cond.ok(), "a new condition can be used");
#ifdef TIMED
	uint64_t s = sv_u64("now_s"), ns = sv_u64("now_ns");
#ifdef DELAYS
	static const uint64_t delays[] = { DELAYS };
	uint64_t d = delays[sv_pick("delay", sizeof delays / sizeof *delays)];
#else
	uint64_t d = sv_u32("delay");
#endif
	sv_assume(s >= 1 && s < 0x100000000ULL && ns < 1000000000ULL);
	sv_set_clock(s, ns);
	long delay = (long)d;
	pthread_t t;
	item[0] = sv_u32("item");
	mode = sv_pick("taker", 2);	// whether another thread signals
	struct S { static void* signaller(void*) { la->enter(); avail = 1; co->signal(); la->leave(); return 0; } };
	if (mode) pthread_create(&t, 0, S::signaller, 0);
	latch.enter();
	cond.wait(delay, la);
	sv_check(latch.holding(), "the latch is held when wait() returns");
	sv_check(delay >= 0 && (uint64_t)delay <= d, "the time left is no more than the delay");
	sv_check(avail || delay == 0, "a wait that ran out has no time left");
	uint64_t ds = sv_deadline(0), dn = sv_deadline(1);
	sv_check(dn < 1000000000ULL, "the deadline is well formed");
	uint64_t wn = ns + d % 1000 * 1000000, ws = s + d / 1000 + (wn >= 1000000000ULL);
	if (wn >= 1000000000ULL) wn -= 1000000000ULL;
	sv_check(ds == ws && dn == wn, "a timed wait ends its delay from now");
	if (delay) sv_reach("signalled"); else sv_reach("timed out");
	latch.leave();
	if (mode) pthread_join(t, 0);
	sv_reach("end");
#else
	pthread_t id[NW];
	for (int i = 0; i < NW; i++) { item[i] = sv_u32("item"); got[i] = 0; }
	mode = sv_pick("mode", 3);	// 0: one signal for each item; 1: one broadcast; 2: all items, then one broadcast
	bool inside = sv_pick("inside", 2);	// signalling with the latch held, or just after
	for (int i = 0; i < NW; i++) pthread_create(&id[i], 0, taker, (void*)(intptr_t)i);
	if (mode == 0)
		for (int i = 0; i < NW; i++) {
			la->enter(); avail++;
			if (inside) co->signal();
			la->leave();
			if (!inside) co->signal();
		}
	else {
		la->enter();
		avail = mode == 1 ? 1 : NW;
		if (inside) co->broadcast();
		la->leave();
		if (!inside) co->broadcast();
	}
	for (int i = 0; i < NW; i++) pthread_join(id[i], 0);
	sv_check(taken == NW && waiting == 0, "every waiter was woken");
	uint32_t sum = 0; for (int i = 0; i < NW; i++) sum ^= item[i];
	sv_check(total == sum, "each item is taken once");
	sv_out(taken);
	sv_reach("end");
#endif
}
