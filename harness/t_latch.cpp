// T01: at most one thread holds a latch; probe() gains it exactly when it is free; holding() tells whether the caller has it;
// a latch left can be had again. NT threads, each any ST steps.
#include <pthread.h>
#include "sv.h"
#include <lockfree.h>
#ifndef NT
#define NT 2
#endif
#ifndef ST
#define ST 2
#endif
static Latch*	la;
static int	inside;
static uint32_t	total, amount[NT][ST];		// only touched while holding the latch: any failure of exclusion is a data race too
static int	ops[NT][ST];
static uint32_t	did[NT];
static void enterCrit(uint32_t a) { sv_check(inside == 0, "only one thread holds the latch"); inside = 1; total ^= a; }
static void leaveCrit() { sv_check(inside == 1, "the latch is still held alone"); inside = 0; }
static void work(int me)
{
	for (int i = 0; i < ST; i++) {
		switch (ops[me][i]) {
		case 0:
			la->enter(); enterCrit(amount[me][i]); did[me] ^= amount[me][i];
			sv_check(la->holding(), "the thread that entered holds the latch");
			leaveCrit(); la->leave();
			break;
		case 1:
			if (la->probe()) { enterCrit(amount[me][i]); did[me] ^= amount[me][i]; sv_check(la->holding(), "the thread whose probe succeeded holds the latch"); sv_check(!la->probe(), "a latch that is held cannot be gained again"); leaveCrit(); la->leave(); sv_reach("probed"); }
			else sv_reach("busy");
			break;
		case 2:
			sv_check(!la->holding(), "a thread that left, or never entered, does not hold the latch");
			break;
		default:
			break;
		}
	}
}
static void* run(void* a) { work((int)(intptr_t)a); return 0; }
#ifdef MAKE
// the first latches of the program are made by two threads at once
static void* makes(void*) { Latch l; l.enter(); sv_check(l.holding(), "a new latch is held once entered"); sv_check(!l.probe(), "and not gained again"); l.leave(); sv_check(!l.holding(), "nor when left"); return 0; }
extern "C" void sv_main()
{
	pthread_t id[2];
	for (int t = 0; t < 2; t++) pthread_create(&id[t], 0, makes, 0);
	for (int t = 0; t < 2; t++) pthread_join(id[t], 0);
	sv_out(1);
	sv_reach("end");
}
#else
extern "C" void sv_main()
{
	Latch latch; la = &latch;
	inside = total = 0;
#ifdef MISUSE
	int k = sv_choose("misuse", 3);
	if (k == 0) { latch.enter(); sv_expect_abort(); latch.enter(); }
	else if (k == 1) { sv_expect_abort(); latch.leave(); }
	else { latch.enter(); latch.leave(); sv_expect_abort(); latch.leave(); }
	sv_check(false, "misuse of a latch stops the program");
#endif
#ifdef HELD
	// while the latch is held, a probe by another comes back without it: the holder waits for that
	static uint32_t seen, a; seen = 0; a = sv_u32("amount");
	struct S {
		static void* probe(void*) { bool got = la->probe(); sv_check(!got, "a latch held by another is not gained"); sv_reach("busy"); return 0; }
		static void* waits(void*) { la->enter(); seen += a; la->leave(); return 0; }
	};
	pthread_t p, q;
	bool two = sv_choose("waiting", 2);
	if (sv_choose("byprobe", 2)) sv_check(latch.probe(), "a free latch is gained by a probe"); else latch.enter();
	if (two) pthread_create(&q, 0, S::waits, 0);
	pthread_create(&p, 0, S::probe, 0);
	pthread_join(p, 0);
	sv_check(latch.holding() && seen == 0, "the latch is still held");
	latch.leave();
	if (two) { pthread_join(q, 0); sv_check(seen == a, "a waiting thread gains the latch in the end"); }
	sv_check(!latch.holding() && latch.probe(), "the latch is free when every thread has left");
	latch.leave();
	sv_out(seen);
	sv_reach("end");
	return;
#endif
	for (int t = 0; t < NT; t++) for (int i = 0; i < ST; i++) { ops[t][i] = sv_u8("op"); sv_assume(ops[t][i] < 4); amount[t][i] = sv_u32("amount"); }
	for (int t = 0; t < NT; t++) did[t] = 0;
	pthread_t id[NT];
	for (int t = 0; t < NT; t++) pthread_create(&id[t], 0, run, (void*)(intptr_t)t);
	for (int t = 0; t < NT; t++) pthread_join(id[t], 0);
	uint32_t n = 0; for (int t = 0; t < NT; t++) n ^= did[t];
	sv_check(total == n && inside == 0, "what each thread added while holding the latch is there");
	sv_check(latch.probe(), "the latch is free when every thread has left");
	latch.leave();
	sv_out(total);
	sv_reach("end");
}
#endif
