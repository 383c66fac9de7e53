// T02: threads started are registered, run once, and end; join() and joinAny() return only after the thread's run() is over,
// with what it wrote visible; joinAny() gives every thread not joined exactly once and then 0; nothing of an ended thread is
// left behind to be taken for another.
#include <new>
#include "sv.h"
#include <thread.h>
#ifndef MAXT
#define MAXT 2
#endif
#ifndef STEPS
#define STEPS 3
#endif
static int	started;
class W : public Thread {
public:
	uint32_t in, out; int runs; W* child; bool self;
	W(uint32_t i, W* c) : in(i), out(0), runs(0), child(c), self(false) {}
	int run() { runs++; self = Thread::current() == this && Thread::currentId() == id(); if (child) child->resume(); out = in * 3 + 1; return 0; }
};
static W*	w[MAXT + 1];
static int	st[MAXT + 1];	// 0 none, 1 running, 2 joined, 3 deleted
static uint32_t	val[MAXT + 1];
static int	n;
static void over(int i)
{
	sv_check(w[i]->runs == 1, "run() is executed once");
	sv_check(w[i]->out == val[i] * 3 + 1, "what a joined thread wrote is visible");
	sv_check(w[i]->self, "inside a thread, current() is that thread");
	st[i] = 2;
}
static int running() { int k = 0; for (int i = 0; i < n; i++) if (st[i] == 1) k++; return k; }
static void any()
{
	int left = running();
	Thread* t = Thread::joinAny();
	if (!left) { sv_check(t == 0, "joinAny() gives 0 when no thread is left"); sv_reach("none"); return; }
	sv_check(t != 0, "joinAny() gives a thread while some are left");
	int i = 0;
	while (i < n && (st[i] != 1 || (Thread*)w[i] != t)) i++;
	sv_check(i < n && st[i] == 1, "joinAny() gives a thread that was started and not joined before");
	over(i);
	sv_reach("any");
}
// exactly n steps, so that a deleted thread's memory can be used again
static char	mem[sizeof(W) * (MAXT + 1)] __attribute__((aligned(16)));
static int	slotOf[MAXT + 1];
extern "C" void sv_main()
{
	sv_check(Thread::main() != 0 && Thread::main()->id() == Thread::currentId(), "main() is the thread the program started with");
	sv_check(Thread::current() == Thread::main(), "in the main thread, current() is main()");
	n = 0;
	for (int k = 0; k < STEPS; k++) {
		int op = sv_pick("op", 4);
		if (op == 0) {
			if (n >= MAXT) sv_done();
			val[n] = sv_u32("in");
			int s = n;
			for (int i = 0; i < n; i++) if (st[i] == 3 && slotOf[i] >= 0) { s = slotOf[i]; slotOf[i] = -1; break; }
			slotOf[n] = s;
			if (s == n) for (size_t b = 0; b < sizeof(W) / 4; b++) ((volatile int*)(mem + s * sizeof(W)))[b] = 2;	// memory as a thread that ended may have left it
			w[n] = new (mem + s * sizeof(W)) W(val[n], 0);
#ifdef NEST
			if (n + 1 < MAXT && sv_pick("nest", 2)) {
				W* p = w[n];
				slotOf[n + 1] = n + 1;
				val[n + 1] = sv_u32("in");
				w[n + 1] = new (mem + (n + 1) * sizeof(W)) W(val[n + 1], 0);
				p->child = w[n + 1];
				st[n] = st[n + 1] = 1;
				n += 2;
				p->resume();
				continue;
			}
#endif
			st[n] = 1; n++;
			w[n - 1]->resume();
		} else if (op == 1) {
			int i = sv_pick("which", MAXT);
			if (i >= n || st[i] != 1) sv_done();
#ifdef NEST
			for (int j = 0; j < i; j++) if (w[j]->child == w[i] && st[j] == 1) sv_done();	// not known to have started
#endif
			w[i]->join(); over(i); sv_reach("joined");
		} else if (op == 2)
			any();
		else {
			int i = sv_pick("which", MAXT);
			if (i >= n || st[i] != 2) sv_done();
			w[i]->~W(); st[i] = 3;
		}
	}
	while (running()) any();
	sv_check(Thread::joinAny() == 0, "joinAny() gives 0 when every thread was joined");
	for (int i = 0; i < n; i++) if (st[i] == 2) { w[i]->~W(); st[i] = 3; }
	sv_check(Thread::joinAny() == 0, "no ended thread stays registered");
	sv_check(sv_unjoined() == 0, "the system threads of joined threads are released");
	sv_out(n);
	sv_reach("end");
}
