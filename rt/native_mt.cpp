// Native side for concurrent units: the same scheduling decisions, made by coroutines on one system thread, under the code
// of /repo compiled with -fsanitize=thread. Replaces the pthread operations the code calls, checks every instrumented access
// for data races (vector clocks) and for memory already released.
#define SV_MT
#include <ucontext.h>
#include <pthread.h>
#include <errno.h>
#include <time.h>
#include <sys/time.h>
#include <map>
#include <unordered_map>
#include <new>
#include <link.h>
#include "native.cpp"
static void fail(const char* m) { fprintf(out, "SV-CHECK-FAILED: %s\n", m); fflush(out); _exit(77); }

// ---- memory: everything released stays recognisable
struct Blk { char* p; size_t n; bool dead; };
static Blk blks[1 << 16]; static int nblk = 0; static uint64_t live = 0; static int inRt = 0;
static void* rtAlloc(size_t n) {
	void* p = malloc(n ? n : 1);
	if (inRt) return p;
	if (nblk >= 1 << 16) { _exit(79); }
	memset(p, 0xbe, n);
	blks[nblk++] = Blk{(char*)p, n, false}; live += n;
	return p;
}
static void freedCheck(const char* a) {
	for (int i = 0; i < nblk; i++) if (blks[i].dead && a >= blks[i].p && a < blks[i].p + blks[i].n) fail("access to memory already released");
}
void* operator new(size_t n) { return rtAlloc(n); }
void* operator new[](size_t n) { return rtAlloc(n); }
uint64_t sv_heap_mt() { return live; }

// ---- threads
enum { NT = 8, STK = 256 << 10 };
enum St { Run, Mtx, Cnd, Jn, Done };
struct Th { ucontext_t c; void* (*fn)(void*); void* arg; void* ret; St st; uintptr_t on; bool signalled, timed, timedOut, schedOk, joined, detached; int tid; uint32_t vc[NT], facq[NT], frel[NT]; bool fence; };
struct Mx { int owner, count, type; uint32_t vc[NT]; Mx() : owner(-1), count(0), type(0) { memset(vc, 0, sizeof vc); } };
static Th th[NT]; static int nth = 1, cur = 0; static bool started = false;
struct Vc { uint32_t v[NT]; };
struct Sh { int wt; uint32_t wc; uint32_t rd[NT]; };
static std::map<uintptr_t, Mx>* mxs; static std::map<uintptr_t, Vc>* sync_; static std::unordered_map<uintptr_t, Sh>* sh;
static int tlsFind(struct dl_phdr_info* i, size_t, void*);
static void init() {
	if (started) return;
	started = true; inRt++;
	mxs = new std::map<uintptr_t, Mx>; sync_ = new std::map<uintptr_t, Vc>; sh = new std::unordered_map<uintptr_t, Sh>;
	inRt--;
	th[0].st = Run; th[0].vc[0] = 1;
	inRt++; dl_iterate_phdr(tlsFind, 0); inRt--;
}
struct Rt { Rt() { init(); inRt++; } ~Rt() { inRt--; } };
static void vcJoin(uint32_t* a, const uint32_t* b) { for (int i = 0; i < NT; i++) if (a[i] < b[i]) a[i] = b[i]; }
static void vcTick() { th[cur].vc[cur]++; }
static Mx& mx(const void* m) { Rt r; return (*mxs)[(uintptr_t)m]; }
static bool enabled(int i) {
	switch (th[i].st) {
	case Run: return true;
	case Mtx: return mx((void*)th[i].on).owner < 0;
	case Cnd: return th[i].signalled;
	case Jn: return th[th[i].on].st == Done;
	default: return false;
	}
}
// thread_local objects of the program: one block of memory, exchanged when another thread goes on
static char* tlsAt; static size_t tlsN; static char *tlsOf[NT], *tlsNew;
static int tlsFind(struct dl_phdr_info* i, size_t, void*) {
	for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data) {
		tlsAt = (char*)i->dlpi_tls_data; tlsN = i->dlpi_phdr[k].p_memsz;
		tlsNew = (char*)calloc(1, tlsN);
		memcpy(tlsNew, (char*)i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, i->dlpi_phdr[k].p_filesz);
	}
	return 1;	// the program itself comes first
}
static void tlsMake(int t) { Rt r; if (tlsN) { if (!tlsOf[t]) tlsOf[t] = (char*)malloc(tlsN); memcpy(tlsOf[t], tlsNew, tlsN); } }
static void tlsSwitch(int from, int to) { Rt r; if (tlsN && tlsOf[to]) { if (!tlsOf[from]) tlsOf[from] = (char*)malloc(tlsN); memcpy(tlsOf[from], tlsAt, tlsN); memcpy(tlsAt, tlsOf[to], tlsN); } }
static void switchTo(int t) {
	int me = cur;
	th[t].st = Run; th[t].schedOk = true;
	if (t == me) return;
	cur = t;
	tlsSwitch(me, t);
	swapcontext(&th[me].c, &th[t].c);
}
// beyond the recorded schedule of a run that does not end: every thread in turn, to see that none gets further
static int fairSched() {
	static int steps = 0;
	if (++steps > 300000) fail("no termination: the threads go on forever under a fair schedule");
	for (int k = 1; k <= nth; k++) { int i = (cur + k) % nth; if (enabled(i)) return i; }
	fail("no thread can run: deadlock or lost wakeup");
	return 0;
}
static int nextSched() { if (sv_pos >= sv_inputs.size() && getenv("SV_FAIR")) return fairSched(); unsigned long long v = next("sched", 8); if (v >= (unsigned)nth) { fprintf(out, "SV-MISMATCH: schedule\n"); fflush(out); _exit(79); } return (int)v; }
static void switchAway() {
	bool any = false;
	for (int i = 0; i < nth; i++) if (enabled(i)) any = true;
	if (!any) fail("no thread can run: deadlock or lost wakeup");
	int v = nextSched();
	if (!enabled(v)) { fprintf(out, "SV-MISMATCH: thread %d cannot run\n", v); fflush(out); _exit(79); }
	switchTo(v);
}
static void visible() {
	init();
	while (!th[cur].schedOk) {
		if (nth < 2) return;
		bool others = false;
		for (int i = 0; i < nth; i++) if (i != cur && th[i].st != Done) others = true;
		if (!others) { th[cur].schedOk = true; return; }
		int v = nextSched();
		if (v == cur) { th[cur].schedOk = true; return; }
		if (!enabled(v)) { fprintf(out, "SV-MISMATCH: thread %d cannot run\n", v); fflush(out); _exit(79); }
		switchTo(v);
	}
}
static void done() { th[cur].schedOk = false; }
static void threadEnd() { th[cur].st = Done; th[cur].schedOk = false; switchAway(); abort(); }
static void entry() { th[cur].ret = th[cur].fn(th[cur].arg); threadEnd(); }
static void hb(const void* a, bool acq, bool rel, bool replace = false) {
	Rt r;
	uintptr_t k = (uintptr_t)a;
	if (replace) sync_->erase(k);
	if (acq && nth >= 2) { auto it = sync_->find(k); if (it != sync_->end()) vcJoin(th[cur].vc, it->second.v); }
	if (rel) { if (!sync_->count(k)) memset(&(*sync_)[k], 0, sizeof(Vc)); vcJoin((*sync_)[k].v, th[cur].vc); if (nth >= 2) vcTick(); }
}
static void loose(const void* a, bool ld, bool st) {	// what fences order
	Rt r;
	uintptr_t k = (uintptr_t)a;
	if (ld && nth >= 2) { auto it = sync_->find(k); if (it != sync_->end()) vcJoin(th[cur].facq, it->second.v); }
	if (st && th[cur].fence) { if (!sync_->count(k)) memset(&(*sync_)[k], 0, sizeof(Vc)); vcJoin((*sync_)[k].v, th[cur].frel); }
}
static bool before(int t, uint32_t c) { return t == cur || th[cur].vc[t] >= c; }
static Sh& shadow(uintptr_t a) { Rt r; auto it = sh->find(a); if (it == sh->end()) { Sh s; s.wt = -1; s.wc = 0; memset(s.rd, 0, sizeof s.rd); it = sh->insert({a, s}).first; } return it->second; }
static void access(const void* p, size_t n, bool w) {
	if (inRt) return;
	init();
	if (n) freedCheck((const char*)p);
	if (nth < 2 || ((char*)p >= tlsAt && (char*)p < tlsAt + tlsN)) return;
	for (size_t i = 0; i < n; i++) {
		Sh& h = shadow((uintptr_t)p + i);
		if (h.wt >= 0 && !before(h.wt, h.wc)) fail("data race: unsynchronised access to memory another thread wrote");
		if (w) {
			for (int t = 0; t < NT; t++) { if (h.rd[t] && !before(t, h.rd[t])) fail("data race: unsynchronised write to memory another thread read"); h.rd[t] = 0; }
			h.wt = cur; h.wc = th[cur].vc[cur];
		} else h.rd[cur] = th[cur].vc[cur];
	}
}
static void release(void* p) {
	if (!p) return;
	if (inRt) { free(p); return; }
	for (int i = nblk; i-- > 0; ) if (blks[i].p == p) {
		if (blks[i].dead) fail("double free");
		access(p, blks[i].n, true);
		blks[i].dead = true; live -= blks[i].n;
		return;
	}
	free(p);
}
void operator delete(void* p) noexcept { release(p); }
void operator delete[](void* p) noexcept { release(p); }
void operator delete(void* p, size_t) noexcept { release(p); }
void operator delete[](void* p, size_t) noexcept { release(p); }

static void at(const volatile void* q, size_t n);
static void useMutex(const void* q);
static void at_(const volatile void* q, size_t n);
static unsigned long long nowS, nowN, dlS, dlN;
extern "C" {
uint64_t sv_heap() { return live; }
void sv_set_clock(uint64_t s, uint64_t n) { nowS = s; nowN = n; }
int sv_unjoined() { int n = 0; for (int i = 1; i < nth; i++) if (!th[i].joined && !th[i].detached) n++; return n; }
uint64_t sv_deadline(int which) { return which ? dlN : dlS; }
int clock_gettime(clockid_t, struct timespec* t) throw() { t->tv_sec = nowS; t->tv_nsec = nowN; return 0; }
int gettimeofday(struct timeval* t, void*) throw() { t->tv_sec = nowS; t->tv_usec = nowN / 1000; return 0; }
time_t time(time_t* t) throw() { if (t) *t = nowS; return nowS; }
int nanosleep(const struct timespec*, struct timespec*) { return 0; }
int usleep(unsigned) { return 0; }
int sched_yield() throw() {
	init();
	bool any = false;
	for (int i = 0; i < nth; i++) if (i != cur && enabled(i)) any = true;
	if (!any) return 0;
	int v = nextSched();
	if (v == cur || !enabled(v)) { fprintf(out, "SV-MISMATCH: thread %d cannot run\n", v); fflush(out); _exit(79); }
	th[cur].schedOk = false;
	switchTo(v);
	done();
	return 0;
}
int __cxa_guard_acquire(char* g) {
	if (inRt) { if (*g) return 0; return 1; }
	visible();
	for (;;) {
		if (*g) { hb(g, true, false); done(); return 0; }
		if (mx(g).owner < 0 || mx(g).owner == cur) { mx(g).owner = cur; done(); return 1; }
		th[cur].st = Mtx; th[cur].on = (uintptr_t)g; th[cur].schedOk = false; switchAway();
	}
}
void __cxa_guard_release(char* g) {
	if (inRt) { *g = 1; return; }
	visible();
	*g = 1;
	{ Rt r; mxs->erase((uintptr_t)g); }
	hb(g, false, true);
	done();
}
pthread_t pthread_self() throw() { return th[cur].tid + 1; }
static int byTid(uint64_t t) { for (int i = nth; i-- > 0; ) if (th[i].tid == (int)t - 1) return i; return -1; }
static int freeTid() {
	int n = 0;
	for (int i = 0; i < nth; i++) if (th[i].tid >= n) n = th[i].tid + 1;
	for (int k = 1; k < n; k++) { int i = byTid(k + 1); if (i >= 0 && th[i].joined) return k; }
	return n;
}
int pthread_create(pthread_t* tp, const pthread_attr_t*, void* (*fn)(void*), void* a) throw() {
	visible();
	if (nth >= NT) _exit(79);
	int id = freeTid(), t = nth++;
	tlsMake(t);
	*tp = id + 1;
	th[t].tid = id;
	th[t].fn = fn; th[t].arg = a; th[t].st = Run;
	memcpy(th[t].vc, th[cur].vc, sizeof th[t].vc);
	th[t].vc[t] = 1;
	vcTick();
	getcontext(&th[t].c);
	th[t].c.uc_stack.ss_sp = malloc(STK); th[t].c.uc_stack.ss_size = STK; th[t].c.uc_link = 0;
	makecontext(&th[t].c, entry, 0);
	done();
	return 0;
}
int pthread_join(pthread_t t, void** rp) {
	visible();
	int i = byTid(t);
	if (i < 0 || th[i].joined || th[i].detached) { done(); return ESRCH; }
	if (i == cur) { done(); return EDEADLK; }
	while (th[i].st != Done) { th[cur].st = Jn; th[cur].on = i; th[cur].schedOk = false; switchAway(); }
	vcJoin(th[cur].vc, th[i].vc);
	th[i].joined = true;
	if (rp) *rp = th[i].ret;
	done();
	return 0;
}
int pthread_detach(pthread_t t) throw() { int i = byTid(t); if (i >= 0) th[i].detached = true; return 0; }
void pthread_exit(void* r) { th[cur].ret = r; threadEnd(); abort(); }
int pthread_mutexattr_init(pthread_mutexattr_t* a) throw() { access(a, 4, true); *(int*)a = 0; return 0; }
int pthread_mutexattr_settype(pthread_mutexattr_t* a, int t) throw() { access(a, 4, true); *(int*)a = t; return 0; }
int pthread_mutexattr_destroy(pthread_mutexattr_t*) throw() { return 0; }
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) throw() { access(m, 4, true); if (a) access(a, 4, false); init(); mx(m) = Mx(); if (a) mx(m).type = *(const int*)a; return 0; }
int pthread_mutex_destroy(pthread_mutex_t* m) throw() { access(m, 4, true); Rt r; mxs->erase((uintptr_t)m); return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) throw() {
	if (inRt) return 0;
	visible();
	useMutex(m);
	for (;;) {
		Mx& x = mx(m);
		if (x.owner == cur && x.type == 2) { done(); return EDEADLK; }
		if (x.owner == cur && x.type == 1) { x.count++; done(); return 0; }
		if (x.owner < 0) { x.owner = cur; x.count = 1; vcJoin(th[cur].vc, x.vc); done(); return 0; }
		th[cur].st = Mtx; th[cur].on = (uintptr_t)m; th[cur].schedOk = false; switchAway();
	}
}
int pthread_mutex_trylock(pthread_mutex_t* m) throw() {
	visible();
	useMutex(m);
	Mx& x = mx(m);
	done();
	if (x.owner == cur && x.type == 1) { x.count++; return 0; }
	if (x.owner >= 0) return EBUSY;
	x.owner = cur; x.count = 1; vcJoin(th[cur].vc, x.vc);
	return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) throw() {
	if (inRt) return 0;
	visible();
	useMutex(m);
	Mx& x = mx(m);
	done();
	if (x.owner != cur) return EPERM;
	if (--x.count == 0) { x.owner = -1; memcpy(x.vc, th[cur].vc, sizeof x.vc); vcTick(); }
	return 0;
}
int pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*) throw() { return 0; }
int pthread_cond_destroy(pthread_cond_t*) throw() { return 0; }
static int condWait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
	visible();
	Mx& x = mx(m);
	if (x.owner != cur) fail("condition wait without holding its mutex");
	x.owner = -1; x.count = 0; memcpy(x.vc, th[cur].vc, sizeof x.vc); vcTick();
	if (ts) { dlS = ts->tv_sec; dlN = ts->tv_nsec; }
	Th& t = th[cur];
	t.st = Cnd; t.on = (uintptr_t)c; t.signalled = t.timed = t.timedOut = ts != 0; t.schedOk = false;
	switchAway();
	while (mx(m).owner >= 0) { t.st = Mtx; t.on = (uintptr_t)m; t.schedOk = false; switchAway(); }
	Mx& y = mx(m);
	y.owner = cur; y.count = 1; vcJoin(t.vc, y.vc);
	t.signalled = false;
	done();
	return ts && t.timedOut ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return condWait(c, m, 0); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { return condWait(c, m, ts); }
static int condSignal(pthread_cond_t* c, bool all) {
	visible();
	bool any = false;
	for (int i = 0; i < nth; i++) if (th[i].st == Cnd && th[i].on == (uintptr_t)c && (!th[i].signalled || th[i].timedOut)) { any = true; if (all) { th[i].signalled = true; th[i].timedOut = false; } }
	if (any && !all) { int v = (int)next("wake", 8); th[v].signalled = true; th[v].timedOut = false; }
	done();
	return 0;
}
int pthread_cond_signal(pthread_cond_t* c) throw() { return condSignal(c, false); }
int pthread_cond_broadcast(pthread_cond_t* c) throw() { return condSignal(c, true); }

// ---- instrumentation
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define ACC(n) void __tsan_read##n(void* p) { access(p, n, false); } void __tsan_write##n(void* p) { access(p, n, true); } \
	void __tsan_unaligned_read##n(void* p) { access(p, n, false); } void __tsan_unaligned_write##n(void* p) { access(p, n, true); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_vptr_read(void** p) { access(p, 8, false); }
void __tsan_vptr_update(void** p, void*) { access(p, 8, true); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { access(s, n, false); access(d, n, true); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { access(s, n, false); access(d, n, true); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { access(d, n, true); return memset(d, c, n); }
void __tsan_atomic_thread_fence(int o) {
	init();
	Th& t = th[cur];
	if (o == 1 || o == 2 || o >= 4) vcJoin(t.vc, t.facq);
	if (o >= 3) { memcpy(t.frel, t.vc, sizeof t.vc); t.fence = true; if (nth >= 2) vcTick(); }
}
void __tsan_atomic_signal_fence(int) {}
}
static bool acq(int o) { return o == 1 || o == 2 || o >= 4; }
static bool rel(int o) { return o >= 3; }
static void useMutex(const void* q) { at_(q, 4); }
static void at(const volatile void* q, size_t n) { visible(); at_(q, n); }
static void at_(const volatile void* q, size_t n) {
	const char* p = (const char*)q;
	freedCheck(p);
	if (nth < 2) return;
	for (size_t i = 0; i < n; i++) { Sh& h = shadow((uintptr_t)p + i); if (h.wt >= 0 && !before(h.wt, h.wc)) fail("data race: atomic access to memory another thread wrote"); h.rd[cur] = th[cur].vc[cur]; }
}
#define RMW(w, T, name, e) extern "C" T __tsan_atomic##w##_##name(volatile T* p, T v, int o) { at(p, sizeof(T)); T old = *p; hb((void*)p, acq(o), rel(o)); loose((void*)p, !acq(o), !rel(o)); *p = e; done(); return old; }
#define ATOM(w, T) \
	extern "C" T __tsan_atomic##w##_load(const volatile T* p, int o) { at(p, sizeof(T)); hb((void*)p, acq(o), false); loose((void*)p, !acq(o), false); done(); return *p; } \
	extern "C" void __tsan_atomic##w##_store(volatile T* p, T v, int o) { at(p, sizeof(T)); hb((void*)p, false, rel(o), true); loose((void*)p, false, !rel(o)); *p = v; done(); } \
	RMW(w, T, exchange, v) RMW(w, T, fetch_add, old + v) RMW(w, T, fetch_sub, old - v) RMW(w, T, fetch_and, old & v) RMW(w, T, fetch_or, old | v) RMW(w, T, fetch_xor, old ^ v) \
	extern "C" int __tsan_atomic##w##_compare_exchange_strong(volatile T* p, T* c, T v, int o, int fo) { at(p, sizeof(T)); T old = *p; bool b = old == *c; hb((void*)p, acq(b ? o : fo), b && rel(o)); loose((void*)p, !acq(b ? o : fo), b && !rel(o)); if (b) *p = v; else *c = old; done(); return b; } \
	extern "C" int __tsan_atomic##w##_compare_exchange_weak(volatile T* p, T* c, T v, int o, int fo) { return __tsan_atomic##w##_compare_exchange_strong(p, c, v, o, fo); } \
	extern "C" T __tsan_atomic##w##_compare_exchange_val(volatile T* p, T c, T v, int o, int fo) { __tsan_atomic##w##_compare_exchange_strong(p, &c, v, o, fo); return c; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
