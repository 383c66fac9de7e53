// R02: values that share contents may be used by different threads, each using its own: nothing one thread does shows in
// another's value, no access is unsynchronised, and the shared contents go exactly once.
#include <pthread.h>
#include "sv.h"
#ifndef NT
#define NT 2
#endif
#ifndef ST
#define ST 1
#endif
#define MAXE 24
struct M { uint32_t v[MAXE]; int n; M() : n(0) {} void add(uint32_t x) { v[n++] = x; } void ins(int p, uint32_t x) { for (int i = n; i-- > p; ) v[i + 1] = v[i]; v[p] = x; n++; } void del(int p) { for (int i = p; i + 1 < n; i++) v[i] = v[i + 1]; n--; } };
#if TYPE == 0
#include <strval.h>
typedef StrVal T;
static M base() { M m; m.add(sv_u8("c")); sv_assume(m.v[0] > 0 && m.v[0] < 0x80); m.add(sv_u32("w")); sv_assume(m.v[1] >= 0x80 && m.v[1] < 0x800); m.add('z'); return m; }
#ifdef BUILT	// put together from parts: nothing has looked at the contents since
static T mk(const M& m) { T t((UCS4)m.v[0]); switch (sv_pick("built", 3)) { case 0: t += (UCS4)m.v[1]; break; case 1: t.insert(1, T((UCS4)m.v[1])); break; case 2: { char b[4]; b[0] = m.v[0]; b[1] = 'A'; b[2] = 0; t = T(b).substr(0, 1); t += (UCS4)m.v[1]; break; } } t += (UCS4)m.v[2]; return t; }
#else
static T mk(const M& m) { char b[8]; b[0] = m.v[0]; b[1] = 0xC0 | m.v[1] >> 6; b[2] = 0x80 | (m.v[1] & 63); b[3] = m.v[2]; b[4] = 0; return T(b); }
#endif
static uint32_t el(const char* n) { uint32_t x = sv_u8(n); sv_assume(x > 0 && x < 0x80); return x; }
static void same(const T& t, const M& m) { sv_check((int)t.length() == m.n, "a value keeps its length"); for (int i = 0; i < m.n; i++) sv_check((uint32_t)t[i] == m.v[i], "a value keeps its contents"); }
static void append(T& t, uint32_t x) { t += (UCS4)x; }
static void insert0(T& t, uint32_t x) { t.insert(0, StrVal((UCS4)x)); }
static T rest(const T& t) { return t.substr(1); }
#elif TYPE == 1
#include <array.h>
typedef Array<uint32_t> T;
static M base() { M m; for (int i = 0; i < 3; i++) m.add(sv_u32("c")); return m; }
static T mk(const M& m) { return T(m.v, m.n); }
static uint32_t el(const char* n) { return sv_u32(n); }
static void same(const T& t, const M& m) { sv_check((int)t.length() == m.n, "a value keeps its length"); for (int i = 0; i < m.n; i++) sv_check(t[i] == m.v[i], "a value keeps its contents"); }
static void append(T& t, uint32_t x) { t += x; }
static void insert0(T& t, uint32_t x) { t.unshift(x); }
static T rest(const T& t) { return t.slice(1); }
#else		// a map from position to value, and a variant holding it
#include <variant.h>
typedef CowMap<uint32_t, int> T;
static M base() { M m; for (int i = 0; i < 2; i++) m.add(sv_u32("c")); return m; }
static T mk(const M& m) { T t; for (int i = 0; i < m.n; i++) t.put(i, m.v[i]); return t; }
static uint32_t el(const char* n) { return sv_u32(n); }
static void same(T t, const M& m) { sv_check((int)t.size() == m.n, "a value keeps its size"); for (int i = 0; i < m.n; i++) sv_check(t[i] == m.v[i], "a value keeps its contents"); }
static int size(const T& t) { T c(t); return c.size(); }
static void append(T& t, uint32_t x) { t.put(size(t), x); }
static void insert0(T& t, uint32_t x) { t.put(0, x); }
static T rest(const T& t) { T c(t); c.remove(size(c) - 1); return c; }
#endif
static T*	v[NT];
static M	m[NT];
static int	ops[NT][ST];
static uint32_t	xs[NT][ST];
static void work(int me)
{
	T& t = *v[me]; M& n = m[me];
	for (int s = 0; s < ST; s++) {
		uint32_t x = xs[me][s];
		switch (ops[me][s]) {
		case 0: { T c(t); same(c, n); break; }
		case 1: append(t, x); n.add(x); break;
		case 2: insert0(t, x);
#if TYPE == 2
			n.v[0] = x; if (!n.n) n.n = 1;
#else
			n.ins(0, x);
#endif
			break;
		case 3: { if (!n.n) break; T c(rest(t)); t = c;
#if TYPE == 2
			n.n--;
#else
			n.del(0);
#endif
			break; }
		case 4: { T c(t); append(c, x); M k = n; k.add(x); same(c, k); break; }
		case 5: t = T(); n.n = 0; break;
		}
		same(t, n);
	}
}
static void* run(void* a) { work((int)(intptr_t)a); delete v[(int)(intptr_t)a]; return 0; }
static void body()
{
	M b = base();
	T* root = new T(mk(b));
	int how = sv_pick("start", 2);
	for (int i = 0; i < NT; i++) { m[i] = b; v[i] = new T(*root); }
	if (how) { for (int i = 1; i < NT; i++) { *v[i] = rest(*v[i]);
#if TYPE == 2
		m[i].n--;
#else
		m[i].del(0);
#endif
	} }
	for (int i = 0; i < NT; i++) for (int s = 0; s < ST; s++) { ops[i][s] = sv_pick("op", 6); xs[i][s] = el("x"); }
	pthread_t id[NT];
	bool keep = sv_pick("keep", 2);	// the creating thread drops its own while the others work, or after
	for (int i = 0; i < NT; i++) pthread_create(&id[i], 0, run, (void*)(intptr_t)i);
	if (!keep) delete root;
	for (int i = 0; i < NT; i++) pthread_join(id[i], 0);
	if (keep) { same(*root, b); delete root; }
	sv_out(keep);
}
extern "C" void sv_main()
{
	uint64_t before = sv_heap();
	body();
	sv_check(sv_heap() == before, "the shared contents go when the last value does");
	sv_reach("end");
}
