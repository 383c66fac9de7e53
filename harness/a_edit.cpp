// A01: Arrays are values: any sequence of operations on several arrays sharing storage changes only its target, as specified.
#include "sv.h"
#include <array.h>
#ifndef SV_K
#define SV_K 2
#endif
#define SV_NV 2
#ifdef SIZES
#define MAXE 90
#else
#define MAXE 16
#endif
#ifdef REFS		// elements that own something
struct Obj : public RefCounted { uint32_t v; Obj(uint32_t x) : v(x) {} };
typedef Ref<Obj> El;
static El mk(uint32_t v) { return El(new Obj(v)); }
static uint32_t val(const El& e) { Obj* o = e; return o ? o->v : 0; }
#else
typedef uint32_t El;
static El mk(uint32_t v) { return v; }
static uint32_t val(const El& e) { return e; }
#endif
typedef Array<El> A;
struct M {
	uint32_t v[MAXE]; int n;
	M() : n(0) {}
	M sub(int at, int len) const { M r; if (at < 0 || at >= n) return r; if (len < 0 || len > n - at) len = n - at; for (int i = 0; i < len; i++) r.v[i] = v[at + i]; r.n = len; return r; }
	void ins(int pos, const M& o) { M t = o; if (n + t.n > MAXE) { sv_done(); return; } for (int i = n; i-- > pos; ) v[i + t.n] = v[i]; for (int i = 0; i < t.n; i++) v[pos + i] = t.v[i]; n += t.n; }
	void del(int at, int len) { for (int i = at; i + len < n; i++) v[i] = v[i + len]; n -= len; }
	void add(uint32_t x) { if (n >= MAXE) { sv_done(); return; } v[n++] = x; }
};
static M m[SV_NV];
static void same(const A& a, const M& m, const char* what)
{
	sv_check((int)a.length() == m.n && a.isEmpty() == (m.n == 0), what);
	bool eq = true; const El* p = a.asElements();
	for (int i = 0; i < m.n; i++) eq &= val(p[i]) == m.v[i] && val(a[i]) == m.v[i] && val(a.elem_ref(i)) == m.v[i];
	sv_check(eq, what);
}
static int pick(int n, const char* nm)
{
#ifdef ALLPOS
	return sv_range(nm, 0, n);	// symbolic
#else
	int cand[] = { 0, n / 2, n, n - 1 }, u[4], k = 0;
	for (int i = 0; i < 4; i++) { if (cand[i] < 0) continue; bool d = false; for (int j = 0; j < k; j++) d |= u[j] == cand[i]; if (!d) u[k++] = cand[i]; }
	return u[sv_choose(nm, k)];
#endif
}
static void step(A* v)
{
	static const int ops[] = { OPS };
	int op = ops[sv_choose("op", sizeof(ops) / sizeof(ops[0]))];
	int i = sv_choose("i", SV_NV), j = sv_choose("j", SV_NV);
	uint32_t x = sv_u32("x");
	switch (op) {
	case 0: sv_note("assign"); v[i] = v[j]; m[i] = m[j]; break;
	case 1: { sv_note("slice"); 
#ifdef ALLPOS
		int at = sv_u32("at"), len = sv_u32("len"); sv_assume(len >= -1);	// any
#else
		int at = pick(m[j].n, "at"), len = pick(m[j].n, "len"); if (sv_choose("open", 2)) len = -1;
#endif
		v[i] = v[j].slice(at, len); m[i] = m[j].sub(at, len); break; }
	case 2: { sv_note("insert"); int pos = pick(m[i].n, "pos"); v[i].insert(pos, v[j]); m[i].ins(pos, m[j]); break; }
	case 3: { sv_note("+=/append array"); if (sv_choose("w", 2)) v[i] += v[j]; else v[i].append(v[j]); m[i].ins(m[i].n, m[j]); break; }
	case 4: { sv_note("+"); M t = m[j]; t.ins(t.n, m[1 - j]); v[i] = v[j] + v[1 - j]; m[i] = t; break; }
	case 5: { if (j) { sv_done(); return; } sv_note("push"); switch (sv_choose("w", 4)) { case 0: v[i] += mk(x); break; case 1: v[i].push(mk(x)); break; case 2: v[i] << mk(x); break; case 3: v[i].append(mk(x)); } m[i].add(x); break; }
	case 6: { sv_note("+element"); v[i] = v[j] + mk(x); M t = m[j]; t.add(x); m[i] = t; break; }
	case 7: { if (j) { sv_done(); return; } sv_note("remove"); int at = pick(m[i].n, "at"), len = pick(m[i].n - at, "len"); int open = sv_choose("open", 2); v[i].remove(at, open ? -1 : len); m[i].del(at, open ? m[i].n - at : len); break; }
	case 8: { if (j || !m[i].n) { sv_done(); return; } sv_note("delete_at"); int at = pick(m[i].n - 1, "at"); uint32_t w = m[i].v[at]; sv_check(val(v[i].delete_at(at)) == w, "delete_at() returns the element"); m[i].del(at, 1); break; }
	case 9: { if (j || !m[i].n) { sv_done(); return; } sv_note("set"); int at = pick(m[i].n - 1, "at"); if (sv_choose("w", 2)) v[i].set(at, mk(x)); else v[i].elem_mut(at) = mk(x); m[i].v[at] = x; break; }
	case 10: { if (j || !m[i].n) { sv_done(); return; } sv_note("pull/shift"); bool e = sv_choose("w", 2); uint32_t w = e ? m[i].v[m[i].n - 1] : m[i].v[0]; sv_check(val(e ? v[i].pull() : v[i].shift()) == w, "pull()/shift() return the element"); m[i].del(e ? m[i].n - 1 : 0, 1); break; }
	case 11: { if (j) { sv_done(); return; } sv_note("unshift"); v[i].unshift(mk(x)); M t; t.add(x); m[i].ins(0, t); break; }
	case 12: { if (j) { sv_done(); return; } sv_note("clear"); v[i].clear(); m[i].n = 0; break; }
	case 13: { sv_note("drop"); int k = pick(m[j].n, "k"); v[i] = v[j].drop(k); M t = m[j]; t.del(0, k); m[i] = t; break; }
	case 14: { if (j) { sv_done(); return; } sv_note("reverse"); v[i].reverse(); M t = m[i]; for (int k = 0; k < t.n; k++) m[i].v[k] = t.v[t.n - 1 - k]; break; }
	case 15: { if (j) { sv_done(); return; } sv_note("delete_if"); uint32_t mask = sv_choose("mask", 1 << (m[i].n < 4 ? m[i].n : 4)); int k = 0; M t; for (int a = 0; a < m[i].n; a++) if (!(mask >> (a & 3) & 1)) t.add(m[i].v[a]);
		v[i].delete_if([&](const El& e) { return (bool)(mask >> (k++ & 3) & 1); }); sv_check(k == m[i].n, "the condition is asked once per element"); m[i] = t; break; }
	case 16: { sv_note("head/tail/shorter"); int k = pick(m[j].n, "k"); int w = sv_choose("w", 3); M t = w == 0 ? m[j].sub(0, k) : w == 1 ? (k ? m[j].sub(m[j].n - k, k) : M()) : m[j].sub(0, m[j].n - k); v[i] = w == 0 ? v[j].head(k) : w == 1 ? v[j].tail(k) : v[j].shorter(k); m[i] = t; break; }
	case 17: { if (!m[i].n || j) { sv_done(); return; } sv_note("last"); sv_check(val(v[i].last()) == m[i].v[m[i].n - 1] && val(v[i].last_ref()) == m[i].v[m[i].n - 1], "last()"); v[i].last_mut() = mk(x); m[i].v[m[i].n - 1] = x; break; }
	}
}
static int go()
{
	El stat[3] = { mk(sv_u32("s")), mk(sv_u32("s")), mk(sv_u32("s")) };
	uint32_t sv[3]; for (int i = 0; i < 3; i++) sv[i] = val(stat[i]);
	ArrayBody<El> sb(stat, false, 3);
	int r = 0;
	{
		A v[SV_NV];
#ifdef SIZES		// around the sizes where storage is allocated
		static const int sz[] = { SIZES };
		El init[MAXE];
		for (int w = 0; w < 2; w++) {
			int n = sz[sv_choose("size", sizeof(sz) / sizeof(sz[0]))];
			if (w && sv_choose("shared", 2)) { v[1] = v[0]; m[1] = m[0]; break; }
			for (int i = 0; i < n; i++) { uint32_t x = sv_u32("e"); init[i] = mk(x); m[w].add(x); }
			if (sv_choose("grown", 2)) { for (int i = 0; i < n; i++) v[w].append(init[i]); } else v[w] = A(init, n);
		}
#else
		El init[5];
		for (int i = 0; i < 5; i++) { uint32_t x = sv_u32("e"); init[i] = mk(x); m[0].add(x); }
		switch (sv_choose("start", 5)) {
		case 0: v[0] = A(init, 5); v[1] = v[0]; m[1] = m[0]; break;
		case 1: v[0] = A(init, 5); v[1] = v[0].slice(1, 3); m[1] = m[0].sub(1, 3); v[0] = A(); m[0] = M(); break;	// an inner slice, alone
		case 2: v[0] = A(init, 5, 12); v[1] = v[0].slice(3); m[1] = m[0].sub(3, -1); break;
		case 3: v[0] = A(init, 5); v[1] = A(&sb); for (int i = 0; i < 3; i++) m[1].add(sv[i]); break;				// static data
		case 4: v[0] = A(init[0]); m[0].n = 1; break;
		}
#endif
		for (int k = 0; k < SV_K; k++) {
			step(v);
			for (int i = 0; i < SV_NV; i++) same(v[i], m[i], "every array holds its own value after an operation");
		}
		for (int i = 0; i < SV_NV; i++) r = r * 100 + m[i].n;
		for (int i = 0; i < 3; i++) sv_check(val(stat[i]) == sv[i], "static data is never changed");
	}
	sv_reach("end");
	return r;
}
extern "C" void sv_main()
{
	uint64_t h0 = sv_heap();
	int h = go();
	sv_check(sv_heap() == h0, "no memory outlives the arrays");
	sv_out(h);
}
