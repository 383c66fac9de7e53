// M01: copy-on-write maps are values: each behaves as its own sorted key-value map whatever is shared.
#include "sv.h"
#include <array.h>
#include <cowmap.h>
#define MAXE 8
#ifndef SV_K
#define SV_K 2
#endif
#ifdef STRKEYS
typedef StrVal Key;
static Key mkKey(uint32_t k) { char b[3] = { (char)(k >> 8), (char)k, 0 }; return (k >> 8) ? StrVal(b) : StrVal(b + 1); }
static uint32_t symKey() { uint32_t k = sv_u16("k"); sv_assume((k & 0xFF) >= 'a' && (k & 0xFF) < 'd' && ((k >> 8) == 0 || ((k >> 8) >= 'a' && (k >> 8) < 'c'))); return k; }
static bool less(uint32_t a, uint32_t b) { uint32_t x = a >> 8 ? a : a << 8, y = b >> 8 ? b : b << 8; return x < y; }
#else
typedef uint32_t Key;
static Key mkKey(uint32_t k) { return k; }
static uint32_t symKey() { return (uint32_t)sv_u8("k") << 28; }	// 16 distinct keys: every order and equality pattern of those compared; both halves of the 32-bit range
static bool less(uint32_t a, uint32_t b) { return a < b; }
#endif
typedef CowMap<uint32_t, Key> C;
struct M {
	uint32_t k[MAXE], v[MAXE]; int n;
	M() : n(0) {}
	int find(uint32_t x) const { for (int i = 0; i < n; i++) if (k[i] == x) return i; return -1; }
	void put(uint32_t x, uint32_t y) {
		int i = 0;
		while (i < n && less(k[i], x)) i++;
		if (i < n && k[i] == x) { v[i] = y; return; }
		for (int j = n; j > i; j--) { k[j] = k[j - 1]; v[j] = v[j - 1]; }
		k[i] = x; v[i] = y; n++;
	}
	void del(uint32_t x) { int i = find(x); if (i < 0) return; for (n--; i < n; i++) { k[i] = k[i + 1]; v[i] = v[i + 1]; } }
};
static M m[2];
static void same(C& c, const M& m, const char* what)
{
	sv_check((int)c.size() == m.n, what);
	int i = 0; bool eq = true;
	for (C::Iter it = c.begin(); it != c.end(); it++, i++) eq &= i < m.n && it->first == mkKey(m.k[i < m.n ? i : 0]) && it->second == m.v[i < m.n ? i : 0];
	sv_check(eq && i == m.n, what);
}
static void step(C* c)
{
	static const int ops[] = { OPS };
	int op = ops[sv_choose("op", sizeof(ops) / sizeof(ops[0]))], i = sv_choose("i", 2);
	switch (op) {
	case 0: sv_note("assign"); c[i] = c[1 - i]; m[i] = m[1 - i]; break;
	case 1: { sv_note("put"); uint32_t k = symKey(), v = (uint32_t)sv_u8("v"); sv_check(c[i].put(mkKey(k), v) == mkKey(k), "put() returns the key"); m[i].put(k, v); break; }
	case 2: { sv_note("insert"); uint32_t k = symKey(), v = (uint32_t)sv_u8("v"); c[i].insert(mkKey(k), v); if (m[i].find(k) < 0) m[i].put(k, v); break; }
	case 3: { sv_note("remove"); uint32_t k = symKey(); c[i].remove(mkKey(k)); m[i].del(k); break; }
	case 4: sv_note("clear"); c[i].clear(); m[i].n = 0; break;
	case 5: { sv_note("put through an iterator"); if (!m[i].n) { sv_done(); return; } uint32_t v = (uint32_t)sv_u8("v"); C::Iter it = c[i].begin(); c[i].put(it->first, v); m[i].v[0] = v; break; }
	case 6: { sv_note("lookup"); uint32_t k = symKey(); int f = m[i].find(k); sv_check(c[i][mkKey(k)] == (f < 0 ? 0u : m[i].v[f]), "[] gives the value or the default");
		sv_check(c[i].contains(mkKey(k)) == (f >= 0), "contains()"); C::Iter it = c[i].find(mkKey(k)); sv_check((it != c[i].end()) == (f >= 0) && (f < 0 || it->second == m[i].v[f]), "find()"); if (f >= 0) sv_reach("found"); break; }
	case 7: { sv_note("functional");
		uint32_t lim = sv_u8("lim");
		Array<Key> ks = c[i].keys(); Array<uint32_t> vs = c[i].values();
		bool eq = (int)ks.length() == m[i].n && (int)vs.length() == m[i].n; int cnt = 0;
		for (int j = 0; j < m[i].n; j++) { eq &= ks[j] == mkKey(m[i].k[j]) && vs[j] == m[i].v[j]; cnt += m[i].v[j] < lim; }
		sv_check(eq, "keys() and values() are in order");
		auto f = [&](const Key& k, const uint32_t& v) { return v < lim; };
		sv_check(c[i].all(f) == (cnt == m[i].n) && c[i].any(f) == (cnt > 0) && c[i].one(f) == (cnt == 1), "all(), any(), one()");
		C s = c[i].select(f); M t; for (int j = 0; j < m[i].n; j++) if (m[i].v[j] < lim) t.put(m[i].k[j], m[i].v[j]);
		same(s, t, "select()");
		C p = c[i].map<uint32_t, Key>([&](const Key& k, const uint32_t& v) { return std::pair<Key, uint32_t>(k, v ^ lim); });
		M u = m[i]; for (int j = 0; j < u.n; j++) u.v[j] ^= lim; same(p, u, "map()");
		uint32_t h = 0, w = 0; c[i].each([&](const Key& k, const uint32_t& v) { h = (h << 5 | h >> 27) ^ v; }); for (int j = 0; j < m[i].n; j++) w = (w << 5 | w >> 27) ^ m[i].v[j];
		sv_check(h == w, "each() visits in order");
		sv_check(c[i].inject<uint32_t>(0, [](uint32_t& a, const Key& k, const uint32_t& v) { return (a << 5 | a >> 27) ^ v; }) == w, "inject() folds in order");
		break; }
	}
}
extern "C" void sv_main()
{
	uint64_t h0 = sv_heap();
	int r = 0;
	{
		C c[2];
		static const int ns[] = { SIZES };
		int n = ns[sv_choose("n", sizeof(ns) / sizeof(ns[0]))];
		Key ks[4]; uint32_t vs[4];
		for (int i = 0; i < n; i++) { uint32_t k = symKey(); ks[i] = mkKey(k); vs[i] = (uint32_t)sv_u8("v"); if (m[0].find(k) < 0) m[0].put(k, vs[i]); }
		c[0] = C(ks, vs, n);
		if (sv_choose("share", 2)) { c[1] = c[0]; m[1] = m[0]; }
		for (int k = 0; k < SV_K; k++) {
			step(c);
			same(c[0], m[0], "each map holds its own entries"); same(c[1], m[1], "each map holds its own entries");
		}
		r = m[0].n * 10 + m[1].n;
		sv_reach("end");
	}
	sv_check(sv_heap() == h0, "no memory outlives the maps");
	sv_out(r);
}
