// Hash-consed bit-vector expressions (width 1..64) with local simplification.
#pragma once
#include <cstdint>
#include <cstring>
#include <vector>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <cassert>
#include <cstdio>
#include <cstdlib>

enum Kind : uint8_t { EConst, ESym, EAdd, ESub, EMul, EUDiv, ESDiv, EURem, ESRem, EAnd, EOr, EXor,
	EShl, ELShr, EAShr, EEq, EUlt, EUle, ESlt, ESle, EIte, EConcat, EExtract, EZExt, ESExt };

static const int SYMW = 6;	// 6*64 symbols per path at most
struct SymSet {
	uint64_t w[SYMW];
	void clear() { memset(w, 0, sizeof w); }
	bool intersects(const SymSet& o) const { for (int i = 0; i < SYMW; i++) if (w[i] & o.w[i]) return true; return false; }
	void merge(const SymSet& o) { for (int i = 0; i < SYMW; i++) w[i] |= o.w[i]; }
	bool contains(const SymSet& o) const { for (int i = 0; i < SYMW; i++) if (o.w[i] & ~w[i]) return false; return true; }
	bool operator==(const SymSet& o) const { return !memcmp(w, o.w, sizeof w); }
	void set(unsigned i) { w[i >> 6] |= 1ull << (i & 63); }
	bool test(unsigned i) const { return w[i >> 6] >> (i & 63) & 1; }
};

struct Expr {
	Kind	k;
	uint8_t	w;
	uint32_t id;
	uint64_t v;		// const value; symbol number; extract bit offset
	Expr	*a, *b, *c;
	uint64_t lo, hi;	// unsigned range
	SymSet	syms;
	void	*zbv = nullptr, *zbool = nullptr;	// cached z3 terms
	uint32_t stamp = 0; uint64_t ev = 0;		// evaluation memo
	struct Dom* dom = nullptr;			// truth set of a one-symbol condition
	uint8_t domState = 0;				// 0 not tried, 1 known, 2 not representable
	int32_t one = 0;				// 1+symbol when exactly one symbol occurs, 0 not computed, -1 otherwise
};

// a set of values of one symbol: sorted disjoint closed intervals
struct Dom { std::vector<std::pair<uint64_t, uint64_t>> v; };
static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
static inline int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

class Exprs {
	struct H { size_t operator()(const Expr* e) const {
		uint64_t h = e->k * 0x9E3779B97F4A7C15ull ^ e->w * 0xBF58476D1CE4E5B9ull ^ e->v * 0x94D049BB133111EBull;
		h = (h ^ (h >> 29)) * 0xBF58476D1CE4E5B9ull; h ^= (uintptr_t)e->a >> 4; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 31;
		h ^= (uintptr_t)e->b >> 4; h *= 0x94D049BB133111EBull; h ^= h >> 30; h ^= (uintptr_t)e->c >> 4; h *= 0x9E3779B97F4A7C15ull;
		return h ^ (h >> 32); } };
	struct Q { bool operator()(const Expr* x, const Expr* y) const {
		return x->k == y->k && x->w == y->w && x->v == y->v && x->a == y->a && x->b == y->b && x->c == y->c; } };
	std::unordered_set<Expr*, H, Q> tab;
	Expr	tmp;
	uint32_t nextId = 0;
	std::vector<Expr*> pool; size_t poolN = 0; 
	Expr*	alloc() { if (pool.empty() || poolN == 4096) { pool.push_back((Expr*)calloc(4096, sizeof(Expr))); poolN = 0; } return &pool.back()[poolN++]; }
	Expr*	mk(Kind k, unsigned w, uint64_t v, Expr* a = nullptr, Expr* b = nullptr, Expr* c = nullptr) {
		tmp.k = k; tmp.w = w; tmp.v = v; tmp.a = a; tmp.b = b; tmp.c = c;
		auto it = tab.find(&tmp);
		if (it != tab.end()) return *it;
		Expr* e = alloc();
		e->k = k; e->w = w; e->v = v; e->a = a; e->b = b; e->c = c; e->id = ++nextId;
		e->syms.clear();
		if (k == ESym) e->syms.set(v);
		if (a) e->syms.merge(a->syms);
		if (b) e->syms.merge(b->syms);
		if (c) e->syms.merge(c->syms);
		range(e);
		tab.insert(e);
		return e;
	}
	void range(Expr* e) {
		uint64_t m = maskw(e->w);
		e->lo = 0; e->hi = m;
		Expr *a = e->a, *b = e->b;
		unsigned __int128 t;
		switch (e->k) {
		case EConst: e->lo = e->hi = e->v; break;
		case EAdd:
			t = (unsigned __int128)a->hi + b->hi;
			if (t <= m) { e->lo = a->lo + b->lo; e->hi = (uint64_t)t; }
			else if ((unsigned __int128)a->lo + b->lo > m) { e->lo = (a->lo + b->lo) & m; e->hi = (uint64_t)t & m; }
			break;
		case ESub: if (a->lo >= b->hi) { e->lo = a->lo - b->hi; e->hi = a->hi - b->lo; } break;
		case EMul: t = (unsigned __int128)a->hi * b->hi; if (t <= m) { e->lo = a->lo * b->lo; e->hi = (uint64_t)t; } break;
		case EUDiv: if (b->lo > 0) { e->lo = a->lo / b->hi; e->hi = a->hi / b->lo; } break;
		case EURem: if (b->lo > 0) e->hi = a->hi < b->hi - 1 ? a->hi : b->hi - 1; break;
		case EAnd: e->hi = a->hi < b->hi ? a->hi : b->hi; break;
		case EOr: { uint64_t x = a->hi | b->hi; unsigned n = 64 - (x ? __builtin_clzll(x) : 64); e->hi = maskw(n); e->lo = a->lo > b->lo ? a->lo : b->lo; break; }
		case EXor: { uint64_t x = a->hi | b->hi; unsigned n = 64 - (x ? __builtin_clzll(x) : 64); e->hi = n == 0 ? 0 : maskw(n); break; }
		case EShl: if (b->k == EConst && b->v < e->w && (a->hi << b->v >> b->v) == a->hi && (a->hi << b->v) <= m) { e->lo = a->lo << b->v; e->hi = a->hi << b->v; } break;
		case ELShr: if (b->k == EConst && b->v < e->w) { e->lo = a->lo >> b->v; e->hi = a->hi >> b->v; } else e->hi = a->hi; break;
		case EIte: e->lo = b->lo < e->c->lo ? b->lo : e->c->lo; e->hi = b->hi > e->c->hi ? b->hi : e->c->hi; break;
		case EConcat: e->lo = a->lo << b->w | b->lo; e->hi = a->hi << b->w | b->hi; break;
		case EExtract: if (e->v == 0 && a->hi <= m) { e->lo = a->lo; e->hi = a->hi; } else if (e->v && (a->hi >> e->v) <= m) { e->lo = a->lo >> e->v; e->hi = a->hi >> e->v; } break;
		case EZExt: e->lo = a->lo; e->hi = a->hi; break;
		case ESExt: if (!(a->hi >> (a->w - 1))) { e->lo = a->lo; e->hi = a->hi; } break;
		default: break;
		}
	}
public:
	size_t count() const { return tab.size(); }
	Expr*	cst(uint64_t v, unsigned w) { return mk(EConst, w, v & maskw(w)); }
	Expr*	sym(unsigned n, unsigned w) { if (n >= SYMW * 64) { fprintf(stderr, "ENGINE: too many symbols\n"); exit(3); } return mk(ESym, w, n); }
	Expr*	bnot(Expr* e) { return bin(EXor, e, cst(1, 1)); }
	static uint64_t fold(Kind k, uint64_t x, uint64_t y, unsigned w, bool& ok) {
		uint64_t m = maskw(w); ok = true;
		switch (k) {
		case EAdd: return (x + y) & m; case ESub: return (x - y) & m; case EMul: return (x * y) & m;
		case EUDiv: if (!y) { return m; } return x / y;
		case EURem: if (!y) { return x; } return x % y;
		case ESDiv: { int64_t a = sx(x, w), b = sx(y, w); if (!b) return a < 0 ? 1 : m; if (b == -1) return (0 - x) & m; return (uint64_t)(a / b) & m; }
		case ESRem: { int64_t a = sx(x, w), b = sx(y, w); if (!b) return x; if (b == -1) return 0; return (uint64_t)(a % b) & m; }
		case EAnd: return x & y; case EOr: return x | y; case EXor: return x ^ y;
		case EShl: return y >= w ? 0 : (x << y) & m;
		case ELShr: return y >= w ? 0 : x >> y;
		case EAShr: return (uint64_t)(y >= w ? (sx(x, w) < 0 ? -1 : 0) : sx(x, w) >> y) & m;
		case EEq: return x == y; case EUlt: return x < y; case EUle: return x <= y;
		case ESlt: return sx(x, w) < sx(y, w); case ESle: return sx(x, w) <= sx(y, w);
		default: ok = false; return 0;
		}
	}
	static bool isCmp(Kind k) { return k >= EEq && k <= ESle; }
	Expr*	bin(Kind k, Expr* a, Expr* b) {
		unsigned w = a->w; uint64_t m = maskw(w);
		assert(a->w == b->w);
		bool ok;
		if (a->k == EConst && b->k == EConst) return cst(fold(k, a->v, b->v, w, ok), isCmp(k) ? 1 : w);
		bool comm = k == EAdd || k == EMul || k == EAnd || k == EOr || k == EXor || k == EEq;
		if (comm && (a->k == EConst || (b->k != EConst && a->id > b->id))) std::swap(a, b);
		bool bc = b->k == EConst; uint64_t bv = b->v;
		switch (k) {
		case EAdd:
			if (bc && bv == 0) return a;
			if (bc && a->k == EAdd && a->b->k == EConst) return bin(EAdd, a->a, cst(a->b->v + bv, w));
			break;
		case ESub:
			if (bc) return bin(EAdd, a, cst(0 - bv, w));
			if (a == b) return cst(0, w);
			if (a->k == EAdd && a->a == b) return a->b;
			if (a->k == EAdd && a->b == b) return a->a;
			if (a->k == EAdd && a->b->k == EConst && b->k == EAdd && b->b->k == EConst)
				return bin(EAdd, bin(ESub, a->a, b->a), cst(a->b->v - b->b->v, w));
			if (a->k == EAdd && a->b->k == EConst) return bin(EAdd, bin(ESub, a->a, b), a->b);
			break;
		case EMul:
			if (bc && bv == 0) return b;
			if (bc && bv == 1) return a;
			if (bc && !(bv & (bv - 1))) return bin(EShl, a, cst(__builtin_ctzll(bv), w));
			break;
		case EUDiv: if (bc && bv == 1) return a; if (bc && bv && !(bv & (bv-1))) return bin(ELShr, a, cst(__builtin_ctzll(bv), w)); break;
		case EURem: if (bc && bv && !(bv & (bv-1))) return bin(EAnd, a, cst(bv-1, w)); break;
		case EAnd:
			if (bc && bv == 0) return b;
			if (bc && bv == m) return a;
			if (a == b) return a;
			if (bc && !(bv & (bv + 1)) && a->hi <= bv) return a;
			if (bc && a->k == EAnd && a->b->k == EConst) return bin(EAnd, a->a, cst(a->b->v & bv, w));
			if (bc && a->k == EZExt && w > a->a->w) return zext(bin(EAnd, a->a, cst(bv & maskw(a->a->w), a->a->w)), w);
			if (bc && a->k == EIte && a->b->k == EConst && a->c->k == EConst) return ite(a->a, cst(a->b->v & bv, w), cst(a->c->v & bv, w));
			if (w == 1 && (a == notOf(b) || b == notOf(a))) return cst(0, 1);
			if (bc && !(bv & (bv + 1))) { unsigned n = __builtin_popcountll(bv); return zext(extract(a, 0, n), w); }
			break;
		case EOr:
			if (bc && bv == 0) return a;
			if (bc && bv == m) return b;
			if (a == b) return a;
			if (w == 1 && (a == notOf(b) || b == notOf(a))) return cst(1, 1);
			if (bc && a->k == EOr && a->b->k == EConst) return bin(EOr, a->a, cst(a->b->v | bv, w));
			break;
		case EXor:
			if (bc && bv == 0) return a;
			if (a == b) return cst(0, w);
			if (bc && a->k == EXor && a->b->k == EConst) return bin(EXor, a->a, cst(a->b->v ^ bv, w));
			if (w == 1 && bc) {	// not
				if (a->k == EUlt) return bin(EUle, a->b, a->a);
				if (a->k == EUle) return bin(EUlt, a->b, a->a);
				if (a->k == ESlt) return bin(ESle, a->b, a->a);
				if (a->k == ESle) return bin(ESlt, a->b, a->a);
			}
			break;
		case EShl: case ELShr: case EAShr:
			if (bc && bv == 0) return a;
			if (bc && bv >= w && k != EAShr) return cst(0, w);
			if (k == ELShr && bc && (a->hi >> bv) == 0) return cst(0, w);
			if (k == EAShr && !(a->hi >> (w - 1))) return bin(ELShr, a, b);
			if (k == ELShr && bc) return zext(extract(a, bv, w - bv), w);
			if (k == EShl && bc && a->k == EShl && a->b->k == EConst && a->b->v + bv < w) return bin(EShl, a->a, cst(a->b->v + bv, w));
			break;
		case EEq:
			if (a == b) return cst(1, 1);
			if (a->hi < b->lo || b->hi < a->lo) return cst(0, 1);
			if (w == 1 && bc) return bv ? a : bnot(a);
			if (bc) {
				if (a->k == EZExt) return bin(EEq, a->a, cst(bv, a->a->w));
				if (a->k == ESExt) { uint64_t t = bv & maskw(a->a->w); if (((uint64_t)sx(t, a->a->w) & m) == bv) return bin(EEq, a->a, cst(t, a->a->w)); return cst(0, 1); }
				if (a->k == EAdd && a->b->k == EConst) return bin(EEq, a->a, cst(bv - a->b->v, w));
				if (a->k == EXor && a->b->k == EConst) return bin(EEq, a->a, cst(bv ^ a->b->v, w));
				if (a->k == ESub && bv == 0) return bin(EEq, a->a, a->b);
				if (a->k == EIte && (a->b->k == EConst || a->c->k == EConst)) {
					Expr *x = bin(EEq, a->b, b), *y = bin(EEq, a->c, b);
					return ite(a->a, x, y);
				}
				if (a->k == EConcat) return bin(EAnd, bin(EEq, a->a, cst(bv >> a->b->w, a->a->w)), bin(EEq, a->b, cst(bv, a->b->w)));
				if (a->k == EShl && a->b->k == EConst) { unsigned s = a->b->v; if (bv & maskw(s)) return cst(0, 1);
					return bin(EEq, extract(a->a, 0, w - s), cst(bv >> s, w - s)); }
			}
			if (a->k == EAdd && a->b->k == EConst && a->a == b) return cst(a->b->v == 0, 1);
			if (b->k == EAdd && b->b->k == EConst && b->a == a) return cst(b->b->v == 0, 1);
			if (a->k == EAdd && b->k == EAdd && a->a == b->a && a->b->k == EConst && b->b->k == EConst) return cst(a->b->v == b->b->v, 1);
			if (a->k == EZExt && b->k == EZExt && a->a->w == b->a->w) return bin(EEq, a->a, b->a);
			if (a->k == ESExt && b->k == ESExt && a->a->w == b->a->w) return bin(EEq, a->a, b->a);
			if (a->k == EConcat && b->k == EConcat && a->b->w == b->b->w) return bin(EAnd, bin(EEq, a->a, b->a), bin(EEq, a->b, b->b));
			break;
		case EUlt: case EUle:
			if (a == b) return cst(k == EUle, 1);
			if (k == EUlt ? a->hi < b->lo : a->hi <= b->lo) return cst(1, 1);
			if (k == EUlt ? a->lo >= b->hi : a->lo > b->hi) return cst(0, 1);
			if (k == EUlt && bc && bv == 1) return bin(EEq, a, cst(0, w));
			if (k == EUle && bc && bv == 0) return bin(EEq, a, b);
			if (k == EUlt && bc) return bin(EUle, a, cst(bv - 1, w));
			if (k == EUlt && a->k == EConst) return bin(EUle, cst(a->v + 1, w), b);
			if (k == EUle && a->k == EConst && a->v == 1) return bnot(bin(EEq, b, cst(0, w)));
			if (a->k == EZExt && b->k == EZExt && a->a->w == b->a->w) return bin(k, a->a, b->a);
			if (a->k == EZExt && bc) return bin(k, a->a, cst(bv, a->a->w));		// range checks above ensure bv fits
			if (b->k == EZExt && a->k == EConst) return bin(k, cst(a->v, b->a->w), b->a);
			if (bc && a->k == EIte && a->b->k == EConst && a->c->k == EConst) return ite(a->a, bin(k, a->b, b), bin(k, a->c, b));
			break;
		case ESlt: case ESle: {
			if (a == b) return cst(k == ESle, 1);
			uint64_t sb = 1ull << (w - 1);
			if (a->hi < sb && b->hi < sb) return bin(k == ESlt ? EUlt : EUle, a, b);
			if (a->hi < sb && b->lo >= sb) return cst(0, 1);
			if (a->lo >= sb && b->hi < sb) return cst(1, 1);
			if (a->lo >= sb && b->lo >= sb) return bin(k == ESlt ? EUlt : EUle, a, b);
			if (a->k == ESExt && b->k == ESExt && a->a->w == b->a->w) return bin(k, a->a, b->a);
			if (a->k == ESExt && bc && (uint64_t)(sx(bv & maskw(a->a->w), a->a->w) & (int64_t)m) == bv) return bin(k, a->a, cst(bv, a->a->w));
			if (b->k == ESExt && a->k == EConst && (uint64_t)(sx(a->v & maskw(b->a->w), b->a->w) & (int64_t)m) == a->v) return bin(k, cst(a->v, b->a->w), b->a);
			if (bc && a->k == EIte && a->b->k == EConst && a->c->k == EConst) return ite(a->a, bin(k, a->b, b), bin(k, a->c, b));
			break; }
		default: break;
		}
		return mk(k, isCmp(k) ? 1 : w, 0, a, b);
	}
	Expr*	notOf(Expr* e) {	// the operand if e is a syntactic negation
		return e->k == EXor && e->w == 1 && e->b->k == EConst && e->b->v == 1 ? e->a : nullptr;
	}
	Expr*	ite(Expr* c, Expr* a, Expr* b) {
		if (c->k == EConst) return c->v ? a : b;
		if (a == b) return a;
		if (Expr* n = notOf(c)) { c = n; std::swap(a, b); }
		if (a->w == 1) {
			if (a->k == EConst && b->k == EConst) return a->v ? c : bnot(c);
			if (a->k == EConst) return a->v ? bin(EOr, c, b) : bin(EAnd, bnot(c), b);
			if (b->k == EConst) return b->v ? bin(EOr, bnot(c), a) : bin(EAnd, c, a);
		}
		if (a->k == EIte && a->a == c) a = a->b;
		if (b->k == EIte && b->a == c) b = b->c;
		if (a == b) return a;
		return mk(EIte, a->w, 0, c, a, b);
	}
	Expr*	extract(Expr* e, unsigned off, unsigned w) {
		if (off == 0 && w == e->w) return e;
		switch (e->k) {
		case EConst: return cst(e->v >> off, w);
		case EExtract: return extract(e->a, e->v + off, w);
		case EZExt:
			if (off >= e->a->w) return cst(0, w);
			if (off + w <= e->a->w) return extract(e->a, off, w);
			return zext(extract(e->a, off, e->a->w - off), w);
		case ESExt:
			if (off + w <= e->a->w) return extract(e->a, off, w);
			if (off < e->a->w) return sext(extract(e->a, off, e->a->w - off), w);
			break;
		case EConcat:
			if (off + w <= e->b->w) return extract(e->b, off, w);
			if (off >= e->b->w) return extract(e->a, off - e->b->w, w);
			return concat(extract(e->a, 0, off + w - e->b->w), extract(e->b, off, e->b->w - off));
		case EIte: if (e->b->k == EConst || e->c->k == EConst) return ite(e->a, extract(e->b, off, w), extract(e->c, off, w)); break;
		case EAnd: case EOr: case EXor: return bin(e->k, extract(e->a, off, w), extract(e->b, off, w));
		case EAdd: case ESub: case EMul: if (off == 0) return bin(e->k, extract(e->a, 0, w), extract(e->b, 0, w)); break;
		case EShl: if (e->b->k == EConst) {
			unsigned s = e->b->v;
			if (off >= s) return extract(e->a, off - s, w);
			if (off + w <= s) return cst(0, w);
			return concat(extract(e->a, 0, off + w - s), cst(0, s - off));
			} break;
		default: break;
		}
		if (e->hi >> off == 0) return cst(0, w);
		return mk(EExtract, w, off, e);
	}
	Expr*	concat(Expr* h, Expr* l) {
		unsigned w = h->w + l->w;
		assert(w <= 64);
		if (h->k == EConst && l->k == EConst) return cst(h->v << l->w | l->v, w);
		if (h->k == EConst && h->v == 0) return zext(l, w);
		if (h->k == EExtract && l->k == EExtract && h->a == l->a && h->v == l->v + l->w) return extract(h->a, l->v, w);
		if (h->k == EExtract && l == h->a && h->v == l->w) return h;	// not reachable normally
		if (h->k == EExtract && h->a->k == ESym && l == h->a) {}
		if (h->k == EConcat && l->k == EExtract && h->b->k == EExtract && h->b->a == l->a && h->b->v == l->v + l->w) return concat(h->a, extract(l->a, l->v, h->b->w + l->w));
		if (l->k == EConcat && h->k == EExtract && l->a->k == EExtract && l->a->a == h->a && h->v == l->a->v + l->a->w) return concat(extract(h->a, l->a->v, l->a->w + h->w), l->b);
		if (h->k == EZExt) return zext(concat(h->a, l), w);
		return mk(EConcat, w, 0, h, l);
	}
	Expr*	zext(Expr* e, unsigned w) {
		if (w == e->w) return e;
		if (e->k == EConst) return cst(e->v, w);
		if (e->k == EZExt) return zext(e->a, w);
		if (e->k == EIte && e->b->k == EConst && e->c->k == EConst) return ite(e->a, cst(e->b->v, w), cst(e->c->v, w));
		return mk(EZExt, w, 0, e);
	}
	Expr*	sext(Expr* e, unsigned w) {
		if (w == e->w) return e;
		if (e->k == EConst) return cst((uint64_t)sx(e->v, e->w), w);
		if (e->k == ESExt) return sext(e->a, w);
		if (!(e->hi >> (e->w - 1))) return zext(e, w);
		if (e->k == EIte && e->b->k == EConst && e->c->k == EConst) return ite(e->a, sext(e->b, w), sext(e->c, w));
		return mk(ESExt, w, 0, e);
	}
	// number of known-zero low bits
	static unsigned tz(Expr* e) {
		switch (e->k) {
		case EConst: return e->v ? __builtin_ctzll(e->v) : 64;
		case EAdd: case ESub: case EOr: case EXor: { unsigned x = tz(e->a), y = tz(e->b); return x < y ? x : y; }
		case EAnd: { unsigned x = tz(e->a), y = tz(e->b); return x > y ? x : y; }
		case EMul: return tz(e->a) + tz(e->b);
		case EShl: return e->b->k == EConst ? tz(e->a) + e->b->v : tz(e->a);
		case EIte: { unsigned x = tz(e->b), y = tz(e->c); return x < y ? x : y; }
		case EZExt: case ESExt: { unsigned t = tz(e->a); return t >= e->a->w ? 64 : t; }
		case EConcat: { unsigned t = tz(e->b); return t >= e->b->w ? e->b->w + tz(e->a) : t; }
		default: return 0;
		}
	}
	uint32_t stampNo = 0;
	uint64_t evalr(Expr* e, const std::vector<uint64_t>& m) {
		if (e->k == EConst) return e->v;
		if (e->stamp == stampNo) return e->ev;
		uint64_t r;
		bool ok;
		switch (e->k) {
		case ESym: r = e->v < m.size() ? m[e->v] & maskw(e->w) : 0; break;
		case EIte: r = evalr(e->a, m) ? evalr(e->b, m) : evalr(e->c, m); break;
		case EConcat: r = evalr(e->a, m) << e->b->w | evalr(e->b, m); break;
		case EExtract: r = evalr(e->a, m) >> e->v & maskw(e->w); break;
		case EZExt: r = evalr(e->a, m); break;
		case ESExt: r = (uint64_t)sx(evalr(e->a, m), e->a->w) & maskw(e->w); break;
		default: r = fold(e->k, evalr(e->a, m), evalr(e->b, m), e->a->w, ok); break;
		}
		e->stamp = stampNo; e->ev = r;
		return r;
	}
	// ---- exact value sets of conditions over a single symbol
	typedef std::vector<std::pair<uint64_t, uint64_t>> Iv;
	static Iv ivAnd(const Iv& a, const Iv& b) {
		Iv r; size_t i = 0, j = 0;
		while (i < a.size() && j < b.size()) {
			uint64_t lo = a[i].first > b[j].first ? a[i].first : b[j].first, hi = a[i].second < b[j].second ? a[i].second : b[j].second;
			if (lo <= hi) r.push_back({lo, hi});
			if (a[i].second < b[j].second) i++; else j++;
		}
		return r;
	}
	static Iv ivNot(const Iv& a, unsigned w) {
		Iv r; uint64_t m = maskw(w), at = 0; bool end = false;
		for (auto& p : a) { if (p.first > at) r.push_back({at, p.first - 1}); if (p.second == m) { end = true; break; } at = p.second + 1; }
		if (!end) r.push_back({at, m});
		return r;
	}
	static Iv ivOr(const Iv& a, const Iv& b, unsigned w) { return ivNot(ivAnd(ivNot(a, w), ivNot(b, w)), w); }
	int32_t oneSym(Expr* e) {
		if (!e->one) {
			int n = 0, at = 0;
			for (int i = 0; i < SYMW; i++) if (e->syms.w[i]) { n += __builtin_popcountll(e->syms.w[i]); at = i * 64 + __builtin_ctzll(e->syms.w[i]); }
			e->one = n == 1 ? at + 1 : -1;
		}
		return e->one > 0 ? e->one - 1 : -1;
	}
	Expr* findSym(Expr* e) {
		if (e->k == ESym) return e;
		for (Expr* x : {e->a, e->b, e->c}) if (x && x->k != EConst) if (Expr* r = findSym(x)) return r;
		return nullptr;
	}
	// values of the symbol (width sw) for which x lies in S; false: not representable
	bool pre(Expr* x, const Iv& S, unsigned sw, Iv& out) {
		if (S.empty()) { out.clear(); return true; }
		switch (x->k) {
		case EConst: out.clear(); for (auto& p : S) if (x->v >= p.first && x->v <= p.second) out.push_back({0, maskw(sw)}); return true;
		case ESym: out = S; return true;
		case EAdd: {
			if (x->b->k != EConst) return false;
			Iv T, U; uint64_t m = maskw(x->w), c = x->b->v;
			for (auto& p : S) {
				uint64_t lo = (p.first - c) & m, hi = (p.second - c) & m; Iv one;
				if (p.first == 0 && p.second == m) one = {{0, m}};
				else if (lo <= hi) one = {{lo, hi}}; else one = {{0, hi}, {lo, m}};
				T = ivOr(T, one, x->w);
			}
			return pre(x->a, T, sw, out);
		}
		case EZExt: { Iv T = ivAnd(S, Iv{{0, maskw(x->a->w)}}); return pre(x->a, T, sw, out); }
		case ESExt: {
			unsigned n = x->a->w; uint64_t h = maskw(n) >> 1, m = maskw(x->w);
			Iv T = ivAnd(S, Iv{{0, h}}), U = ivAnd(S, Iv{{m - h, m}});
			for (auto& p : U) { p.first &= maskw(n); p.second &= maskw(n); }
			T.insert(T.end(), U.begin(), U.end());
			return pre(x->a, T, sw, out);
		}
		case EExtract: {
			if (x->v + x->w != x->a->w) return false;
			Iv T = S; for (auto& p : T) { p.first <<= x->v; p.second = p.second << x->v | maskw(x->v); }
			return pre(x->a, T, sw, out);
		}
		case EIte: {
			Iv c, a, b;
			if (!truth(x->a, sw, c) || !pre(x->b, S, sw, a) || !pre(x->c, S, sw, b)) return false;
			out = ivOr(ivAnd(c, a), ivAnd(ivNot(c, sw), b), sw);
			return out.size() < 512;
		}
		default: return false;
		}
	}
	bool truth(Expr* e, unsigned sw, Iv& out) {
		if (e->k == EConst) { out.clear(); if (e->v) out.push_back({0, maskw(sw)}); return true; }
		if (e->domState == 1) { out = e->dom->v; return true; }
		if (e->domState == 2) return false;
		bool ok = false; Iv a, b;
		uint64_t m = maskw(e->k >= EEq && e->k <= ESle ? e->a->w : 1);
		switch (e->k) {
		case EAnd: ok = truth(e->a, sw, a) && truth(e->b, sw, b); if (ok) out = ivAnd(a, b); break;
		case EOr: ok = truth(e->a, sw, a) && truth(e->b, sw, b); if (ok) out = ivOr(a, b, sw); break;
		case EXor: if (e->b->k == EConst) { ok = truth(e->a, sw, a); if (ok) out = e->b->v ? ivNot(a, sw) : a; } break;
		case EIte: ok = truth(e->a, sw, a); if (ok) { Iv x, y; ok = truth(e->b, sw, x) && truth(e->c, sw, y); if (ok) out = ivOr(ivAnd(a, x), ivAnd(ivNot(a, sw), y), sw); } break;
		case EEq: if (e->b->k == EConst) ok = pre(e->a, Iv{{e->b->v, e->b->v}}, sw, out); break;
		case EUlt: case EUle: {
			Iv S;
			if (e->b->k == EConst) { if (e->k == EUle) S = {{0, e->b->v}}; else if (e->b->v) S = {{0, e->b->v - 1}}; ok = pre(e->a, S, sw, out); }
			else if (e->a->k == EConst) { if (e->k == EUle) S = {{e->a->v, m}}; else if (e->a->v != m) S = {{e->a->v + 1, m}}; ok = pre(e->b, S, sw, out); }
			break; }
		case ESlt: case ESle: {
			uint64_t top = (m >> 1) + 1;	// signed order = unsigned order shifted by top
			Iv S; Expr* x = nullptr; uint64_t lo = 0, hi = 0; bool none = false;
			if (e->b->k == EConst) { x = e->a; uint64_t c = e->b->v ^ top; lo = 0; hi = c; if (e->k == ESlt) { if (!c) none = true; else hi = c - 1; } }
			else if (e->a->k == EConst) { x = e->b; uint64_t c = e->a->v ^ top; lo = c; hi = m; if (e->k == ESlt) { if (c == m) none = true; else lo = c + 1; } }
			if (!x) break;
			if (!none) {	// biased [lo,hi] -> plain values
				Iv neg = ivAnd(Iv{{lo, hi}}, Iv{{0, top - 1}}), pos = ivAnd(Iv{{lo, hi}}, Iv{{top, m}});
				for (auto& p : pos) S.push_back({p.first - top, p.second - top});
				for (auto& p : neg) S.push_back({p.first + top, p.second + top});
			}
			ok = pre(x, S, sw, out);
			break; }
		case ESym: ok = true; out = {{1, 1}}; break;	// one-bit symbol
		default: break;
		}
		if (!ok && sw <= 8) {	// enumerate
			out.clear();
			std::vector<uint64_t> m(oneSym(e) + 1, 0);
			for (unsigned x = 0; x < 1u << sw; x++) {
				m.back() = x;
				if (eval(e, m)) { if (!out.empty() && out.back().second + 1 == x) out.back().second = x; else out.push_back({x, x}); }
			}
			ok = true;
		}
		if (ok && out.size() > 512) ok = false;
		e->domState = ok ? 1 : 2;
		if (ok) { e->dom = new Dom; e->dom->v = out; }
		return ok;
	}
	uint64_t eval(Expr* e, const std::vector<uint64_t>& m) { stampNo++; return evalr(e, m); }
};
