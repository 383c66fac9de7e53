// z3 back end: constraint slicing, query cache, models.
#pragma once
#include "expr.h"
#include <z3.h>
#include <algorithm>
#include <map>
#include <time.h>

static inline double nowS() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

typedef std::vector<uint64_t> Model;

struct Solver {
	Exprs&	X;
	Z3_context z = nullptr;
	Z3_solver s = nullptr;
	uint64_t nfast = 0, nq = 0, nsat = 0, nunsat = 0, nunknown = 0, ncache = 0;
	double	tq = 0, tmax = 0;
	unsigned uses = 0, maxUses = 20000;

	std::unordered_map<uint32_t, Z3_ast> lits;
	std::unordered_map<uint32_t, std::vector<std::vector<uint32_t>>> cores;	// condition -> sets of constraints that exclude it
	unsigned rlimit;
	struct CacheE { char r; std::vector<std::pair<uint32_t, uint64_t>> m; };
	struct VH { size_t operator()(const std::vector<uint32_t>& v) const { uint64_t h = v.size(); for (uint32_t x : v) { h ^= x; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; } return h; } };
	std::unordered_map<std::vector<uint32_t>, CacheE, VH> cache;
	std::unordered_map<uint64_t, Z3_ast> symAst;	// (sym<<8|w) -> ast

	Solver(Exprs& x, unsigned rl) : X(x), rlimit(rl) {
		Z3_config c = Z3_mk_config();
		z = Z3_mk_context_rc(c);
		Z3_del_config(c);
		Z3_set_error_handler(z, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "ENGINE: z3 error %s\n", Z3_get_error_msg(c, e)); exit(3); });
		fresh();
	}
	void fresh() {
		if (s) Z3_solver_dec_ref(z, s);
		s = Z3_mk_solver_for_logic(z, Z3_mk_string_symbol(z, "QF_BV"));
		Z3_solver_inc_ref(z, s);
		Z3_params p = Z3_mk_params(z);
		Z3_params_inc_ref(z, p);
		if (rlimit) Z3_params_set_uint(z, p, Z3_mk_string_symbol(z, "rlimit"), rlimit);
		Z3_solver_set_params(z, s, p);
		Z3_params_dec_ref(z, p);
		uses = 0;
		for (auto& l : lits) Z3_dec_ref(z, l.second);
		lits.clear();
	}
	// a literal that implies e, asserted once per solver instance
	Z3_ast litOf(Expr* e) {
		auto it = lits.find(e->id);
		if (it != lits.end()) return it->second;
		Z3_ast b = toBool(e), l = b;
		uses++;
		char nm[24]; snprintf(nm, sizeof nm, "p%u", e->id);
		l = keep(Z3_mk_const(z, Z3_mk_string_symbol(z, nm), Z3_mk_bool_sort(z)));
		Z3_ast im = Z3_mk_implies(z, l, b);
		Z3_inc_ref(z, im); Z3_solver_assert(z, s, im); Z3_dec_ref(z, im);
		return lits[e->id] = l;
	}
	std::map<std::pair<uint64_t, unsigned>, Z3_ast> nums;
	// an expression is kept alive by the references held here: the C interface only protects its last result
	Z3_ast num(uint64_t v, unsigned w) { Z3_ast& a = nums[{v, w}]; if (!a) a = keep(Z3_mk_unsigned_int64(z, v, keepSort(w))); return a; }
	std::map<unsigned, Z3_sort> sorts;
	Z3_sort keepSort(unsigned w) { Z3_sort& s = sorts[w]; if (!s) { s = Z3_mk_bv_sort(z, w); Z3_inc_ref(z, Z3_sort_to_ast(z, s)); } return s; }
	Z3_ast keep(Z3_ast a) { Z3_inc_ref(z, a); return a; }
	Z3_ast symOf(unsigned n, unsigned w) {
		uint64_t key = (uint64_t)n << 8 | w;
		auto it = symAst.find(key);
		if (it != symAst.end()) return it->second;
		char nm[32]; snprintf(nm, sizeof nm, "s%u_%u", n, w);
		Z3_ast a = keep(Z3_mk_const(z, Z3_mk_string_symbol(z, nm), keepSort(w)));
		symAst[key] = a;
		return a;
	}
	Z3_ast toBool(Expr* e) {
		if (e->zbool) return (Z3_ast)e->zbool;
		Z3_ast r, t[2];
		switch (e->k) {
		case EConst: r = e->v ? Z3_mk_true(z) : Z3_mk_false(z); break;
		case EEq: if (e->a->w == 1) r = Z3_mk_eq(z, toBool(e->a), toBool(e->b)); else r = Z3_mk_eq(z, toBV(e->a), toBV(e->b)); break;
		case EUlt: r = Z3_mk_bvult(z, toBV(e->a), toBV(e->b)); break;
		case EUle: r = Z3_mk_bvule(z, toBV(e->a), toBV(e->b)); break;
		case ESlt: r = Z3_mk_bvslt(z, toBV(e->a), toBV(e->b)); break;
		case ESle: r = Z3_mk_bvsle(z, toBV(e->a), toBV(e->b)); break;
		case EAnd: t[0] = toBool(e->a); t[1] = toBool(e->b); r = Z3_mk_and(z, 2, t); break;
		case EOr: t[0] = toBool(e->a); t[1] = toBool(e->b); r = Z3_mk_or(z, 2, t); break;
		case EXor: if (e->b->k == EConst) r = e->b->v ? Z3_mk_not(z, toBool(e->a)) : toBool(e->a);
			else r = Z3_mk_xor(z, toBool(e->a), toBool(e->b)); break;
		case EIte: r = Z3_mk_ite(z, toBool(e->a), toBool(e->b), toBool(e->c)); break;
		default: r = Z3_mk_eq(z, toBV(e), num(1, 1)); break;
		}
		e->zbool = keep(r);
		return r;
	}
	Z3_ast toBV(Expr* e) {
		if (e->zbv) return (Z3_ast)e->zbv;
		Z3_ast r;
		if (e->w == 1 && (Exprs::isCmp(e->k) || e->k == EAnd || e->k == EOr || e->k == EXor || e->k == EIte)) {
			r = Z3_mk_ite(z, toBool(e), num(1, 1), num(0, 1));
			e->zbv = keep(r);
			return r;
		}
		Z3_ast A = e->a && e->k != EIte ? toBV(e->a) : nullptr, B = e->b ? toBV(e->b) : nullptr;
		switch (e->k) {
		case EConst: r = num(e->v, e->w); break;
		case ESym: r = symOf(e->v, e->w); break;
		case EAdd: r = Z3_mk_bvadd(z, A, B); break;
		case ESub: r = Z3_mk_bvsub(z, A, B); break;
		case EMul: r = nullptr;
			for (int sw = 0; sw < 2 && !r; sw++) {	// a constant with few bits: shifts and adds
				Expr* c = sw ? e->a : e->b; Z3_ast o = sw ? B : A;
				if (c->k != EConst || __builtin_popcountll(c->v) > 3) continue;
				for (unsigned i = 0; i < e->w; i++) if (c->v >> i & 1) {
					Z3_ast t = o;
					if (i) { Z3_ast lo = num(0, i), hi = keep(Z3_mk_extract(z, e->w - 1 - i, 0, o)); t = keep(Z3_mk_concat(z, hi, lo)); Z3_dec_ref(z, hi); }
					r = r ? keep(Z3_mk_bvadd(z, r, t)) : t;
				}
			}
			if (!r) r = Z3_mk_bvmul(z, A, B);
			break;
		case EUDiv: r = Z3_mk_bvudiv(z, A, B); break;
		case ESDiv: r = Z3_mk_bvsdiv(z, A, B); break;
		case EURem: r = Z3_mk_bvurem(z, A, B); break;
		case ESRem: r = Z3_mk_bvsrem(z, A, B); break;
		case EAnd: r = Z3_mk_bvand(z, A, B); break;
		case EOr: r = Z3_mk_bvor(z, A, B); break;
		case EXor: r = Z3_mk_bvxor(z, A, B); break;
		case EShl: r = Z3_mk_bvshl(z, A, B); break;
		case ELShr: r = Z3_mk_bvlshr(z, A, B); break;
		case EAShr: r = Z3_mk_bvashr(z, A, B); break;
		case EIte: r = Z3_mk_ite(z, toBool(e->a), B, toBV(e->c)); break;
		case EConcat: r = Z3_mk_concat(z, A, B); break;
		case EExtract: r = Z3_mk_extract(z, e->v + e->w - 1, e->v, A); break;
		case EZExt: r = Z3_mk_zero_ext(z, e->w - e->a->w, A); break;
		case ESExt: r = Z3_mk_sign_ext(z, e->w - e->a->w, A); break;
		default: fprintf(stderr, "ENGINE: toBV kind %d\n", e->k); exit(3);
		}
		e->zbv = keep(r);
		return r;
	}
	std::unordered_map<uint32_t, uint8_t> symW;	// width last used for a symbol in the current query
	void collectSyms(Expr* e, std::vector<std::pair<uint32_t, uint8_t>>& out, std::unordered_set<Expr*>& seen) {
		if (e->k == EConst || !seen.insert(e).second) return;
		if (e->k == ESym) { out.push_back({(uint32_t)e->v, e->w}); return; }
		if (e->a) collectSyms(e->a, out, seen);
		if (e->b) collectSyms(e->b, out, seen);
		if (e->c) collectSyms(e->c, out, seen);
	}
	// Is cond satisfiable together with cs? On sat, m is updated to a model of both.
	// Returns 1 sat, 0 unsat, -1 unknown
	bool	crosscheck = false;
	int check(const std::vector<Expr*>& cs, Expr* cond, Model& m, bool assertion = false) {
		if (cond->k == EConst) return cond->v ? 1 : 0;
		int one = assertion ? -1 : X.oneSym(cond);
		if (one >= 0) {		// every constraint on this symbol concerns it alone: decide by its exact value set
			Expr* sy = X.findSym(cond);
			Exprs::Iv d, t;
			bool ok = X.truth(cond, sy->w, d);
			for (size_t i = 0; ok && !d.empty() && i < cs.size(); i++)
				if (cs[i]->syms.test(one)) {
					if (X.oneSym(cs[i]) != one || !X.truth(cs[i], sy->w, t)) ok = false;
					else d = Exprs::ivAnd(d, t);
				}
			if (ok) {
				nfast++;
				int r = !d.empty();
				Model mz;
				if ((crosscheck || nfast % 256 == 1) && r != checkZ(cs, cond, mz)) { fprintf(stderr, "ENGINE: value set disagrees with z3\n"); exit(3); }
				if (r) { if (m.size() <= (size_t)one) m.resize(one + 1, 0); m[one] = d[0].first; }
				return r;
			}
		}
		return checkZ(cs, cond, m);
	}
	int checkZ(const std::vector<Expr*>& cs, Expr* cond, Model& m) {
		SymSet S = cond->syms;
		std::vector<Expr*> slice;
		std::vector<char> used(cs.size(), 0);
		for (bool ch = true; ch; ) {
			ch = false;
			for (size_t i = 0; i < cs.size(); i++)
				if (!used[i] && cs[i]->syms.intersects(S)) {
					used[i] = 1; slice.push_back(cs[i]);
					if (!S.contains(cs[i]->syms)) { S.merge(cs[i]->syms); ch = true; }
				}
		}
		std::vector<uint32_t> key;
		for (Expr* e : slice) key.push_back(e->id);
		std::sort(key.begin(), key.end());
		key.erase(std::unique(key.begin(), key.end()), key.end());
		key.push_back(cond->id);
		auto it = cache.find(key);
		if (it != cache.end()) {
			ncache++;
			if (it->second.r == 1) for (auto& p : it->second.m) { if (m.size() <= p.first) m.resize(p.first + 1, 0); m[p.first] = p.second; }
			return it->second.r;
		}
		auto& cv = cores[cond->id];		// unsatisfiable subsets found earlier
		for (auto& c : cv) if (std::includes(key.begin(), key.end() - 1, c.begin(), c.end())) { ncache++; return 0; }
		double t0 = nowS();
		if (uses > maxUses) fresh();
		Z3_solver_push(z, s);
		std::vector<Z3_ast> as;
		std::unordered_map<Z3_ast, uint32_t> back;
		as.push_back(litOf(cond));
		for (Expr* e : slice) { Z3_ast l = litOf(e); if (back.emplace(l, e->id).second) as.push_back(l); }
		Z3_lbool r = Z3_solver_check_assumptions(z, s, as.size(), as.data());
		if (r == Z3_L_FALSE) {
			Z3_ast_vector uc = Z3_solver_get_unsat_core(z, s);
			Z3_ast_vector_inc_ref(z, uc);
			std::vector<uint32_t> c;
			for (unsigned i = 0; i < Z3_ast_vector_size(z, uc); i++) { auto b = back.find(Z3_ast_vector_get(z, uc, i)); if (b != back.end()) c.push_back(b->second); }
			Z3_ast_vector_dec_ref(z, uc);
			std::sort(c.begin(), c.end());
			if (cv.size() < 64) cv.push_back(c);
		}
		CacheE ce;
		if (r == Z3_L_TRUE) {
			ce.r = 1; nsat++;
			Z3_model zm = Z3_solver_get_model(z, s);
			Z3_model_inc_ref(z, zm);
			std::vector<std::pair<uint32_t, uint8_t>> sy; std::unordered_set<Expr*> seen;
			collectSyms(cond, sy, seen);
			for (Expr* e : slice) collectSyms(e, sy, seen);
			for (auto& p : sy) {
				Z3_ast v = nullptr; uint64_t x = 0;
				if (Z3_model_eval(z, zm, symOf(p.first, p.second), true, &v) && v) Z3_get_numeral_uint64(z, v, &x);
				ce.m.push_back({p.first, x});
				if (m.size() <= p.first) m.resize(p.first + 1, 0);
				m[p.first] = x;
			}
			Z3_model_dec_ref(z, zm);
		} else if (r == Z3_L_FALSE) { ce.r = 0; nunsat++; }
		else { ce.r = -1; nunknown++; }
		double dt = nowS() - t0;
		tq += dt; if (dt > tmax) tmax = dt;
		nq++;
		Z3_solver_pop(z, s, 1);
		for (auto& l : lits) Z3_dec_ref(z, l.second);
		lits.clear();
		if (r == Z3_L_TRUE) {	// every model is re-evaluated on the encoded expressions
			X.stampNo++;
			bool okm = X.evalr(cond, m);
			for (Expr* e : slice) okm = okm && X.evalr(e, m);
			if (!okm) { fprintf(stderr, "ENGINE: z3 model does not satisfy the query (encoding error)\n"); exit(3); }
		}
		if (cache.size() > 400000) { cache.clear(); cores.clear(); }
		cache.emplace(std::move(key), ce);
		return ce.r;
	}
};
