// Models of functions outside the encoded code, and the harness interface.
#pragma once

static std::string cstr(State& s, Val p) {	// best effort, for messages
	std::string o;
	if (p.e) return "?";
	for (int i = 0; i < 300; i++) {
		uint64_t id = p.c >> ADDR_SHIFT; Obj* b = getR(s, id);
		if (!b || p.c - addrOf(id) >= b->size) break;
		Val v = loadAt(s, id, p.c - addrOf(id), 8);
		if (v.e || !v.c) break;
		o += (char)v.c; p.c++;
	}
	return o;
}
static std::set<std::string> internTab;
static const char* intern(const std::string& s) { return internTab.insert(s).first->c_str(); }

// ---- harness interface
static int x_sym(State& s, DInst& d, unsigned w) {
	const char* n = intern(cstr(s, arg(s, d, 0)));
	Expr* e = newSym(s, w);
	s.in.push_back(Input{n, w, e, 0});
	setRet(s, d, VE(e));
	return NEXT;
}
static int x_choose(State& s, DInst& d) {
	const char* nm = intern(cstr(s, arg(s, d, 0)));
	Val n = norm(s, arg(s, d, 1));
	if (n.e) concretize(s, n, 32);
	if (n.c == 0) { nPaths++; return DEAD; }
	Frame f0 = Frame(); (void)f0;
	for (uint64_t i = n.c; i-- > 1; ) {
		State* q = fork(s);
		q->in.push_back(Input{nm, 32, nullptr, i});
		if (d.dst >= 0) q->top().r[d.dst] = V(i);
		q->top().pc++;
	}
	s.in.push_back(Input{nm, 32, nullptr, 0});
	setRet(s, d, V(0));
	return NEXT;
}
static int x_assume(State& s, DInst& d) {
	Val c = arg(s, d, 0);
	unsigned w = d.aw[0];
	Expr* e = w == 1 ? toE(c, 1) : X.bnot(X.bin(EEq, toE(c, w), X.cst(0, w)));
	if (e->k == EConst) { if (!e->v) { nKilled++; return DEAD; } return NEXT; }
	int t, f; Model mt, mf;
	sides(s, e, t, f, mt, mf);
	if (!t) { nKilled++; return DEAD; }
	addC(s, e); s.m = mt;
	return NEXT;
}
static int x_check(State& s, DInst& d) {
	Val c = arg(s, d, 0);
	unsigned w = d.aw[0];
	Expr* e = w == 1 ? toE(c, 1) : X.bnot(X.bin(EEq, toE(c, w), X.cst(0, w)));
	nChecks++;
	if (e->k != EConst) nChecksSym++;
	int t, f; Model mt, mf;
	sides(s, e, t, f, mt, mf, true);
	if (f) {
		violation(s, "property", cstr(s, arg(s, d, 1)), mf);
		if (!t) return DEAD;
		addC(s, e); s.m = mt;
	} else if (e->k != EConst) addC(s, e);		// implied: cheap to keep for later simplification
	return NEXT;
}
static int x_fresh(State& s, DInst& d, unsigned w) { setRet(s, d, VE(newSym(s, w))); return NEXT; }	// defined by assumptions, not an input
static int x_symbolic(State& s, DInst& d) { Val v = norm(s, arg(s, d, 0)); setRet(s, d, V(v.e ? 1 : 0)); return NEXT; }
static int x_expect_abort(State& s, DInst& d) { s.expectAbort = true; return NEXT; }
static int i_vastart(State& s, DInst& d) {	// every variable argument in the overflow area, one 8-byte slot each
	Val p = arg(s, d, 0);
	size_t n = s.top().va.size();
	uint64_t o = newObj(s, n ? n * 8 : 8, OStack, ANone, true);
	s.top().allocas.push_back(o >> ADDR_SHIFT);
	for (size_t i = 0; i < n; i++) if (!storeV(s, V(o + i * 8), 64, s.top().va[i])) return DEAD;
	if (!storeV(s, p, 32, V(48))) return DEAD;
	p = norm(s, p);
	if (!storeV(s, V(p.c + 4), 32, V(304)) || !storeV(s, V(p.c + 8), 64, V(o)) || !storeV(s, V(p.c + 16), 64, V(0))) return DEAD;
	return NEXT;
}
static int i_vacopy(State& s, DInst& d) {
	Val a = norm(s, arg(s, d, 0)), b = norm(s, arg(s, d, 1));
	for (int i = 0; i < 24; i += 8) { Val v; if (!loadV(s, V(b.c + i), 64, v) || !storeV(s, V(a.c + i), 64, v)) return DEAD; }
	return NEXT;
}
static int x_reach(State& s, DInst& d) { reached.insert(cstr(s, arg(s, d, 0))); return NEXT; }
static int x_note(State& s, DInst& d) { s.notes.push_back(cstr(s, arg(s, d, 0))); return NEXT; }
static int x_out(State& s, DInst& d) { s.outs.push_back(arg(s, d, 0)); s.outw.push_back(d.aw[0]); return NEXT; }
static int x_heap(State& s, DInst& d) { setRet(s, d, V(s.heapBytes)); return NEXT; }
static int x_fork(State& s, DInst& d) {	// return the argument, forked over all its values
	Val v = arg(s, d, 0); concretize(s, v, 64); setRet(s, d, v); return NEXT;
}
static int x_is_engine(State& s, DInst& d) { setRet(s, d, V(1)); return NEXT; }
static int x_done(State& s, DInst& d) {	// end this path
	nKilled++; return DEAD;
}

// ---- memory
static int x_alloc(State& s, DInst& d, AKind k) {
	Val n = norm(s, arg(s, d, 0));
	if (n.e) concretize(s, n, 64);
	if (n.c > OBJ_MAX) { violation(s, "memory", "allocation of an absurd size", s.m); return DEAD; }
	setRet(s, d, V(newObj(s, n.c, OHeap, k, true)));
	return NEXT;
}
static int x_calloc(State& s, DInst& d) {
	Val n = norm(s, arg(s, d, 0)), m = norm(s, arg(s, d, 1));
	if (n.e) concretize(s, n, 64);
	if (m.e) concretize(s, m, 64);
	setRet(s, d, V(newObj(s, n.c * m.c, OHeap, AMalloc, false)));
	return NEXT;
}
static bool raceAccess(State& s, uint64_t a, uint64_t n, bool w);
static bool raceAtomic(State& s, uint64_t a, uint64_t n);
static bool raceAt(State& s, const Val& p, bool w) { return !optRace || s.th.size() < 2 || p.e || raceAccess(s, p.c, 4, w); }
static int x_free(State& s, DInst& d, AKind k) {
	Val p = norm(s, arg(s, d, 0));
	if (p.e) concretize(s, p, 64);
	if (!p.c) return NEXT;
	uint64_t id = p.c >> ADDR_SHIFT;
	Obj* o = getR(s, id);
	if (!o) { violation(s, "memory", id >= 1 && id < s.nextId ? "double free" : "free of a wild pointer", s.m); return DEAD; }
	if (o->kind != OHeap || p.c != addrOf(id)) { violation(s, "memory", "free of memory that was not allocated on the heap (or not at its start)", s.m); return DEAD; }
	if (o->ak != k) { violation(s, "memory", "mismatched allocation and release (new/new[]/malloc)", s.m); return DEAD; }
	if (optRace && s.th.size() > 1 && !raceAccess(s, p.c, o->size, true)) return DEAD;
	freeObj(s, id);
	return NEXT;
}
static int x_realloc(State& s, DInst& d) {
	Val p = norm(s, arg(s, d, 0)), n = norm(s, arg(s, d, 1));
	if (p.e) concretize(s, p, 64);
	if (n.e) concretize(s, n, 64);
	uint64_t na = newObj(s, n.c, OHeap, AMalloc, true);
	if (p.c) {
		uint64_t id = p.c >> ADDR_SHIFT; Obj* o = getR(s, id);
		if (!o || o->kind != OHeap || p.c != addrOf(id) || o->ak != AMalloc) { violation(s, "memory", "realloc of an invalid pointer", s.m); return DEAD; }
		Obj* t = getW(s, na >> ADDR_SHIFT);
		for (uint64_t i = 0; i < o->size && i < n.c; i++) {
			t->d[i] = o->d[i]; t->u[i] = o->u.empty() ? 0 : o->u[i];
			if (!o->s.empty() && o->s[i]) { if (t->s.empty()) t->s.assign(t->size, nullptr); t->s[i] = o->s[i]; }
		}
		freeObj(s, id);
	}
	setRet(s, d, V(na));
	return NEXT;
}
static int x_memmove(State& s, DInst& d) {
	Val dst = norm(s, arg(s, d, 0)), src = norm(s, arg(s, d, 1)), n = norm(s, arg(s, d, 2));
	if (n.e) concretize(s, n, d.aw[2]);
	if (d.dst >= 0) setRet(s, d, dst);
	if (n.c == 0) return NEXT;
	if (n.c > OBJ_MAX) { violation(s, "memory", "block move of an absurd size", s.m); return DEAD; }
	if (dst.e) concretize(s, dst, 64);
	if (src.e) concretize(s, src, 64);
	uint64_t i1, i2; Val o1, o2;
	if (!resolve(s, src, n.c, false, i2, o2, "read")) return DEAD;
	if (!resolve(s, dst, n.c, true, i1, o1, "write")) return DEAD;
	if (i1 == i2 && d.imm == 77 && o1.c < o2.c + n.c && o2.c < o1.c + n.c && o1.c != o2.c) { violation(s, "memory", "memcpy on overlapping blocks", s.m); return DEAD; }
	Obj* a = getW(s, i1); Obj* b = getR(s, i2);
	std::vector<uint8_t> D(b->d.begin() + o2.c, b->d.begin() + o2.c + n.c), U;
	std::vector<Expr*> E;
	if (!b->s.empty()) E.assign(b->s.begin() + o2.c, b->s.begin() + o2.c + n.c);
	if (!b->u.empty()) U.assign(b->u.begin() + o2.c, b->u.begin() + o2.c + n.c);
	memcpy(&a->d[o1.c], D.data(), n.c);
	if (!E.empty()) { if (a->s.empty()) a->s.assign(a->size, nullptr); std::copy(E.begin(), E.end(), a->s.begin() + o1.c); }
	else if (!a->s.empty()) std::fill(a->s.begin() + o1.c, a->s.begin() + o1.c + n.c, nullptr);
	if (!U.empty()) { if (a->u.empty()) a->u.assign(a->size, 0); std::copy(U.begin(), U.end(), a->u.begin() + o1.c); }
	else if (!a->u.empty()) std::fill(a->u.begin() + o1.c, a->u.begin() + o1.c + n.c, 0);
	return NEXT;
}
static int x_memset(State& s, DInst& d) {
	Val dst = norm(s, arg(s, d, 0)), v = arg(s, d, 1), n = norm(s, arg(s, d, 2));
	if (n.e) concretize(s, n, d.aw[2]);
	if (d.dst >= 0) setRet(s, d, dst);
	if (n.c == 0) return NEXT;
	if (n.c > OBJ_MAX) { violation(s, "memory", "block fill of an absurd size", s.m); return DEAD; }
	if (dst.e) concretize(s, dst, 64);
	uint64_t id; Val off;
	if (!resolve(s, dst, n.c, true, id, off, "write")) return DEAD;
	Val b = v.e ? VE(X.extract(v.e, 0, 8)) : V(v.c & 255);
	for (uint64_t i = 0; i < n.c; i++) storeAt(s, id, off.c + i, 8, b);
	return NEXT;
}

// ---- aborts
static int x_assertfail(State& s, DInst& d) { if (s.expectAbort) { samplePath(s); return DEAD; } violation(s, "assert", cstr(s, arg(s, d, 0)), s.m); return DEAD; }
static int x_abort(State& s, DInst& d) { if (s.expectAbort) { samplePath(s); return DEAD; } violation(s, "abort", "the program aborts (" + (d.callee ? d.callee->getName().str() : std::string("?")) + ")", s.m); return DEAD; }
static int x_tls(State& s, DInst& d) {
	Val a = norm(s, arg(s, d, 0));
	if (s.cur && !a.e) {
		uint64_t& own = s.tls[{s.cur, a.c}];
		if (!own) {
			auto it = tlsInit.find(a.c);
			if (it == tlsInit.end()) die("thread_local object without initial value");
			own = newObj(s, it->second->size, OGlobal, ANone, false);
			uint64_t id = own >> ADDR_SHIFT;
			Obj* o = getW(s, id); auto rc = o->rc; *o = *it->second.p; o->rc = rc; o->ro = false;
		}
		a.c = own;
	}
	setRet(s, d, a);
	return NEXT;
}
static int x_nop(State& s, DInst& d) { if (d.dst >= 0) for (unsigned i = 0; i < d.nslots; i++) s.top().r[d.dst + i] = V(0); return NEXT; }
static int x_errno(State& s, DInst& d) {
	if (!s.errnoObj) s.errnoObj = newObj(s, 8, OGlobal, ANone, false);
	setRet(s, d, V(s.errnoObj));
	return NEXT;
}
static int x_guard_acquire(State& s, DInst& d) {	// the initialisation of a static local: one thread does it, others wait
	if (!visible(s)) return STAY;
	Val v, p = norm(s, arg(s, d, 0));
	if (!loadV(s, p, 8, v)) return DEAD;
	if (!v.c) {
		Mutex& x = s.mx[p.c];
		if (x.owner >= 0 && x.owner != s.cur) {
			s.th[s.cur].st = TMutex; s.th[s.cur].waitOn = p.c; s.th[s.cur].schedOk = false;
			return switchAway(s) ? STAY : DEAD;
		}
		x.owner = s.cur;
	} else acquireOn(s, p);
	s.th[s.cur].schedOk = false;
	setRet(s, d, V(v.c ? 0 : 1));
	return NEXT;
}
static int x_guard_release(State& s, DInst& d) {
	if (!visible(s)) return STAY;
	Val p = norm(s, arg(s, d, 0));
	if (!storeV(s, p, 8, V(1))) return DEAD;
	s.mx.erase(p.c);
	releaseOn(s, p);
	s.th[s.cur].schedOk = false;
	return NEXT;
}

// ---- threads
static int byTid(State& s, uint64_t t) {	// the live thread, or the last one, of this identity
	for (int i = s.th.size(); i-- > 0; ) if (s.th[i].tid == (int)t - 1) return i;
	return -1;
}
static int freeTid(State& s) {
	int n = 0;
	for (auto& t : s.th) if (t.tid >= n) n = t.tid + 1;
	for (int k = 1; k < n; k++) { int i = byTid(s, k + 1); if (i >= 0 && s.th[i].joined) return k; }
	return n;
}
static int x_thread_create(State& s, DInst& d) {
	if (!visible(s)) return STAY;
	Val tp = arg(s, d, 0), fn = norm(s, arg(s, d, 2)), a = arg(s, d, 3);
	int nt = s.th.size();
	if (nt >= 8) die("too many threads");
	uint64_t k = (fn.c - FN_BASE) / 16;
	if (fn.e || fn.c < FN_BASE || k < 1 || k > fnTab.size()) { violation(s, "memory", "thread with invalid start routine", s.m); return DEAD; }
	int id = freeTid(s);
	if (!storeV(s, tp, 64, V(id + 1))) return DEAD;
	s.th.emplace_back();
	s.th[nt].tid = id;
	s.th[nt].vc = s.th[s.cur].vc;
	s.th[nt].vc.resize(nt + 1, 0);
	s.th[nt].vc[nt] = 1;
	vcTick(s);
	int save = s.cur;
	s.cur = nt;
	DFunc* D = decode(fnTab[k - 1]);
	std::vector<Val> args(1, a);
	pushFrame(s, D, args, nullptr);
	s.cur = save;
	setRet(s, d, V(0));
	s.th[s.cur].schedOk = false;
	return NEXT;
}
static int x_thread_join(State& s, DInst& d) {
	if (!visible(s)) return STAY;
	Val t = norm(s, arg(s, d, 0)), rp = norm(s, arg(s, d, 1));
	int i = t.e ? -1 : byTid(s, t.c);
	if (i < 0 || s.th[i].joined || s.th[i].detached) { setRet(s, d, V(3)); s.th[s.cur].schedOk = false; return NEXT; }	// ESRCH
	if (i == s.cur) { setRet(s, d, V(35)); s.th[s.cur].schedOk = false; return NEXT; }
	if (s.th[i].st != TDone) {
		s.th[s.cur].st = TJoin; s.th[s.cur].waitOn = i; s.th[s.cur].schedOk = false;
		return switchAway(s) ? STAY : DEAD;
	}
	vcJoin(s.th[s.cur].vc, s.th[i].vc);
	s.th[i].joined = true;
	if (rp.e || rp.c) if (!storeV(s, rp, 64, s.th[i].ret)) return DEAD;
	setRet(s, d, V(0));
	s.th[s.cur].schedOk = false;
	return NEXT;
}
static int x_thread_self(State& s, DInst& d) { setRet(s, d, V(s.th[s.cur].tid + 1)); return NEXT; }
static int x_thread_detach(State& s, DInst& d) { Val t = norm(s, arg(s, d, 0)); int i = t.e ? -1 : byTid(s, t.c); if (i >= 0) s.th[i].detached = true; setRet(s, d, V(0)); return NEXT; }
static int x_thread_exit(State& s, DInst& d) {
	s.th[s.cur].ret = arg(s, d, 0);
	while (s.th[s.cur].fr.size() > 0) { for (uint64_t id : s.top().allocas) if (getR(s, id)) freeObj(s, id); s.th[s.cur].fr.pop_back(); }
	return threadEnd(s);
}
static int x_mutexattr_settype(State& s, DInst& d) { if (!raceAt(s, norm(s, arg(s, d, 0)), true)) return DEAD; if (!storeV(s, arg(s, d, 0), 32, arg(s, d, 1))) return DEAD; setRet(s, d, V(0)); return NEXT; }
static int x_mutexattr_init(State& s, DInst& d) { if (!raceAt(s, norm(s, arg(s, d, 0)), true)) return DEAD; if (!storeV(s, arg(s, d, 0), 32, V(0))) return DEAD; setRet(s, d, V(0)); return NEXT; }
static int x_mutex_init(State& s, DInst& d) {
	Val m = norm(s, arg(s, d, 0)), a = norm(s, arg(s, d, 1));
	if (!storeV(s, m, 32, V(0)) || !raceAt(s, m, true) || (a.c && !raceAt(s, a, false))) return DEAD;
	Mutex x;
	if (a.c) { Val t; if (!loadV(s, a, 32, t)) return DEAD; x.type = t.c; }
	s.mx[m.c] = x;
	setRet(s, d, V(0));
	return NEXT;
}
static int x_mutex_destroy(State& s, DInst& d) {
	Val m = norm(s, arg(s, d, 0));
	if (!raceAt(s, m, true)) return DEAD;
	s.mx.erase(m.c);
	setRet(s, d, V(0));
	return NEXT;
}
static bool mutexOk(State& s, Val m) {
	uint64_t id; Val off;
	return resolve(s, m, 8, false, id, off, "mutex access") && raceAtomic(s, m.c, 4);
}
static int x_mutex_lock(State& s, DInst& d) {
	if (!visible(s)) return STAY;
	Val m = norm(s, arg(s, d, 0));
	if (!mutexOk(s, m)) return DEAD;
	Mutex& x = s.mx[m.c];
	if (x.owner == s.cur) {
		if (x.type == 2) { setRet(s, d, V(35)); s.th[s.cur].schedOk = false; return NEXT; }	// errorcheck: EDEADLK
		if (x.type == 1) { x.count++; setRet(s, d, V(0)); s.th[s.cur].schedOk = false; return NEXT; }
	}
	if (x.owner >= 0) {
		s.th[s.cur].st = TMutex; s.th[s.cur].waitOn = m.c; s.th[s.cur].schedOk = false;
		return switchAway(s) ? STAY : DEAD;
	}
	x.owner = s.cur; x.count = 1;
	vcJoin(s.th[s.cur].vc, x.vc);
	setRet(s, d, V(0));
	s.th[s.cur].schedOk = false;
	return NEXT;
}
static int x_mutex_trylock(State& s, DInst& d) {
	if (!visible(s)) return STAY;
	Val m = norm(s, arg(s, d, 0));
	if (!mutexOk(s, m)) return DEAD;
	Mutex& x = s.mx[m.c];
	if (x.owner < 0) { x.owner = s.cur; x.count = 1; vcJoin(s.th[s.cur].vc, x.vc); setRet(s, d, V(0)); }
	else if (x.owner == s.cur && x.type == 1) { x.count++; setRet(s, d, V(0)); }
	else setRet(s, d, V(16));
	s.th[s.cur].schedOk = false;
	return NEXT;
}
static int x_mutex_unlock(State& s, DInst& d) {
	if (!visible(s)) return STAY;
	Val m = norm(s, arg(s, d, 0));
	if (!mutexOk(s, m)) return DEAD;
	Mutex& x = s.mx[m.c];
	s.th[s.cur].schedOk = false;
	if (x.owner != s.cur) { setRet(s, d, V(1)); return NEXT; }	// EPERM
	if (--x.count == 0) { x.owner = -1; x.vc = s.th[s.cur].vc; vcTick(s); }
	setRet(s, d, V(0));
	return NEXT;
}
static int x_cond_wait(State& s, DInst& d, bool timed) {
	Thread& t = s.th[s.cur];
	Val c = norm(s, arg(s, d, 0)), m = norm(s, arg(s, d, 1));
	if (t.phase == 0) {
		if (!visible(s)) return STAY;
		if (!mutexOk(s, c) || !mutexOk(s, m)) return DEAD;
		Mutex& x = s.mx[m.c];
		if (x.owner != s.cur) { violation(s, "lock", "condition wait without holding its mutex", s.m); return DEAD; }
		x.owner = -1; x.count = 0; x.vc = t.vc; vcTick(s);
		if (timed) {
			Val ts = norm(s, arg(s, d, 2)), a, b;
			if (!loadV(s, ts, 64, a) || !loadV(s, V(ts.c + 8), 64, b)) return DEAD;
			s.dlS = a; s.dlN = b;
		}
		t.st = TCond; t.waitOn = c.c; t.signalled = timed; t.timed = timed; t.timedOut = timed; t.phase = 1; t.schedOk = false;
		return switchAway(s) ? STAY : DEAD;
	}
	// woken: reacquire the mutex
	Mutex& x = s.mx[m.c];
	if (x.owner >= 0) { t.st = TMutex; t.waitOn = m.c; t.schedOk = false; return switchAway(s) ? STAY : DEAD; }
	x.owner = s.cur; x.count = 1;
	vcJoin(t.vc, x.vc);
	t.phase = 0; t.signalled = false;
	setRet(s, d, V(timed && t.timedOut ? 110 : 0));
	t.schedOk = false;
	return NEXT;
}
static int x_cond_signal(State& s, DInst& d, bool all) {
	if (!visible(s)) return STAY;
	Val c = norm(s, arg(s, d, 0));
	if (!mutexOk(s, c)) return DEAD;
	std::vector<int> w;
	for (size_t i = 0; i < s.th.size(); i++) if (s.th[i].st == TCond && s.th[i].waitOn == c.c && (!s.th[i].signalled || s.th[i].timedOut)) w.push_back(i);
	if (all) for (int i : w) { s.th[i].signalled = true; s.th[i].timedOut = false; }
	else if (!w.empty()) {
		for (size_t k = 1; k < w.size(); k++) {
			State* n = fork(s);
			n->th[w[k]].signalled = true; n->th[w[k]].timedOut = false;
			n->in.push_back(Input{"wake", 8, nullptr, (uint64_t)w[k]});
			if (d.dst >= 0) n->top().r[d.dst] = V(0);
			n->th[n->cur].schedOk = false;
			n->top().pc++;
		}
		s.in.push_back(Input{"wake", 8, nullptr, (uint64_t)w[0]});
		s.th[w[0]].signalled = true; s.th[w[0]].timedOut = false;
	}
	setRet(s, d, V(0));
	s.th[s.cur].schedOk = false;
	return NEXT;
}
static bool raceAccess(State& s, uint64_t a, uint64_t n, bool w) {
	auto& vc = s.th[s.cur].vc;
	auto hb = [&](int t, uint32_t c) { return t == s.cur || ((int)vc.size() > t && vc[t] >= c); };
	for (uint64_t i = 0; i < n; i++) {
		Shadow& h = s.shadow[a + i];
		if (h.wt >= 0 && !hb(h.wt, h.wc)) { violation(s, "race", "data race: unsynchronised access to memory another thread wrote", s.m); return false; }
		if (w) {
			for (auto& r : h.rd) if (!hb(r.first, r.second)) { violation(s, "race", "data race: unsynchronised write to memory another thread read", s.m); return false; }
			h.rd.clear(); h.wt = s.cur; h.wc = vc[s.cur];
		} else {
			bool f = false;
			for (auto& r : h.rd) if (r.first == s.cur) { r.second = vc[s.cur]; f = true; }
			if (!f) h.rd.push_back({s.cur, vc[s.cur]});
		}
	}
	return true;
}
static int x_tsan(State& s, DInst& d, unsigned n, bool w) {
	if (!optRace || s.th.size() < 2) return NEXT;
	Val p = norm(s, arg(s, d, 0));
	if (p.e) return NEXT;
	return raceAccess(s, p.c, n, w) ? NEXT : DEAD;
}

// Atomic operations of code compiled with -fsanitize=thread. Values are sequentially consistent; an operation orders
// other accesses only as far as its memory order says.
static bool moAcq(Val o) { return o.c == 1 || o.c == 2 || o.c >= 4; }
static bool moRel(Val o) { return o.c >= 3; }
static bool raceAtomic(State& s, uint64_t a, uint64_t n) {
	if (!optRace || s.th.size() < 2) return true;
	auto& vc = s.th[s.cur].vc;
	for (uint64_t i = 0; i < n; i++) {
		Shadow& h = s.shadow[a + i];
		if (h.wt >= 0 && h.wt != s.cur && !((int)vc.size() > h.wt && vc[h.wt] >= h.wc)) { violation(s, "race", "data race: atomic access to memory another thread wrote", s.m); return false; }
		bool f = false;
		for (auto& r : h.rd) if (r.first == s.cur) { r.second = vc[s.cur]; f = true; }
		if (!f) h.rd.push_back({s.cur, vc[s.cur]});
	}
	return true;
}
// Fences: an acquire fence takes over what relaxed loads before it read, a release fence lets relaxed stores after it publish.
static void looseLoad(State& s, Val a) { if (s.th.size() < 2 || a.e) return; auto it = s.syncvc.find(a.c); if (it != s.syncvc.end()) vcJoin(s.th[s.cur].facq, it->second); }
static void looseStore(State& s, Val a) { if (a.e || s.th[s.cur].frel.empty()) return; vcJoin(s.syncvc[a.c], s.th[s.cur].frel); }
static int x_fence(State& s, DInst& d) {
	Val mo = arg(s, d, 0);
	Thread& t = s.th[s.cur];
	if (moAcq(mo)) vcJoin(t.vc, t.facq);
	if (moRel(mo)) { t.frel = t.vc; if (s.th.size() >= 2) vcTick(s); }
	return NEXT;
}
static int x_yield(State& s, DInst& d) {	// another thread that can run goes on
	Thread& t = s.th[s.cur];
	if (d.dst >= 0) setRet(s, d, V(0));
	if (t.phase == 1) { t.phase = 0; t.schedOk = false; return NEXT; }
	std::vector<int> en;
	for (size_t i = 0; i < s.th.size(); i++) if ((int)i != s.cur && enabled(s, i)) en.push_back(i);
	if (en.empty()) return NEXT;
	t.phase = 1; t.schedOk = false;
	for (size_t k = en.size(); k-- > 0; ) {
		State& n = k ? *fork(s) : s;
		n.cur = en[k]; n.th[en[k]].st = TRun; n.th[en[k]].schedOk = true;
		logSched(n, en[k]); nSched++;
	}
	return STAY;
}
enum { AtLoad, AtStore, AtXchg, AtAdd, AtSub, AtAnd, AtOr, AtXor, AtCas, AtCasVal };
static int x_atomic(State& s, DInst& d, unsigned w, int op) {
	if (!visible(s)) return STAY;
	Val p = norm(s, arg(s, d, 0)), old, nv;
	if (p.e) concretize(s, p, 64);
	if (!loadV(s, p, w, old)) return DEAD;
	if (!raceAtomic(s, p.c, w / 8)) return DEAD;
	Val v = op == AtLoad ? V(0) : arg(s, d, op >= AtCas ? 2 : 1);
	Val mo = arg(s, d, op == AtLoad ? 1 : op >= AtCas ? 3 : 2);
	if (op >= AtCas) {
		Val c = arg(s, d, 1);
		if (op == AtCas) { Val q = c; if (!loadV(s, q, w, c)) return DEAD; }
		bool b = decide(s, X.bin(EEq, toE(old, w), toE(c, w)));
		if (moAcq(b ? mo : arg(s, d, 4))) acquireOn(s, p); else looseLoad(s, p);
		if (b) { if (moRel(mo)) releaseOn(s, p); else looseStore(s, p); if (!storeV(s, p, w, v)) return DEAD; }
		if (op == AtCas) { if (!b && !storeV(s, arg(s, d, 1), w, old)) return DEAD; setRet(s, d, V(b)); }
		else setRet(s, d, old);
	} else if (op == AtLoad) { if (moAcq(mo)) acquireOn(s, p); else looseLoad(s, p); setRet(s, d, old); }
	else if (op == AtStore) {
		s.syncvc.erase(p.c);
		if (moRel(mo)) releaseOn(s, p); else looseStore(s, p);
		if (!storeV(s, p, w, v)) return DEAD;
	} else {
		if (moAcq(mo)) acquireOn(s, p); else looseLoad(s, p);
		if (moRel(mo)) releaseOn(s, p); else looseStore(s, p);
		Expr *x = toE(old, w), *y = toE(v, w);
		nv = op == AtXchg ? v : VE(X.bin(op == AtAdd ? EAdd : op == AtSub ? ESub : op == AtAnd ? EAnd : op == AtOr ? EOr : EXor, x, y));
		if (!storeV(s, p, w, nv)) return DEAD;
		setRet(s, d, old);
	}
	s.th[s.cur].schedOk = false;
	return NEXT;
}
static int x_tsan_block(State& s, DInst& d, bool fill) {
	Val dst = norm(s, arg(s, d, 0)), src = fill ? V(0) : norm(s, arg(s, d, 1)), n = norm(s, arg(s, d, 2));
	if (n.e) concretize(s, n, d.aw[2]);
	if (optRace && s.th.size() > 1 && n.c <= OBJ_MAX) {
		if (!fill && !src.e && !raceAccess(s, src.c, n.c, false)) return DEAD;
		if (!dst.e && !raceAccess(s, dst.c, n.c, true)) return DEAD;
	}
	return fill ? x_memset(s, d) : x_memmove(s, d);
}
// The clock only moves forward, by an amount chosen by the solver within what the harness assumes.
static int x_clock_gettime(State& s, DInst& d) {
	Val ts = norm(s, arg(s, d, 1));
	if (!storeV(s, ts, 64, s.nowS)) return DEAD;
	if (!storeV(s, V(ts.c + 8), 64, s.nowN)) return DEAD;
	setRet(s, d, V(0));
	return NEXT;
}
static int x_gettimeofday(State& s, DInst& d) {
	Val tv = norm(s, arg(s, d, 0));
	if (!storeV(s, tv, 64, s.nowS)) return DEAD;
	if (!storeV(s, V(tv.c + 8), 64, VE(X.bin(EUDiv, toE(s.nowN, 64), X.cst(1000, 64))))) return DEAD;
	setRet(s, d, V(0));
	return NEXT;
}
static int x_time(State& s, DInst& d) {
	Val p = norm(s, arg(s, d, 0));
	if (p.e || p.c) if (!storeV(s, p, 64, s.nowS)) return DEAD;
	setRet(s, d, s.nowS);
	return NEXT;
}
static int x_unjoined(State& s, DInst& d) { int n = 0; for (size_t i = 1; i < s.th.size(); i++) if (!s.th[i].joined && !s.th[i].detached) n++; setRet(s, d, V(n)); return NEXT; }
static int x_set_clock(State& s, DInst& d) { s.nowS = arg(s, d, 0); s.nowN = arg(s, d, 1); return NEXT; }
static int x_deadline(State& s, DInst& d) { setRet(s, d, arg(s, d, 0).c ? s.dlN : s.dlS); return NEXT; }

// ---- intrinsics
static int i_minmax(State& s, DInst& d, Kind k, bool sw) {
	Val a = arg(s, d, 0), b = arg(s, d, 1);
	Expr *x = toE(a, d.w), *y = toE(b, d.w);
	Expr* c = sw ? X.bin(k, y, x) : X.bin(k, x, y);
	setRet(s, d, VE(X.ite(c, x, y)));
	return NEXT;
}
static Expr* addOvf(Expr* x, Expr* y, unsigned w, Kind k, bool sg, Expr*& ov) {
	Expr* r = X.bin(k, x, y);
	Expr* z = X.cst(0, w);
	if (!sg) {
		if (k == EAdd) ov = X.bin(EUlt, r, x);
		else if (k == ESub) ov = X.bin(EUlt, x, y);
		else if (w <= 32) { Expr* p = X.bin(EMul, X.zext(x, 2 * w), X.zext(y, 2 * w)); ov = X.bnot(X.bin(EEq, X.extract(p, w, w), z)); }
		else if (y->k == EConst) ov = y->v ? X.bin(EUlt, X.cst(maskw(w) / y->v, w), x) : X.cst(0, 1);
		else die("wide multiply overflow");
	} else {
		Expr *sxx = X.bin(ESlt, x, z), *sy = X.bin(ESlt, y, z), *sr = X.bin(ESlt, r, z);
		if (k == EAdd) ov = X.bin(EAnd, X.bin(EEq, sxx, sy), X.bnot(X.bin(EEq, sr, sxx)));
		else if (k == ESub) ov = X.bin(EAnd, X.bnot(X.bin(EEq, sxx, sy)), X.bnot(X.bin(EEq, sr, sxx)));
		else if (w <= 32) { Expr* p = X.bin(EMul, X.sext(x, 2 * w), X.sext(y, 2 * w)); ov = X.bnot(X.bin(EEq, p, X.sext(r, 2 * w))); }
		else if (y->k == EConst && sx(y->v, w) > 0) {
			int64_t q = sx(y->v, w), mx = (int64_t)(maskw(w) >> 1), mn = -mx - 1;
			ov = X.bin(EOr, X.bin(ESlt, X.cst(mx / q, w), x), X.bin(ESlt, x, X.cst(mn / q, w)));
		} else die("wide multiply overflow");
	}
	return r;
}
static int i_ovf(State& s, DInst& d, Kind k, bool sg) {
	unsigned w = d.aw[0]; Expr* ov;
	Expr* r = addOvf(toE(arg(s, d, 0), w), toE(arg(s, d, 1), w), w, k, sg, ov);
	s.top().r[d.dst] = norm(s, VE(r)); s.top().r[d.dst + 1] = norm(s, VE(ov));
	return NEXT;
}
static int i_fsh(State& s, DInst& d, bool left) {
	Val c = norm(s, arg(s, d, 2)); unsigned w = d.w;
	if (c.e) concretize(s, c, w);
	unsigned k = c.c % w;
	Expr *a = toE(arg(s, d, 0), w), *b = toE(arg(s, d, 1), w);
	Expr* r = k == 0 ? (left ? a : b) : left ? X.bin(EOr, X.bin(EShl, a, X.cst(k, w)), X.bin(ELShr, b, X.cst(w - k, w)))
		: X.bin(EOr, X.bin(EShl, a, X.cst(w - k, w)), X.bin(ELShr, b, X.cst(k, w)));
	setRet(s, d, VE(r));
	return NEXT;
}

static void registerExterns() {
#define E(n, f) exts[n] = [](State& s, DInst& d) -> int { return f; }
	E("sv_u8", x_sym(s, d, 8)); E("sv_u16", x_sym(s, d, 16)); E("sv_u32", x_sym(s, d, 32)); E("sv_u64", x_sym(s, d, 64));
	E("sv_choose", x_choose(s, d)); E("sv_assume", x_assume(s, d)); E("sv_check", x_check(s, d)); E("sv_reach", x_reach(s, d)); E("sv_note", x_note(s, d));
	E("sv_heap", x_heap(s, d)); E("sv_out", x_out(s, d)); E("sv_fork", x_fork(s, d)); E("sv_is_engine", x_is_engine(s, d)); E("sv_done", x_done(s, d));
	E("malloc", x_alloc(s, d, AMalloc)); E("_Znwm", x_alloc(s, d, ANew)); E("_Znam", x_alloc(s, d, ANewArr)); E("calloc", x_calloc(s, d)); E("realloc", x_realloc(s, d));
	E("_ZnwmRKSt9nothrow_t", x_alloc(s, d, ANew)); E("_ZnamRKSt9nothrow_t", x_alloc(s, d, ANewArr));
	E("free", x_free(s, d, AMalloc)); E("_ZdlPv", x_free(s, d, ANew)); E("_ZdlPvm", x_free(s, d, ANew)); E("_ZdaPv", x_free(s, d, ANewArr)); E("_ZdaPvm", x_free(s, d, ANewArr));
	E("memcpy", x_memmove(s, d)); E("memmove", x_memmove(s, d)); E("memset", x_memset(s, d));
	E("__assert_fail", x_assertfail(s, d)); E("sv_expect_abort", x_expect_abort(s, d)); E("__sv_fresh8", x_fresh(s, d, 8)); E("__sv_symbolic", x_symbolic(s, d));
	for (const char* n : {"abort", "_ZSt9terminatev", "_ZSt17__throw_bad_allocv", "_ZSt20__throw_length_errorPKc", "_ZSt28__throw_bad_array_new_lengthv", "_ZSt24__throw_out_of_range_fmtPKcz", "_ZSt20__throw_out_of_rangePKc", "_ZSt19__throw_logic_errorPKc", "exit", "__cxa_pure_virtual", "_ZSt25__throw_bad_function_callv", "__cxa_throw_bad_array_new_length"})
		exts[n] = [](State& s, DInst& d) -> int { return x_abort(s, d); };
	for (const char* n : {"printf", "fprintf", "puts", "putchar", "fputs", "fputc", "fwrite", "fflush", "setvbuf", "__cxa_atexit", "__cxa_thread_atexit", "perror", "usleep", "nanosleep", "pthread_attr_init", "pthread_attr_destroy", "pthread_cond_destroy", "pthread_mutexattr_destroy",
		"__tsan_init", "__tsan_func_entry", "__tsan_func_exit", "pthread_condattr_init"})
		exts[n] = [](State& s, DInst& d) -> int { return x_nop(s, d); };
	E("__errno_location", x_errno(s, d));
	E("__cxa_guard_acquire", x_guard_acquire(s, d)); E("__cxa_guard_release", x_guard_release(s, d));
	E("getpid", (setRet(s, d, V(4242)), NEXT));
	E("pthread_create", x_thread_create(s, d)); E("pthread_join", x_thread_join(s, d)); E("pthread_self", x_thread_self(s, d)); E("pthread_detach", x_thread_detach(s, d)); E("pthread_exit", x_thread_exit(s, d));
	E("pthread_mutexattr_init", x_mutexattr_init(s, d)); E("pthread_mutexattr_settype", x_mutexattr_settype(s, d));
	E("pthread_mutex_init", x_mutex_init(s, d)); E("pthread_mutex_destroy", x_mutex_destroy(s, d)); E("pthread_mutex_lock", x_mutex_lock(s, d)); E("pthread_mutex_trylock", x_mutex_trylock(s, d)); E("pthread_mutex_unlock", x_mutex_unlock(s, d));
	E("pthread_cond_init", x_nop(s, d)); E("pthread_cond_wait", x_cond_wait(s, d, false)); E("pthread_cond_timedwait", x_cond_wait(s, d, true)); E("pthread_cond_signal", x_cond_signal(s, d, false)); E("pthread_cond_broadcast", x_cond_signal(s, d, true));
	E("__tsan_atomic_thread_fence", x_fence(s, d)); E("sched_yield", x_yield(s, d)); E("__tsan_atomic_signal_fence", x_nop(s, d));
	E("__tsan_read1", x_tsan(s, d, 1, false)); E("__tsan_read2", x_tsan(s, d, 2, false)); E("__tsan_read4", x_tsan(s, d, 4, false)); E("__tsan_read8", x_tsan(s, d, 8, false)); E("__tsan_read16", x_tsan(s, d, 16, false));
	E("__tsan_write1", x_tsan(s, d, 1, true)); E("__tsan_write2", x_tsan(s, d, 2, true)); E("__tsan_write4", x_tsan(s, d, 4, true)); E("__tsan_write8", x_tsan(s, d, 8, true)); E("__tsan_write16", x_tsan(s, d, 16, true));
	E("__tsan_unaligned_read2", x_tsan(s, d, 2, false)); E("__tsan_unaligned_read4", x_tsan(s, d, 4, false)); E("__tsan_unaligned_read8", x_tsan(s, d, 8, false)); E("__tsan_unaligned_read16", x_tsan(s, d, 16, false));
	E("__tsan_unaligned_write2", x_tsan(s, d, 2, true)); E("__tsan_unaligned_write4", x_tsan(s, d, 4, true)); E("__tsan_unaligned_write8", x_tsan(s, d, 8, true)); E("__tsan_unaligned_write16", x_tsan(s, d, 16, true));
	E("__tsan_vptr_read", x_tsan(s, d, 8, false)); E("__tsan_vptr_update", x_tsan(s, d, 8, true));
	E("__tsan_memcpy", x_tsan_block(s, d, false)); E("__tsan_memmove", x_tsan_block(s, d, false)); E("__tsan_memset", x_tsan_block(s, d, true));
#define AT(w) E("__tsan_atomic" #w "_load", x_atomic(s, d, w, AtLoad)); E("__tsan_atomic" #w "_store", x_atomic(s, d, w, AtStore)); E("__tsan_atomic" #w "_exchange", x_atomic(s, d, w, AtXchg)); \
	E("__tsan_atomic" #w "_fetch_add", x_atomic(s, d, w, AtAdd)); E("__tsan_atomic" #w "_fetch_sub", x_atomic(s, d, w, AtSub)); E("__tsan_atomic" #w "_fetch_and", x_atomic(s, d, w, AtAnd)); E("__tsan_atomic" #w "_fetch_or", x_atomic(s, d, w, AtOr)); E("__tsan_atomic" #w "_fetch_xor", x_atomic(s, d, w, AtXor)); \
	E("__tsan_atomic" #w "_compare_exchange_strong", x_atomic(s, d, w, AtCas)); E("__tsan_atomic" #w "_compare_exchange_weak", x_atomic(s, d, w, AtCas)); E("__tsan_atomic" #w "_compare_exchange_val", x_atomic(s, d, w, AtCasVal));
	AT(8) AT(16) AT(32) AT(64)
#undef AT
	E("clock_gettime", x_clock_gettime(s, d)); E("gettimeofday", x_gettimeofday(s, d)); E("time", x_time(s, d)); E("sv_unjoined", x_unjoined(s, d)); E("sv_set_clock", x_set_clock(s, d)); E("sv_deadline", x_deadline(s, d));
#undef E
#define I(n, f) intrs[Intrinsic::n] = [](State& s, DInst& d) -> int { return f; }
	I(memcpy, x_memmove(s, d)); I(memmove, x_memmove(s, d)); I(memset, x_memset(s, d)); I(memcpy_inline, x_memmove(s, d));
	I(umin, i_minmax(s, d, EUlt, false)); I(umax, i_minmax(s, d, EUlt, true)); I(smin, i_minmax(s, d, ESlt, false)); I(smax, i_minmax(s, d, ESlt, true));
	I(uadd_with_overflow, i_ovf(s, d, EAdd, false)); I(sadd_with_overflow, i_ovf(s, d, EAdd, true));
	I(usub_with_overflow, i_ovf(s, d, ESub, false)); I(ssub_with_overflow, i_ovf(s, d, ESub, true));
	I(umul_with_overflow, i_ovf(s, d, EMul, false)); I(smul_with_overflow, i_ovf(s, d, EMul, true));
	I(fshl, i_fsh(s, d, true)); I(fshr, i_fsh(s, d, false));
	I(vastart, i_vastart(s, d)); I(vaend, x_nop(s, d)); I(vacopy, i_vacopy(s, d));
	I(trap, x_abort(s, d)); I(ubsantrap, x_abort(s, d));
	I(expect, (setRet(s, d, arg(s, d, 0)), NEXT));
	I(returnaddress, x_nop(s, d)); I(stacksave, x_nop(s, d)); I(stackrestore, x_nop(s, d));
	I(is_constant, (setRet(s, d, V(0)), NEXT));
	I(threadlocal_address, x_tls(s, d));
	intrs[Intrinsic::abs] = [](State& s, DInst& d) -> int { Expr* x = toE(arg(s, d, 0), d.w); Expr* z = X.cst(0, d.w); setRet(s, d, VE(X.ite(X.bin(ESlt, x, z), X.bin(ESub, z, x), x))); return NEXT; };
	intrs[Intrinsic::usub_sat] = [](State& s, DInst& d) -> int { Expr *x = toE(arg(s, d, 0), d.w), *y = toE(arg(s, d, 1), d.w); setRet(s, d, VE(X.ite(X.bin(EUlt, x, y), X.cst(0, d.w), X.bin(ESub, x, y)))); return NEXT; };
	intrs[Intrinsic::uadd_sat] = [](State& s, DInst& d) -> int { Expr *x = toE(arg(s, d, 0), d.w), *y = toE(arg(s, d, 1), d.w), *r = X.bin(EAdd, x, y); setRet(s, d, VE(X.ite(X.bin(EUlt, r, x), X.cst(maskw(d.w), d.w), r))); return NEXT; };
	intrs[Intrinsic::bswap] = [](State& s, DInst& d) -> int { Expr* x = toE(arg(s, d, 0), d.w); Expr* r = nullptr; for (unsigned i = 0; i < d.w / 8; i++) { Expr* b = X.extract(x, i * 8, 8); r = r ? X.concat(r, b) : b; } setRet(s, d, VE(r)); return NEXT; };
	intrs[Intrinsic::ctpop] = [](State& s, DInst& d) -> int { Expr* x = toE(arg(s, d, 0), d.w); Expr* r = X.cst(0, d.w); for (unsigned i = 0; i < d.w; i++) r = X.bin(EAdd, r, X.zext(X.extract(x, i, 1), d.w)); setRet(s, d, VE(r)); return NEXT; };
	auto clz = [](State& s, DInst& d) -> int { Expr* x = toE(arg(s, d, 0), d.w); Expr* r = X.cst(d.w, d.w); for (unsigned i = 0; i < d.w; i++) r = X.ite(X.bin(EEq, X.extract(x, i, 1), X.cst(1, 1)), X.cst(d.w - 1 - i, d.w), r); setRet(s, d, VE(r)); return NEXT; };
	auto ctz = [](State& s, DInst& d) -> int { Expr* x = toE(arg(s, d, 0), d.w); Expr* r = X.cst(d.w, d.w); for (unsigned i = d.w; i-- > 0; ) r = X.ite(X.bin(EEq, X.extract(x, i, 1), X.cst(1, 1)), X.cst(i, d.w), r); setRet(s, d, VE(r)); return NEXT; };
	intrs[Intrinsic::ctlz] = clz; intrs[Intrinsic::cttz] = ctz;
	intrs[Intrinsic::load_relative] = [](State& s, DInst& d) -> int { Val p = arg(s, d, 0), o = arg(s, d, 1); uint64_t a; Val v; 
		p = norm(s, p); if (p.e) concretize(s, p, 64);
		Val q = o.e ? VE(X.bin(EAdd, X.cst(p.c, 64), X.sext(o.e, 64))) : V(p.c + (uint64_t)sx(o.c, d.aw[1])); (void)a;
		if (!loadV(s, q, 32, v)) return DEAD;
		setRet(s, d, v.e ? VE(X.bin(EAdd, X.cst(p.c, 64), X.sext(v.e, 64))) : V(p.c + (uint64_t)sx(v.c, 32))); return NEXT; };
#undef I
}
