// symx: a symbolic executor for LLVM IR (clang 18) with z3 as decision procedure.
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/CFG.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/CommandLine.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <atomic>
#include <map>
#include <set>
#include <functional>
#include <sstream>

using namespace llvm;

static Exprs	X;
static Solver*	S;
static const DataLayout* DL;
static Module*	M;

// ---------------------------------------------------------------- options
static double	optTime = 600;
static int	optJobs = 8;
static uint64_t	optMaxSteps = 20000000;
static int	optMaxViol = 1;
static std::string optOut;
static int	optPreempt = 2;
static uint64_t	optMemMB = 3500;
static bool	optTrace = false;
static bool	optLateCtors = false;
static bool	optRace = false;
static bool	optSpurious = false;
static double	T0;
static unsigned	optSamples = 12, optSeed = 1;
static bool optForkSelect = false;
static bool optCross = false;
static uint64_t	rng = 88172645463325252ull, nDone = 0;
static uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }

// ---------------------------------------------------------------- values
struct Val { uint64_t c; Expr* e; };
static inline Val V(uint64_t c) { return Val{c, nullptr}; }
static inline Val VE(Expr* e) { if (e->k == EConst) return Val{e->v, nullptr}; return Val{0, e}; }
static inline Expr* toE(const Val& v, unsigned w) { return v.e ? v.e : X.cst(v.c, w); }

// ---------------------------------------------------------------- memory
static const uint64_t ADDR_SHIFT = 24, OBJ_BASE = 0x400000, OBJ_MAX = 0x800000;
static const uint64_t FN_BASE = 0x7F00000000000000ull;
enum OKind : uint8_t { OGlobal, OStack, OHeap };
enum AKind : uint8_t { AMalloc, ANew, ANewArr, ANone };
struct Obj {
	int	rc = 0;
	uint32_t size = 0;
	OKind	kind = OGlobal;
	AKind	ak = ANone;
	bool	ro = false;
	std::vector<uint8_t> d;
	std::vector<Expr*> s;		// symbolic bytes, empty if none
	std::vector<uint8_t> u;		// 1 where never written, empty if all written
};
template<class T> struct Ptr {
	T* p = nullptr;
	Ptr() {}
	Ptr(T* x) : p(x) { if (p) p->rc++; }
	Ptr(const Ptr& o) : p(o.p) { if (p) p->rc++; }
	Ptr(Ptr&& o) : p(o.p) { o.p = nullptr; }
	~Ptr() { if (p && --p->rc == 0) delete p; }
	Ptr& operator=(const Ptr& o) { if (o.p) o.p->rc++; if (p && --p->rc == 0) delete p; p = o.p; return *this; }
	Ptr& operator=(Ptr&& o) { std::swap(p, o.p); return *this; }
	T* operator->() const { return p; }
	explicit operator bool() const { return p; }
};
struct Chunk { int rc = 0; Ptr<Obj> o[64]; Chunk() {} Chunk(const Chunk& c) { for (int i = 0; i < 64; i++) o[i] = c.o[i]; } };

// ---------------------------------------------------------------- decoded code
struct DOp { int reg; Val c; std::vector<Val>* agg; };
struct DFunc;
struct DBlock;
typedef int (*Ext)(struct State&, struct DInst&);
struct DInst {
	unsigned opc = 0;
	int	dst = -1;
	unsigned w = 0;			// result width (scalar)
	unsigned ow = 0;		// operand width
	unsigned nslots = 0;
	unsigned sub = 0;		// predicate / intrinsic id / rmw op
	uint64_t imm = 0;
	std::vector<DOp> ops;
	std::vector<uint64_t> scale;	// gep scales; switch cases; access slots
	std::vector<unsigned> gw;	// gep index widths
	DBlock*	succ[2] = {nullptr, nullptr};
	std::vector<DBlock*> cases;
	Instruction* I = nullptr;
	Function* callee = nullptr;
	DFunc*	dcallee = nullptr;
	Ext	ext = nullptr;
	std::vector<std::pair<unsigned,unsigned>> layout;	// load/store: (byte offset, width) per slot
	std::vector<unsigned> aw;	// arg widths
	std::vector<uint64_t> byval;	// byval sizes per arg (0 if none)
};
struct DPhi { int dst; unsigned n; std::vector<std::pair<DBlock*, DOp>> in; };
struct DBlock { BasicBlock* bb; DFunc* f; std::vector<DPhi> phis; std::vector<DInst> ins; bool covered = false; };
struct DFunc { Function* F; unsigned nregs = 0; std::vector<std::unique_ptr<DBlock>> blocks; std::vector<int> argSlot; std::vector<unsigned> argN; bool decoded = false; };

struct Frame {
	DFunc*	f; DBlock* b; unsigned pc;
	std::vector<Val> r;
	std::vector<uint64_t> allocas;
	DInst*	call = nullptr;		// call instruction in the caller
	std::vector<Val> va;		// variable arguments
};
enum TStat : uint8_t { TRun, TMutex, TCond, TJoin, TDone };
struct Thread {
	std::vector<Frame> fr;
	TStat	st = TRun;
	uint64_t waitOn = 0;		// mutex address / cond address / joined tid
	bool	signalled = false, timed = false, timedOut = false;
	bool	schedOk = false;	// the scheduler already let the pending visible operation go
	int	phase = 0;		// for multi-step operations (cond_wait)
	bool	joined = false, detached = false;
	int	tid = 0;			// what pthread_self gives, less one; a joined thread's is used again
	Val	ret = {0, nullptr};
	std::vector<uint32_t> vc;	// vector clock
	std::vector<uint32_t> facq, frel;	// what an acquire fence would take over; what the last release fence lets relaxed stores publish
};
struct Mutex { int owner = -1; int count = 0; int type = 0; bool alive = true; std::vector<uint32_t> vc; };
struct Shadow { int wt = -1; uint32_t wc = 0; std::vector<std::pair<int, uint32_t>> rd; };
struct Input { const char* name; unsigned w; Expr* e; uint64_t c; };

struct State {
	std::vector<Thread> th;
	int	cur = 0;
	int	preempt = 0;
	std::vector<Ptr<Chunk>> mem;
	uint64_t nextId = 1;
	std::vector<Expr*> cs;
	SymSet	pinned;
	bool	anyPinned = false;
	Model	m;
	unsigned nsym = 0;
	std::vector<Input> in;
	uint64_t steps = 0;
	uint64_t heapBytes = 0, heapObjs = 0;
	std::map<uint64_t, Mutex> mx;
	std::map<uint64_t, std::vector<uint32_t>> syncvc;	// release clocks of atomics
	std::map<uint64_t, Shadow> shadow;
	std::map<std::pair<int, uint64_t>, uint64_t> tls;	// a thread's own copy of a thread_local object
	std::map<uint64_t, uint64_t> conds;		// live condition variables
	std::vector<std::string> notes;
	std::vector<Val> outs; std::vector<unsigned> outw;
	uint64_t errnoObj = 0;
	Val	nowS = {0, nullptr}, nowN = {0, nullptr}, dlS = {0, nullptr}, dlN = {0, nullptr};	// clock; deadline of the last timed wait
	bool	expectAbort = false;	// an assertion failure is the outcome the harness asked for
	int	depth = 0;
	State() { pinned.clear(); }
	Frame& top() { return th[cur].fr.back(); }
};

// ---------------------------------------------------------------- globals of a worker
struct Shared { std::atomic<int> active, stop, incomplete, workers; std::atomic<long> viols; std::atomic<uint64_t> vkeys[256]; };
static Shared*	SH;
static std::vector<State*> stack_;
static std::vector<pid_t> kids;
static uint64_t	nPaths = 0, nForks = 0, nSteps = 0, nChecks = 0, nKilled = 0, nChecksSym = 0, nAccess = 0, nSched = 0;
static std::set<std::string> reached;
static std::set<const DILocation*> seenLoc;
static std::set<const void*> seenSub;
static std::vector<std::string> samples;
static std::set<std::string> violKeys;
static std::string incompleteWhy;
static double	lastSplit = 0;
static std::unordered_map<const Function*, DFunc*> funcs;
static std::unordered_map<const Value*, uint64_t> gaddr;
static std::vector<Function*> fnTab;
static std::unordered_map<uint64_t, Ptr<Obj>> tlsInit;	// thread_local objects as a thread first finds them
static uint64_t	nGlobals = 0;

[[noreturn]] static void die(const std::string& s, Instruction* I = nullptr) {
	fprintf(stderr, "ENGINE: %s\n", s.c_str());
	if (I) { std::string t; raw_string_ostream o(t); I->print(o); if (I->getFunction()) o << "  in " << demangle(I->getFunction()->getName().str()); fprintf(stderr, "  at %s\n", o.str().c_str()); }
	SH->stop = 2;
	SH->incomplete = 1;
	FILE* f = fopen((optOut + ".err").c_str(), "a");
	if (f) { fprintf(f, "%s\n", s.c_str()); fclose(f); }
	_exit(3);
}

static std::string jstr(const std::string& s) {
	std::string o = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
		else o += c;
	}
	return o + "\"";
}
static void emit(const std::string& line) {
	int fd = open(optOut.c_str(), O_WRONLY | O_APPEND | O_CREAT, 0644);
	std::string l = line + "\n";
	if (fd < 0 || write(fd, l.data(), l.size()) != (ssize_t)l.size()) fprintf(stderr, "ENGINE: cannot write results\n");
	close(fd);
}

// ---------------------------------------------------------------- memory operations
static inline uint64_t addrOf(uint64_t id) { return (id << ADDR_SHIFT) + OBJ_BASE; }
static Obj* getR(State& s, uint64_t id) {
	uint64_t c = id >> 6;
	if (c >= s.mem.size() || !s.mem[c]) return nullptr;
	return s.mem[c]->o[id & 63].p;
}
static Obj* getW(State& s, uint64_t id) {
	Ptr<Chunk>& c = s.mem[id >> 6];
	if (c->rc > 1) c = Ptr<Chunk>(new Chunk(*c.p));
	Ptr<Obj>& o = c->o[id & 63];
	if (o->rc > 1) { Obj* n = new Obj(*o.p); n->rc = 0; o = Ptr<Obj>(n); }
	return o.p;
}
static uint64_t newObj(State& s, uint64_t size, OKind k, AKind ak, bool undef) {
	if (size > OBJ_MAX) die("object too large: " + std::to_string(size));
	uint64_t id = s.nextId++;
	uint64_t c = id >> 6;
	if (c >= s.mem.size()) s.mem.resize(c + 1);
	if (!s.mem[c]) s.mem[c] = Ptr<Chunk>(new Chunk);
	else if (s.mem[c]->rc > 1) s.mem[c] = Ptr<Chunk>(new Chunk(*s.mem[c].p));
	Obj* o = new Obj;
	o->size = size; o->kind = k; o->ak = ak;
	o->d.assign(size, 0);
	if (undef) o->u.assign(size, 1);
	s.mem[c]->o[id & 63] = Ptr<Obj>(o);
	if (k == OHeap) { s.heapBytes += size; s.heapObjs++; }
	return addrOf(id);
}
static void freeObj(State& s, uint64_t id) {
	Obj* o = getR(s, id);
	if (o->kind == OHeap) { s.heapBytes -= o->size; s.heapObjs--; }
	Ptr<Chunk>& c = s.mem[id >> 6];
	if (c->rc > 1) c = Ptr<Chunk>(new Chunk(*c.p));
	c->o[id & 63] = Ptr<Obj>();
}

static Expr* newSym(State& s, unsigned w) {
	Expr* e = X.sym(s.nsym++, w);
	if (s.m.size() < s.nsym) s.m.resize(s.nsym, 0);
	s.m[s.nsym - 1] = 0;
	return e;
}
static inline Expr* loadByteE(State& s, uint64_t id, Obj*& o, uint64_t off) {
	if (!o->u.empty() && o->u[off]) {
		o = getW(s, id);
		Expr* e = newSym(s, 8);
		if (o->s.empty()) o->s.assign(o->size, nullptr);
		o->s[off] = e;
		o->u[off] = 0;
		return e;
	}
	if (!o->s.empty() && o->s[off]) return o->s[off];
	return nullptr;
}
static Val loadAt(State& s, uint64_t id, uint64_t off, unsigned w) {	// in bounds; w bits
	Obj* o = getR(s, id);
	unsigned n = (w + 7) / 8;
	if (o->s.empty() && o->u.empty()) {
		uint64_t v = 0;
		memcpy(&v, &o->d[off], n);
		return V(v & maskw(w));
	}
	bool any = false;
	Expr* b[8];
	for (unsigned i = 0; i < n; i++) { b[i] = loadByteE(s, id, o, off + i); if (b[i]) any = true; }
	if (!any) { uint64_t v = 0; memcpy(&v, &o->d[off], n); return V(v & maskw(w)); }
	Expr* r = nullptr;
	for (unsigned i = 0; i < n; i++) {
		Expr* e = b[i] ? b[i] : X.cst(o->d[off + i], 8);
		r = r ? X.concat(e, r) : e;
	}
	if (w < n * 8) r = X.extract(r, 0, w);
	return VE(r);
}
static void storeAt(State& s, uint64_t id, uint64_t off, unsigned w, Val v) {
	Obj* o = getW(s, id);
	unsigned n = (w + 7) / 8;
	if (!o->u.empty()) memset(&o->u[off], 0, n);
	if (!v.e) {
		uint64_t c = v.c & maskw(w);
		memcpy(&o->d[off], &c, n);
		if (!o->s.empty()) for (unsigned i = 0; i < n; i++) o->s[off + i] = nullptr;
		return;
	}
	if (o->s.empty()) o->s.assign(o->size, nullptr);
	Expr* e = v.e;
	if (e->w < n * 8) e = X.zext(e, n * 8);
	for (unsigned i = 0; i < n; i++) {
		Expr* b = X.extract(e, i * 8, 8);
		if (b->k == EConst) { o->d[off + i] = b->v; o->s[off + i] = nullptr; }
		else o->s[off + i] = b;
	}
}

// ---------------------------------------------------------------- path condition
static void addC(State& s, Expr* c) {
	if (c->k == EConst) return;
	if (c->k == EAnd && c->w == 1) { addC(s, c->a); addC(s, c->b); return; }
	s.cs.push_back(c);
	if (c->k == EEq && c->b->k == EConst && c->a->k == ESym) { s.pinned.set(c->a->v); s.anyPinned = true; }
	else if (c->w == 1 && c->k == ESym) { s.pinned.set(c->v); s.anyPinned = true; }
}
static inline Val norm(State& s, Val v) {
	if (v.e && s.anyPinned && s.pinned.contains(v.e->syms)) return V(X.eval(v.e, s.m));
	return v;
}
static void timeCheck();
static const char* optUnknownNote = "";
// feasibility of both sides of a condition; fills models
static void sides(State& s, Expr* c, int& t, int& f, Model& mt, Model& mf, bool assertion = false) {
	if (c->k == EConst) { t = c->v; f = !c->v; mt = mf = s.m; return; }
	if (s.anyPinned && s.pinned.contains(c->syms)) { bool b = X.eval(c, s.m); t = b; f = !b; mt = mf = s.m; return; }
	bool b = X.eval(c, s.m);
	Model& other = b ? mf : mt;
	other = s.m;
	int r = S->check(s.cs, b ? X.bnot(c) : c, other, assertion);
	if (r < 0) {	// unknown: give up on completeness
		SH->incomplete = 1; incompleteWhy = "solver returned unknown";
		r = 0;
	}
	(b ? mt : mf) = s.m;
	t = b ? 1 : r; f = b ? r : 1;
}

static std::string where(State& s) {
	std::string o;
	int n = 0;
	for (size_t i = s.th[s.cur].fr.size(); i-- > 0 && n < 12; ) {
		Frame& f = s.th[s.cur].fr[i];
		unsigned pc = f.pc < f.b->ins.size() ? f.pc : f.b->ins.size() - 1;
		if (i + 1 < s.th[s.cur].fr.size() && pc > 0) pc--;
		Instruction* I = f.b->ins[pc].I;
		const DILocation* L = I ? I->getDebugLoc().get() : nullptr;
		if (!L) { o += (o.empty() ? "" : " < ") + demangle(f.f->F->getName().str()); n++; continue; }
		for (; L && n < 12; L = L->getInlinedAt(), n++) {
			std::string fn = L->getScope()->getSubprogram()->getName().str();
			std::string file = L->getFilename().str();
			size_t k = file.rfind('/');
			if (k != std::string::npos) file = file.substr(k + 1);
			o += (o.empty() ? "" : " < ") + fn + "@" + file + ":" + std::to_string(L->getLine());
		}
	}
	return o;
}
static std::string inputsJson(State& s, const Model& m) {
	std::string o = "[";
	X.stampNo++;
	for (size_t i = 0; i < s.in.size(); i++) {
		uint64_t v = s.in[i].e ? X.evalr(s.in[i].e, m) : s.in[i].c;
		o += (i ? "," : "") + std::string("[") + jstr(s.in[i].name) + "," + std::to_string(s.in[i].w) + "," + std::to_string(v) + "]";
	}
	return o + "]";
}
static void violation(State& s, const std::string& kind, const std::string& msg, const Model& m) {
	std::string w = where(s);
	std::string key = kind + "|" + msg + "|" + w.substr(0, w.find(' '));
	for (auto& n : s.notes) key += "|" + n;
	if (!violKeys.insert(key).second) return;
	uint64_t kh = std::hash<std::string>()(key) | 1;
	for (auto& slot : SH->vkeys) {		// another worker may have reported it
		uint64_t z = 0;
		if (slot.compare_exchange_strong(z, kh)) break;
		if (z == kh) return;
	}
	std::string notes = "[";
	for (size_t i = 0; i < s.notes.size(); i++) notes += (i ? "," : "") + jstr(s.notes[i]);
	notes += "]";
	emit("{\"t\":\"violation\",\"kind\":" + jstr(kind) + ",\"msg\":" + jstr(msg) + ",\"where\":" + jstr(w) + ",\"inputs\":" + inputsJson(s, m) + ",\"notes\":" + notes + "}");
	if (++SH->viols >= optMaxViol) SH->stop = 1;
}

enum { NEXT = 0, RETRY = 1, DEAD = 2, STAY = 3 };	// STAY: control was transferred by the handler

static State* fork(State& s) { nForks++; State* n = new State(s); n->depth++; stack_.push_back(n); return n; }

// decide a condition: returns 1/0; forks the other side (which re-executes the instruction)
static int decide(State& s, Expr* c) {
	int t, f; Model mt, mf;
	sides(s, c, t, f, mt, mf);
	if (t && f) {
		State* n = fork(s);
		addC(*n, X.bnot(c)); n->m = mf;
		addC(s, c); s.m = mt;
		return 1;
	}
	return t;
}
static bool concretize(State& s, Val& v, unsigned w) {	// forks over every feasible value
	if (!v.e) return true;
	v = norm(s, v);
	if (!v.e) return true;
	uint64_t x = X.eval(v.e, s.m);
	Expr* c = X.bin(EEq, v.e, X.cst(x, w));
	int r = decide(s, c);
	if (r != 1) die("concretize: model value infeasible");
	v = V(x);
	return true;
}

// Resolve an access of n bytes at address a. On success id/off set (off may be symbolic).
// The path is killed (violation recorded) when no object can be accessed.
static bool resolve(State& s, Val a, uint64_t n, bool write, uint64_t& id, Val& off, const char* what) {
	nAccess++;
	a = norm(s, a);
	if (!a.e) {
		id = a.c >> ADDR_SHIFT;
		Obj* o = getR(s, id);
		uint64_t of = a.c - addrOf(id);
		if (!o || of > o->size || n > o->size - of || (write && o->ro)) {
			std::string m;
			if (a.c < 4096) m = "null pointer dereference";
			else if (o && write && o->ro && of <= o->size && n <= o->size - of) m = "write to constant memory";
			else if (o) m = std::string("out of bounds ") + what + " of " + (o->kind == OHeap ? "heap" : o->kind == OStack ? "stack" : "global") + " object";
			else if (id < s.nextId && id >= 1) m = std::string("use of freed or dead memory (") + what + ")";
			else m = std::string("wild pointer ") + what;
			violation(s, "memory", m, s.m);
			return false;
		}
		off = V(of);
		return true;
	}
	uint64_t v = X.eval(a.e, s.m);
	id = v >> ADDR_SHIFT;
	Obj* o = getR(s, id);
	uint64_t base = addrOf(id);
	if (!o || n > o->size || v - base > o->size - n || (write && o->ro)) {
		violation(s, "memory", std::string("out of bounds or wild ") + what + " through computed address" + (o ? "" : " (no object)"), s.m);
		// continue with the other addresses
		Expr* c = o && n <= o->size && !(write && o->ro) ? X.bin(EUle, X.bin(ESub, a.e, X.cst(base, 64)), X.cst(o->size - n, 64)) : X.bnot(X.bin(EEq, a.e, X.cst(v, 64)));
		Model m2 = s.m;
		if (S->check(s.cs, c, m2) != 1) return false;
		addC(s, c); s.m = m2;
		return resolve(s, a, n, write, id, off, what);
	}
	Expr* of = X.bin(ESub, a.e, X.cst(base, 64));
	Expr* inb = X.bin(EUle, of, X.cst(o->size - n, 64));
	if (decide(s, inb) != 1) die("resolve: infeasible model");
	off = norm(s, VE(of));
	return true;
}

static Expr* iteTree(State& s, uint64_t id, Expr* off, uint64_t lo, uint64_t step, uint64_t cnt, unsigned w) {
	if (cnt == 1) return toE(loadAt(s, id, lo, w), w);
	uint64_t h = cnt / 2;
	Expr* a = iteTree(s, id, off, lo, step, h, w);
	Expr* b = iteTree(s, id, off, lo + h * step, step, cnt - h, w);
	if (a == b) return a;
	return X.ite(X.bin(EUlt, off, X.cst(lo + h * step, 64)), a, b);
}
static bool loadV(State& s, Val a, unsigned w, Val& out) {
	uint64_t id; Val off;
	unsigned n = (w + 7) / 8;
	if (!resolve(s, a, n, false, id, off, "read")) return false;
	if (off.e) {
		Obj* o = getR(s, id);
		uint64_t lo = off.e->lo, hi = off.e->hi;
		if (hi > o->size - n) hi = o->size - n;
		unsigned tz = Exprs::tz(off.e);
		uint64_t step = tz > 12 ? 4096 : 1ull << tz;
		// candidates congruent to 0 modulo step (tz known-zero bits)
		lo = (lo + step - 1) / step * step;
		if (hi < lo) die("symbolic offset range empty");
		uint64_t cnt = (hi - lo) / step + 1;
		if (cnt > 4096) {	// narrow with the solver
			auto narrow = [&](bool up) {
				uint64_t l = lo, h = hi;
				while (l < h) {
					uint64_t mid = l + (h - l) / 2; Model mm = s.m;
					if (up) { mid = l + (h - l + 1) / 2; if (S->check(s.cs, X.bin(EUle, X.cst(mid, 64), off.e), mm) == 0) h = mid - 1; else l = mid; }
					else { if (S->check(s.cs, X.bin(EUle, off.e, X.cst(mid, 64)), mm) == 0) l = mid + 1; else h = mid; }
				}
				return l;
			};
			uint64_t l2 = narrow(false), h2 = narrow(true);
			lo = (l2 + step - 1) / step * step; hi = h2; cnt = (hi - lo) / step + 1;
		}
		if (cnt > 16384) { if (!concretize(s, off, 64)) return false; }
		else { out = VE(iteTree(s, id, off.e, lo, step, cnt, w)); out = norm(s, out); return true; }
	}
	out = norm(s, loadAt(s, id, off.c, w));
	return true;
}
static bool storeV(State& s, Val a, unsigned w, Val v) {
	uint64_t id; Val off;
	if (!resolve(s, a, (w + 7) / 8, true, id, off, "write")) return false;
	if (off.e) concretize(s, off, 64);
	storeAt(s, id, off.c, w, v);
	return true;
}

// ---------------------------------------------------------------- decoding
static unsigned slotsOf(Type* t) {
	if (t->isVoidTy()) return 0;
	if (auto* st = dyn_cast<StructType>(t)) { unsigned n = 0; for (Type* e : st->elements()) n += slotsOf(e); return n; }
	if (auto* at = dyn_cast<ArrayType>(t)) return at->getNumElements() * slotsOf(at->getElementType());
	if (auto* vt = dyn_cast<FixedVectorType>(t)) return vt->getNumElements() * slotsOf(vt->getElementType());
	return 1;
}
static unsigned widthOf(Type* t) {
	if (t->isPointerTy()) return 64;
	if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); return w; }
	if (t->isDoubleTy()) return 64;
	if (t->isFloatTy()) return 32;
	return 0;
}
static void layoutOf(Type* t, uint64_t off, std::vector<std::pair<unsigned,unsigned>>& out) {
	if (auto* st = dyn_cast<StructType>(t)) { const StructLayout* L = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) layoutOf(st->getElementType(i), off + L->getElementOffset(i), out); return; }
	if (auto* at = dyn_cast<ArrayType>(t)) { uint64_t z = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); i++) layoutOf(at->getElementType(), off + i * z, out); return; }
	if (auto* vt = dyn_cast<FixedVectorType>(t)) { uint64_t z = DL->getTypeAllocSize(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); i++) layoutOf(vt->getElementType(), off + i * z, out); return; }
	out.push_back({(unsigned)off, widthOf(t)});
}
static void constSlots(Constant* c, std::vector<Val>& out);
static uint64_t constScalar(Constant* c) {
	if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) die("wide constant"); return ci->getZExtValue(); }
	if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return 0;
	if (auto* cf = dyn_cast<ConstantFP>(c)) return cf->getValueAPF().bitcastToAPInt().getZExtValue();
	if (auto* f = dyn_cast<Function>(c)) { auto it = gaddr.find(f); if (it != gaddr.end()) return it->second; fnTab.push_back(f); return gaddr[f] = FN_BASE + fnTab.size() * 16; }
	if (auto* g = dyn_cast<GlobalVariable>(c)) { auto it = gaddr.find(g); if (it == gaddr.end()) die("unknown global " + g->getName().str()); return it->second; }
	if (auto* ga = dyn_cast<GlobalAlias>(c)) return constScalar(ga->getAliasee());
	if (auto* ce = dyn_cast<ConstantExpr>(c)) {
		unsigned w = widthOf(ce->getType());
		switch (ce->getOpcode()) {
		case Instruction::GetElementPtr: {
			APInt off(64, 0);
			if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) die("const gep");
			return constScalar(ce->getOperand(0)) + off.getZExtValue();
		}
		case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::ZExt: case Instruction::Trunc:
			return constScalar(ce->getOperand(0)) & maskw(w);
		case Instruction::Sub: return (constScalar(ce->getOperand(0)) - constScalar(ce->getOperand(1))) & maskw(w);
		case Instruction::Add: return (constScalar(ce->getOperand(0)) + constScalar(ce->getOperand(1))) & maskw(w);
		case Instruction::ICmp: {
			uint64_t a = constScalar(ce->getOperand(0)), b = constScalar(ce->getOperand(1));
			if (ce->getPredicate() == CmpInst::ICMP_EQ) return a == b;
			if (ce->getPredicate() == CmpInst::ICMP_NE) return a != b;
		}
		default: break;
		}
	}
	std::string t; raw_string_ostream o(t); c->print(o);
	die("unsupported constant " + o.str());
}
static void constSlots(Constant* c, std::vector<Val>& out) {
	Type* t = c->getType();
	if (t->isAggregateType() || t->isVectorTy()) {
		unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
		for (unsigned i = 0; i < n; i++) constSlots(c->getAggregateElement(i), out);
		return;
	}
	out.push_back(V(constScalar(c)));
}
static bool isExternal(Function* f) { return f->isDeclaration(); }

static std::unordered_map<std::string, Ext> exts;
static std::unordered_map<unsigned, Ext> intrs;

static DFunc* decode(Function* F) {
	DFunc*& df = funcs[F];
	if (df) return df;
	df = new DFunc;
	DFunc* D = df;
	D->F = F;
	std::unordered_map<const Value*, int> slot;
	std::unordered_map<const BasicBlock*, DBlock*> bm;
	unsigned n = 0;
	for (Argument& a : F->args()) { slot[&a] = n; D->argSlot.push_back(n); unsigned k = slotsOf(a.getType()); D->argN.push_back(k); n += k; }
	for (BasicBlock& b : *F) {
		D->blocks.emplace_back(new DBlock);
		D->blocks.back()->bb = &b; D->blocks.back()->f = D;
		bm[&b] = D->blocks.back().get();
		for (Instruction& i : b) { unsigned k = slotsOf(i.getType()); if (k) { slot[&i] = n; n += k; } }
	}
	D->nregs = n;
	auto op = [&](Value* v) -> DOp {
		DOp o{-1, V(0), nullptr};
		if (auto* c = dyn_cast<Constant>(v)) {
			if (c->getType()->isAggregateType() || c->getType()->isVectorTy()) { o.agg = new std::vector<Val>; constSlots(c, *o.agg); }
			else o.c = V(constScalar(c));
			return o;
		}
		if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return o;
		auto it = slot.find(v);
		if (it == slot.end()) { if (v->getType()->isVoidTy() || isa<BasicBlock>(v)) return o; if (slotsOf(v->getType()) == 0) return o; die("operand without slot"); }
		o.reg = it->second;
		return o;
	};
	for (auto& dbp : D->blocks) {
		DBlock* B = dbp.get();
		for (Instruction& I : *B->bb) {
			if (auto* p = dyn_cast<PHINode>(&I)) {
				DPhi ph; ph.dst = slot.count(p) ? slot[p] : -1; ph.n = slotsOf(p->getType());
				for (unsigned i = 0; i < p->getNumIncomingValues(); i++) ph.in.push_back({bm[p->getIncomingBlock(i)], op(p->getIncomingValue(i))});
				B->phis.push_back(std::move(ph));
				continue;
			}
			if (isa<DbgInfoIntrinsic>(&I)) continue;
			if (auto* ii = dyn_cast<IntrinsicInst>(&I)) {
				switch (ii->getIntrinsicID()) {
				case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl:
				case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::sideeffect: case Intrinsic::prefetch: continue;
				default: break;
				}
			}
			B->ins.emplace_back();
			DInst& d = B->ins.back();
			d.I = &I; d.opc = I.getOpcode();
			d.nslots = slotsOf(I.getType());
			d.dst = d.nslots ? slot[&I] : -1;
			d.w = widthOf(I.getType());
			if (d.nslots == 1 && (d.w == 0 || d.w > 64) && !isa<CallInst>(I)) die("unsupported width", &I);
			switch (d.opc) {
			case Instruction::Alloca: {
				auto& a = cast<AllocaInst>(I);
				d.imm = DL->getTypeAllocSize(a.getAllocatedType());
				d.ops.push_back(op(a.getArraySize()));
				d.ow = widthOf(a.getArraySize()->getType());
				break; }
			case Instruction::Load: d.ops.push_back(op(I.getOperand(0))); layoutOf(I.getType(), 0, d.layout);
				d.sub = cast<LoadInst>(I).isAtomic() && !(optRace && I.use_empty()); break;	// -fsanitize=thread leaves the load its call replaces
			case Instruction::Store: d.ops.push_back(op(I.getOperand(0))); d.ops.push_back(op(I.getOperand(1))); layoutOf(I.getOperand(0)->getType(), 0, d.layout);
				d.sub = cast<StoreInst>(I).isAtomic(); break;
			case Instruction::GetElementPtr: {
				d.ops.push_back(op(I.getOperand(0)));
				auto* g = cast<GEPOperator>(&I);
				uint64_t off = 0;
				for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
					Value* ix = it.getOperand();
					if (StructType* st = it.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
					uint64_t z = DL->getTypeAllocSize(it.getIndexedType());
					if (auto* ci = dyn_cast<ConstantInt>(ix)) { off += z * (uint64_t)ci->getSExtValue(); continue; }
					d.ops.push_back(op(ix)); d.scale.push_back(z); d.gw.push_back(widthOf(ix->getType()));
				}
				d.imm = off;
				break; }
			case Instruction::Br: {
				auto& b = cast<BranchInst>(I);
				d.succ[0] = bm[b.getSuccessor(0)];
				if (b.isConditional()) { d.ops.push_back(op(b.getCondition())); d.succ[1] = bm[b.getSuccessor(1)]; }
				break; }
			case Instruction::Switch: {
				auto& sw = cast<SwitchInst>(I);
				d.ow = widthOf(sw.getCondition()->getType());
				d.ops.push_back(op(sw.getCondition()));
				d.succ[0] = bm[sw.getDefaultDest()];
				for (auto& c : sw.cases()) { d.scale.push_back(c.getCaseValue()->getZExtValue()); d.cases.push_back(bm[c.getCaseSuccessor()]); }
				break; }
			case Instruction::ICmp: d.sub = cast<ICmpInst>(I).getPredicate(); d.ow = widthOf(I.getOperand(0)->getType()); d.ops.push_back(op(I.getOperand(0))); d.ops.push_back(op(I.getOperand(1)));
				if (!d.ow) die("vector compare", &I);
				break;
			case Instruction::ExtractValue: case Instruction::InsertValue: {
				bool ex = d.opc == Instruction::ExtractValue;
				Type* t = I.getOperand(0)->getType();
				unsigned k = 0;
				for (unsigned ix : ex ? cast<ExtractValueInst>(I).getIndices() : cast<InsertValueInst>(I).getIndices()) {
					if (auto* st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < ix; j++) k += slotsOf(st->getElementType(j)); t = st->getElementType(ix); }
					else { t = cast<ArrayType>(t)->getElementType(); k += ix * slotsOf(t); }
				}
				d.imm = k; d.sub = slotsOf(t);
				for (Value* v : I.operand_values()) d.ops.push_back(op(v));
				break; }
			case Instruction::Call: {
				auto& c = cast<CallInst>(I);
				Value* cv = c.getCalledOperand()->stripPointerCasts();
				if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
				d.callee = dyn_cast<Function>(cv);
				if (isa<InlineAsm>(cv)) die("inline asm", &I);
				if (!d.callee) d.ops.push_back(op(c.getCalledOperand()));
				for (unsigned i = 0; i < c.arg_size(); i++) {
					d.ops.push_back(op(c.getArgOperand(i)));
					d.aw.push_back(widthOf(c.getArgOperand(i)->getType()));
					d.byval.push_back(c.isByValArgument(i) ? (uint64_t)DL->getTypeAllocSize(c.getParamByValType(i)) : 0);
				}
				if (d.callee && isExternal(d.callee)) {
					if (d.callee->isIntrinsic()) { d.sub = d.callee->getIntrinsicID(); auto it = intrs.find(d.sub); if (it != intrs.end()) d.ext = it->second; }
					else { auto it = exts.find(d.callee->getName().str()); if (it != exts.end()) d.ext = it->second; }
				} else if (d.callee) {
					auto it = exts.find("!" + d.callee->getName().str());	// engine overrides
					if (it != exts.end()) d.ext = it->second;
				}
				break; }
			case Instruction::AtomicRMW: d.sub = cast<AtomicRMWInst>(I).getOperation(); d.ops.push_back(op(I.getOperand(0))); d.ops.push_back(op(I.getOperand(1))); break;
			case Instruction::AtomicCmpXchg: d.ow = widthOf(I.getOperand(1)->getType()); for (Value* v : I.operand_values()) d.ops.push_back(op(v)); break;
			case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr:
				d.ow = widthOf(I.getOperand(0)->getType()); d.ops.push_back(op(I.getOperand(0)));
				if (d.nslots != slotsOf(I.getOperand(0)->getType())) die("unsupported cast", &I);
				break;
			case Instruction::Invoke: die("invoke", &I);
			default:
				for (Value* v : I.operand_values()) d.ops.push_back(op(v));
			}
		}
	}
	D->decoded = true;
	return D;
}

// ---------------------------------------------------------------- execution
static inline Val get(Frame& f, const DOp& o) { return o.reg >= 0 ? f.r[o.reg] : o.c; }
static inline void getN(Frame& f, const DOp& o, unsigned n, Val* out) {
	if (o.agg) { for (unsigned i = 0; i < n; i++) out[i] = (*o.agg)[i]; return; }
	if (o.reg < 0) { for (unsigned i = 0; i < n; i++) out[i] = o.c; return; }
	for (unsigned i = 0; i < n; i++) out[i] = f.r[o.reg + i];
}
static void cover(DBlock* b) {
	if (b->covered) return;
	b->covered = true;
	for (DInst& d : b->ins) {
		const DILocation* L = d.I->getDebugLoc().get();
		for (; L; L = L->getInlinedAt()) { seenLoc.insert(L); seenSub.insert(L->getScope()->getSubprogram()); }
	}
}
static void jump(State& s, DBlock* to) {
	Frame& f = s.top();
	DBlock* from = f.b;
	if (!to->phis.empty()) {
		Val tmp[64]; std::vector<Val> big; Val* t = tmp;
		unsigned tot = 0; for (auto& p : to->phis) tot += p.n;
		if (tot > 64) { big.resize(tot); t = big.data(); }
		unsigned k = 0;
		for (auto& p : to->phis) {
			const DOp* o = nullptr;
			for (auto& q : p.in) if (q.first == from) { o = &q.second; break; }
			if (!o) die("phi without incoming");
			getN(f, *o, p.n, t + k); k += p.n;
		}
		k = 0;
		for (auto& p : to->phis) { for (unsigned i = 0; i < p.n; i++) f.r[p.dst + i] = t[k + i]; k += p.n; }
	}
	f.b = to; f.pc = 0;
	cover(to);
}
static void pushFrame(State& s, DFunc* D, const std::vector<Val>& args, DInst* call) {
	Thread& t = s.th[s.cur];
	if (t.fr.size() > 4000) { violation(s, "recursion", "unbounded recursion", s.m); }
	t.fr.emplace_back();
	Frame& f = t.fr.back();
	f.f = D; f.b = D->blocks[0].get(); f.pc = 0; f.call = call;
	f.r.assign(D->nregs, V(0));
	for (unsigned i = 0; i < args.size() && i < D->nregs; i++) f.r[i] = args[i];
	cover(f.b);
}
static Expr* icmp(unsigned p, Val a, Val b, unsigned w) {
	Expr *x = toE(a, w), *y = toE(b, w);
	switch (p) {
	case CmpInst::ICMP_EQ: return X.bin(EEq, x, y);
	case CmpInst::ICMP_NE: return X.bnot(X.bin(EEq, x, y));
	case CmpInst::ICMP_ULT: return X.bin(EUlt, x, y);
	case CmpInst::ICMP_ULE: return X.bin(EUle, x, y);
	case CmpInst::ICMP_UGT: return X.bin(EUlt, y, x);
	case CmpInst::ICMP_UGE: return X.bin(EUle, y, x);
	case CmpInst::ICMP_SLT: return X.bin(ESlt, x, y);
	case CmpInst::ICMP_SLE: return X.bin(ESle, x, y);
	case CmpInst::ICMP_SGT: return X.bin(ESlt, y, x);
	case CmpInst::ICMP_SGE: return X.bin(ESle, y, x);
	}
	die("icmp");
}
static bool icmpC(unsigned p, uint64_t a, uint64_t b, unsigned w) {
	switch (p) {
	case CmpInst::ICMP_EQ: return a == b;
	case CmpInst::ICMP_NE: return a != b;
	case CmpInst::ICMP_ULT: return a < b;
	case CmpInst::ICMP_ULE: return a <= b;
	case CmpInst::ICMP_UGT: return a > b;
	case CmpInst::ICMP_UGE: return a >= b;
	case CmpInst::ICMP_SLT: return sx(a, w) < sx(b, w);
	case CmpInst::ICMP_SLE: return sx(a, w) <= sx(b, w);
	case CmpInst::ICMP_SGT: return sx(a, w) > sx(b, w);
	case CmpInst::ICMP_SGE: return sx(a, w) >= sx(b, w);
	}
	return false;
}

#include "threads.h"

static Val arg(State& s, DInst& d, unsigned i) { return get(s.top(), d.ops[i]); }
static void setRet(State& s, DInst& d, Val v) { if (d.dst >= 0) s.top().r[d.dst] = v; }

static bool popFrame(State& s, Val* rv, unsigned n) {	// returns true when the thread ended
	Thread& t = s.th[s.cur];
	for (uint64_t id : t.fr.back().allocas) if (getR(s, id)) freeObj(s, id);
	DInst* call = t.fr.back().call;
	Val tmp[16]; for (unsigned i = 0; i < n && i < 16; i++) tmp[i] = rv[i];
	t.fr.pop_back();
	if (t.fr.empty()) { t.ret = n ? tmp[0] : V(0); return true; }
	if (call && call->dst >= 0) { Frame& f = t.fr.back(); for (unsigned i = 0; i < n && i < call->nslots; i++) f.r[call->dst + i] = tmp[i]; }
	return false;
}

// one instruction of the current thread; returns a status
static int step(State& s) {
	Frame& f = s.top();
	DInst& d = f.b->ins[f.pc];
	s.steps++; nSteps++;
	if (optTrace) { std::string t; raw_string_ostream o(t); d.I->print(o); fprintf(stderr, "[%d] %s: %s\n", s.cur, f.f->F->getName().str().c_str(), o.str().c_str()); }
	switch (d.opc) {
	case Instruction::Alloca: {
		Val n = norm(s, get(f, d.ops[0]));
		if (n.e) concretize(s, n, d.ow);
		uint64_t a = newObj(s, d.imm * n.c, OStack, ANone, true);
		f.allocas.push_back(a >> ADDR_SHIFT);
		f.r[d.dst] = V(a);
		break; }
	case Instruction::Load: {
		Val a = get(f, d.ops[0]);
		if (d.sub && !visible(s)) return STAY;
		if (d.sub) acquireOn(s, a);
		for (unsigned i = 0; i < d.layout.size(); i++) {
			Val p = a.e ? VE(X.bin(EAdd, a.e, X.cst(d.layout[i].first, 64))) : V(a.c + d.layout[i].first), v;
			if (!loadV(s, p, d.layout[i].second, v)) return DEAD;
			s.top().r[d.dst + i] = v;
		}
		break; }
	case Instruction::Store: {
		Val a = get(f, d.ops[1]);
		if (d.sub && !visible(s)) return STAY;
		if (d.sub) releaseOn(s, a);
		Val tmp[64]; unsigned n = d.layout.size();
		if (n > 64) die("large aggregate store", d.I);
		getN(f, d.ops[0], n, tmp);
		for (unsigned i = 0; i < n; i++) {
			Val p = a.e ? VE(X.bin(EAdd, a.e, X.cst(d.layout[i].first, 64))) : V(a.c + d.layout[i].first);
			if (!storeV(s, p, d.layout[i].second, tmp[i])) return DEAD;
		}
		break; }
	case Instruction::GetElementPtr: {
		Val p = get(f, d.ops[0]);
		uint64_t cst = d.imm; Expr* e = p.e;
		if (!e) cst += p.c;
		for (unsigned i = 1; i < d.ops.size(); i++) {
			Val x = get(f, d.ops[i]); unsigned w = d.gw[i - 1];
			if (!x.e) cst += (uint64_t)sx(x.c, w) * d.scale[i - 1];
			else { Expr* t = X.bin(EMul, X.sext(x.e, 64), X.cst(d.scale[i - 1], 64)); e = e ? X.bin(EAdd, e, t) : t; }
		}
		f.r[d.dst] = e ? norm(s, VE(X.bin(EAdd, e, X.cst(cst, 64)))) : V(cst);
		break; }
	case Instruction::Br: {
		if (!d.succ[1]) { jump(s, d.succ[0]); return STAY; }
		Val c = get(f, d.ops[0]);
		bool b;
		if (!c.e) b = c.c & 1;
		else {
			int t, fl; Model mt, mf;
			sides(s, c.e, t, fl, mt, mf);
			if (t && fl) {
				State* n = fork(s);
				addC(*n, X.bnot(c.e)); n->m = mf;
				jump(*n, d.succ[1]);
				addC(s, c.e); s.m = mt;
				b = true;
			} else b = t;
		}
		jump(s, b ? d.succ[0] : d.succ[1]);
		return STAY; }
	case Instruction::Switch: {
		Val c = norm(s, get(f, d.ops[0]));
		if (!c.e) {
			DBlock* to = d.succ[0];
			for (unsigned i = 0; i < d.scale.size(); i++) if (d.scale[i] == c.c) { to = d.cases[i]; break; }
			jump(s, to);
			return STAY;
		}
		// group by destination
		std::vector<std::pair<DBlock*, Expr*>> g;
		Expr* none = X.cst(1, 1);
		for (unsigned i = 0; i < d.scale.size(); i++) {
			Expr* q = X.bin(EEq, c.e, X.cst(d.scale[i], d.ow));
			none = X.bin(EAnd, none, X.bnot(q));
			if (d.cases[i] == d.succ[0]) { continue; }
			unsigned j = 0;
			for (; j < g.size(); j++) if (g[j].first == d.cases[i]) { g[j].second = X.bin(EOr, g[j].second, q); break; }
			if (j == g.size()) g.push_back({d.cases[i], q});
		}
		Expr* any = X.cst(0, 1);
		for (auto& p : g) any = X.bin(EOr, any, p.second);
		g.push_back({d.succ[0], X.bnot(any)});
		// evaluate which group the model selects; test the others
		int self = -1;
		X.stampNo++;
		for (unsigned j = 0; j < g.size(); j++) if (X.evalr(g[j].second, s.m)) { self = j; break; }
		if (self < 0) die("switch: no group");
		for (unsigned j = 0; j < g.size(); j++) {
			if ((int)j == self) continue;
			Model mm = s.m;
			int r = S->check(s.cs, g[j].second, mm);
			if (r < 0) { SH->incomplete = 1; incompleteWhy = "solver returned unknown"; }
			if (r == 1) { State* n = fork(s); addC(*n, g[j].second); n->m = mm; jump(*n, g[j].first); }
		}
		addC(s, g[self].second);
		jump(s, g[self].first);
		return STAY; }
	case Instruction::Ret: {
		Val rv[16]; unsigned n = 0;
		if (auto* v = cast<ReturnInst>(d.I)->getReturnValue()) { n = slotsOf(v->getType()); if (n > 16) die("large return", d.I); getN(f, d.ops[0], n, rv); }
		if (popFrame(s, rv, n)) return threadEnd(s);
		return STAY; }
	case Instruction::Call: {
		if (d.ext) {
			int r = d.ext(s, d);
			if (r == NEXT) { s.top().pc++; return STAY; }
			return r;
		}
		unsigned a0 = 0;
		Function* F = d.callee;
		if (!F) {
			Val p = norm(s, get(f, d.ops[0]));
			if (p.e) concretize(s, p, 64);
			a0 = 1;
			uint64_t k = (p.c - FN_BASE) / 16;
			if (p.c < FN_BASE || k < 1 || k > fnTab.size() || p.c % 16) { violation(s, "memory", "call through invalid function pointer", s.m); return DEAD; }
			F = fnTab[k - 1];
			if (isExternal(F)) { 
				auto it = exts.find(F->getName().str());
				if (F->getName() == "__cxa_pure_virtual") { violation(s, "memory", "pure virtual call", s.m); return DEAD; }
				if (it == exts.end()) die("indirect call to external " + F->getName().str(), d.I);
				DInst t = d; t.ops.erase(t.ops.begin());
				int r = it->second(s, t);
				if (r == NEXT) { s.top().pc++; return STAY; }
				return r;
			}
		}
		if (isExternal(F)) die("no model for external function " + F->getName().str(), d.I);
		DFunc* D = F == d.callee ? (d.dcallee ? d.dcallee : (d.dcallee = decode(F))) : decode(F);
		std::vector<Val> args(D->nregs < 1 ? 1 : D->nregs, V(0));
		unsigned k = 0;
		for (unsigned i = 0; i < D->argN.size(); i++) {
			if (i + a0 >= d.ops.size()) break;
			if (d.byval[i]) {
				Val src = norm(s, get(f, d.ops[i + a0]));
				if (src.e) concretize(s, src, 64);
				uint64_t id; Val off;
				if (d.byval[i] && !resolve(s, src, d.byval[i], false, id, off, "read")) return DEAD;
				uint64_t na = newObj(s, d.byval[i], OStack, ANone, true);
				Obj *so = getR(s, id), *o = getW(s, na >> ADDR_SHIFT);
				for (uint64_t j = 0; j < d.byval[i]; j++) {
					o->d[j] = so->d[off.c + j];
					o->u[j] = so->u.empty() ? 0 : so->u[off.c + j];
					if (!so->s.empty() && so->s[off.c + j]) { if (o->s.empty()) o->s.assign(o->size, nullptr); o->s[j] = so->s[off.c + j]; }
				}
				args[k] = V(na);
				s.top().allocas.push_back(na >> ADDR_SHIFT);
			} else getN(s.top(), d.ops[i + a0], D->argN[i], &args[k]);
			k += D->argN[i];
		}
		std::vector<Val> va;
		if (F->isVarArg()) for (unsigned i = D->argN.size(); i + a0 < d.ops.size(); i++) {
			Val v = get(s.top(), d.ops[i + a0]); unsigned w = d.aw[i];
			if (w < 64) v = v.e ? VE(X.zext(toE(v, w), 64)) : V(v.c & maskw(w));
			va.push_back(v);
		}
		s.top().pc++;
		pushFrame(s, D, args, &d);
		if (!va.empty()) s.top().va.swap(va);
		return STAY; }
	case Instruction::ICmp: {
		Val a = get(f, d.ops[0]), b = get(f, d.ops[1]);
		if (!a.e && !b.e) f.r[d.dst] = V(icmpC(d.sub, a.c & maskw(d.ow), b.c & maskw(d.ow), d.ow));
		else f.r[d.dst] = norm(s, VE(icmp(d.sub, a, b, d.ow)));
		break; }
	case Instruction::Select: {
		Val c = norm(s, get(f, d.ops[0]));
		if (!c.e) { Val t[16]; getN(f, d.ops[c.c & 1 ? 1 : 2], d.nslots, t); for (unsigned i = 0; i < d.nslots; i++) f.r[d.dst + i] = t[i]; break; }
		if (d.nslots != 1 || (optForkSelect && d.w > 8)) { Val t[16]; getN(f, d.ops[decide(s, c.e) ? 1 : 2], d.nslots, t); for (unsigned i = 0; i < d.nslots; i++) f.r[d.dst + i] = t[i]; break; }
		f.r[d.dst] = VE(X.ite(c.e, toE(get(f, d.ops[1]), d.w), toE(get(f, d.ops[2]), d.w)));
		break; }
	case Instruction::Trunc: { Val a = get(f, d.ops[0]); f.r[d.dst] = a.e ? VE(X.extract(a.e, 0, d.w)) : V(a.c & maskw(d.w)); break; }
	case Instruction::ZExt: { Val a = get(f, d.ops[0]); f.r[d.dst] = a.e ? VE(X.zext(a.e, d.w)) : V(a.c & maskw(d.ow)); break; }
	case Instruction::SExt: { Val a = get(f, d.ops[0]); f.r[d.dst] = a.e ? VE(X.sext(a.e, d.w)) : V((uint64_t)sx(a.c, d.ow) & maskw(d.w)); break; }
	case Instruction::BitCast: case Instruction::Freeze: { Val t[16]; getN(f, d.ops[0], d.nslots, t); for (unsigned i = 0; i < d.nslots; i++) f.r[d.dst + i] = t[i]; break; }
	case Instruction::PtrToInt: case Instruction::IntToPtr: { Val a = get(f, d.ops[0]); 
		if (!a.e) f.r[d.dst] = V(a.c & maskw(d.w)); else f.r[d.dst] = VE(d.w < a.e->w ? X.extract(a.e, 0, d.w) : X.zext(a.e, d.w));
		break; }
	case Instruction::ExtractValue: { Val t[64]; unsigned n = slotsOf(d.I->getOperand(0)->getType()); if (n > 64) die("aggregate", d.I); getN(f, d.ops[0], n, t); for (unsigned i = 0; i < d.sub; i++) f.r[d.dst + i] = t[d.imm + i]; break; }
	case Instruction::InsertValue: { Val t[64], v[64]; if (d.nslots > 64) die("aggregate", d.I); getN(f, d.ops[0], d.nslots, t); getN(f, d.ops[1], d.sub, v); for (unsigned i = 0; i < d.sub; i++) t[d.imm + i] = v[i]; for (unsigned i = 0; i < d.nslots; i++) f.r[d.dst + i] = t[i]; break; }
	case Instruction::Unreachable: violation(s, "unreachable", "control reaches code the compiler proved undefined", s.m); return DEAD;
	case Instruction::Fence: break;
	case Instruction::AtomicRMW: {
		if (!visible(s)) return STAY;
		Val a = get(s.top(), d.ops[0]), v = get(s.top(), d.ops[1]), old, nv;
		acqrelOn(s, a);
		if (!loadV(s, a, d.w, old)) return DEAD;
		Expr *x = toE(old, d.w), *y = toE(v, d.w);
		switch (d.sub) {
		case AtomicRMWInst::Xchg: nv = v; break;
		case AtomicRMWInst::Add: nv = VE(X.bin(EAdd, x, y)); break;
		case AtomicRMWInst::Sub: nv = VE(X.bin(ESub, x, y)); break;
		case AtomicRMWInst::And: nv = VE(X.bin(EAnd, x, y)); break;
		case AtomicRMWInst::Or: nv = VE(X.bin(EOr, x, y)); break;
		case AtomicRMWInst::Xor: nv = VE(X.bin(EXor, x, y)); break;
		default: die("atomicrmw op", d.I);
		}
		if (!storeV(s, a, d.w, nv)) return DEAD;
		s.top().r[d.dst] = old;
		break; }
	case Instruction::AtomicCmpXchg: {
		if (!visible(s)) return STAY;
		Val a = get(s.top(), d.ops[0]), c = get(s.top(), d.ops[1]), n = get(s.top(), d.ops[2]), old;
		acqrelOn(s, a);
		if (!loadV(s, a, d.ow, old)) return DEAD;
		Expr* eq = X.bin(EEq, toE(old, d.ow), toE(c, d.ow));
		bool b = decide(s, eq);
		if (b && !storeV(s, a, d.ow, n)) return DEAD;
		s.top().r[d.dst] = old; s.top().r[d.dst + 1] = V(b);
		break; }
	default: {
		Kind k;
		switch (d.opc) {
		case Instruction::Add: k = EAdd; break; case Instruction::Sub: k = ESub; break; case Instruction::Mul: k = EMul; break;
		case Instruction::UDiv: k = EUDiv; break; case Instruction::SDiv: k = ESDiv; break;
		case Instruction::URem: k = EURem; break; case Instruction::SRem: k = ESRem; break;
		case Instruction::And: k = EAnd; break; case Instruction::Or: k = EOr; break; case Instruction::Xor: k = EXor; break;
		case Instruction::Shl: k = EShl; break; case Instruction::LShr: k = ELShr; break; case Instruction::AShr: k = EAShr; break;
		default: die(std::string("unsupported instruction ") + d.I->getOpcodeName(), d.I);
		}
		if (!d.w) die("vector operation", d.I);
		Val a = get(f, d.ops[0]), b = get(f, d.ops[1]);
		if (k == EUDiv || k == ESDiv || k == EURem || k == ESRem) {
			Expr* nz = X.bnot(X.bin(EEq, toE(b, d.w), X.cst(0, d.w)));
			int t, fl; Model mt, mf;
			sides(s, nz, t, fl, mt, mf);
			if (fl) { violation(s, "arith", "division by zero", mf); if (!t) return DEAD; addC(s, nz); s.m = mt; }
		}
		if (!a.e && !b.e) { bool ok; f.r[d.dst] = V(Exprs::fold(k, a.c & maskw(d.w), b.c & maskw(d.w), d.w, ok)); }
		else f.r[d.dst] = norm(s, VE(X.bin(k, toE(a, d.w), toE(b, d.w))));
		break; }
	}
	if (d.opc == Instruction::AtomicRMW || d.opc == Instruction::AtomicCmpXchg || ((d.opc == Instruction::Load || d.opc == Instruction::Store) && d.sub)) s.th[s.cur].schedOk = false;
	s.top().pc++;
	return STAY;
}

#include "externs.h"

// ---------------------------------------------------------------- driver
static void timeCheck() {
	if (nowS() - T0 > optTime) { SH->incomplete = 1; SH->stop = 1; incompleteWhy = "time limit"; }
}
static bool memTooHigh() {
	static int k = 0;
	if (++k % 64) return false;
	FILE* f = fopen("/proc/self/statm", "r");
	if (!f) return false;
	unsigned long a, r = 0, sh = 0;
	if (fscanf(f, "%lu %lu %lu", &a, &r, &sh) != 3) r = 0;
	fclose(f);
	return r * 4096 / 1048576 > optMemMB;
}
static void maybeSplit() {
	if (optJobs <= 1 || stack_.size() < 2) return;
	double t = nowS();
	if (t - lastSplit < 0.02) return;
	int a = SH->active.load();
	if (a >= optJobs) return;
	if (!SH->active.compare_exchange_strong(a, a + 1)) return;
	lastSplit = t;
	fflush(stdout); fflush(stderr);
	pid_t p = ::fork();
	if (p < 0) { SH->active--; return; }
	std::vector<State*> mine;
	for (size_t i = 0; i < stack_.size(); i++) {
		if ((i % 2 == 0) == (p == 0)) mine.push_back(stack_[i]); else if (p) delete stack_[i];
	}
	stack_.swap(mine);
	if (p) kids.push_back(p);
	else {
		kids.clear(); nPaths = nForks = nSteps = nChecks = nChecksSym = nKilled = nAccess = nSched = nDone = 0; rng += getpid() * 0x9E3779B97F4A7C15ull;
		S->nfast = S->nq = S->nsat = S->nunsat = S->nunknown = S->ncache = 0; S->tq = S->tmax = 0;
		samples.clear();
		SH->workers++;
		lastSplit = nowS();
	}
}
static void run() {
	uint64_t tick = 0;
	for (;;) {
		if (stack_.empty()) break;
		State* s = stack_.back();
		stack_.pop_back();
		for (;;) {
			if ((++tick & 0x3ff) == 0) {
				if (SH->stop) { delete s; return; }
				timeCheck();
				if (memTooHigh()) { SH->incomplete = 1; incompleteWhy = "memory limit"; SH->stop = 1; }
				maybeSplit();
			}
			if (s->steps > optMaxSteps) {
				violation(*s, "nontermination", "no termination within " + std::to_string(optMaxSteps) + " instructions", s->m);
				nKilled++;
				delete s; break;
			}
			int r = step(*s);
			if (r == DEAD) { nPaths++; delete s; break; }
		}
		if (SH->stop) return;
		if ((nPaths & 15) == 0) { maybeSplit(); timeCheck(); }
	}
}
static void finish() {
	std::map<std::string, std::set<unsigned>> lines;
	std::set<std::string> fns;
	for (const DILocation* L : seenLoc) lines[L->getFilename().str()].insert(L->getLine());
	if (const char* dir = getenv("SV_LINES")) {	// for finding what no check reaches: lines executed, and lines there are
		FILE* f = fopen((std::string(dir) + "/" + std::to_string(getpid())).c_str(), "a");
		for (auto& l : lines) for (unsigned n : l.second) fprintf(f, "x %s:%u\n", l.first.c_str(), n);
		std::set<std::string> all;
		for (Function& F : *M) for (BasicBlock& b : F) for (Instruction& i : b) for (const DILocation* L = i.getDebugLoc().get(); L; L = L->getInlinedAt()) all.insert(L->getFilename().str() + ":" + std::to_string(L->getLine()));
		for (auto& a : all) fprintf(f, "a %s\n", a.c_str());
		fclose(f);
	}
	for (const void* p : seenSub) {
		auto* sp = (const DISubprogram*)p;
		if (!sp) continue;
		std::string n = sp->getLinkageName().empty() ? sp->getName().str() : demangle(sp->getLinkageName().str());
		fns.insert(sp->getFilename().str() + ":" + n);
	}
	std::string o = "{\"t\":\"worker\",\"paths\":" + std::to_string(nPaths) + ",\"forks\":" + std::to_string(nForks) + ",\"steps\":" + std::to_string(nSteps)
		+ ",\"done\":" + std::to_string(nDone) + ",\"checks\":" + std::to_string(nChecks) + ",\"checks_symbolic\":" + std::to_string(nChecksSym) + ",\"killed\":" + std::to_string(nKilled) + ",\"accesses\":" + std::to_string(nAccess) + ",\"sched\":" + std::to_string(nSched)
		+ ",\"queries\":" + std::to_string(S->nq) + ",\"sat\":" + std::to_string(S->nsat) + ",\"unsat\":" + std::to_string(S->nunsat) + ",\"unknown\":" + std::to_string(S->nunknown)
		+ ",\"by_value_set\":" + std::to_string(S->nfast) + ",\"cached\":" + std::to_string(S->ncache) + ",\"solver_s\":" + std::to_string(S->tq) + ",\"solver_max_s\":" + std::to_string(S->tmax) + ",\"exprs\":" + std::to_string(X.count());
	o += ",\"reached\":["; bool first = true;
	for (auto& r : reached) { o += (first ? "" : ",") + jstr(r); first = false; }
	o += "],\"functions\":["; first = true;
	for (auto& r : fns) { o += (first ? "" : ",") + jstr(r); first = false; }
	o += "],\"lines\":{"; first = true;
	for (auto& r : lines) {
		o += (first ? "" : ",") + jstr(r.first) + ":["; first = false;
		bool f2 = true;
		for (unsigned l : r.second) { o += (f2 ? "" : ",") + std::to_string(l); f2 = false; }
		o += "]";
	}
	o += "},\"samples\":["; first = true;
	for (auto& r : samples) { o += (first ? "" : ",") + r; first = false; }
	o += "],\"incomplete\":" + jstr(incompleteWhy) + "}";
	emit(o);
}

static void initGlobals(State& s) {
	for (GlobalVariable& g : M->globals()) {
		uint64_t sz = g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 8;
		if (!g.hasInitializer() && sz < 64) sz = 64;
		gaddr[&g] = newObj(s, sz, OGlobal, ANone, false);
	}
	for (Function& f : *M) if (!f.isIntrinsic()) constScalar(&f);
	for (GlobalVariable& g : M->globals()) {
		uint64_t id = gaddr[&g] >> ADDR_SHIFT;
		if (!g.hasInitializer() || g.getName().starts_with("llvm.")) continue;
		Constant* c = g.getInitializer();
		Obj* o = getW(s, id);
		if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy(o->d.data(), r.data(), r.size()); }
		else if (!isa<ConstantAggregateZero>(c)) {
			std::vector<std::pair<unsigned,unsigned>> lay; std::vector<Val> v;
			layoutOf(g.getValueType(), 0, lay); constSlots(c, v);
			for (unsigned i = 0; i < v.size(); i++) storeAt(s, id, lay[i].first, lay[i].second, v[i]);
		}
		getW(s, id)->ro = g.isConstant();
	}
	for (GlobalVariable& g : M->globals()) if (g.isThreadLocal()) { Obj* o = new Obj(*getR(s, gaddr[&g] >> ADDR_SHIFT)); o->rc = 0; tlsInit[gaddr[&g]] = Ptr<Obj>(o); }
	nGlobals = s.nextId;
}

int main(int argc, char** argv) {
	T0 = nowS();
	std::string in, entry = "sv_main";
	unsigned rlimit = 400000000;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto val = [&]() { return std::string(argv[++i]); };
		if (a == "--out") optOut = val();
		else if (a == "--time") optTime = atof(val().c_str());
		else if (a == "--jobs") optJobs = atoi(val().c_str());
		else if (a == "--max-steps") optMaxSteps = atoll(val().c_str());
		else if (a == "--max-viol") optMaxViol = atoi(val().c_str());
		else if (a == "--preempt") optPreempt = atoi(val().c_str());
		else if (a == "--entry") entry = val();
		else if (a == "--rlimit") rlimit = atoi(val().c_str());
		else if (a == "--mem") optMemMB = atoi(val().c_str());
		else if (a == "--seed") { optSeed = atoi(val().c_str()); rng ^= optSeed * 0x9E3779B97F4A7C15ull; }
		else if (a == "--samples") optSamples = atoi(val().c_str());
		else if (a == "--trace") optTrace = true;
		else if (a == "--late-ctors") optLateCtors = true;
		else if (a == "--crosscheck") optCross = true;
		else if (a == "--fork-select") optForkSelect = true;
		else if (a == "--race") optRace = true;
		else if (a == "--spurious") optSpurious = true;
		else in = a;
	}
	SH = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	new (SH) Shared();
	SH->active = 1; SH->stop = 0; SH->incomplete = 0; SH->workers = 1; SH->viols = 0;
	struct rlimit sl; sl.rlim_cur = sl.rlim_max = RLIM_INFINITY; 
	getrlimit(RLIMIT_STACK, &sl); sl.rlim_cur = sl.rlim_max; setrlimit(RLIMIT_STACK, &sl);
	LLVMContext C;
	SMDiagnostic err;
	auto mod = parseIRFile(in, err, C);
	if (!mod) { err.print("symx", errs()); return 3; }
	M = mod.get();
	DL = &M->getDataLayout();
	Solver sol(X, rlimit);
	S = &sol; sol.crosscheck = optCross;
	registerExterns();
	State* s = new State;
	initGlobals(*s);
	s->th.emplace_back();
	s->th[0].vc.assign(1, 1);
	Function* mainF = M->getFunction(entry);
	if (!mainF) { fprintf(stderr, "ENGINE: no entry %s\n", entry.c_str()); return 3; }
	// entry frames: main last pushed first; constructors run before it
	std::vector<Function*> order;
	if (GlobalVariable* gc = M->getGlobalVariable("llvm.global_ctors")) {
		if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
			std::vector<std::pair<uint64_t, Function*>> v;
			// initialisers of template statics (those with associated data) may run at any time: with --late-ctors, after the others
			for (Value* o : ca->operands()) { auto* cs = cast<ConstantStruct>(o); if (auto* f = dyn_cast<Function>(cs->getOperand(1))) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue() + (optLateCtors && cs->getNumOperands() > 2 && !isa<ConstantPointerNull>(cs->getOperand(2)) ? 1 : 0), f}); }
			std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
			for (auto& p : v) order.push_back(p.second);
		}
	}
	order.push_back(mainF);
	for (size_t i = order.size(); i-- > 0; ) pushFrame(*s, decode(order[i]), {}, nullptr);
	stack_.push_back(s);
	run();
	SH->active--;
	int bad = 0;
	for (pid_t p : kids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || (WEXITSTATUS(st) != 0)) bad = 1; }
	if (bad) { SH->incomplete = 1; incompleteWhy += " worker died"; }
	finish();
	fflush(stdout);
	_exit(bad ? 3 : 0);
}
