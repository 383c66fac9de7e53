// R01: an object managed by Ref lives exactly as long as something refers to it, whatever the order in which references are
// made, assigned (also from inside the object being released), unshared and dropped; the count is the number of references.
#include "sv.h"
#include <refcount.h>
#ifndef SV_K
#define SV_K 4
#endif
#define NR 3
#define MAXO 10
struct Node : public RefCounted {
	int id; uint32_t v; Ref<Node> next;
	Node(int i, uint32_t x);
	Node(const Node& o);
	~Node();
};
static int alive[MAXO], nobj;		// what really lives
struct MO { bool live; uint32_t v; int next; };
static MO mo[MAXO];			// what should
static int mr[NR];
Node::Node(int i, uint32_t x) : id(i), v(x) { alive[i]++; }
Node::Node(const Node& o) : RefCounted(), id(nobj++), v(o.v), next(o.next) { sv_check(id < MAXO, "no more objects are made than asked for"); alive[id]++; }
Node::~Node() { sv_check(alive[id] == 1, "an object is destroyed once"); alive[id]--; }
static int refs(int o) { int n = 0; for (int i = 0; i < NR; i++) n += mr[i] == o; for (int i = 0; i < nobj; i++) n += mo[i].live && mo[i].next == o; return n; }
static void collect() { for (bool more = true; more; ) { more = false; for (int i = 0; i < nobj; i++) if (mo[i].live && !refs(i)) { mo[i].live = false; more = true; } } }
static void set(int i, int o) { mr[i] = o; collect(); }
static int newObj(uint32_t v) { mo[nobj].live = true; mo[nobj].v = v; mo[nobj].next = -1; return nobj++; }
static void verify(Ref<Node>* r)
{
	for (int i = 0; i < nobj; i++) sv_check(alive[i] == (mo[i].live ? 1 : 0), mo[i].live ? "an object with a reference is kept" : "an object without references is destroyed at once");
	for (int i = 0; i < NR; i++) {
		Node* p = r[i];
		sv_check((p != 0) == (mr[i] >= 0) && (bool)r[i] == (p != 0), "a reference is null exactly when nothing was assigned");
		if (!p) { sv_check(r[i].GetRefCount() == 0, "a null reference has no count"); continue; }
		sv_check(p->id == mr[i] && r[i]->v == mo[mr[i]].v && &*r[i] == p, "a reference gives the object assigned to it");
		sv_check(r[i].GetRefCount() == refs(mr[i]) && p->GetRefCount() == refs(mr[i]), "the count is the number of references");
		Node* q = p->next;
		sv_check(q ? mo[mr[i]].next == q->id : mo[mr[i]].next < 0, "references within objects are kept");
	}
}
static bool reaches(int a, int b) { for (int n = 0; a >= 0 && n < MAXO; n++, a = mo[a].next) if (a == b) return true; return false; }
extern "C" void sv_main()
{
	nobj = 0;
	for (int i = 0; i < MAXO; i++) alive[i] = 0;
	for (int i = 0; i < NR; i++) mr[i] = -1;
	uint64_t before = sv_heap();
	{
		Ref<Node> r[NR];
		for (int k = 0; k < SV_K; k++) {
			int op = sv_pick("op", 9), i = sv_pick("i", NR), j = sv_pick("j", NR);
			uint32_t x = sv_u32("x");
			switch (op) {
			case 0: { if (j) sv_done(); int o = newObj(x); r[i] = new Node(o, x); set(i, o); break; }
			case 1: r[i] = r[j]; set(i, mr[j]); break;
			case 2: r[i] = (Node*)r[j]; set(i, mr[j]); break;
			case 3: if (j) sv_done(); r[i] = (Node*)0; set(i, -1); break;
			case 4: { if (mr[j] < 0) sv_done(); int n = mo[mr[j]].next; r[i] = r[j]->next; set(i, n); break; }	// also from the object it releases
			case 5: { if (mr[i] < 0 || reaches(mr[j], mr[i])) sv_done(); r[i]->next = r[j]; mo[mr[i]].next = mr[j]; collect(); break; }
			case 6: { if (j) sv_done(); r[i].Unshare(); if (mr[i] >= 0 && refs(mr[i]) > 1) { sv_check(nobj <= MAXO, "room"); int o = nobj - 1; mo[o] = mo[mr[i]]; mo[o].live = true; set(i, o); sv_reach("unshared"); } break; }
			case 7: { Ref<Node> c(r[j]); if (mr[j] >= 0) sv_check(c.GetRefCount() == refs(mr[j]) + 1, "a copy counts"); r[i] = c; set(i, mr[j]); break; }
			case 8: { Ref<RefCounted> b = r[j].Cast<RefCounted>(); if (mr[j] >= 0) sv_check(b.GetRefCount() == refs(mr[j]) + 1, "a converted copy counts"); r[i] = static_cast<Node*>((RefCounted*)b); set(i, mr[j]); break; }
			}
			verify(r);
		}
		sv_out(nobj);
	}
	for (int i = 0; i < nobj; i++) sv_check(alive[i] == 0, "every object is destroyed in the end");
	sv_check(sv_heap() == before, "no memory is left");
	sv_reach("end");
}
