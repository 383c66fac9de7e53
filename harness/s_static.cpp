// S08: strings with static storage duration are as good as any other, whichever order their files' static objects are made in.
#include "strmodel.h"
#include <variant.h>
static StrVal	g, h("abc"), k(h), e("");
static StringArray	arr;
static VariantArray	va;
static Variant	v("xyz"), vn;
extern "C" void sv_main()
{
	M m = genText("213"), none, abc; for (const char* p = "abc"; *p; p++) { MC c; c.w = 1; c.b[0] = *p; abc.add(c); }
	same(g, none, "a static string starts out empty"); same(e, none, "a static string starts out empty"); same(h, abc, "or with its literal"); same(k, abc, "or as a copy");
	StrVal s = mkStr(m);
	for (int i = 0; i < 2; i++) {
		StrVal t;
		StrVal* w[] = { &g, &h, &k, &e };
		StrVal& x = *w[sv_pick("which", 4)];
		switch (sv_pick("op", 4)) {
		case 0: x = s; same(x, m, "a static string assigned has its new value"); break;
		case 1: x = t; same(x, none, "a static string can be emptied"); break;
		case 2: { StrVal y = x; y += s; x = StrVal::null; same(x, none, "null is empty"); break; }
		case 3: { arr.append(x); va.append(Variant(x)); sv_check(arr.length() > 0 && va.length() > 0, "static arrays hold what they are given"); break; }
		}
	}
	sv_check(vn.type() == Variant::None && v.type() == Variant::String, "static variants have their types");
	{ StrVal t, u("") ; same(t, none, "an empty string is empty"); same(u, none, "an empty string is empty"); same(StrVal::null, none, "null is empty"); }
	sv_out(arr.length());
	sv_reach("end");
}
