// E01: error numbers: set and message survive, never zero, always negative, distinct when set or message differ; Error carries them.
#include "sv.h"
#include <error.h>
#include <new>
static uint64_t go()
{
	uint32_t s = sv_u32("set"), m = sv_u32("msg"), s2 = sv_u32("set2"), m2 = sv_u32("msg2");
	sv_assume(s < 0x10000 && s2 < 0x10000 && m < 0x4000 && m2 < 0x4000);
	ErrNum e(s, m), f(s2, m2);
	sv_check(e.set() == (int)s, "the set number survives");
	sv_check(e.msg() == (int)m, "the message number survives");
	int32_t n = e;
	sv_check(n < 0, "an error is negative");
	sv_check(e < 0 && !(e > 0) && !(e == 0), "an error compares below zero");
	bool eq = s == s2 && m == m2;
	sv_check((e == f) == eq && (e != f) != eq && ((int32_t)e == (int32_t)f) == eq, "equal exactly when set and message are");
	ErrNum g(n), h(e), z, z0(0), k;
	k = e;
	sv_check(g == e && h == e && k == e, "copies and conversions through the integer are equal");
	sv_check((int32_t)z == 0 && (int32_t)z0 == 0, "zero means no error");
	int32_t any = sv_u32("any");
	ErrNum a(any);
	sv_check(((int32_t)a == 0) == (any == 0), "only zero is no error");
	sv_check((int32_t)a <= 0, "any error code is negative");
	sv_check((any & 0x3FFF) == a.msg(), "the message of an error code");
	// Error
	static const char text[] = "text"; int param;
	{
		Error r(n, text, &param), none, c(r), d;
		d = c;
		sv_check((int32_t)r == n && (int32_t)d == n && c.operator ErrNum() == e, "Error carries its number through copies");
		sv_check(d.default_text() == text && d.parameters() == &param, "Error carries its text and parameters");
		sv_check((int32_t)none == 0 && none.operator ErrNum() == ErrNum() && none.default_text() == 0 && none.parameters() == 0, "no error is empty");
		int w = sv_choose("w", 5);
		switch (w) {
		case 0: r = none; break;
		case 1: d = d; break;
		case 2: c = Error(f, text + 1); break;
		case 3: { Error t(f); d = t; break; }
		case 4: none = r; r = Error(); break;
		}
		sv_check((int32_t)r == (w == 0 || w == 4 ? 0 : n), "assignment changes only its target");
		sv_check((int32_t)c == (w == 2 ? (int32_t)f : n), "assignment changes only its target");
		sv_check((int32_t)d == (w == 3 ? (int32_t)f : n), "assignment changes only its target");
		sv_check((int32_t)none == (w == 4 ? n : 0), "assignment changes only its target");
	}
	if (s > 0x3000) sv_reach("big");
	return (uint32_t)n;
}
extern "C" void sv_main()
{
	uint64_t h0 = sv_heap();
	uint64_t h = go();
	sv_check(sv_heap() == h0, "no error body is leaked");
	sv_out(h);
}
