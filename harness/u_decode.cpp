// U02/U03: decoding an arbitrary NUL-terminated buffer of N bytes, forwards and backwards.
#include "sv.h"
#include "ref_utf8.h"
#include <char_encoding.h>
#ifndef N
#define N 4
#endif
extern "C" void sv_main()
{
#ifdef STRAY		// any two bytes, and then trailing bytes only
	int n = 2 + sv_choose("n", N - 1);
#else
	int n = 1 + sv_choose("n", N);
#endif
	char* buf = new char[n + 1];
	for (int i = 0; i < n; i++) { buf[i] = sv_u8("b"); sv_assume(buf[i] != 0); }
#ifdef STRAY
	for (int i = 2; i < n; i++) sv_assume((buf[i] & 0xC0) == 0x80);
#endif
	buf[n] = 0;
	const UTF8* starts[N + 2]; int ns = 0;
	const UTF8* p = buf;
	while (p < buf + n) {
		const UTF8* s = p;
		starts[ns++] = p;
		uint32_t v; int len = ref_utf8_get((const unsigned char*)p, v);
#ifdef FORWARD
		sv_check(UTF8Len(s) == len, "UTF8Len(bytes) is the length of the character");
		const UTF8* t = s;
		sv_check(UTF8Peek(t) == v && t == s, "UTF8Peek returns the character and does not move");
#endif
		UCS4 c = UTF8Get(p);
		sv_check(p > s && p <= buf + n, "decoding advances and stays within the data");
		sv_check(p - s == len, "bytes consumed");
		sv_check(c == v, "character value (illegal bytes are represented, one at a time)");
		sv_out(c);
#ifdef FORWARD
		bool canonical = len == 1 ? true : ref_utf8_len(v) == len;
		bool reserved = len > 1 && ((v >= 0x80000000u && v <= 0x800000FFu) || v == 0xFFFFFFFFu);
		if (canonical && !reserved) {
			char out[8]; UTF8* o = out;
			UTF8Put(o, c);
			bool same = o - out == len;
			for (int i = 0; i < len && i < 6; i++) same &= out[i] == s[i];
			sv_check(same, "re-encoding reproduces the original bytes");
			if ((v & 0xFFFFFF00u) == 0x80000000u) sv_reach("illegal");
		}
#endif
		if (len == 4) sv_reach("len4");
	}
	sv_check(p == buf + n, "all the data is consumed");
	sv_check(UTF8Get(p) == 0, "the terminator decodes as NUL");
#ifdef BACKWARD
	p = buf + n;
	while (ns > 0) {
		p = UTF8Backup(p, buf);
		sv_check(p == starts[--ns], "backing up visits the same boundaries as going forward");
	}
	sv_check(UTF8Backup(buf, buf) == 0, "no backing up past the limit");
	sv_reach("back");
#endif
	delete[] buf;
}
