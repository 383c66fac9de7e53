// Independent reference for this library's documented UTF-8 (1..6 byte forms, illegal bytes as 0x800000yy).
#pragma once
#include <stdint.h>
// decode one character at p (NUL-terminated data); returns the number of bytes it takes
static inline int ref_utf8_get(const unsigned char* p, uint32_t& v)
{
	unsigned b = p[0];
	int len; uint32_t pay;
	if (b < 0x80) { v = b; return 1; }
	if (b < 0xC0) { v = 0x80000000u | b; return 1; }
	if (b < 0xE0) { len = 2; pay = b & 0x1F; }
	else if (b < 0xF0) { len = 3; pay = b & 0x0F; }
	else if (b < 0xF8) { len = 4; pay = b & 0x07; }
	else if (b < 0xFC) { len = 5; pay = b & 0x03; }
	else { len = 6; pay = b & 0x03; }
	for (int i = 1; i < len; i++) {
		unsigned c = p[i];
		if ((c & 0xC0) != 0x80) { v = 0x80000000u | b; return 1; }
		pay = pay << 6 | (c & 0x3F);
	}
	v = pay;
	return len;
}
static inline int ref_utf8_len(uint32_t v)
{
	if (v < 0x80) return 1;
	if (v < 0x800) return 2;
	if (v < 0x10000) return 3;
	if (v < 0x200000) return 4;
	if (v < 0x4000000) return 5;
	return 6;
}
static inline int ref_utf8_put(unsigned char* p, uint32_t v)	// v not one of the illegal-byte codes
{
	int n = ref_utf8_len(v);
	static const unsigned char lead[] = { 0, 0, 0xC0, 0xE0, 0xF0, 0xF8, 0xFC };
	if (n == 1) { p[0] = v; return 1; }
	for (int i = n - 1; i > 0; i--) { p[i] = 0x80 | (v & 0x3F); v >>= 6; }
	p[0] = lead[n] | v;
	return n;
}
