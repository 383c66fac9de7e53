// U01: encoding then decoding any 32-bit character value.
#include "sv.h"
#include "ref_utf8.h"
#include <char_encoding.h>
extern "C" void sv_main()
{
	UCS4 c = sv_u32("c");
	bool follow = sv_choose("follow", 2);
	UCS4 d = follow ? sv_u32("d") : 0;
	char* buf = new char[16];			// two characters and a guard
	UTF8* p = buf;
	UTF8Put(p, c);
	long n = p - buf;
	sv_check(n >= 1 && n <= 6, "a character takes 1..6 bytes");
	sv_check(n == UTF8Len(c), "UTF8Len(UCS4) is the number of bytes stored");
	if (follow) { UTF8Put(p, d); sv_check(p - buf - n == UTF8Len(d), "UTF8Len of the second"); }
	*p = 0;
	sv_out(n);
	const UTF8* q = buf;
	bool illegal = (c >= 0x80000000u && c <= 0x800000FFu) || c == 0xFFFFFFFFu;
	if (!illegal) {
		unsigned char want[8];
		int k = ref_utf8_put(want, c);
		sv_check(k == n, "encoded length is the canonical one");
		bool same = true;
		for (int i = 0; i < k; i++) same &= (unsigned char)buf[i] == want[i];
		sv_check(same, "encoded bytes are the canonical ones");
		sv_check(UTF8Is1st(buf[0]), "first byte is a lead byte");
		for (int i = 1; i < n; i++) sv_check(UTF8Is2nd(buf[i]), "following bytes are continuation bytes");
		sv_check(UTF8CorrectLen(buf[0]) == n, "lead byte announces the length");
		sv_check(UTF8Len(q) == n, "UTF8Len(bytes) agrees");
		UCS4 r = UTF8Get(q);
		sv_check(r == c, "decode(encode(c)) == c");
		sv_check(q == buf + n, "decoding consumes exactly the encoding");
		sv_check(UTF8Backup(q, buf) == buf, "backing up returns to the start");
		bool ill2 = (d >= 0x80000000u && d <= 0x800000FFu) || d == 0xFFFFFFFFu;
		if (follow && !ill2) {
			sv_check(UTF8Get(q) == d && q == p, "a following character decodes to itself");
			sv_reach("two");
		}
		sv_out(r);
		if (n == 6) sv_reach("six");
	} else {
		sv_check(n == 1 && (unsigned char)buf[0] == (c & 0xFF), "a stand-in for an illegal byte is stored as that byte");
		sv_reach("illegal");
	}
	delete[] buf;
	// a placeholder of any length
	int len = 1 + sv_choose("length", 6);
	char* hold = new char[len];
	p = hold;
	UTF8PutPaddedZero(p, len);
	sv_check(p == hold + len, "a place-holder takes the length asked");
	sv_check(UTF8CorrectLen(hold[0]) == len, "its lead byte announces that length");
	for (int i = 1; i < len; i++) sv_check(UTF8Is2nd(hold[i]), "the rest are continuation bytes");
	q = hold;
	sv_check(UTF8Get(q) == 0 && q == p, "it reads as a zero character of that length");
	delete[] hold;
}
