From 44bf8919155b17d3e8f05eafa57bb0e271c81ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:03 +0000
Subject: [PATCH 01/70] fix: UTF8Len(bytes) must not read past the NUL that
 ends a truncated sequence

---
 include/char_encoding.h | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/include/char_encoding.h b/include/char_encoding.h
index bc3f613..0bf4557 100644
--- a/include/char_encoding.h
+++ b/include/char_encoding.h
@@ -155,30 +155,23 @@ UTF8CorrectLen(UTF8 c)
 inline int
 UTF8Len(const UTF8* cp)	// REVISIT: Add an error callback pointer here?
 {
-	switch (int len = UTF8CorrectLen(*cp))
-	{	// This reminds me of Duff's Device :)
-	case 6: if (UTF8Is1st(cp[5])) goto illegal;
-		// Fall through
-	case 5: if (UTF8Is1st(cp[4])) goto illegal;
-		// Fall through
-	case 4: if (UTF8Is1st(cp[3])) goto illegal;
-		// Fall through
-	case 3: if (UTF8Is1st(cp[2])) goto illegal;
-		// Fall through
-	case 2: if (UTF8Is1st(cp[1])) goto illegal;
-		// Fall through
-	case 1:
-		return len;
-	case 0:
-	default:					// Cannot happen, but keep the compiler happy
-	illegal:
+	int len = UTF8CorrectLen(*cp);
+	if (len == 0)
+		goto illegal;
+
+	// Check in order, to never look past the NUL (or other 1st byte) that ends a truncated sequence
+	for (int i = 1; i < len; i++)
+		if (UTF8Is1st(cp[i]))
+			goto illegal;
+	return len;
+
+illegal:
 #if defined(UTF8_ASSERT)
-		assert(!"Illegal or unsupported UTF-8 sequence");
-		return 0;
+	assert(!"Illegal or unsupported UTF-8 sequence");
+	return 0;
 #else
-		return 1;		// Use a replacement character
+	return 1;		// Use a replacement character
 #endif
-	}
 }
 
 inline UCS4
-- 
2.43.0


From 8929decf01410fdead2ec229e2d1fd52dd59e7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:14 +0000
Subject: [PATCH 02/70] fix: UTF8Backup must visit the same character
 boundaries as UTF8Get after a truncated sequence

---
 include/char_encoding.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/char_encoding.h b/include/char_encoding.h
index 0bf4557..6774efa 100644
--- a/include/char_encoding.h
+++ b/include/char_encoding.h
@@ -242,8 +242,8 @@ UTF8Backup(const UTF8* cp, const UTF8* limit = 0)
 	for (const UTF8* sp = cp-1; sp >= limit; --sp)	// Backup to the limit
 		if (UTF8Is1st(*sp))			// Found the start char
 		{
-			if (UTF8CorrectLen(*sp) >= cp-sp)
-				return sp;		// Legal prefix (at least) of a UTF8 sequence
+			if (UTF8Len(sp) >= cp-sp)
+				return sp;		// Going forward from here reaches (or passes) cp in one character
 			break;	// Illegal, backup 1 byte if this backup won't consume all bytes scanned
 		}
 	return cp-1;	// No start char (valid 1st byte) found
-- 
2.43.0


From d0c1b0eb4e1e4da82c3fd1d2de080bab533af2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:14 +0000
Subject: [PATCH 03/70] fix: UCS4Digit gave up before the ideographic zero and
 Hangzhou numerals

---
 src/char_encoding.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/char_encoding.cpp b/src/char_encoding.cpp
index 5070720..29fb87d 100644
--- a/src/char_encoding.cpp
+++ b/src/char_encoding.cpp
@@ -115,7 +115,7 @@ UCS4Digit(UCS4 ch)
 	)
 	{
 		if (ch < rp->low)
-			return -1;		/* Short circuit */
+			break;			/* Short circuit */
 		if (ch <= rp->high)
 		{
 			last_memo = rp-UCS4_DigitRanges;
-- 
2.43.0


From cdfe4d7746ef3315093176fd11c42c86a2971aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:16 +0000
Subject: [PATCH 04/70] fix: UCS4ToTitle must leave the titlecase digraphs
 alone

---
 src/case_conversions.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/case_conversions.c b/src/case_conversions.c
index 6a434bc..a3e9101 100644
--- a/src/case_conversions.c
+++ b/src/case_conversions.c
@@ -834,12 +834,16 @@ static struct
 } UnicodeToTitle[] =
 {
       {	0x01C4,	1 },
+      {	0x01C5,	0 },
       {	0x01C6,	-1 },
       {	0x01C7,	1 },
+      {	0x01C8,	0 },
       {	0x01C9,	-1 },
       {	0x01CA,	1 },
+      {	0x01CB,	0 },
       {	0x01CC,	-1 },
       {	0x01F1,	1 },
+      {	0x01F2,	0 },
       {	0x01F3,	-1 }
 };
 #define	UCS4NumTitleChars (sizeof(UnicodeToTitle)/sizeof(UnicodeToTitle[0]))
-- 
2.43.0


From f948dfcdbed363578f31d0aeec9a652675c987f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:40 +0000
Subject: [PATCH 05/70] fix: inserting a StrVal into itself read freed memory

---
 include/strval.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/strval.h b/include/strval.h
index fadc15e..650d681 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -694,6 +694,12 @@ public:
 					return *this;
 				}
 
+				if (&addend == this)			// Inserting into ourselves; keep the original alive
+				{
+					StrValI	self(addend);
+					return insert(pos, self);
+				}
+
 				Unshare();
 
 				// REVISIT: Handle StrRawBinary data
-- 
2.43.0


From 9f84835b77c769a5780b4774fd077d973fda5a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:46 +0000
Subject: [PATCH 06/70] fix: StrVal::insert ignored the offset of an unshared
 slice

---
 include/strval.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/strval.h b/include/strval.h
index 650d681..a4eec29 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -705,7 +705,8 @@ public:
 				// REVISIT: Handle StrRawBinary data
 				Index		addend_length;		// Get length in bytes
 				const char*	ap = addend.asUTF8(addend_length);
-				body->insertBytes(nthChar(pos)-nthChar(0), ap, addend_length);
+				// The slice may start after the start of the body, so use the byte offset in the body:
+				body->insertBytes(nthChar(pos)-body->data(), ap, addend_length);
 				// REVISIT: update or nullify the bookmark if after insertion point
 				num_chars += addend.length();
 				return *this;
-- 
2.43.0


From bea5a06f292a0af1f8706791704389708b073eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:02 +0000
Subject: [PATCH 07/70] fix: StrVal bookmarks must not outlive the edit or copy
 that invalidates them

---
 include/strval.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index a4eec29..b9ff6c6 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -707,7 +707,7 @@ public:
 				const char*	ap = addend.asUTF8(addend_length);
 				// The slice may start after the start of the body, so use the byte offset in the body:
 				body->insertBytes(nthChar(pos)-body->data(), ap, addend_length);
-				// REVISIT: update or nullify the bookmark if after insertion point
+				mark = Bookmark();			// It might be after the insertion point
 				num_chars += addend.length();
 				return *this;
 			}
@@ -800,14 +800,11 @@ private:
 	void		copyBody()
 			{
 				// Copy only this slice of the body's data, and reset our offset to zero
-				Bookmark	savemark(mark);			// copy the bookmark
 				const char*	cp = nthChar(0);		// start of this substring
 				const char*	ep = nthChar(length());		// end of this substring
-				Index		prefix_bytes = cp - body->nthChar(0, mark); // How many leading bytes of the body we are eliding
 
 				body = new Body(cp, body->isRawBinary() ? StrRawBinary : StrUTF8, ep-cp);
-				mark.char_num = savemark.char_num - offset;	// Restore the bookmark
-				mark.byte_num = savemark.byte_num - prefix_bytes;
+				mark = Bookmark();				// It might be outside this slice
 				offset = 0;
 			}
 
-- 
2.43.0


From 9c04bd0762a9246614c20ae84f8dfc3ab5c6471f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:58 +0000
Subject: [PATCH 08/70] fix: StrVal forward character searches looked beyond
 the end of the string

---
 include/strval.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index b9ff6c6..9d9034b 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -496,7 +496,7 @@ public:
 			{
 				Index		n = after+1;		// First Index we'll look at
 				const char*	up;
-				while ((up = nthChar(n)) != 0)
+				while (n < length() && (up = nthChar(n)) != 0)
 				{
 					if (ch == getChar(up))
 						return n;		// Found at n
@@ -558,7 +558,7 @@ public:
 			{
 				Index		n = after+1;		// First Index we'll look at
 				const char*	up;
-				while ((up = nthChar(n)) != 0)
+				while (n < length() && (up = nthChar(n)) != 0)
 				{
 					UCS4	ch = getChar(up);
 					for (Index i = 0; i < s1.length(); i++)
@@ -589,7 +589,7 @@ public:
 			{
 				Index		n = after+1;		// First Index we'll look at
 				const char*	up;
-				while ((up = nthChar(n)) != 0)
+				while (n < length() && (up = nthChar(n)) != 0)
 				{
 					UCS4	ch = getChar(up);
 					for (Index i = 0; i < s1.length(); i++)
-- 
2.43.0


From 7c12801ed8d14286999271af2a798c3773fc3564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:05 +0000
Subject: [PATCH 09/70] fix: StrVal substring searches compared past the end of
 either string

---
 include/strval.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 9d9034b..ba16b21 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -522,14 +522,19 @@ public:
 	// Search for substrings:
 	int		find(const StrValI& s1, int after = -1) const
 			{
+				if (s1.length() > length())
+					return -1;			// Too long to be found here
+
 				Index		n = after+1;		// First Index we'll look at
 				Index		last_start = length()-s1.length();	// Last possible start position
-				const char*	s1start = s1.nthChar(0);
+				Index		s1bytes;
+				const char*	s1start = s1.asUTF8(s1bytes);
+				const char*	ep = nthChar(length());	// Don't compare past here
 				const char*	up;
 				while (n <= last_start && (up = nthChar(n)) != 0)
 				{
 					// REVISIT: Only works if the StrDataType matches
-					if (memcmp(up, s1start, s1.numBytes()) == 0)
+					if (s1bytes <= ep-up && memcmp(up, s1start, s1bytes) == 0)
 						return n;
 					n++;
 				}
@@ -537,16 +542,21 @@ public:
 			}
 	int		rfind(const StrValI& s1, int before = -1) const
 			{
+				if (s1.length() > length() || before == 0)
+					return -1;			// Too long to be found here, or nowhere to look
+
 				Index		n = before == -1 ? length()-s1.length() : before-1;	// First Index we'll look at
 				if (n > length()-s1.length())
 					n = length()-s1.length();
 
-				const char*	s1start = s1.nthChar(0);
+				Index		s1bytes;
+				const char*	s1start = s1.asUTF8(s1bytes);
+				const char*	ep = nthChar(length());	// Don't compare past here
 				const char*	bp;
 				while ((bp = nthChar(n)) != 0)
 				{
 					// REVISIT: Only works if the StrDataType matches
-					if (memcmp(bp, s1start, s1.numBytes()) == 0)
+					if (s1bytes <= ep-bp && memcmp(bp, s1start, s1bytes) == 0)
 						return n;
 					n--;
 				}
-- 
2.43.0


From 4ecba720dd9c102a891bb6aababcf73f5b572f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:12 +0000
Subject: [PATCH 10/70] fix: StrVal::compare read past the end of the shorter
 string

---
 include/strval.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index ba16b21..5fc5291 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -875,10 +875,15 @@ int StrValI<Index>::compare(const StrValI& comparand, CompareStyle style) const
 	switch (style)
 	{
 	case CompareRaw:
-		cmp = memcmp(nthChar(0), comparand.nthChar(0), numBytes());
+	{
+		Index	bytes = numBytes();
+		Index	comparand_bytes = comparand.numBytes();
+
+		cmp = memcmp(nthChar(0), comparand.nthChar(0), bytes < comparand_bytes ? bytes : comparand_bytes);
 		if (cmp == 0)
-			cmp = numBytes() - comparand.numBytes();
+			cmp = bytes - comparand_bytes;
 		return cmp;
+	}
 
 	case CompareCI:
 		assert(!"REVISIT: Case-independent comparison is not implemented");
-- 
2.43.0


From ed461ad3be40d56e9209b6038241b0e68abbeab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:44 +0000
Subject: [PATCH 11/70] fix: StrVal::asInt32 must accept 0b with radix 2 and 0x
 with radix 16, as documented

---
 include/strval.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 5fc5291..058941b 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -1022,7 +1022,7 @@ int32_t StrValI<Index>::asInt32(
 			goto no_digits;
 	}
 
-	if (radix == 0)		// Auto-detect radix (octal, decimal, binary)
+	if (radix == 0 || radix == 2 || radix == 16)	// Auto-detect radix (octal, decimal, binary), or skip its prefix
 	{
 		if (UCS4Digit(ch) == 0 && i+1 < len)
 		{
@@ -1053,7 +1053,7 @@ int32_t StrValI<Index>::asInt32(
 				break;
 			}
 		}
-		else
+		else if (radix == 0)
 			radix = 10;
 	}
 
-- 
2.43.0


From dcbb83b9f9aecb38fb15ecbac69e27f2e5aae07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:50 +0000
Subject: [PATCH 12/70] fix: StrVal::asInt32 must report numbers that do not
 fit in 32 bits

---
 include/strval.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strval.h b/include/strval.h
index 058941b..85773f3 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -1091,7 +1091,7 @@ int32_t StrValI<Index>::asInt32(
 	if (scanned)
 		*scanned = i;
 
-	if (l > (unsigned long)LONG_MAX+(negative ? 1 : 0))
+	if (l > (unsigned long)INT32_MAX+(negative ? 1 : 0))
 	{
 		if (err_return)
 			*err_return = ErrNum(STRERR_SET, STRERR_NUMBER_OVERFLOW);
-- 
2.43.0


From b8133ae59d4574cf56c312725f741a6dcd3fed4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:09 +0000
Subject: [PATCH 13/70] fix: StrVal toLower/toUpper/toJSON/transform of an
 unshared slice converted the whole body

---
 include/strval.h | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 85773f3..2e5bef5 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -730,25 +730,28 @@ public:
 	StrValI		asUpper() const { StrValI upper(*this); upper.toUpper(); return upper; }
 	StrValI&	toLower()
 			{
-				Unshare();	// REVISIT: Unshare only when first change must be made
+				Isolate();	// REVISIT: Isolate only when first change must be made
 				body->toLower();
 				num_chars = body->numChars();
+				mark = Bookmark();
 				return *this;
 			}
 	StrValI&	toUpper()
 			{
-				Unshare();	// REVISIT: Unshare only when first change must be made
+				Isolate();	// REVISIT: Isolate only when first change must be made
 				body->toUpper();
 				num_chars = body->numChars();
+				mark = Bookmark();
 				return *this;
 			}
 	StrValI&	transform(const std::function<StrValI(const char*& cp, const char* ep)> xform, int after = -1);
 	StrValI		asJSON() const { StrValI json(*this); json.toJSON(); return json; }
 	StrValI&	toJSON()
 			{
-				Unshare();
+				Isolate();
 				body->toJSON();
 				num_chars = body->numChars();
+				mark = Bookmark();
 				return *this;
 			}
 
@@ -827,6 +830,15 @@ private:
 					copyBody();
 			}
 
+	void		Isolate()
+			{
+				// The methods that transform the whole body need it to contain just this slice
+				if (offset > 0 || offset+length() < body->numChars())
+					copyBody();
+				else
+					Unshare();
+			}
+
 	static int HexAlpha(UCS4 ch)
 			{
 				return (ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z')
@@ -969,7 +981,7 @@ void StrBodyI<Index>::transform(const std::function<Val(const char*& cp, const c
 template<typename Index>
 StrValI<Index>& StrValI<Index>::transform(const std::function<StrValI(const char*& cp, const char* ep)> xform, int after)
 {
-	Unshare();
+	Isolate();
 	body->transform(xform, after);
 	num_chars = body->numChars();
 	mark = Bookmark();
-- 
2.43.0


From 9b8c5524443fa2ab2084b3a3a36c45c15fdd5dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:11 +0000
Subject: [PATCH 14/70] fix: StrVal::toJSON wrote wrong surrogate pairs, and
 aborted on characters beyond U+FFFFF

---
 include/strval.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 2e5bef5..8826118 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -1200,11 +1200,16 @@ StrBodyI<Index>::toJSON()
 					break;
 				}
 
+				if (!UCS4IsUnicode(ch))
+				{		// JSON cannot represent this (e.g. an illegal UTF-8 byte)
+					u4(UCS4_REPLACEMENT, op);
+					break;
+				}
+
 				// We need two surrogates for Emoji's etc.
-				assert(ch <= 0xFFFFF);
-				// Surrogate pair: D800 to DBFF, Low surrogate: D800 to DBFF
-				u4(0xD800+((ch>>10)&0x3FF), op);
-				u4(0xDC00+(ch&0x3FF), op);
+				// Surrogate pair: D800 to DBFF, Low surrogate: DC00 to DFFF
+				u4(UCS4HighSurrogate(ch), op);
+				u4(UCS4LowSurrogate(ch), op);
 				break;
 			}
 			*op = '\0';
-- 
2.43.0


From fc083babaefb27edb57759751a68dcd980e7c4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:19 +0000
Subject: [PATCH 15/70] fix: StrVal::toJSON wrote a NUL character as \0, which
 is not JSON

---
 include/strval.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 8826118..3dc23d8 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -1150,8 +1150,6 @@ StrBodyI<Index>::toJSON()
 			char*	op = one_char;		// Pack it into our local buffer
 			switch (ch)
 			{
-			case '\0':	// Null Byte
-				*op++ = '\\'; *op++ = '0'; break;
 			case '\"':	// Double quote
 				*op++ = '\\'; *op++ = '\"'; break;
 			case '\\':	// Backslash character
-- 
2.43.0


From 037cf3b7fa34e1bca0188147189192c71e1163aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:36 +0000
Subject: [PATCH 16/70] fix: StrVal sign-extended raw binary bytes above 0x7F

---
 include/strval.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 3dc23d8..ab6aca7 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -267,7 +267,7 @@ protected:
 	UCS4		getChar(const char*& cp) const	// Return next character, next advancing cp
 			{
 				if (isRawBinary())
-					return *cp++;
+					return (unsigned char)*cp++;
 				return UTF8Get(cp);
 			}
 
@@ -427,7 +427,7 @@ public:
 				const char*	cp = nthChar(charNum);
 				if (!cp)
 					return UCS4_NONE;
-				return body->isRawBinary() ? *cp : UTF8Get(cp);
+				return body->isRawBinary() ? (UCS4)(unsigned char)*cp : UTF8Get(cp);
 			}
 	const char*	asUTF8()	// Null terminated. Must unshare data if it's a substring with elided suffix
 			{
@@ -807,7 +807,7 @@ private:
 	UCS4		getChar(const char*& cp) const
 			{
 				if (body->isRawBinary())
-					return *cp++;
+					return (unsigned char)*cp++;
 				return UTF8Get(cp);
 			}
 	void		copyBody()
-- 
2.43.0


From 9c71927798a928ac77ffadc1e6946e7a6182d21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:29 +0000
Subject: [PATCH 17/70] fix: ErrNum flag bits overlapped the set number; the
 sign bit marks an error, as documented

---
 include/error.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/error.h b/include/error.h
index dc39a73..27fbbad 100644
--- a/include/error.h
+++ b/include/error.h
@@ -38,8 +38,8 @@
 class ErrNum
 {
 public:
-	static const int32_t	ERR_FLAG = 0x8000000;	// Sign bit is used to indicate an error, allowing quick checks
-	static const int32_t	ERR_CUST = 0x4000000;	// Including this bit guarantees no collision with Microsoft subsystem codes
+	static const int32_t	ERR_FLAG = (int32_t)0x80000000;	// Sign bit is used to indicate an error, allowing quick checks
+	static const int32_t	ERR_CUST = 0x40000000;	// Including this bit guarantees no collision with Microsoft subsystem codes
 
 	constexpr ErrNum()
 			: errnum(0) {}
-- 
2.43.0


From 9c4c5d84c06bf41ff757ffff48ec263bf941eed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:05 +0000
Subject: [PATCH 18/70] fix: Array slices that end where their body ends failed
 an assertion

---
 include/array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/array.h b/include/array.h
index f7ea4a9..55143d1 100644
--- a/include/array.h
+++ b/include/array.h
@@ -444,8 +444,8 @@ public:
 	ArrayR(Body* body, Index offs, Index len)
 			: body(body), offset(offs), num_elements(len)
 			{
-				assert(offs < body->length());
-				assert(offs+len < body->length());
+				assert(offs+len >= offs);
+				assert(offs+len <= (body ? body->length() : 0));
 			}
 protected:
 	bool		isStatic() const;
-- 
2.43.0


From 1186d9db81147353eda24583a7a513279e412695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:12 +0000
Subject: [PATCH 19/70] fix: Array +=, insert and remove on an unshared slice
 ignored its offset

---
 include/array.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/array.h b/include/array.h
index 55143d1..cb8a5cc 100644
--- a/include/array.h
+++ b/include/array.h
@@ -210,7 +210,7 @@ public:
 				}
 
 				Unshare();
-				body->remove(at, len);
+				body->remove(offset+at, len);
 				num_elements -= len;
 				return *this;
 			}
@@ -231,7 +231,7 @@ public:
 	ArrayR&		operator+=(const Element& addend)
 			{
 				Unshare(1);
-				body->insert(num_elements, &addend, 1);
+				body->insert(offset+num_elements, &addend, 1);
 				num_elements++;
 				return *this;
 			}
@@ -269,7 +269,7 @@ public:
 				}
 
 				Unshare(addend.length());
-				body->insert(pos, addend.asElements(), addend.length());
+				body->insert(offset+pos, addend.asElements(), addend.length());
 				num_elements += addend.length();
 				return *this;
 			}
-- 
2.43.0


From d25a1ad2220081356f6effd233200690f4b40c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:19 +0000
Subject: [PATCH 20/70] fix: Array::rfind never looked at the first element

---
 include/array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/array.h b/include/array.h
index cb8a5cc..f0c3bf3 100644
--- a/include/array.h
+++ b/include/array.h
@@ -150,7 +150,7 @@ public:
 			{
 				const Element*	dp = body->data()+offset;	// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
-				for (const Element* bp = dp + (before < 0 ? num_elements : before)-1; bp > dp; bp--)
+				for (const Element* bp = dp + (before < 0 ? num_elements : before); bp-- > dp; )
 					if (*bp == e)
 						return bp-dp;
 				return -1;				// Not found
@@ -374,7 +374,7 @@ public:
 			{
 				const Element*	dp = body->data()+offset;	// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
-				for (const Element* bp = dp + (before < 0 ? num_elements : before)-1; bp > dp; bp--)
+				for (const Element* bp = dp + (before < 0 ? num_elements : before); bp-- > dp; )
 					if (match(*bp))
 						return bp-dp;
 				return -1;				// Not found
-- 
2.43.0


From 5322eeedac5c8f29b4146aaafa69a44bb91ea9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:27 +0000
Subject: [PATCH 21/70] fix: Array::compare reported a longer array equal to
 its prefix

---
 include/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array.h b/include/array.h
index f0c3bf3..3de7021 100644
--- a/include/array.h
+++ b/include/array.h
@@ -99,7 +99,7 @@ public:
 				}
 				if (i < comparand.length())
 					return -1;
-				return 0;
+				return i < num_elements ? 1 : 0;
 			}
 	inline bool	operator==(const ArrayR& comparand) const {
 				if (length() != comparand.length())
-- 
2.43.0


From 3a0ac0b4e6da2f54e690e355d1769facce7ea5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:34 +0000
Subject: [PATCH 22/70] fix: Array searches and functional methods dereferenced
 the null body of an empty array

---
 include/array.h | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/array.h b/include/array.h
index 3de7021..7a2ed66 100644
--- a/include/array.h
+++ b/include/array.h
@@ -139,7 +139,7 @@ public:
 	// Linear search for an element
 	int		find(const Element& e, int after = -1) const
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();	// Start of our slice (body may be null if empty)
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp + (after < 0 ? 0 : after+1); bp < ep; bp++)
 					if (*bp == e)
@@ -148,7 +148,7 @@ public:
 			}
 	int		rfind(const Element& e, int before = -1) const
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();	// Start of our slice (body may be null if empty)
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp + (before < 0 ? num_elements : before); bp-- > dp; )
 					if (*bp == e)
@@ -320,7 +320,7 @@ public:
 	// Functional methods (these don't mutate or Unshare the subject):
 	const Self&	each(std::function<void(const Element& e)> operation) const
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();	// Start of our slice (body may be null if empty)
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp; bp < ep; bp++)
 					operation(*bp);
@@ -329,7 +329,7 @@ public:
 			}
 	bool		all(std::function<bool(const Element& e)> condition) const	// Do all elements satisfy the condition?
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();	// Start of our slice (body may be null if empty)
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp; bp < ep; bp++)
 					if (!condition(*bp))
@@ -338,7 +338,7 @@ public:
 			}
 	bool		any(std::function<bool(const Element& e)> condition) const	// Does any element satisfy the condition?
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();	// Start of our slice (body may be null if empty)
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp; bp < ep; bp++)
 					if (condition(*bp))
@@ -347,7 +347,7 @@ public:
 			}
 	bool		one(std::function<bool(const Element& e)> condition) const	// Exactly one element satisfies the condition
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();	// Start of our slice (body may be null if empty)
 				const Element*	ep = dp+num_elements;		// End of our slice
 				bool		found = false;
 				for (const Element* bp = dp; bp < ep; bp++)
@@ -363,7 +363,7 @@ public:
 	// Linear search for an element using a match function
 	int		find(std::function<bool(const Element& e)> match, int after = -1) const
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();	// Start of our slice (body may be null if empty)
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp + (after < 0 ? 0 : after+1); bp < ep; bp++)
 					if (match(*bp))
@@ -372,7 +372,7 @@ public:
 			}
 	int		rfind(std::function<bool(const Element& e)> match, int before = -1) const
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();	// Start of our slice (body may be null if empty)
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp + (before < 0 ? num_elements : before); bp-- > dp; )
 					if (match(*bp))
@@ -384,7 +384,7 @@ public:
 	Self		select(std::function<bool(const Element& e)> condition) const
 			{
 				Self	selected;
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();	// Start of our slice (body may be null if empty)
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp; bp < ep; bp++)
 					if (condition(*bp))
@@ -395,7 +395,7 @@ public:
 			{
 				Result		output((E2*)0, 0, num_elements);// Preallocate correct size
 
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();	// Start of our slice (body may be null if empty)
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp; bp < ep; bp++)
 					output.append(map1(*bp));
@@ -404,7 +404,7 @@ public:
 	template<typename J> J	inject(const J& start, std::function<J(J&, const Element& e)> injection) const
 			{
 				J	accumulator = start;
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();	// Start of our slice (body may be null if empty)
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp; bp < ep; bp++)
 					accumulator = injection(accumulator, *bp);
@@ -412,7 +412,7 @@ public:
 			}
 	int		bsearch(std::function<int(const Element& e)> comparator) const
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();	// Start of our slice (body may be null if empty)
 				Index		l = 0;
 				Index		r = num_elements;
 				while (r > l)
-- 
2.43.0


From 674cdb8da0dbba5e7c784fc2360d0c4123a1d093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:41 +0000
Subject: [PATCH 23/70] fix: Array::bsearch looked beyond the end and skipped
 elements

---
 include/array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/array.h b/include/array.h
index 7a2ed66..2d9f380 100644
--- a/include/array.h
+++ b/include/array.h
@@ -417,12 +417,12 @@ public:
 				Index		r = num_elements;
 				while (r > l)
 				{
-					Index	m = l+(r-l+1)/2;	// Care with unsigned overflow
+					Index	m = l+(r-l)/2;		// Care with unsigned overflow
 					int	c = comparator(dp[m]);
 					if (c == 0)
 						return m;
 					if (c > 0)
-						r = m-1;		// The middle element was too great
+						r = m;			// The middle element was too great (r is exclusive)
 					else
 						l = m+1;		// The middle element was too small
 				}
-- 
2.43.0


From 00a7b52df3e7f16128c5be0055a5cff959012954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:48 +0000
Subject: [PATCH 24/70] fix: Array::delete_if deleted nothing

---
 include/array.h | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/include/array.h b/include/array.h
index 2d9f380..bbd691d 100644
--- a/include/array.h
+++ b/include/array.h
@@ -296,24 +296,19 @@ public:
 			{
 				if (num_elements == 0)
 					return *this;				// body may be null
-				const Element*	dp = body->data()+offset;	// Start of our slice
-				const Element*	bp = dp;			// Output pointer
-				const Element*	ep = dp+num_elements;		// End of our slice
-				for (const Element* sp = dp; sp < ep; sp++, bp++)
-					if (condition(*sp))
+				Index		kept = 0;			// How many elements have we kept so far?
+				for (Index i = 0; i < num_elements; i++)
+				{
+					if (condition(body->data()[offset+i]))
+						continue;			// Skip this element in the output
+					if (kept < i)
 					{
-						if (isShared())
-						{
-							Unshare();	// This invalidates the pointers; reset them
-							dp = body->data() + (dp-sp);
-							bp = body->data() + (bp-sp);
-							ep = body->data() + (ep-sp);
-							// sp = body->data();	// Unnecessary, we won't Unshare twice
-						}
-						bp--;	// Skip this element in the output
+						Unshare();			// This may reset the offset, but not our indexes
+						body->data()[offset+kept] = body->data()[offset+i];
 					}
-				if (bp < dp)
-					num_elements -= (dp-bp);
+					kept++;
+				}
+				num_elements = kept;
 				return *this;
 			}
 
-- 
2.43.0


From 066feec6173885765bf69df6bb96cd38bd178f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:55 +0000
Subject: [PATCH 25/70] fix: inserting an Array into itself read freed memory

---
 include/array.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/array.h b/include/array.h
index bbd691d..5fd7dd9 100644
--- a/include/array.h
+++ b/include/array.h
@@ -247,6 +247,12 @@ public:
 			{ Unshare(); body->insert(0, e); num_elements++; return *this; }
 	ArrayR&		insert(Index pos, const ArrayR& addend)
 			{
+				if (&addend == this)			// Inserting into ourselves; keep the original alive
+				{
+					ArrayR	self(addend);
+					return insert(pos, self);
+				}
+
 				if ((Body*)body == (Body*)addend.body)	// From the same body
 				{
 					// Handle the rare but important cases of extending a slice
-- 
2.43.0


From 2cfe1e4492ee624ebe0d5165e7c1cda45f36292a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:02 +0000
Subject: [PATCH 26/70] fix: Array append, +=, unshift, reverse and elem_ref
 did not compile when used

---
 include/array.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/array.h b/include/array.h
index 5fd7dd9..4cb6899 100644
--- a/include/array.h
+++ b/include/array.h
@@ -77,7 +77,8 @@ public:
 			  Unshare();
 			  return body->data()[offset+elem_num]; }
 	const Element&	elem_ref(int elem_num) const
-			{ return elem_mut(elem_num); }
+			{ assert(elem_num >= 0 && elem_num < num_elements && body);
+			  return body->data()[offset+elem_num]; }
 	const Element*	asElements() const
 			{ return body ? body->data()+offset : 0; }
 
@@ -244,7 +245,7 @@ public:
 	Element		shift()				// remove an element from the start
 			{ assert(num_elements > 0); return delete_at(0); }
 	ArrayR&		unshift(const Element& e)	// Insert an element at the start
-			{ Unshare(); body->insert(0, e); num_elements++; return *this; }
+			{ Unshare(1); body->insert(offset, &e, 1); num_elements++; return *this; }
 	ArrayR&		insert(Index pos, const ArrayR& addend)
 			{
 				if (&addend == this)			// Inserting into ourselves; keep the original alive
@@ -280,7 +281,7 @@ public:
 				return *this;
 			}
 	ArrayR&		append(const ArrayR& addend)	// Append an ArrayR to the end
-			{ return insert(num_elements, addend.asElements(), addend.length()); }
+			{ return insert(num_elements, addend); }
 	ArrayR&		append(const Element& addend)	// Append an element to the end
 			{ return push(addend); }
 	ArrayR&		reverse()
@@ -288,8 +289,8 @@ public:
 				if (num_elements == 0)
 					return *this;				// body may be null
 				Unshare();
-				const Element*	dp = body->data()+offset;	// Start of our slice
-				const Element*	ep = dp+num_elements;		// End of our slice
+				Element*	dp = body->data()+offset;	// Start of our slice
+				Element*	ep = dp+num_elements;		// End of our slice
 				while (ep-dp > 1)				// We haven't reached the middle yet
 				{
 					Element	e = *--ep;
@@ -449,7 +450,8 @@ public:
 				assert(offs+len <= (body ? body->length() : 0));
 			}
 protected:
-	bool		isStatic() const;
+	bool		isStatic() const
+			{ return body && body->isStatic(); }
 
 private:
 	Ref<Body>	body;		// The storage structure for the elements
-- 
2.43.0


From f011d6803082935e663db942feafd104596199e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:00 +0000
Subject: [PATCH 27/70] fix: CowMap::put erased the entry from other references
 to the same map

---
 include/cowmap.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/cowmap.h b/include/cowmap.h
index 7e46a13..b2d3f54 100644
--- a/include/cowmap.h
+++ b/include/cowmap.h
@@ -75,11 +75,11 @@ public:
 			{ Unshare(); body->erase(k); }
 	Key	put(const Key& k, Value v)
 			{
-				auto search = find(k);
-				if (search != end())
-					body->erase(k);
-				insert(k, v);
-				return k;
+				Key	key(k);		// k might refer to the entry we erase
+				Unshare();		// Don't erase from a body that others can see
+				body->erase(key);
+				body->insert(BaseVP(key, v));
+				return key;
 			}
 
 	// Functional methods (these don't mutate or Unshare the subject):
-- 
2.43.0


From f3d91a31a79ccfc23a30d60c433483313a0ff722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:07 +0000
Subject: [PATCH 28/70] fix: CowMap functional methods did not compile when
 used

---
 include/cowmap.h | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/include/cowmap.h b/include/cowmap.h
index b2d3f54..989cbdd 100644
--- a/include/cowmap.h
+++ b/include/cowmap.h
@@ -85,35 +85,35 @@ public:
 	// Functional methods (these don't mutate or Unshare the subject):
 	Array<Key>	keys() const
 			{
-				Array<K>	all_keys((Value*)0, 0, size());
+				Array<K>	all_keys((Key*)0, 0, size());
 				for (Iter it = begin(); it != end(); it++)
-					all_keys.append(it.first);
+					all_keys.append(it->first);
 				return all_keys;
 			}
 	Array<Value>	values() const
 			{
 				Array<Value>	all_values((Value*)0, 0, size());
 				for (Iter it = begin(); it != end(); it++)
-					all_values.append(it.second);
+					all_values.append(it->second);
 				return all_values;
 			}
 
 	void		each(std::function<void(const Key& k, const Value& v)> operation) const
 			{
 				for (Iter it = begin(); it != end(); it++)
-					operation(it.first, it.second);
+					operation(it->first, it->second);
 			}
 	bool		all(std::function<bool(const Key& k, const Value& v)> condition) const	// Do all elements satisfy the condition?
 			{
 				for (Iter it = begin(); it != end(); it++)
-					if (!condition(it.first, it.second))
+					if (!condition(it->first, it->second))
 						return false;
 				return true;
 			}
 	bool		any(std::function<bool(const Key& k, const Value& v)> condition) const	// Does any element satisfy the condition?
 			{
 				for (Iter it = begin(); it != end(); it++)
-					if (condition(it.first, it.second))
+					if (condition(it->first, it->second))
 						return true;
 				return false;
 			}
@@ -121,7 +121,7 @@ public:
 			{
 				bool		found = false;
 				for (Iter it = begin(); it != end(); it++)
-					if (condition(it.first, it.second))
+					if (condition(it->first, it->second))
 					{
 						if (found)
 							return false;
@@ -135,8 +135,8 @@ public:
 				CowMap	selected;
 
 				for (Iter it = begin(); it != end(); it++)
-					if (condition(it.first, it.second))
-						selected.put(it.first, it.second);
+					if (condition(it->first, it->second))
+						selected.put(it->first, it->second);
 				return selected;
 			}
 	template<typename V2 = V, typename K2 = K>
@@ -144,7 +144,10 @@ public:
 			{
 				CowMap<V2, K2>	output;
 				for (Iter it = begin(); it != end(); it++)
-					output.append(map1(it.first, it.second));
+				{
+					std::pair<K2, V2>	e = map1(it->first, it->second);
+					output.insert(e.first, e.second);
+				}
 				return output;
 			}
 	template<typename J>
@@ -152,7 +155,7 @@ public:
 			{
 				J	accumulator = start;
 				for (Iter it = begin(); it != end(); it++)
-					accumulator = injection(accumulator, it.first, it.second);
+					accumulator = injection(accumulator, it->first, it->second);
 				return accumulator;
 			}
 
-- 
2.43.0


From 6b308a7c6ebdea11af46ab6ac83f1a2366dc1c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:23 +0000
Subject: [PATCH 29/70] fix: Pegexp skip_atom must skip the operand of a
 repetition operator

---
 include/pegexp.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/pegexp.h b/include/pegexp.h
index 16176e6..4a3a8e8 100644
--- a/include/pegexp.h
+++ b/include/pegexp.h
@@ -794,9 +794,12 @@ protected:
 				skip_atom(pattern);
 			break;
 
+		case '?':	// Zero or one
+		case '*':	// Zero or more
+		case '+':	// One or more
 		case '&':	// Positive lookahead assertion
 		case '!':	// Negative lookahead assertion
-			skip_atom(pattern);
+			skip_atom(pattern);	// The operator applies to the following atom
 			break;
 
 		// Extended commands:
-- 
2.43.0


From e82ac0f60c58313ccff23d0ef4d4d50eb1718dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:52 +0000
Subject: [PATCH 30/70] fix: Pegexp \L and \U passed characters beyond the
 ctype tables to islower and isupper

---
 include/char_encoding.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/char_encoding.h b/include/char_encoding.h
index 6774efa..a820aed 100644
--- a/include/char_encoding.h
+++ b/include/char_encoding.h
@@ -84,6 +84,8 @@ inline bool	UCS4IsUTF16(UCS4 ch) { return ch < 0x00010000; }
 inline bool	isalpha(UCS4 c) { return UCS4IsAlphabetic(c); }
 inline bool	isdigit(UCS4 c) { return UCS4IsDecimal(c); }
 inline bool	isalnum(UCS4 c) { return UCS4IsAlphabetic(c) || UCS4IsDecimal(c); }
+inline bool	islower(UCS4 c) { return UCS4ToLower(c) == c && UCS4ToUpper(c) != c; }
+inline bool	isupper(UCS4 c) { return UCS4ToUpper(c) == c && UCS4ToLower(c) != c; }
 inline UCS4	toupper(UCS4 c) { return UCS4ToUpper(c); }
 inline UCS4	tolower(UCS4 c) { return UCS4ToLower(c); }
 inline bool	isspace(UCS4 c) { return UCS4IsWhite(c); }
-- 
2.43.0


From 3f2cd893947f5dbdbc51d0e0addc7931fff73a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:38 +0000
Subject: [PATCH 31/70] fix: Pegexp skipped a class with a hyphen after a
 property differently than it matched it

---
 include/pegexp.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/pegexp.h b/include/pegexp.h
index 4a3a8e8..32674f9 100644
--- a/include/pegexp.h
+++ b/include/pegexp.h
@@ -771,6 +771,12 @@ protected:
 				pattern++;
 			while (*pattern != '\0' && *pattern != ']')
 			{
+				char	esc = pattern[1];
+				if (*pattern == '\\' && isalpha(esc) && esc != 'x' && esc != 'u')
+				{	// A property or escape, as in char_class; it cannot start a range
+					pattern += 2;
+					continue;
+				}
 				(void)literal_char(pattern);
 				if (*pattern == '-')
 				{
-- 
2.43.0


From 1af977620ab14cea256b0c72f9c6f0cdeefc7ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:54 +0000
Subject: [PATCH 32/70] fix: Pegexp read past the end of a pattern that ends in
 an incomplete escape or operator

---
 include/pegexp.h | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/pegexp.h b/include/pegexp.h
index 32674f9..d08d2c2 100644
--- a/include/pegexp.h
+++ b/include/pegexp.h
@@ -402,6 +402,11 @@ protected:
 		if (rc != '\\')
 			return rc;
 		rc = *pattern++;
+		if (rc == '\0')				// A backslash ends the pattern
+		{
+			pattern--;
+			return 0;
+		}
 		if (rc >= '0' && rc <= '7')		// Octal
 		{
 			rc -= '0';
@@ -416,14 +421,17 @@ protected:
 				return 0;
 			if ((braces = (*pattern == '{')))
 				pattern++;
-			rc = unhex(*pattern++);
-			if (rc < 0)
+			int first = unhex(*pattern);
+			if (first < 0)
 				return 0;		// Error: invalid first hex digit
-			int second = unhex(*pattern++);
+			rc = first;
+			pattern++;
+			int second = unhex(*pattern);
 			if (second >= 0)
+			{
 				rc = (rc << 4) | second;
-			else
-				pattern--;		// Invalid second hex digit
+				pattern++;
+			}
 			if (braces && *pattern == '}')
 				pattern++;
 		}
@@ -761,6 +769,10 @@ protected:
 	{
 		switch (char rc = *pattern++)
 		{
+		case '\0':	// End of expression
+			pattern--;
+			return pattern;
+
 		case '\\':	// Escaped literal char
 			pattern--;
 			(void)literal_char(pattern);
-- 
2.43.0


From 693057894233b59d05f094115142039c3ff6d5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:30 +0000
Subject: [PATCH 33/70] fix: the default Peg context did not compile when used

---
 include/peg.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/peg.h b/include/peg.h
index 1a28516..c817217 100644
--- a/include/peg.h
+++ b/include/peg.h
@@ -60,6 +60,7 @@ class PegContextNoCapture
 {
 public:
 	using	Match = _Match;
+	using	State = typename Match::State;
 	using	Source = typename Match::Source;
 	using	PegexpT = PegPegexp<PegContextNoCapture>;
 	using	Rule = PegRuleNoCapture<PegexpT>;
@@ -92,11 +93,11 @@ public:
 	// When an atom of a Pegexp fails, the atom (pointer to start and end) and Source location are passed here
 	void		record_failure(PatternP op, PatternP op_end, Source location) {}
 
-	Match		match_result(Source from, Source to)	// Capture the range of text
+	Match		match_result(State from, State to)	// Capture the range of text
 			{ return Match(from, to); }
 
-	Match		match_failure(Source at)
-			{ return Match(at, Source()); }
+	Match		match_failure(State at)
+			{ return Match(at, at); }
 
 	PegT*		peg;
 	PegContextNoCapture* 	parent;
-- 
2.43.0


From 830b683f5c4a601d02c607de14545888686620e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:23 +0000
Subject: [PATCH 34/70] fix: Peg did not find some rules whose name is the
 start of another with a digit

---
 include/peg.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/peg.h b/include/peg.h
index c817217..8f40c13 100644
--- a/include/peg.h
+++ b/include/peg.h
@@ -281,11 +281,11 @@ public:
 			[](const void* key, const void* r2) {
 				const char*	key_name = (const char*)key;
 				const char*	rule_name = ((const Rule*)r2)->name;
-				int		len = strlen(rule_name);
+				size_t		len = strcspn(key_name, ">");	// The key may end at a '>'
 
 				int		cval = strncmp(key_name, rule_name, len);
-				if (cval == 0 && (key_name[len] != '>' && key_name[len] != '\0'))
-					cval = 1;	// This rule has a shortened version of this key
+				if (cval == 0 && rule_name[len] != '\0')
+					cval = -1;	// The key is a shortened version of this rule's name
 				return cval;
 			}
 		);
-- 
2.43.0


From fad04c18a45ec875148dfb5885f51ab57637511e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:44 +0000
Subject: [PATCH 35/70] fix: Peg captured labels that only start with the name
 of a capture

---
 include/peg_ast.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/peg_ast.h b/include/peg_ast.h
index 592a16a..20bb824 100644
--- a/include/peg_ast.h
+++ b/include/peg_ast.h
@@ -10,6 +10,7 @@
 #include	<peg.h>
 #include	<utf8_ptr.h>
 
+#include	<cctype>
 #include	<cstdio>
 
 using	PegMemorySourceSup = PegexpPointerSource<GuardedUTF8Ptr>;
@@ -104,8 +105,12 @@ public:
 		if (!captures)
 			return false;
 		for (int i = 0; captures[i]; i++)
-			if (0 == strncmp(captures[i], label, strlen(captures[i])))
-				return true;
+		{
+			size_t	len = strlen(captures[i]);
+			if (0 == strncmp(captures[i], label, len)
+			 && !isalnum((unsigned char)label[len]) && label[len] != '_')
+				return true;	// The whole label matches, not just the start of it
+		}
 		return false;
 	}
 };
-- 
2.43.0


From ee9c581f1084db8c087bf5c7e4f32a151aebea2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:26 +0000
Subject: [PATCH 36/70] fix: StringArray constructed from an array of StrVal
 read it as smaller elements

---
 include/strval.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index ab6aca7..d68926a 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -1227,8 +1227,10 @@ public:
 	StringArray() {}
 	StringArray(const Base& a1) : Base(a1) {}
 	StringArray(const StrVal* data, Index size, Index allocate = 0)
-	: Array(data, size, allocate)
-	{
+	: Array((const StrRef*)0, 0, allocate > size ? allocate : size)
+	{		// A StrVal is larger than a StrRef, so data is not an array of StrRef
+		for (Index i = 0; i < size; i++)
+			append(data[i]);
 	}
 
 	// Construct from an Array of const char*
-- 
2.43.0


From 8b2268bfb73c5cb5823360008a5ba10d1deb2dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:35 +0000
Subject: [PATCH 37/70] fix: Variant coercion between number types and from
 String kept the old type or refused

---
 include/variant.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/variant.h b/include/variant.h
index 7f1065f..0ce0893 100644
--- a/include/variant.h
+++ b/include/variant.h
@@ -288,11 +288,11 @@ protected:
 			{
 			case Integer:	return; // Already handled
 			case Long:	if (u.l != (int)u.l) break;	// Fail if it would truncate
-					u.i = (int)u.l; return;
+					u.i = (int)u.l; _type = new_type; return;
 			case LongLong:	if (u.ll != (int)u.ll) break;	// Fail if it would truncate
-					u.i = (int)u.ll; return;
+					u.i = (int)u.ll; _type = new_type; return;
 			case String:	i32 = StrVal(u.str).asInt32(&e, 0);
-					if (!e)				// Some error in conversion
+					if (e)				// Some error in conversion
 						break;
 					u.i = i32;
 					_type = new_type;
@@ -308,12 +308,12 @@ protected:
 		case Long:
 			switch (old_type)
 			{
-			case Integer:	u.l = u.i; return;
+			case Integer:	u.l = u.i; _type = new_type; return;
 			case Long:	return; // Already handled
 			case LongLong:	if (u.ll != (long)u.ll) break;	// Fail if it would truncate
-					u.l = (long)u.ll; return;
+					u.l = (long)u.ll; _type = new_type; return;
 			case String:	i32 = StrVal(u.str).asInt32(&e, 0);	// REVISIT: int32 only, or it fails
-					if (!e)				// Some error in conversion
+					if (e)				// Some error in conversion
 						break;
 					u.l = i32;
 					_type = new_type;
@@ -329,8 +329,8 @@ protected:
 		case LongLong:
 			switch (old_type)
 			{
-			case Integer:	u.l = u.i; return;
-			case Long:	u.ll = u.l; return;
+			case Integer:	u.ll = u.i; _type = new_type; return;
+			case Long:	u.ll = u.l; _type = new_type; return;
 			case LongLong:	return; // Already handled
 			case String:	i32 = StrVal(u.str).asInt32(&e, 0);	// REVISIT: int32 only, or it fails
 					if (e)				// Some error in conversion
-- 
2.43.0


From 23015510573332407369f35eb96cb7ef3044503b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:42 +0000
Subject: [PATCH 38/70] fix: Variant leaked its string when coerced from String
 to a number

---
 include/variant.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/variant.h b/include/variant.h
index 0ce0893..7c78edf 100644
--- a/include/variant.h
+++ b/include/variant.h
@@ -294,6 +294,7 @@ protected:
 			case String:	i32 = StrVal(u.str).asInt32(&e, 0);
 					if (e)				// Some error in conversion
 						break;
+					u.str.~StrRef();
 					u.i = i32;
 					_type = new_type;
 					return;
@@ -315,6 +316,7 @@ protected:
 			case String:	i32 = StrVal(u.str).asInt32(&e, 0);	// REVISIT: int32 only, or it fails
 					if (e)				// Some error in conversion
 						break;
+					u.str.~StrRef();
 					u.l = i32;
 					_type = new_type;
 					return;
@@ -335,6 +337,7 @@ protected:
 			case String:	i32 = StrVal(u.str).asInt32(&e, 0);	// REVISIT: int32 only, or it fails
 					if (e)				// Some error in conversion
 						break;
+					u.str.~StrRef();
 					u.ll = i32;
 					_type = new_type;
 					return;
-- 
2.43.0


From 39d465ab1ecea05365220a4c8ec26b5f784b8034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:17 +0000
Subject: [PATCH 39/70] fix: Rx compiler allocated too little for, or
 mispatched, some offsets needing two or more bytes

---
 rx/rxcompile.cpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index 9dff646..ba0b136 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -734,7 +734,7 @@ RxCompiler::compile(char*& nfa)
 	// The maximum size of the nfa is thus (bytes_required+offsets_required*offset_max_bytes)
 	// Now we know this, we know the maximum size of an actual offset and can get close to the actual NFA size.
 	// This might be a tad high as some offsets might shrink, but not by much.
-	bytes_required += offsets_required * UTF8Len(bytes_required+offsets_required*offset_max_bytes);
+	bytes_required += offsets_required * offset_max_bytes;	// Unpatched offsets take up the maximum
 	// printf("Allocating %d bytes for the NFA\n", bytes_required);
 
 	nfa = new UTF8[bytes_required+1];
@@ -791,6 +791,17 @@ RxCompiler::compile(char*& nfa)
 			ep += utf8_count;		// And advance past them
 		};
 
+	// A forward offset gets smaller when the space it doesn't need is removed, which can make it need even less
+	auto	shrunk_offset =
+		[&](int offset) -> int
+		{
+			StrValIndex	used = offset_max_bytes;
+			StrValIndex	needed;
+			while ((needed = UTF8Len(zigzag(offset-(int)(offset_max_bytes-used)))) < used)
+				used = needed;
+			return offset-(int)(offset_max_bytes-used);
+		};
+
 	auto	patch_value_at =
 		[&](StrValIndex patch_location, int value) -> int
 		{
@@ -822,11 +833,8 @@ RxCompiler::compile(char*& nfa)
 			 * taking one fewer bytes, a process that can only happen once(?).
 			 */
 			int		offset = offset_to - patch_location;
-			StrValIndex	byte_count = UTF8Len(zigzag(offset));
-			StrValIndex	shrinkage = offset_max_bytes - byte_count;
-			if (byte_count < offset_max_bytes	// We'll shuffle
-			 && patch_location < offset_to)		// And the patch location is prior to the target
-				offset -= shrinkage;		// The offset is now smaller
+			if (patch_location < offset_to)		// If the patch location is prior to the target
+				offset = shrunk_offset(offset);	// we'll shuffle, and the offset is now smaller
 
 			return patch_value_at(patch_location, offset);
 		};
@@ -1072,7 +1080,7 @@ RxCompiler::compile(char*& nfa)
 						// last_atom_start+1 is the location of the Split offset
 						// ep+rev_bytes is our guess at its target
 						delta = (ep+rev_bytes) - (last_atom_start+1);	// The forward split offset
-						fwd_bytes = UTF8Len(zigzag(delta));
+						fwd_bytes = UTF8Len(zigzag(shrunk_offset(delta)));
 						rev_delta = last_atom_start - (ep-(offset_max_bytes-fwd_bytes));
 						last_rev = rev_bytes;
 						rev_bytes = UTF8Len(zigzag(rev_delta));
-- 
2.43.0


From 08eaf10418b46e08c340a0a3b061c8ceed7f9735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:38 +0000
Subject: [PATCH 40/70] fix: Rx refused a {n} that is followed by a comma
 anywhere in the expression

---
 rx/rxcompile.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index ba0b136..4c8ede8 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -168,15 +168,16 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 			if (!(ok = flush())) break;
 			param = re.substr(++i);
 			min = max = 0;
-			// Find the end of the first number:
-			close = param.find(',');
-			if (close < 0)
-				close = param.find('}'); // Just one number?
+			// Find the end of the repetition, then the end of the first number:
+			close = param.find('}');
 			if (close < 0)
 			{
 		bad_repetition:	error_message = "Bad repetition count";
 				break;
 			}
+			param = param.substr(0, close);
+			if (param.find(',') >= 0)
+				close = param.find(',');	// Not just one number
 			if (close > 0)
 			{
 				min = param.substr(0, close).asInt32(&int_error, 10, &scanned);
-- 
2.43.0


From 0527227506a689e6a57ebd1618bec4f61be25421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:44 +0000
Subject: [PATCH 41/70] fix: Rx accepted repetition counts over 65535,
 truncated to 16 bits

---
 rx/rxcompile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index 4c8ede8..7a66e6f 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -51,7 +51,7 @@ public:
 
 	RxToken(RxOp _op) : op(_op) { }
 	RxToken(RxOp _op, StrVal _str) : op(_op), str(_str) { }
-	RxToken(RxOp _op, int min, int max) : op(_op) { repetition.min = min; repetition.max = max; }
+	RxToken(RxOp _op, int min, int max) : op(_op) { repetition.min = min > UINT16_MAX ? UINT16_MAX : min; repetition.max = max > UINT16_MAX ? UINT16_MAX : max; }
 };
 
 RxCompiler::RxCompiler(StrVal _re, RxFeature features, RxFeature reject_features)
-- 
2.43.0


From 1faa394230c7fb41ee3335329abc44fd1ec127b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:09 +0000
Subject: [PATCH 42/70] fix: Rx reported no or a later error instead of the
 first, and rejected features that were not used

---
 rx/rxcompile.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index 7a66e6f..ec1d4f6 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -113,7 +113,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 
 	ok = func(RxToken(RxOp::RxoStart));
 	if (!ok) error_offset = i;
-	for (; ok && i < re.length(); i++)
+	for (; ok && !error_message && i < re.length(); i++)
 	{
 		switch (ch = re[i])
 		{
@@ -376,7 +376,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 			}
 
 			i += 2;	// Skip the '(?'
-			if (supported(RxFeature::Capture) && re[i] == '<')		// Capture
+			if (re[i] == '<' && supported(RxFeature::Capture))		// Capture
 			{
 				param = re.substr(++i);
 				close = param.find('>');
@@ -390,17 +390,17 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 				ok = func(RxToken(RxOp::RxoNamedCapture, param));
 				break;
 			}
-			else if (supported(RxFeature::NonCapture) && re[i] == ':')	// Noncapturing group
+			else if (re[i] == ':' && supported(RxFeature::NonCapture))	// Noncapturing group
 			{
 				ok = func(RxToken(RxOp::RxoNonCapturingGroup));
 				break;
 			}
-			else if (supported(RxFeature::NegLookahead) && re[i] == '!') // Negative Lookahead
+			else if (re[i] == '!' && supported(RxFeature::NegLookahead)) // Negative Lookahead
 			{
 				ok = func(RxToken(RxOp::RxoNegLookahead));
 				break;
 			}
-			else
+			else if (!error_message)
 				error_message = "Illegal group type";
 			break;
 
@@ -433,7 +433,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 		if (!ok || error_message)
 			error_offset = i;
 	}
-	if (ok)
+	if (ok && !error_message)
 		ok = flush();
 	if (ok && !error_message && i >= re.length())	// If we didn't complete, there was an error
 	{
@@ -635,7 +635,7 @@ RxCompiler::compile(char*& nfa)
 				goto str_param;			// This string will be in the names table of RxoStart
 
 			case RxOp::RxoEndGroup:			// End of a group
-				if (nesting <= 0)
+				if (nesting <= 1)	// Only RxoStart is open
 				{
 					error_message = "Too many closing parentheses";
 					return false;
-- 
2.43.0


From 98021a6ef4db310871cad715fb01b5768ac53962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:14 +0000
Subject: [PATCH 43/70] fix: RxProgram deleted the NFA array it owned as a
 single object

---
 rx/rxmatch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx/rxmatch.cpp b/rx/rxmatch.cpp
index 56d5835..d632d47 100644
--- a/rx/rxmatch.cpp
+++ b/rx/rxmatch.cpp
@@ -132,7 +132,7 @@ RxProgram::RxProgram(const char* _nfa, bool take_ownership)
 
 RxProgram::~RxProgram()
 {
-	if (nfa && nfa_owned) delete(nfa);
+	if (nfa && nfa_owned) delete[] nfa;
 }
 
 StrVal
-- 
2.43.0


From 51c34652c7ffe75f9dc841aa1d57e211c5f09eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:20 +0000
Subject: [PATCH 44/70] fix: Rx abandoned every match at the end of a named
 capture group

---
 rx/rxmatch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx/rxmatch.cpp b/rx/rxmatch.cpp
index d632d47..2fd15a6 100644
--- a/rx/rxmatch.cpp
+++ b/rx/rxmatch.cpp
@@ -397,7 +397,7 @@ next:
 		thread.station = instr.next;
 		TRACK(("\t\tthread %d saves end %d=%d\n", thread.thread_number, instr.capture_number, offset));
 		thread.result = thread.result.captureSet(instr.capture_number*2+1, offset);
-		break;
+		goto next;
 
 	case RxOp::RxoZero:
 		thread.result.counterPushZero(offset);
-- 
2.43.0


From bc20ce4a05a86a899a6fbf4389fd98a123754d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:25 +0000
Subject: [PATCH 45/70] fix: Rx continued after a negative lookahead from where
 the lookahead ended

---
 rx/rxmatch.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rx/rxmatch.cpp b/rx/rxmatch.cpp
index 2fd15a6..f13fad6 100644
--- a/rx/rxmatch.cpp
+++ b/rx/rxmatch.cpp
@@ -81,7 +81,7 @@ public:
 	RxMatch(const RxMatch& _tocopy);
 	~RxMatch();
 
-	const RxResult	matchAt(RxStationID start, StrValIndex& offset);
+	const RxResult	matchAt(RxStationID start, StrValIndex offset);
 
 private:
 	const RxProgram& program;		// The NFA to execute
@@ -473,7 +473,7 @@ next:
  * Populate the RxMatch where necessary.
  */
 const RxResult
-RxMatch::matchAt(RxStationID start, StrValIndex& offset)
+RxMatch::matchAt(RxStationID start, StrValIndex offset)
 {
 	Thread*		thread_p;
 	RxDecoded	instr;
-- 
2.43.0


From 7d3bd67809c3380f5abe74b5232c0eb0fb4dd37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:47 +0000
Subject: [PATCH 46/70] fix: Rx lost matches, or aborted, when threads differ
 by counters, many alternatives meet or a {0,n} is skipped

---
 rx/rxmatch.cpp | 156 ++++++++++++++++++++-----------------------------
 rx/strregex.h  |   3 +-
 2 files changed, 64 insertions(+), 95 deletions(-)

diff --git a/rx/rxmatch.cpp b/rx/rxmatch.cpp
index f13fad6..1c489a2 100644
--- a/rx/rxmatch.cpp
+++ b/rx/rxmatch.cpp
@@ -38,6 +38,7 @@ public:
 
 	int		counterNum() const { return counters_used/2; }
 	int		counterGet(int i) const { return reserved() ? values[counterBase()+counters_used - i*2 - 1] : 0; }
+	StrValIndex	counterOffset(int i) const { return reserved() ? values[counterBase()+counters_used - i*2 - 2] : 0; }
 	void		counterPushZero(StrValIndex offset);
 	StrValIndex 	counterIncr(StrValIndex offset);
 	void		counterPop();
@@ -63,7 +64,7 @@ private:
 
 class RxMatch
 {
-	// It is possible there can be as many threads as Stations in the program.
+	// It is possible there can be as many threads as Stations in the program, for each different value of the counters.
 	// Each cycle traverses an array of current threads, building an array for the next cycle.
 	struct Thread {
 		Thread();
@@ -89,11 +90,10 @@ private:
 	RxResult	result;			// Result from the successful thread
 
 	// Concurrent threads of execution:
-	Thread*		current_threads;	// The threads we're currently evaluating
-	RxStationID	current_count;		// How many of the above are populated
-	Thread*		next_threads;		// The threads that lead on from here
-	RxStationID	next_count;		// How many of the above are populated
-	void		addthread(Thread thread, StrValIndex offset, StrValIndex *shunts, StrValIndex num_shunt, StrValIndex max_duplicates_allowed = 0);
+	std::vector<Thread> current_threads;	// The threads we're currently evaluating
+	std::vector<Thread> next_threads;	// The threads that lead on from here
+	std::vector<Thread> visited;		// The states the next threads have passed through at this offset
+	void		addthread(Thread thread, StrValIndex offset);
 };
 
 static int32_t zagzig(int32_t i)
@@ -259,28 +259,20 @@ RxMatch::RxMatch(const RxProgram& _program, StrVal _target)
 : program(_program)
 , target(_target)
 {
-	int	i = program.maxStation();
-	current_threads = new Thread[i];
-	current_count = 0;
-	next_threads = new Thread[i];
-	next_count = 0;
+	current_threads.reserve(program.maxStation());
+	next_threads.reserve(program.maxStation());
 }
 
 RxMatch::RxMatch(const RxMatch& _tocopy)
 : program(_tocopy.program)
 , target(_tocopy.target)
 {
-	int	i = program.maxStation();
-	current_threads = new Thread[i];
-	current_count = 0;
-	next_threads = new Thread[i];
-	next_count = 0;
+	current_threads.reserve(program.maxStation());
+	next_threads.reserve(program.maxStation());
 }
 
 RxMatch::~RxMatch()
 {
-	delete[] current_threads;
-	delete[] next_threads;
 }
 
 RxMatch::Thread::Thread()
@@ -304,59 +296,22 @@ int	RxMatch::Thread::next_thread = 0;	// Sequential thread numbering to aid in d
 #endif
 
 void
-RxMatch::addthread(Thread thread, StrValIndex offset, StrValIndex* shunts, StrValIndex num_shunt, StrValIndex max_duplicates_allowed)
+RxMatch::addthread(Thread thread, StrValIndex offset)
 {
-	// Recursion control, prevents stack explosion on empty loops
-	for (int i = 0; i < num_shunt; i++)
-		if (shunts[i] == thread.station)
-		{
-			TRACK(("\t\tthread %d would recurse\n", thread.thread_number));
-			return;
-		}
-	assert(num_shunt < RxMaxNesting);
-	if (num_shunt == RxMaxNesting)
-	{
-		TRACK(("\t\tthread %d would exceed nesting limit\n", thread.thread_number));
-		return;
-	}
-	shunts[num_shunt++] = thread.station;
-
-	int	duplicates = 0;
-	for (int i = 0; i < next_count; i++)
-	{
-		if (next_threads[i].station == thread.station)
-		{
-			if ((max_duplicates_allowed			// Check for an exact duplicate first
-				&& thread.result.countersSame(next_threads[i].result))
-			 || ++duplicates > max_duplicates_allowed)	// Or too many duplicates
-			{
-				// The above condition is not perfect - it fails with 5x nested counted repetitions for example.
-				// Failing to find a solution in such a pathological case doesn't bother me.
-				// Should we have a policy of deleting the duplicate with the lowest count?
-
-#ifdef TRACK_RESULTS
-				TRACK(("\t\tthread %d at %d is a duplicate", thread.thread_number, thread.station));
-				if (thread.result.hasCounter()) TRACK((" (count %d)", thread.result.counterTop().count));
-				TRACK((" of thread %d", next_threads[i].thread_number));
-				if (next_threads[i].result.hasCounter())
-				{
-					TRACK((" (counters"));
-					for (int i = 0; i < next_threads[i].result.counterNum(); i++)
-						TRACK((" %d", next_threads[i].result.counterGet(i)));
-					TRACK((")"));
-				}
-				TRACK(("\n"));
-#endif
-				return;		// We already have this thread
-			}
-		}
-	}
-
 	/*
 	 * If the opcode at the new thread won't consume text, evaluate it either by looping (tail recursion) or a recursive call
 	 */
 	RxDecoded	instr;
 next:
+	// Don't repeat what an earlier thread (which is preferred) has done. This also ends the recursion on empty loops
+	for (size_t i = 0; i < visited.size(); i++)
+		if (visited[i].station == thread.station && visited[i].result.countersSame(thread.result, offset))
+		{
+			TRACK(("\t\tthread %d at %d is a duplicate\n", thread.thread_number, thread.station));
+			return;
+		}
+	visited.push_back(thread);
+
 	program.decode(thread.station, instr);
 	switch (instr.op)
 	{
@@ -383,8 +338,8 @@ next:
 
 	case RxOp::RxoSplit:
 		// REVISIT: For non-greedy repetition, we need these addthread calls in opposite order (same for RxoCount)
-		addthread(Thread(instr.alternate, thread.result), offset, shunts, num_shunt);
-		addthread(Thread(instr.next, thread.result, &thread), offset, shunts, num_shunt);
+		addthread(Thread(instr.alternate, thread.result), offset);
+		addthread(Thread(instr.next, thread.result, &thread), offset);
 		break;
 
 	case RxOp::RxoCaptureStart:
@@ -400,30 +355,45 @@ next:
 		goto next;
 
 	case RxOp::RxoZero:
+	{
+		// Find the RxoCount, which says whether zero repetitions are enough
+		RxDecoded	count;
+		RxStationID	station = instr.next;
+		do {
+			program.decode(station, count);
+			station = count.next;
+		} while (count.op != RxOp::RxoCount || count.alternate != instr.next);
+		if (count.repetition.min == 0)
+			addthread(Thread(count.next, thread.result), offset);
+
 		thread.result.counterPushZero(offset);
 		thread = Thread(instr.next, thread.result, &thread);
+	}
 		goto next;
 
 	case RxOp::RxoCount:	// This instruction follows a repeated item, so the pre-incremented counter tells how many we've passed
 	{
 		RxResult::Counter	previous = thread.result.counterTop();
 
-		short	counter = thread.result.counterIncr(offset);
+		// When there is no maximum, there's no need to count beyond the minimum
+		short	counter = previous.count;
+		if (instr.repetition.max != 0 || counter < instr.repetition.min)
+			counter = thread.result.counterIncr(offset);
 
-		// Don't repeat unless the offset has increased since the last repeat (instead, just continue with next).
+		// Don't repeat beyond the minimum unless the offset has increased since the last repeat (instead, just continue with next).
 		if (previous.offset == offset)
 			TRACK(("\t\tRepetition at shunt %d did not proceed from offset %d\n", thread.station, offset));
 
-		if ((counter <= instr.repetition.max || instr.repetition.max == 0)	// Greedily repeat
-		 && previous.offset <= offset)		// Only if we advanced
-			addthread(Thread(instr.alternate, thread.result), offset, shunts, num_shunt, instr.repetition.min);
+		if ((counter < instr.repetition.max || instr.repetition.max == 0)	// Greedily repeat
+		 && (previous.offset < offset || counter < instr.repetition.min))	// Only if we advanced, or must
+			addthread(Thread(instr.alternate, thread.result), offset);
 
 		if ((counter >= instr.repetition.min || previous.offset == offset)	// Reached minimum count, or will without advancing
 		 && (instr.repetition.max == 0 || counter <= instr.repetition.max))
 		{
 			RxResult	continuation = thread.result;
 			continuation.counterPop();	// The continuing thread has no further need of the counter
-			addthread(Thread(instr.next, continuation, &thread), offset, shunts, num_shunt, instr.repetition.min);
+			addthread(Thread(instr.next, continuation, &thread), offset);
 		}
 		thread.result.clear();
 	}
@@ -439,7 +409,7 @@ next:
 		{
 			// Not matched, as requested, so continue with the next instruction at the current offset
 			TRACK(("\t\tthread %d negative lookahead failed, so we can continue at offset %d\n", thread.thread_number, offset));
-			addthread(Thread(instr.alternate, thread.result, &thread), offset, shunts, num_shunt, instr.repetition.min);
+			addthread(Thread(instr.alternate, thread.result, &thread), offset);
 		}
 		else
 			TRACK(("\t\thread %d negative lookahead succeeded, abandon ship\n", thread.thread_number));
@@ -461,10 +431,7 @@ next:
 		}
 		TRACK(("\n"));
 #endif
-		assert(next_count < program.maxStation());
-		if (next_count < program.maxStation())
-			next_threads[next_count++] = thread;
-		// else the compiler let us down; silently ignore this possible path and hope something else matches correctly
+		next_threads.push_back(thread);
 	}
 };
 
@@ -477,18 +444,15 @@ RxMatch::matchAt(RxStationID start, StrValIndex offset)
 {
 	Thread*		thread_p;
 	RxDecoded	instr;
-	StrValIndex 	shunts[RxMaxNesting];	// Controls recursion in addthread
 
 	// Start where directed, and step forward one character at a time, following all threads until successful or there are no threads left
-	next_count = 0;
-	addthread(Thread(start, RxResult(program.maxCounter(), program.maxCapture())), offset, shunts, 0);
+	addthread(Thread(start, RxResult(program.maxCounter(), program.maxCapture())), offset);
 	std::swap(current_threads, next_threads);
-	current_count = next_count;
-	next_count = 0;
-	for (; current_count > 0 && offset <= target.length(); offset++)
+	visited.clear();
+	for (; current_threads.size() > 0 && offset <= target.length(); offset++)
 	{
-		TRACK(("\ncycle at offset %d with %d threads looking at '%s'\n", offset, current_count, target.substr(offset, 1).asUTF8()));
-		for (thread_p = current_threads; thread_p < current_threads+current_count; thread_p++)
+		TRACK(("\ncycle at offset %d with %d threads looking at '%s'\n", offset, (int)current_threads.size(), target.substr(offset, 1).asUTF8()));
+		for (thread_p = current_threads.data(); thread_p < current_threads.data()+current_threads.size(); thread_p++)
 		{
 			RxStationID	pc = thread_p->station;
 			program.decode(pc, instr);
@@ -635,7 +599,7 @@ RxMatch::matchAt(RxStationID start, StrValIndex offset)
 
 			case succeeded:			// This instruction succeeded, so continue with the next one
 				TRACK(("succeeds\n"));
-				addthread(Thread(instr.next, thread_p->result, thread_p), offset+1, shunts, 0);
+				addthread(Thread(instr.next, thread_p->result, thread_p), offset+1);
 				break;
 
 			case accepted:			// This thread has matched
@@ -660,17 +624,14 @@ RxMatch::matchAt(RxStationID start, StrValIndex offset)
 		}
 
 		std::swap(current_threads, next_threads);
-		current_count = next_count;
-		next_count = 0;
+		next_threads.clear();
+		visited.clear();
 	}
 
 	// If we have a result, it's in `result`.
 	// If not, we ran out of threads that could move forward, or ran out of input to move forward on.
 	// REVISIT: Might it be useful to know on which Station(s) we ran out of input? Or callback to get more?
 
-	// Wipe old result references, we already copied the one we chose:
-	for (thread_p = current_threads; thread_p < current_threads+current_count; thread_p++)
-		thread_p->result.clear();
 	return result;
 }
 
@@ -852,12 +813,13 @@ RxResult::captureSet(int index, StrValIndex val)
 }
 
 bool
-RxResult::countersSame(RxResult& other) const
+RxResult::countersSame(const RxResult& other, StrValIndex offset) const
 {
 	if (counterNum() != other.counterNum())
 		return false;
 	for (int i = 0; i < counterNum(); i++)
-		if (counterGet(i) != other.counterGet(i))
+		if (counterGet(i) != other.counterGet(i)
+		 || (counterOffset(i) == offset) != (other.counterOffset(i) == offset))	// One has advanced and the other has not
 			return false;
 	return true;
 }
@@ -874,6 +836,12 @@ RxResult::counterGet(int i) const	// get the nth top counter
 	return captures ? captures->counterGet(i) : 0;
 }
 
+StrValIndex
+RxResult::counterOffset(int i) const	// get the offset of the last repetition of the nth top counter
+{
+	return captures ? captures->counterOffset(i) : 0;
+}
+
 void
 RxResult::counterPushZero(StrValIndex offset)	// Push a zero counter
 {
diff --git a/rx/strregex.h b/rx/strregex.h
index 5338b53..e9a3f1f 100644
--- a/rx/strregex.h
+++ b/rx/strregex.h
@@ -206,8 +206,9 @@ public:
 	RxResult&	captureSet(int index, StrValIndex val);
 	int		counterNum() const;	// How many counters are in use?
 	bool		hasCounter() const { return counterNum() > 0; }
-	bool		countersSame(RxResult& other) const;
+	bool		countersSame(const RxResult& other, StrValIndex offset) const;	// The same counts, and advanced to this offset or not
 	int		counterGet(int = 0) const;		// get the nth top counter
+	StrValIndex	counterOffset(int = 0) const;		// and where its last repetition ended
 	void		counterPushZero(StrValIndex offset);	// Push a zero counter at this offset
 	StrValIndex	counterIncr(StrValIndex offset);	// Increment and return top counter of stack
 	void		counterPop();		// Discard the top counter of the stack
-- 
2.43.0


From 79be4e0698352644d9c93b339dcc0313da86fedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:04 +0000
Subject: [PATCH 47/70] fix: Rx repeated the whole preceding literal when
 ignored whitespace precedes the repetition

---
 rx/rxcompile.cpp | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index ec1d4f6..e93f480 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -110,6 +110,15 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 				}
 				return true;
 			};
+	auto		flush_repeated = [&delayed, func, flush]() {	// Only the last character is repeated
+				if (delayed.length() > 1)
+				{
+					if (!func(RxToken(RxOp::RxoLiteral, delayed.shorter(1))))
+						return false;
+					delayed = delayed.tail(1);
+				}
+				return flush();
+			};
 
 	ok = func(RxToken(RxOp::RxoStart));
 	if (!ok) error_offset = i;
@@ -139,7 +148,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 			break;
 
 		case '?':
-			if (!(ok = flush())) break;
+			if (!(ok = enabled(RxFeature::AnyIsQuest) ? flush() : flush_repeated())) break;
 			if (enabled(RxFeature::AnyIsQuest))
 				ok = func(RxToken(RxOp::RxoAny));	// Shell-style any-char wildcard
 			else
@@ -149,7 +158,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 		case '*':
 			if (!supported(RxFeature::ZeroOrMore))
 				goto simple_char;
-			if (!(ok = flush())) break;
+			if (!(ok = enabled(RxFeature::ZeroOrMoreAny) ? flush() : flush_repeated())) break;
 			if (enabled(RxFeature::ZeroOrMoreAny))
 				ok = func(RxToken(RxOp::RxoAny));
 			ok = func(RxToken(RxOp::RxoRepetition, 0, 0));
@@ -158,14 +167,14 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 		case '+':
 			if (!supported(RxFeature::OneOrMore))
 				goto simple_char;
-			if (!(ok = flush())) break;
+			if (!(ok = flush_repeated())) break;
 			ok = func(RxToken(RxOp::RxoRepetition, 1, 0));
 			break;
 
 		case '{':
 			if (!supported(RxFeature::CountRepetition))
 				goto simple_char;
-			if (!(ok = flush())) break;
+			if (!(ok = flush_repeated())) break;
 			param = re.substr(++i);
 			min = max = 0;
 			// Find the end of the repetition, then the end of the first number:
@@ -288,11 +297,6 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 		simple_escape:
 				ch = re[i];
 		delay_escaped:
-				switch (re[i+1])	// Can't delay if this escape is repeated or optional
-				{	// Note this is conservative; these repetitions might not be enabled
-				case '*': case '+': case '?': case '{':
-					if (!(ok = flush())) break;	// So flush it first
-				}
 				delayed += ch;
 				break;
 			}
@@ -421,12 +425,6 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 			
 		default:
 		simple_char:
-			switch (re[i+1])	// Can't delay if this escape is repeated or optional
-			{	// Note this is conservative; these repetitions might not be enabled
-			case '*': case '+': case '?': case '{':
-				if (!(ok = flush())) break;	// So flush it first
-			}
-
 			delayed += re.substr(i, 1);
 			break;
 		}
-- 
2.43.0


From 80a8fffe5a015f0625b0a0f496e01d533663d68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:33 +0000
Subject: [PATCH 48/70] fix: Rx compiler allocated too little when large
 repetition counts need a large station count

---
 rx/rxcompile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index e93f480..aa7c25e 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -725,6 +725,8 @@ RxCompiler::compile(char*& nfa)
 	if (!ok)
 		return false;
 
+	bytes_required += UTF8Len(2*station_count);	// station_count can need more than an offset does
+
 	// What is a maximum sufficient size (in bytes) of an offset, if all offsets were the maximum 4 bytes?
 	// Note that zig-zag encoding means an offset may be twice the maximum size of the NFA.
 	StrValIndex	offset_max_bytes = UTF8Len(2*(bytes_required+offsets_required*4));	// Upper limit on offset size
-- 
2.43.0


From 61a4a5b08d976820708d00227b11d971c7bc74b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:30 +0000
Subject: [PATCH 49/70] fix: NulGuardedCharPtr += a negative count advanced
 instead of backing up

---
 include/char_ptr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/char_ptr.h b/include/char_ptr.h
index 182c29c..db91256 100644
--- a/include/char_ptr.h
+++ b/include/char_ptr.h
@@ -71,7 +71,7 @@ public:
 	NulGuardedCharPtr&	operator+=(int i)
 			{	const char* s = data;
 				while (i > 0 && *s != '\0') { s++; i--;}// Advance slowly
-				if (i < 0) s -= i;		// Or backup suddenly
+				if (i < 0) s += i;		// Or backup suddenly
 				data = s; return *this;
 			}
 	NulGuardedCharPtr	operator+(int i){ NulGuardedCharPtr t(*this); t += i; return t; }
-- 
2.43.0


From 5db5efa861d2f4c4e7ddeee5863aedc249ada900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:52 +0000
Subject: [PATCH 50/70] fix: GuardedCharPtr += ran past the Nul by the count
 that remained

---
 include/char_ptr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/char_ptr.h b/include/char_ptr.h
index db91256..382f398 100644
--- a/include/char_ptr.h
+++ b/include/char_ptr.h
@@ -109,9 +109,9 @@ public:
 	GuardedCharPtr&	operator+=(int i)
 			{	const char* s = data;
 				while (i > 0 && *s != '\0') { s++; i--;}// Advance
-				if (-i > s-origin)	// Or backup
+				if (i < 0 && -(long)i > s-origin)	// Or backup
 					s = origin;	// Either return as far as the origin
-				else
+				else if (i < 0)
 					s += i;		// or backup as far as requested
 				data = s; return *this;
 			}
-- 
2.43.0


From 46232ac732225bc1a65a2584f762a3e3c8127f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:13 +0000
Subject: [PATCH 51/70] fix: guarded pointers backed up past their origin using
 --, - or -=

---
 include/char_ptr.h | 17 +++++++++++++++++
 include/utf8_ptr.h | 20 ++++++++++++++++++--
 2 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/include/char_ptr.h b/include/char_ptr.h
index 382f398..c5b8c86 100644
--- a/include/char_ptr.h
+++ b/include/char_ptr.h
@@ -115,6 +115,23 @@ public:
 					s += i;		// or backup as far as requested
 				data = s; return *this;
 			}
+	GuardedCharPtr	operator+(int i){ GuardedCharPtr t(*this); t += i; return t; }
+	GuardedCharPtr	operator-=(int i){ return *this += -i; }
+	GuardedCharPtr	operator-(int i){ GuardedCharPtr t(*this); t += -i; return t; }
+	long		operator-(GuardedCharPtr s)	{ return data-s.data; }
+	long		operator-(const char* s)	{ return data-s; }
+
+	// incr/decr functions:
+	GuardedCharPtr&	preincr()	{ NulGuardedCharPtr::preincr(); return *this; }
+	GuardedCharPtr	postincr()	{ GuardedCharPtr save(*this); ++*this; return save; }
+	GuardedCharPtr&	predecr()	{ !at_bot() && data--; return *this; }
+	GuardedCharPtr	postdecr()	{ GuardedCharPtr save(*this); --*this; return save; }
+
+	// incr/decr operators:
+	GuardedCharPtr	operator++(int)	{ return postincr(); }
+	GuardedCharPtr&	operator++()	{ return preincr(); }
+	GuardedCharPtr	operator--(int)	{ return postdecr(); }
+	GuardedCharPtr&	operator--()	{ return predecr(); }
 };
 
 #endif
diff --git a/include/utf8_ptr.h b/include/utf8_ptr.h
index 9aa9968..103b0f6 100644
--- a/include/utf8_ptr.h
+++ b/include/utf8_ptr.h
@@ -80,10 +80,26 @@ public:
 	GuardedUTF8Ptr&	operator+=(int i)
 			{	const UTF8* s = data;
 				while (i > 0 && *s != '\0') { UTF8Get(s); i--;}		// Advance
-				while (i < 0 && s > origin) { s = UTF8Backup(s); i++;}	// Or backup
+				while (i < 0 && s > origin) { s = UTF8Backup(s, origin); i++;}	// Or backup
 				data = (const UTF8*)s; return *this;
 			}
-	GuardedUTF8Ptr&	predecr()	{ !at_bot() && (data = (const UTF8*)UTF8Backup(data)); return *this; }
+	GuardedUTF8Ptr	operator+(int i){ GuardedUTF8Ptr t(*this); t += i; return t; }
+	GuardedUTF8Ptr	operator-=(int i){ return *this += -i; }
+	GuardedUTF8Ptr	operator-(int i){ GuardedUTF8Ptr t(*this); t += -i; return t; }
+	long		operator-(GuardedUTF8Ptr s)	{ return data-s.data; }
+	long		operator-(const char* cp)	{ return data-cp; }
+
+	// incr/decr functions:
+	GuardedUTF8Ptr	postincr()	{ GuardedUTF8Ptr save(*this); ++*this; return save; }
+	GuardedUTF8Ptr&	preincr()	{ NulGuardedUTF8Ptr::preincr(); return *this; }
+	GuardedUTF8Ptr	postdecr()	{ GuardedUTF8Ptr save(*this); --*this; return save; }
+	GuardedUTF8Ptr&	predecr()	{ !at_bot() && (data = (const UTF8*)UTF8Backup(data, origin)); return *this; }
+
+	// incr/decr operators:
+	GuardedUTF8Ptr	operator++(int)	{ return postincr(); }
+	GuardedUTF8Ptr&	operator++()	{ return preincr(); }
+	GuardedUTF8Ptr	operator--(int)	{ return postdecr(); }
+	GuardedUTF8Ptr&	operator--()	{ return predecr(); }
 	bool		at_bot()
 			{ return data == origin; }
 };
-- 
2.43.0


From 3538ddf09289ce7f318f37435227570deb718051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:41 +0000
Subject: [PATCH 52/70] fix: the main thread is registered, so joinAny()
 doesn't lose the last thread

---
 include/thread.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/thread.h b/include/thread.h
index 2531cfe..2395c98 100644
--- a/include/thread.h
+++ b/include/thread.h
@@ -95,6 +95,7 @@ public:
 		thread_id = Thread::currentId();
 		state = Started;
 		main_thread = this;	// Override prior initialisation in superclass constructor
+		threads.insert({thread_id, this});	// So current() finds it, and joinAny() need not count it
 #if	defined(MSW)
 		if (!DuplicateHandle(
 			GetCurrentProcess(),
-- 
2.43.0


From a453313637cb0fde73b131ed9c03ed3f8f8f92cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:22 +0000
Subject: [PATCH 53/70] fix: an ended thread is told apart from a newer one
 with the same system id

---
 include/thread.h | 7 +++++--
 src/thread.cpp   | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/thread.h b/include/thread.h
index 2395c98..00d772c 100644
--- a/include/thread.h
+++ b/include/thread.h
@@ -178,7 +178,10 @@ Thread::resume()
 	int	code = pthread_create(&thread_id, (pthread_attr_t*)0, Thread::ThreadProc, this);
 	// if (!code) { Error(ERR_THREAD_CREATE, ...); }		// REVISIT: Report failure to start thread
 
-	threads.insert({thread_id, this});
+	Thread*&	entry = threads[thread_id];
+	if (entry)
+		ended_count--;	// The system re-used the id of an ended thread before join() could remove it
+	entry = this;
 	thread_latch.leave();
 #elif	defined(MSW)
 	if (thread_handle)
@@ -197,7 +200,7 @@ void
 Thread::remove_ended()
 {
 	thread_latch.enter();
-	if (Thread::find(thread_id))
+	if (Thread::find(thread_id) == this)	// The system may have given our id to a newer thread
 	{
 		if (state == Ended)
 			ended_count--;
diff --git a/src/thread.cpp b/src/thread.cpp
index 417f4a1..11f60ba 100644
--- a/src/thread.cpp
+++ b/src/thread.cpp
@@ -129,7 +129,7 @@ Thread::join()		// Wait for this thread to end
 
 	thread_latch.enter();
 	Thread* thread = Thread::find(thread_id);
-	if (thread)
+	if (thread == this)	// If not, our id was re-used by a thread started since
 	{
 		int erased = threads.erase(thread_id);
 		assert(erased == 1);
-- 
2.43.0


From 950e6b8dfefd802838128bb06cf748a572c6ac4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:30 +0000
Subject: [PATCH 54/70] fix: a new thread's state is initialised

---
 include/thread.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/thread.h b/include/thread.h
index 00d772c..f1c3f84 100644
--- a/include/thread.h
+++ b/include/thread.h
@@ -116,6 +116,8 @@ public:
 };
 
 Thread::Thread()
+: thread_id(0)
+, state(New)
 {
 #if	defined(HAVE_PTHREADS)
 	// pthread_create starts the thread immediately, before subclass construction has finished,
-- 
2.43.0


From 02d65c0b1fde70c851fd8772123d30a016d454c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:37 +0000
Subject: [PATCH 55/70] fix: a thread's state is set to Started under the latch
 joinAny() reads it with

---
 src/thread.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/thread.cpp b/src/thread.cpp
index 11f60ba..2fdb8f9 100644
--- a/src/thread.cpp
+++ b/src/thread.cpp
@@ -27,12 +27,12 @@ Thread::ThreadProc(void* _this)
 	// This code can be run *before* pthread_create has assigned the thread_id. Wait for it.
 	thread_latch.enter();
 	assert(t->id());
+	t->state = Started;
 	thread_latch.leave();
 #elif	defined(MSW)
 	assert(t->handle());
-#endif
-
 	t->state = Started;
+#endif
 
 #if	defined(HAVE_PTHREADS)
 	void*	ret = (void*)(long)t->run();
-- 
2.43.0


From 68383f7c604ab1fa63161f5273002f3d068018cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:45 +0000
Subject: [PATCH 56/70] fix: joinAny() releases the system resources of the
 thread it returns

---
 src/thread.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/thread.cpp b/src/thread.cpp
index 2fdb8f9..fabdb27 100644
--- a/src/thread.cpp
+++ b/src/thread.cpp
@@ -108,6 +108,9 @@ Thread::joinAny()
 			assert(!Thread::find(tid));
 			ended_count--;
 			thread_latch.leave();
+#if	defined(HAVE_PTHREADS)
+			pthread_join(tid, 0);	// It's ending; release its system resources
+#endif
 			return thread;
 		}
 	}
-- 
2.43.0


From edb9cf36bd5ffaa089f5cf2cb658ba9032a7aba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:02 +0000
Subject: [PATCH 57/70] fix: a timed condition wait ends its delay from now,
 not at once

---
 src/condition.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/condition.cpp b/src/condition.cpp
index 13adb95..6957ab9 100644
--- a/src/condition.cpp
+++ b/src/condition.cpp
@@ -6,6 +6,7 @@
  * continued, any thread that tries to signal it again will block.
  */
 #include	<unistd.h>
+#include	<time.h>
 
 #include	<thread.h>
 #include	<condition.h>
@@ -146,8 +147,14 @@ Condition::wait(		// Wait for a ticket
 #if	defined(HAVE_PTHREADS)
 	int		retcode;
 	struct timespec	ts;
-	ts.tv_sec = (unsigned long)timeout / 1000;
-	ts.tv_nsec = (unsigned long)timeout % 1000 * 1000000L;
+	clock_gettime(CLOCK_REALTIME, &ts);	// pthreads wants the time to give up, not the delay
+	ts.tv_sec += (unsigned long)timeout / 1000;
+	ts.tv_nsec += (unsigned long)timeout % 1000 * 1000000L;
+	if (ts.tv_nsec >= 1000000000L)
+	{
+		ts.tv_sec++;
+		ts.tv_nsec -= 1000000000L;
+	}
 	retcode = pthread_cond_timedwait(&cond, &user_latch->mutex, &ts);
 	if (retcode == ETIMEDOUT)
 	{
-- 
2.43.0


From 3a49518edf467c31795560801bc105fb99dd47a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:42 +0000
Subject: [PATCH 58/70] fix: the empty string's body is made before any static
 string uses it

---
 include/strval.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index d68926a..5e0095b 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -73,7 +73,8 @@ template<typename Index> class StrBodyI
 	using Body::ref_count;
 
 public:
-	static	StrBodyI nullBody;
+	static	StrBodyI* nullBody()			// A function, so it's ready for any static StrVal
+			{ static StrBodyI null_body("", StrStatic, 0, 0); return &null_body; }
 
 	~StrBodyI()	{}
 	StrBodyI()	: num_chars(0) {}
@@ -279,8 +280,6 @@ protected:
 			}
 };
 
-template<typename Index> class StrBodyI<Index> StrBodyI<Index>::nullBody("", StrStatic, 0, 0);
-
 // A StrVal defined by number of bits in the index:
 template<unsigned int IndexBits = StrValIndexBits>
 class StrValB
@@ -299,7 +298,7 @@ class StrRefI
 public:
 	~StrRefI() {}			// Destructor
 	StrRefI()			// Empty string
-			: body(&Body::nullBody)
+			: body(Body::nullBody())
 			, offset(0)
 			, num_chars(0)
 			{}
@@ -309,7 +308,7 @@ public:
 			}
 
 	StrRefI(const char* data, StrDataType dt = StrUTF8)	// construct by copying NUL-terminated data
-			: body(data == 0 || data[0] == '\0' ? &Body::nullBody : new Body(data, dt))
+			: body(data == 0 || data[0] == '\0' ? Body::nullBody() : new Body(data, dt))
 			, offset(0)
 			, num_chars(body->numChars())
 			{
@@ -322,7 +321,7 @@ public:
 				if (allocate <= length)
 					allocate = 0;
 				if (length == 0)
-					body = &Body::nullBody;	// Don't use strlen!
+					body = Body::nullBody();	// Don't use strlen!
 				else
 					body = new Body(data, StrUTF8, length, allocate);
 				num_chars = body->numChars();
-- 
2.43.0


From 606fc68d6d98240adeeadff0a1c8753f4201ec98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:30 +0000
Subject: [PATCH 59/70] fix: latches can be made by several threads at once

---
 include/lockfree.h | 13 ++++---------
 src/lockfree.cpp   |  5 +----
 2 files changed, 5 insertions(+), 13 deletions(-)

diff --git a/include/lockfree.h b/include/lockfree.h
index 0c92b7f..f373598 100644
--- a/include/lockfree.h
+++ b/include/lockfree.h
@@ -39,9 +39,6 @@ public:
 	// The PTHREADs implementation allows us to use these with pthread condition variables
 	pthread_mutex_t	mutex;
 
-	static	std::atomic<bool>	initialised;
-	static	pthread_mutexattr_t	attr;
-
 #else
 	// On Windows, condition variables are based on system events so we can do this using atomic
 	std::atomic<ThreadId>	mutex;
@@ -60,14 +57,12 @@ public:
 #if	defined(HAVE_PTHREADS)
 Latch::Latch()
 {
-	if (!initialised)
-	{
-		initialised = true;
-		pthread_mutexattr_init(&Latch::attr);
-		pthread_mutexattr_settype(&Latch::attr, PTHREAD_MUTEX_ERRORCHECK);
-	}
+	pthread_mutexattr_t	attr;	// Not shared, or another thread might use it before it's set up
 
+	pthread_mutexattr_init(&attr);
+	pthread_mutexattr_settype(&attr, PTHREAD_MUTEX_ERRORCHECK);
 	pthread_mutex_init(&mutex, &attr);
+	pthread_mutexattr_destroy(&attr);
 }
 
 Latch::~Latch()
diff --git a/src/lockfree.cpp b/src/lockfree.cpp
index 3badcf0..586f2d6 100644
--- a/src/lockfree.cpp
+++ b/src/lockfree.cpp
@@ -6,10 +6,7 @@
 #include	<assert.h>
 #include	<lockfree.h>
 
-#if	defined(HAVE_PTHREADS)
-pthread_mutexattr_t	Latch::attr;
-std::atomic<bool>	Latch::initialised;
-#else
+#if	!defined(HAVE_PTHREADS)
 
 int			Latch::num_cores;
 
-- 
2.43.0


From 073120b5f7195b3f693e90379c810e0ca6c9ed3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:24 +0000
Subject: [PATCH 60/70] fix: format() uses the parameter whose number the
 format gives

---
 include/strformat.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/strformat.h b/include/strformat.h
index fb8bde5..a5921a7 100644
--- a/include/strformat.h
+++ b/include/strformat.h
@@ -22,11 +22,12 @@ StrVal	StrValI<Index>::format(StrVal f, VariantArray args)
 		}
 		c = f[++i];	// Skip the %
 
+		numbered_arg = 0;
 		if (i+2 < m && (d = Digit(c, 10)) > 0 && f[i+1] == '$')
 		{		// Extract the argument sequence digit
 			numbered_arg = d;
 			i += 2;
-			c = f[++i];	// Skip ASD
+			c = f[i];	// Skip ASD
 		}
 
 		// Get the size
@@ -68,14 +69,14 @@ StrVal	StrValI<Index>::format(StrVal f, VariantArray args)
 		{
 		case 's':
 			// REVISIT: Handle size and prec
-			result += args[a++].as_strval();
+			result += args[numbered_arg ? numbered_arg-1 : a++].as_strval();
 			break;
 
 		case 'd':
 		case 'f':
 		case 'g':
 			// REVISIT: Handle size and prec
-			result += args[a++].as_json();
+			result += args[numbered_arg ? numbered_arg-1 : a++].as_json();
 			break;
 
 		default:
-- 
2.43.0


From 4518efefff32966a2706f2afda0ecda328a6a461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:34 +0000
Subject: [PATCH 61/70] fix: format() finds the conversion after a * for the
 size or precision

---
 include/strformat.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/strformat.h b/include/strformat.h
index a5921a7..aefe11c 100644
--- a/include/strformat.h
+++ b/include/strformat.h
@@ -34,7 +34,10 @@ StrVal	StrValI<Index>::format(StrVal f, VariantArray args)
 		size = 0;
 		leading_zeroes = false;
 		if (c == '*')
+		{
 			size = -1;
+			c = f[++i];
+		}
 		else if ((d = Digit(c, 10)) >= 0)
 		{
 			if (d == 0)
@@ -50,7 +53,10 @@ StrVal	StrValI<Index>::format(StrVal f, VariantArray args)
 		{
 			c = f[++i];
 			if (c == '*')
+			{
 				prec = -1;
+				c = f[++i];
+			}
 			else if ((d = Digit(c, 10)) >= 0)
 			{
 				prec = d;
-- 
2.43.0


From 94558bf67ed6b0602742b12483fe9b4ed0e1db41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:34 +0000
Subject: [PATCH 62/70] fix: pegexp reports the whole of a character class that
 failed at the end of the text

---
 include/pegexp.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/pegexp.h b/include/pegexp.h
index d08d2c2..a09fa4c 100644
--- a/include/pegexp.h
+++ b/include/pegexp.h
@@ -481,8 +481,7 @@ protected:
 
 	bool		char_class(State& state)
 	{
-		if (state.source.at_eof())		// End of input never matches a char_class
-			return false;
+		bool	at_eof = state.source.at_eof();	// End of input never matches, but pass the whole class for record_failure
 
 		State	start_state(state);
 		start_state.pattern--;
@@ -492,7 +491,7 @@ protected:
 			state.pattern++;
 
 		bool	in_class = false;
-		Char	ch = state.source.get_char();
+		Char	ch = at_eof ? 0 : state.source.get_char();
 		while (*state.pattern != '\0' && *state.pattern != ']')
 		{
 			Char	c1;
@@ -522,7 +521,7 @@ protected:
 			state.pattern++;
 		if (negated)
 			in_class = !in_class;
-		return in_class;
+		return in_class && !at_eof;
 	}
 
 	// Null extension; treat extensions like literal characters
-- 
2.43.0


From 691ac7a5ee2a362d85100885b03955aa708b72d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:44 +0000
Subject: [PATCH 63/70] fix: a PEG parse that fails reports how far it got and
 what failed there

---
 include/peg_ast.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/peg_ast.h b/include/peg_ast.h
index 20bb824..83fba9f 100644
--- a/include/peg_ast.h
+++ b/include/peg_ast.h
@@ -236,7 +236,11 @@ public:
 	}
 
 	Match		match_failure(State at)
-	{ return Match(at, at); }
+	{
+		if (parent == 0)	// Say what would have allowed the parse to get further
+			return Match(Variant(), furthermost_success, failures);
+		return Match(at, at);
+	}
 
 #if defined(PEG_TRACE)
 	int		depth()
-- 
2.43.0


From d198a69a687d3e51271c078eec21c539ac123527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:49 +0000
Subject: [PATCH 64/70] fix: illegal UTF-8 bytes in a regular expression no
 longer join into another character

---
 rx/rxcompile.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index aa7c25e..bc58360 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -297,6 +297,8 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 		simple_escape:
 				ch = re[i];
 		delay_escaped:
+				if (UCS4IsIllegal(ch) && !(ok = flush()))
+					break;	// An illegal byte must not complete an earlier one
 				delayed += ch;
 				break;
 			}
@@ -425,6 +427,8 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 			
 		default:
 		simple_char:
+			if (UCS4IsIllegal(re[i]) && !(ok = flush()))
+				break;		// An illegal byte must not complete an earlier one
 			delayed += re.substr(i, 1);
 			break;
 		}
-- 
2.43.0


From 471950f701df3bc7f044ba99fae6f10a9fd9ee8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:38 +0000
Subject: [PATCH 65/70] fix: UTF8PutPaddedZero puts the lead byte of the length
 asked

---
 include/char_encoding.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/char_encoding.h b/include/char_encoding.h
index a820aed..55d57be 100644
--- a/include/char_encoding.h
+++ b/include/char_encoding.h
@@ -257,7 +257,7 @@ UTF8PutPaddedZero(UTF8*& cp, int length)
 	assert(length >= 0 && length <= 6);
 	if (length > 1)
 	{
-		*cp++ = "\x0\xC0\xE0\xF0\xF8\xFC"[length];	// Put lead byte with zero payload
+		*cp++ = "\x0\xC0\xE0\xF0\xF8\xFC"[length-1];	// Put lead byte with zero payload
 		while (--length > 0)
 			*cp++ = 0x80;				// Put trailing bytes with zero payload
 	}
-- 
2.43.0


From 0b75cb0fcdc5ad9f8b7c179f55f8b698a98e2206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:48 +0000
Subject: [PATCH 66/70] fix: threads sharing a string may count its characters
 at the same time

---
 include/strval.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 5e0095b..fd05398 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -239,14 +239,14 @@ public:	void		insertBytes(Index pos, const char* addend, Index len)
 				assert(s1.num_alloc == 0);	// Must not do this if we would make two references to allocated data
 				start = s1.start;
 				this->AddRef();			// Ensure we don't get deleted
-				num_chars = s1.num_chars;
+				num_chars = s1.num_chars.load();
 				num_elements = s1.num_elements;
 				num_alloc = 0;
 				return *this;
 			}
 
 protected:
-	Index		num_chars;	// zero if not yet counted, StrValIndexRawBinaryMarker if locale-8bit
+	std::atomic<Index> num_chars;	// zero if not yet counted, StrValIndexRawBinaryMarker if locale-8bit. Threads sharing this body may count at once
 	void		countChars()
 			{
 				if (isRawBinary())
@@ -254,6 +254,7 @@ protected:
 
 				const char*	cp = start;		// Progress pointer when reading data
 				char*		ep = start+num_elements-1;	// Marker for end of data
+				Index		counted = 0;
 				while (cp < ep)
 				{
 					UCS4		ch = UTF8Get(cp);
@@ -261,8 +262,9 @@ protected:
 					 || cp > ep)			// Overlaps the end of data
 						break;			// An error occurred before the end of the data; truncate it.
 					// Count illegal UTF-8 characters here
-					num_chars++;
+					counted++;
 				}
+				num_chars = counted;	// Saved in one go, another thread may be reading or counting too
 			}
 
 	UCS4		getChar(const char*& cp) const	// Return next character, next advancing cp
-- 
2.43.0


From dc832ec087c0e15908173219523989f36bc86979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:57 +0000
Subject: [PATCH 67/70] fix: a string knows its length when illegal UTF-8 bytes
 put together make a character

---
 include/strval.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/strval.h b/include/strval.h
index fd05398..b2210e7 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -716,10 +716,16 @@ public:
 				// REVISIT: Handle StrRawBinary data
 				Index		addend_length;		// Get length in bytes
 				const char*	ap = addend.asUTF8(addend_length);
+				// Illegal bytes can join what they're put beside into other characters, so we must re-count
+				const char*	cp = nthChar(pos);
+				bool		joins = !body->isRawBinary() && addend_length > 0
+						&& (UTF8Is2nd(*ap) || (cp < body->endChar() && UTF8Is2nd(*cp)));
+				if (joins)
+					Isolate();
 				// The slice may start after the start of the body, so use the byte offset in the body:
 				body->insertBytes(nthChar(pos)-body->data(), ap, addend_length);
 				mark = Bookmark();			// It might be after the insertion point
-				num_chars += addend.length();
+				num_chars = joins ? body->numChars() : num_chars+addend.length();
 				return *this;
 			}
 	StrValI&	append(const StrValI& addend)
@@ -976,6 +982,7 @@ void StrBodyI<Index>::transform(const std::function<Val(const char*& cp, const c
 	}
 	// Append the \0 to the array:
 	ArrayBody<char, Index>::insert(num_elements, "", 1);
+	num_chars = 0;		// Illegal bytes may have joined into other characters, force a re-count
 	delete [] old_start;
 }
 
-- 
2.43.0


From c560f06dd27df49de28fb47ef188c0a35b0d98bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:05 +0000
Subject: [PATCH 68/70] fix: refuse a character class in which illegal UTF-8
 bytes join into another character

---
 rx/rxcompile.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index bc58360..92e20c6 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -339,6 +339,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 
 				// REVISIT: Add support for Posix groups or Unicode Properties
 
+				StrValIndex	paired = param.length();
 				param += ch;	// Start of range pair
 				if (re[i+1] == '-' && re[i+2] != ']')	// Allow a single - before the closing ]
 				{		// Character range
@@ -352,6 +353,8 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 					}
 				}
 				param += ch;
+				if (param.length() != paired+2)
+					goto bad_class;	// Illegal bytes have joined into another character
 				ch = re[++i];
 			}
 			if (ch == '\0')
-- 
2.43.0


From d9efae76db383d9a775df65b532062f04cc8f8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:11 +0000
Subject: [PATCH 69/70] fix: regular expressions refuse the kinds of escape
 that are rejected

---
 rx/rxcompile.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index 92e20c6..c45d59a 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -215,16 +215,16 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 		case '\\':		// Escape sequence
 			switch (ch = re[++i])
 			{
-			case 'b': if (!enabled(RxFeature::CEscapes)) goto simple_escape; ch = '\b'; goto escaped_char;
-			case 'e': if (!enabled(RxFeature::CEscapes)) goto simple_escape; ch = '\033'; goto escaped_char;
-			case 'f': if (!enabled(RxFeature::CEscapes)) goto simple_escape; ch = '\f'; goto escaped_char;
-			case 'n': if (!enabled(RxFeature::CEscapes)) goto simple_escape; ch = '\n'; goto escaped_char;
-			case 't': if (!enabled(RxFeature::CEscapes)) goto simple_escape; ch = '\t'; goto escaped_char;
-			case 'r': if (!enabled(RxFeature::CEscapes)) goto simple_escape; ch = '\r'; goto escaped_char;
+			case 'b': if (!supported(RxFeature::CEscapes)) goto simple_escape; ch = '\b'; goto escaped_char;
+			case 'e': if (!supported(RxFeature::CEscapes)) goto simple_escape; ch = '\033'; goto escaped_char;
+			case 'f': if (!supported(RxFeature::CEscapes)) goto simple_escape; ch = '\f'; goto escaped_char;
+			case 'n': if (!supported(RxFeature::CEscapes)) goto simple_escape; ch = '\n'; goto escaped_char;
+			case 't': if (!supported(RxFeature::CEscapes)) goto simple_escape; ch = '\t'; goto escaped_char;
+			case 'r': if (!supported(RxFeature::CEscapes)) goto simple_escape; ch = '\r'; goto escaped_char;
 
 			case '0': case '1': case '2': case '3':	// Octal char constant
 			case '4': case '5': case '6': case '7':
-				if (!enabled(RxFeature::OctalChar))
+				if (!supported(RxFeature::OctalChar))
 					goto simple_escape;
 				param = re.substr(i, 3);
 				ch = param.asInt32(&int_error, 8, &scanned);
@@ -237,7 +237,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 				goto escaped_char;
 
 			case 'x':			// Hex byte (1 or 2 hex digits follow)
-				if (!enabled(RxFeature::HexChar))
+				if (!supported(RxFeature::HexChar))
 					goto simple_escape;
 				// REVISIT: Support \x{XX}?
 				param = re.substr(++i, 2);
@@ -251,7 +251,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 				goto escaped_char;
 
 			case 'u':			// Unicode (1-5 hex digits follow)
-				if (!enabled(RxFeature::UnicodeChar))
+				if (!supported(RxFeature::UnicodeChar))
 					goto simple_escape;
 				// REVISIT: Support \u{XX}?
 				param = re.substr(++i, 5);
@@ -268,7 +268,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 			case 's':			// Whitespace
 			case 'd':			// Digit
 			case 'h':			// Hexdigit
-				if (!enabled(RxFeature::Shorthand))
+				if (!supported(RxFeature::Shorthand))
 					goto simple_escape;
 				if (!(ok = flush())) break;
 				// REVISIT: Also support \w, etc
@@ -276,7 +276,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 				break;
 
 			case 'p':			// Posix character type
-				if (!enabled(RxFeature::PropertyChars))
+				if (!supported(RxFeature::PropertyChars))
 					goto simple_escape;
 				if (!(ok = flush())) break;
 				if (re[++i] != '{')
-- 
2.43.0


From ac91618b333375e2e30635fb320a401351685f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:18 +0000
Subject: [PATCH 70/70] fix: ? in a regular expression is plain text or refused
 when ZeroOrOneQuest is off or rejected

---
 rx/rxcompile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index c45d59a..d14e835 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -148,6 +148,8 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 			break;
 
 		case '?':
+			if (!enabled(RxFeature::AnyIsQuest) && !supported(RxFeature::ZeroOrOneQuest))
+				goto simple_char;
 			if (!(ok = enabled(RxFeature::AnyIsQuest) ? flush() : flush_repeated())) break;
 			if (enabled(RxFeature::AnyIsQuest))
 				ok = func(RxToken(RxOp::RxoAny));	// Shell-style any-char wildcard
-- 
2.43.0

