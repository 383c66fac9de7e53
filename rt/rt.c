/* Models of the C library functions the code under test calls; compiled to IR and executed symbolically. */
#include <pthread.h>
#include <stddef.h>
#include <stdlib.h>
#include <stdint.h>
#include <errno.h>
#include <limits.h>
void sv_check(_Bool, const char*);
void __assert_fail(const char*, const char*, unsigned, const char*);

int memcmp(const void* a, const void* b, size_t n) {
	const unsigned char *p = a, *q = b; int r = 0;
	for (size_t i = 0; i < n; i++) { int d = (int)p[i] - (int)q[i]; r = r != 0 ? r : d; }
	return r;
}
int bcmp(const void* a, const void* b, size_t n) {
	const unsigned char *p = a, *q = b; unsigned r = 0;
	for (size_t i = 0; i < n; i++) r |= p[i] ^ q[i];
	return r;
}
void* memchr(const void* s, int c, size_t n) { const unsigned char* p = s; for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void*)(p + i); return 0; }
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { while (n && *a && *a == *b) a++, b++, n--; return n ? (unsigned char)*a - (unsigned char)*b : 0; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* strrchr(const char* s, int c) { const char* r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) ; return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strncat(char* d, const char* s, size_t n) { char* r = d; d += strlen(d); while (n-- && *s) *d++ = *s++; *d = 0; return r; }
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* d = malloc(n); strcpy(d, s); return d; }
char* strndup(const char* s, size_t m) { size_t n = strnlen(s, m); char* d = malloc(n + 1); for (size_t i = 0; i < n; i++) d[i] = s[i]; d[n] = 0; return d; }
char* stpncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; char* r = d + i; for (; i < n; i++) d[i] = 0; return r; }
void* rawmemchr(const void* s, int c) { const unsigned char* p = s; while (*p != (unsigned char)c) p++; return (void*)p; }
void* mempcpy(void* d, const void* s, size_t n) { for (size_t i = 0; i < n; i++) ((char*)d)[i] = ((const char*)s)[i]; return (char*)d + n; }
void* memccpy(void* d, const void* s, int c, size_t n) { char* p = d; const char* q = s; while (n--) if ((*p++ = *q++) == (char)c) return p; return 0; }
int strcoll(const char* a, const char* b) { return strcmp(a, b); }
div_t div(int a, int b) { div_t r; r.quot = a / b; r.rem = a % b; return r; }
ldiv_t ldiv(long a, long b) { ldiv_t r; r.quot = a / b; r.rem = a % b; return r; }
char* strstr(const char* h, const char* n) { size_t k = strlen(n); for (;; h++) { if (!strncmp(h, n, k)) return (char*)h; if (!*h) return 0; } }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }

/* <ctype.h>, C locale. The argument must be EOF or an unsigned char; the library's tables end at 255. */
static int ctypeOk(int c) { if (c < -128 || c > 255) __assert_fail("ctype argument representable as unsigned char or EOF", "ctype.h", 1, "ctype"); return 1; }
int isdigit(int c) { ctypeOk(c); return c >= '0' && c <= '9'; }
int isxdigit(int c) { ctypeOk(c); return (c >= '0' && c <= '9') | (c >= 'a' && c <= 'f') | (c >= 'A' && c <= 'F'); }
int isupper(int c) { ctypeOk(c); return c >= 'A' && c <= 'Z'; }
int islower(int c) { ctypeOk(c); return c >= 'a' && c <= 'z'; }
int isalpha(int c) { ctypeOk(c); return (c >= 'a' && c <= 'z') | (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { ctypeOk(c); return (c >= '0' && c <= '9') | (c >= 'a' && c <= 'z') | (c >= 'A' && c <= 'Z'); }
int isspace(int c) { ctypeOk(c); return (c == ' ') | (c >= 9 && c <= 13); }
int isprint(int c) { ctypeOk(c); return c >= 32 && c < 127; }
int ispunct(int c) { ctypeOk(c); return isprint(c) & !isalnum(c) & (c != ' '); }
int iscntrl(int c) { ctypeOk(c); return (c >= 0 && c < 32) | (c == 127); }
int toupper(int c) { ctypeOk(c); return c >= 'a' && c <= 'z' ? c - 32 : c; }
int tolower(int c) { ctypeOk(c); return c >= 'A' && c <= 'Z' ? c + 32 : c; }

/* strtol as glibc: C locale */
long strtol(const char* s, char** end, int base) {
	const char* p = s;
	while (*p == ' ' || (*p >= 9 && *p <= 13)) p++;
	int neg = 0;
	if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++;
	if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
	else if (base == 0) base = *p == '0' ? 8 : 10;
	unsigned long v = 0, lim = neg ? (unsigned long)LONG_MAX + 1 : LONG_MAX; int any = 0, ovf = 0;
	for (;; p++) {
		int d;
		unsigned char c = *p;
		if (c >= '0' && c <= '9') d = c - '0';
		else if (c >= 'a' && c <= 'z') d = c - 'a' + 10;
		else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10;
		else break;
		if (d >= base) break;
		any = 1;
		if (ovf || v > (lim - d) / base) ovf = 1; else v = v * base + d;
	}
	if (end) *end = (char*)(any ? p : s);
	if (ovf) { errno = ERANGE; return neg ? LONG_MIN : LONG_MAX; }
	return neg ? -v : v;
}
unsigned long strtoul(const char* s, char** end, int base) {
	const char* p = s;
	while (*p == ' ' || (*p >= 9 && *p <= 13)) p++;
	int neg = 0;
	if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++;
	if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
	else if (base == 0) base = *p == '0' ? 8 : 10;
	unsigned long v = 0; int any = 0, ovf = 0;
	for (;; p++) {
		int d;
		unsigned char c = *p;
		if (c >= '0' && c <= '9') d = c - '0';
		else if (c >= 'a' && c <= 'z') d = c - 'a' + 10;
		else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10;
		else break;
		if (d >= base) break;
		any = 1;
		if (ovf || v > (ULONG_MAX - d) / base) ovf = 1; else v = v * base + d;
	}
	if (end) *end = (char*)(any ? p : s);
	if (ovf) { errno = ERANGE; return ULONG_MAX; }
	return neg ? -v : v;
}
long long strtoll(const char* s, char** end, int base) { return strtol(s, end, base); }
unsigned long long strtoull(const char* s, char** end, int base) { return strtoul(s, end, base); }
int atoi(const char* s) { return (int)strtol(s, 0, 10); }
long long atoll(const char* s) { return strtol(s, 0, 10); }
long atol(const char* s) { return strtol(s, 0, 10); }

void qsort(void* base, size_t n, size_t z, int (*cmp)(const void*, const void*)) {	/* insertion sort */
	char* b = base;
	for (size_t i = 1; i < n; i++)
		for (size_t j = i; j > 0 && cmp(b + (j - 1) * z, b + j * z) > 0; j--)
			for (size_t k = 0; k < z; k++) { char t = b[(j - 1) * z + k]; b[(j - 1) * z + k] = b[j * z + k]; b[j * z + k] = t; }
}
void* bsearch(const void* key, const void* base, size_t n, size_t z, int (*cmp)(const void*, const void*)) {
	size_t l = 0, u = n;
	while (l < u) { size_t m = (l + u) / 2; const char* p = (const char*)base + m * z; int c = cmp(key, p); if (c < 0) u = m; else if (c > 0) l = m + 1; else return (void*)p; }
	return 0;
}

#include <stdarg.h>
size_t strcspn(const char* s, const char* set) { size_t n = 0; for (; s[n]; n++) for (const char* p = set; *p; p++) if (*p == s[n]) return n; return n; }
size_t strspn(const char* s, const char* set) { size_t n = 0; for (; s[n]; n++) { const char* p = set; while (*p && *p != s[n]) p++; if (!*p) break; } return n; }
char* strpbrk(const char* s, const char* set) { s += strcspn(s, set); return *s ? (char*)s : 0; }
void* memmem(const void* h, size_t n, const void* d, size_t m) { for (size_t i = 0; i + m <= n; i++) if (!memcmp((const char*)h + i, d, m)) return (char*)h + i; return 0; }
void* memrchr(const void* s, int c, size_t n) { while (n--) if (((const unsigned char*)s)[n] == (unsigned char)c) return (char*)s + n; return 0; }
char* strchrnul(const char* s, int c) { while (*s && *s != (char)c) s++; return (char*)s; }
char* stpcpy(char* d, const char* s) { while ((*d = *s)) d++, s++; return d; }
int strncasecmp(const char* a, const char* b, size_t n) { while (n && *a && tolower((unsigned char)*a) == tolower((unsigned char)*b)) a++, b++, n--; return n ? tolower((unsigned char)*a) - tolower((unsigned char)*b) : 0; }
int strcasecmp(const char* a, const char* b) { return strncasecmp(a, b, (size_t)-1); }

/* <stdio.h> formatting of integers, strings and characters. The digits of a symbolic number are fresh values that the
   number determines, so no division is needed. */
#include <stdarg.h>
uint8_t __sv_fresh8(void); int __sv_symbolic(uint64_t); void sv_assume(_Bool);
struct sv_sink { char* b; size_t n, k; };
static void put(struct sv_sink* o, char c) { if (o->k + 1 < o->n) o->b[o->k] = c; o->k++; }
static int digitsOf(uint64_t v, unsigned base, char* d) {	/* least significant first; base up to 10 */
	int n = 1; uint64_t p = base;
	if (!__sv_symbolic(v)) { n = 0; do { d[n++] = '0' + v % base; v /= base; } while (v); return n; }
	while (v >= p) { n++; if (p > UINT64_MAX / base) break; p *= base; }
	uint64_t s = 0; p = 1;
	for (int i = 0; i < n; i++, p *= base) { unsigned char c = __sv_fresh8(); sv_assume(c >= '0' && c < '0' + base); if (n == 20 && i == 19) sv_assume(c == '1'); d[i] = c; s += (uint64_t)(c - '0') * p; }
	sv_assume(s == v);
	return n;
}
static int format(struct sv_sink* o, const char* f, va_list ap) {
	for (; *f; f++) {
		if (*f != '%') { put(o, *f); continue; }
		int minus = 0, zero = 0, plus = 0, width = 0, prec = -1, lng = 0; char sp = 0;
		for (f++; ; f++) { if (*f == '-') minus = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == ' ') sp = ' '; else break; }
		if (*f == '*') { width = va_arg(ap, int); f++; if (width < 0) minus = 1, width = -width; } else while (*f >= '0' && *f <= '9') width = width * 10 + *f++ - '0';
		if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + *f++ - '0'; }
		for (; *f == 'l' || *f == 'z' || *f == 'j' || *f == 't' || *f == 'h'; f++) lng += *f == 'h' ? -1 : *f == 'l' ? 1 : 2;
		char d[66], pre[3]; int n = 0, np = 0; const char* s = 0;
		switch (*f) {
		case '%': put(o, '%'); continue;
		case 'c': d[0] = (char)va_arg(ap, int); s = d; n = 1; prec = -1; break;
		case 's': s = va_arg(ap, const char*); if (!s) s = "(null)"; while ((prec < 0 || n < prec) && s[n]) n++; prec = -1; break;
		case 'd': case 'i': {
			int64_t v = lng > 0 ? va_arg(ap, int64_t) : va_arg(ap, int);
			if (lng == -1) v = (short)v; else if (lng < -1) v = (signed char)v;
			uint64_t u = v; if (v < 0) u = 0 - u, pre[np++] = '-'; else if (plus) pre[np++] = '+'; else if (sp) pre[np++] = sp;
			n = digitsOf(u, 10, d); break; }
		case 'u': case 'x': case 'X': case 'o': {
			uint64_t v = lng > 0 ? va_arg(ap, uint64_t) : va_arg(ap, unsigned);
			if (lng == -1) v = (unsigned short)v; else if (lng < -1) v = (unsigned char)v;
			unsigned base = *f == 'u' ? 10 : *f == 'o' ? 8 : 16;
			if (base == 16) { n = 0; uint64_t t = v; do { unsigned c = t & 15; d[n++] = c < 10 ? '0' + c : (*f == 'x' ? 'a' : 'A') + c - 10; t >>= 4; } while (t); }
			else n = digitsOf(v, base, d);
			break; }
		default: __assert_fail("modelled printf conversion", f, 1, "format");
		}
		int z = s ? 0 : prec > n ? prec - n : prec < 0 && zero && !minus && width > n + np ? width - n - np : 0;
		int fill = width - (np + z + n);
		if (!minus) for (; fill > 0; fill--) put(o, ' ');
		for (int i = 0; i < np; i++) put(o, pre[i]);
		for (; z > 0; z--) put(o, '0');
		if (s) for (int i = 0; i < n; i++) put(o, s[i]); else for (int i = n; i-- > 0; ) put(o, d[i]);
		for (; fill > 0; fill--) put(o, ' ');
	}
	if (o->n) o->b[o->k < o->n ? o->k : o->n - 1] = 0;
	return (int)o->k;
}
int vsnprintf(char* b, size_t n, const char* f, va_list ap) { struct sv_sink o = { b, n, 0 }; return format(&o, f, ap); }
int snprintf(char* b, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int vsprintf(char* b, const char* f, va_list ap) { return vsnprintf(b, (size_t)1 << 20, f, ap); }
int sprintf(char* b, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, (size_t)1 << 20, f, ap); va_end(ap); return r; }
long __isoc23_strtol(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return strtoul(s, e, b); }
long long __isoc23_strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
/* pthread_once: the others wait for the one that runs it, and see what it did */
static pthread_mutex_t once_mutex = PTHREAD_MUTEX_INITIALIZER;
int pthread_once(pthread_once_t* c, void (*f)(void)) { pthread_mutex_lock(&once_mutex); if (!*(int*)c) { *(int*)c = 2; f(); } pthread_mutex_unlock(&once_mutex); return 0; }
