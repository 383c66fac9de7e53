// Native side of the harness interface: runs sv_main on recorded inputs, against the real build of /repo's sources.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include "../harness/sv.h"
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define ASAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__)
#define ASAN 1
#endif
#ifdef ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif
extern "C" void sv_main();
struct In { std::string name; unsigned w; unsigned long long v; };
std::vector<In> sv_inputs; size_t sv_pos = 0;
static FILE* out;
static unsigned long long next(const char* name, unsigned w)
{
	if (sv_pos >= sv_inputs.size()) { fprintf(out, "SV-MISMATCH: inputs exhausted at %s\n", name); fflush(out); _exit(79); }
	In& i = sv_inputs[sv_pos++];
	if (i.name != name || i.w != w) { fprintf(out, "SV-MISMATCH: wanted %s/%u, recorded %s/%u\n", name, w, i.name.c_str(), i.w); fflush(out); _exit(79); }
	return i.v;
}
extern "C" {
uint8_t sv_u8(const char* n) { return next(n, 8); }
uint16_t sv_u16(const char* n) { return next(n, 16); }
uint32_t sv_u32(const char* n) { return next(n, 32); }
uint64_t sv_u64(const char* n) { return next(n, 64); }
int sv_choose(const char* n, int k) { int v = (int)next(n, 32); if (v >= k) { fprintf(out, "SV-MISMATCH: choice\n"); fflush(out); _exit(79); } return v; }
void sv_assume(bool b) { if (!b) { fprintf(out, "SV-ASSUME-FAILED\n"); fflush(out); _exit(78); } }
void sv_check(bool b, const char* m) { if (!b) { fprintf(out, "SV-CHECK-FAILED: %s\n", m); fflush(out); _exit(77); } }
void sv_reach(const char*) {}
void sv_note(const char* s) { if (getenv("SV_VERBOSE")) fprintf(stderr, "NOTE %s\n", s); }
uint64_t sv_fork(uint64_t v) { return v; }
static void onAbort(int) { fprintf(out, "SV-PASSED\n"); fflush(out); _exit(0); }
void sv_expect_abort() { signal(SIGABRT, onAbort); }
void sv_done() { fprintf(out, "SV-ASSUME-FAILED\n"); fflush(out); _exit(78); }
void sv_out(uint64_t v) { fprintf(out, "OUT %llu\n", (unsigned long long)v); }
#ifndef SV_MT
uint64_t sv_heap()
{
#ifdef ASAN
	return __sanitizer_get_current_allocated_bytes();
#else
	return 0;
#endif
}
#endif
#ifndef NO_CTYPE
// the C library's classification functions, with the domain the standard gives them enforced
static int ctypeOk(int c) { if (c < -128 || c > 255) { fprintf(out, "SV-CHECK-FAILED: ctype argument %d out of range\n", c); fflush(out); _exit(77); } return 1; }
int isdigit(int c) throw() { ctypeOk(c); return c >= '0' && c <= '9'; }
int isxdigit(int c) throw() { ctypeOk(c); return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isupper(int c) throw() { ctypeOk(c); return c >= 'A' && c <= 'Z'; }
int islower(int c) throw() { ctypeOk(c); return c >= 'a' && c <= 'z'; }
int isalpha(int c) throw() { ctypeOk(c); return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) throw() { ctypeOk(c); return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isspace(int c) throw() { ctypeOk(c); return c == ' ' || (c >= 9 && c <= 13); }
#endif
#ifdef ASAN
const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1:strict_memcmp=1"; }
#endif
}
static bool readCase(FILE* f)	// one case: lines "name width value", ended by a line "." or the end of file
{
	char n[200]; unsigned w; unsigned long long v; char line[400]; bool any = false;
	sv_inputs.clear(); sv_pos = 0;
	while (fgets(line, sizeof line, f)) {
		any = true;
		if (line[0] == '.') break;
		if (line[0] == '#' || line[0] == '\n') continue;
		if (sscanf(line, "%199s %u %llu", n, &w, &v) == 3) sv_inputs.push_back(In{n, w, v});
	}
	return any;
}
static void runCase() { alarm(20); sv_main(); fprintf(out, "SV-PASSED\n"); fflush(out); _exit(0); }
int main(int argc, char** argv)
{
	out = fdopen(dup(1), "w");
	if (argc < 2) return 2;
	bool batch = !strcmp(argv[1], "--batch");
	FILE* f = fopen(argv[batch ? 2 : 1], "r");
	if (!f) return 2;
	if (!batch) { readCase(f); fclose(f); runCase(); }
	for (int i = 0; readCase(f); i++) {
		fprintf(out, "CASE %d\n", i); fflush(out);
		pid_t p = fork();
		if (!p) { if (!getenv("SV_VERBOSE")) { if (!freopen("/dev/null", "w", stderr)) {} if (!freopen("/dev/null", "w", stdout)) {} } runCase(); }
		int st; waitpid(p, &st, 0);
		fprintf(out, "END %d\n", WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st)); fflush(out);
	}
	return 0;
}
