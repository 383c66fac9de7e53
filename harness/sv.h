// Interface between the harnesses and the symbolic executor / the native replayer.
#pragma once
#include <stdint.h>
#include <stddef.h>
extern "C" {
uint8_t		sv_u8(const char* name);		// a fresh symbolic value
uint16_t	sv_u16(const char* name);
uint32_t	sv_u32(const char* name);
uint64_t	sv_u64(const char* name);
int		sv_choose(const char* name, int n);	// any of 0..n-1, every one explored
void		sv_assume(bool);
void		sv_check(bool, const char* what);	// the property
void		sv_reach(const char* label);		// vacuity witness: some path must get here
void		sv_note(const char*);
void		sv_out(uint64_t);			// an observation, compared between the encoding and the native run
uint64_t	sv_heap();				// live heap bytes
uint64_t	sv_fork(uint64_t);			// the same value, one path per value
void		sv_expect_abort();			// from here on the code must abort (a failed assertion)
void		sv_done();				// abandon this path (outside the claim)
void		sv_set_clock(uint64_t s, uint64_t ns);	// what the system clock says (concurrent units)
int		sv_unjoined();				// system threads neither joined nor detached
uint64_t	sv_deadline(int which);			// the deadline of the last timed wait: seconds or nanoseconds
}
// value lo..hi as a symbolic integer
static inline int sv_range(const char* n, int lo, int hi) { uint32_t v = sv_u32(n); sv_assume(v <= (uint32_t)(hi - lo)); return lo + (int)v; }
static inline bool sv_bool(const char* n) { uint8_t v = sv_u8(n); sv_assume(v < 2); return v; }
// any of 0..n-1: a symbolic value the solver enumerates
static inline int sv_pick(const char* n, int k) { uint32_t v = sv_u32(n); sv_assume(v < (uint32_t)k); return (int)sv_fork(v); }
