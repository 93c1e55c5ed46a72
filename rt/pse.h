// Harness API.  In the symbolic run these are engine builtins; in a native replay they read the
// concrete assignment found by the solver (rt/native.cpp).
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <string>
extern "C" {
void pse_symbolic(void *p, size_t n, const char *name);   // n arbitrary bytes
void pse_assume(int c);
void pse_assert_(int c, const char *msg);
void pse_fail(const char *msg);
void pse_reach(const char *label);
void pse_stop(void);                                      // end this path silently
int  pse_memeq(const void *a, const void *b, size_t n);   // branch-free comparison
uint64_t pse_concretize(uint64_t v);                      // fork over every feasible value
uint64_t pse_arg(uint64_t i);
void pse_observe(const char *name, uint64_t v);
int  pse_symbolic_run(void);
void pse_debug(const char *name, uint64_t v);
uint64_t pse_live_heap(void);
int pse_spawn(void (*f)(void *), void *arg);
void pse_join(int t);
void pse_yield(void);
void pse_switches(uint64_t n);                            // at most n switches away from a thread that could go on
int pse_self(void);
void pse_races(void);                                     // from here on, data races between threads are reported
void pse_race_name(void *p, size_t n, const char *what);   // races there are reported under this name
void pse_hb_acquire(void *p); void pse_hb_release(void *p); // what came before a release comes before what follows an acquire

void pse_wait_until(unsigned long *p, unsigned long v);   // until *p >= v
int pse_lock(void *m); int pse_trylock(void *m); int pse_unlock(void *m);
uint64_t pse_held_locks(void);
extern void (*pse_wait_hook)(void); // called while a condition is waited for
extern unsigned pse_ruid, pse_euid, pse_suid, pse_rgid, pse_egid, pse_sgid; extern int pse_seteuid_calls, pse_setegid_calls; // user and group ids (rt/sys.inc)
extern long pse_now;                // what the clock says
}
#define pse_assert(c, msg) pse_assert_((c) ? 1 : 0, msg)
static inline uint8_t pse_u8(const char *n) { uint8_t v; pse_symbolic(&v, 1, n); return v; }
static inline uint16_t pse_u16(const char *n) { uint16_t v; pse_symbolic(&v, 2, n); return v; }
static inline uint32_t pse_u32(const char *n) { uint32_t v; pse_symbolic(&v, 4, n); return v; }
static inline uint64_t pse_u64(const char *n) { uint64_t v; pse_symbolic(&v, 8, n); return v; }
// one of 0..n-1, forked so that it is concrete on each path
static inline uint64_t pse_choose(uint8_t n, const char *name) { uint8_t v = pse_u8(name); pse_assume(v < n); return pse_concretize(v); }
static inline bool pse_streq(const std::string &a, const std::string &b) { return a.size() == b.size() && pse_memeq(a.data(), b.data(), a.size()); }
static inline std::string pse_string(size_t n, const char *name) { std::string s(n, '\0'); if (n) pse_symbolic(&s[0], n, name); return s; }
static inline void pse_observe_str(const char *name, const std::string &s) { pse_observe(name, s.size()); for (size_t i = 0; i < s.size(); ++i) pse_observe(name, (uint8_t)s[i]); }
