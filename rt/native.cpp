#define PSE_REAL_FSTREAM 1
// Native side of the harness API: replays one concrete assignment.
// usage: <bin> <entry> <inputfile> [args...]   inputfile: lines "name hex"
#define PSE_REAL_DL 1
#include "pse.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <vector>
#include <map>
#include <fstream>
#include <dlfcn.h>
#include <pthread.h>
#include <time.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <exception>
static std::vector<std::pair<std::string, std::vector<uint8_t> > > ins; static size_t cur; static std::vector<uint64_t> args;
extern "C" {
void pse_symbolic(void *p, size_t n, const char *name) {
    if (n == 0) return;
    if (cur >= ins.size() || ins[cur].first != name || ins[cur].second.size() != n) { fprintf(stderr, "REPLAY-DIVERGED at input %zu (%s)\n", cur, name); fflush(0); _exit(79); }
    memcpy(p, &ins[cur++].second[0], n);
}
void pse_assume(int c) { if (!c) { fprintf(stderr, "REPLAY-ASSUME-FALSE\n"); fflush(0); _exit(78); } }
void pse_assert_(int c, const char *m) { if (!c) { printf("ASSERTION-FAILED %s\n", m); fflush(0); _exit(77); } }
#include "sys.inc"
void pse_deadlock(void) { printf("DEADLOCK relock of a held mutex\n"); fflush(0); _exit(75); }
void (*pse_wait_hook)(void) = 0;
// ---- threads: one runs at a time; the schedule found by the solver is followed
// with PSE_TSAN the hand-over between threads is invisible to the race detector, and only what the code under test synchronises orders anything
extern void __tsan_acquire(void *) __attribute__((weak)); extern void __tsan_release(void *) __attribute__((weak));
void pse_hb_acquire(void *p) { if (__tsan_acquire) __tsan_acquire(p); }
void pse_hb_release(void *p) { if (__tsan_release) __tsan_release(p); }
void pse_races(void) {} void pse_race_name(void *, size_t, const char *) {}
struct NT { bool done; int joinOn; void *waitMutex; unsigned long *waitAddr, waitVal; void (*f)(void *); void *arg; NT() : done(false), joinOn(0), waitMutex(0), waitAddr(0), waitVal(0), f(0), arg(0) {} };
static std::vector<NT *> th(1, new NT); static int curT = 0; static uint64_t nsw = 0, maxsw = 3; static std::map<void *, int> owner; static pthread_mutex_t big = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t bigc = PTHREAD_COND_INITIALIZER; static __thread int me = 0;
#ifdef PSE_TSAN
static void handOver(int to) { __atomic_store_n(&curT, to, __ATOMIC_SEQ_CST); }
static void await(void) { while (__atomic_load_n(&curT, __ATOMIC_SEQ_CST) != me) syscall(SYS_sched_yield); }
#else
static void handOver(int to) { pthread_mutex_lock(&big); curT = to; pthread_cond_broadcast(&bigc); pthread_mutex_unlock(&big); }
static void await(void) { pthread_mutex_lock(&big); while (curT != me) pthread_cond_wait(&bigc, &big); pthread_mutex_unlock(&big); }
#endif
static bool ready(int i) { NT &t = *th[i]; if (t.done) return false; if (t.waitMutex) { std::map<void *, int>::iterator o = owner.find(t.waitMutex); if (o != owner.end() && o->second) return false; } if (t.joinOn && !th[t.joinOn - 1]->done) return false; if (t.waitAddr && *t.waitAddr < t.waitVal) return false; return true; }
static void pickT(bool mayStay) {
    std::vector<int> r; for (size_t i = 0; i < th.size(); ++i) if (ready(i)) r.push_back(i);
    if (r.empty()) { printf("DEADLOCK no runnable thread\n"); fflush(0); _exit(75); }
    bool stay = mayStay && ready(me); if (stay && nsw >= maxsw) return;
    static const char *rnd = getenv("PSE_RANDOM"); static unsigned seed = rnd ? atoi(rnd) : 0; // any schedule, for demonstrations
    int to = r[0]; if (r.size() > 1 && rnd) { to = stay && rand_r(&seed) % 3 ? me : r[rand_r(&seed) % r.size()]; if (stay && to != me) ++nsw; } else if (r.size() > 1) { uint8_t c; pse_symbolic(&c, 1, "!sched"); to = c; if (stay && to != me) ++nsw; if ((size_t)to >= th.size() || !ready(to)) { fprintf(stderr, "REPLAY-DIVERGED schedule\n"); fflush(0); _exit(79); } }
    if (to == me) return; handOver(to); if (!th[me]->done) await(); }
static void *tmain(void *p) { me = (int)(long)p; await();
    try { th[me]->f(th[me]->arg); } catch (std::exception &e) { printf("UNCAUGHT %s\n", e.what()); fflush(0); _exit(76); } catch (...) { printf("UNCAUGHT\n"); fflush(0); _exit(76); }
    pse_hb_release(th[me]); th[me]->done = true; pickT(false); return 0; }
int pse_spawn(void (*f)(void *), void *arg) { NT *t = new NT; t->f = f; t->arg = arg; th.push_back(t); long i = th.size() - 1; pthread_t x; pthread_create(&x, 0, tmain, (void *)i); return (int)i; }
void pse_join(int t) { if ((size_t)t >= th.size()) return; while (!th[t]->done) { th[me]->joinOn = t + 1; pickT(false); } th[me]->joinOn = 0; pse_hb_acquire(th[t]); }
void pse_yield(void) { if (th.size() > 1) pickT(true); }
void pse_switches(uint64_t n) { maxsw = n; }
int pse_self(void) { return me; }
void pse_wait_until(unsigned long *p, unsigned long v) { while (*p < v) { pse_hb_release(&th); th[me]->waitAddr = p; th[me]->waitVal = v; pickT(false); } th[me]->waitAddr = 0; pse_hb_acquire(&th); }
int pse_lock(void *m) { if (th.size() > 1) pickT(true); for (;;) { if (th.size() > 1 && owner[m] && owner[m] != me + 1) { th[me]->waitMutex = m; pickT(false); continue; } break; } th[me]->waitMutex = 0; if (owner[m]) pse_deadlock(); owner[m] = me + 1; pse_hb_acquire(m); return 0; }
int pse_trylock(void *m) { if (owner[m]) return 16; owner[m] = me + 1; pse_hb_acquire(m); return 0; }
int pse_unlock(void *m) { if (owner[m] != me + 1) { printf("DEADLOCK unlock of a mutex not held\n"); fflush(0); _exit(75); } pse_hb_release(m); owner[m] = 0; if (th.size() > 1) pickT(true); return 0; }
struct pse_cv { unsigned long next, released; };
int pse_cond_wait(void *c, void *m) { pse_cv *v = (pse_cv *)c; unsigned long my = pse_wait_hook ? 0 : ++v->next; pse_unlock(m); if (pse_wait_hook) pse_wait_hook(); else pse_wait_until(&v->released, my); pse_lock(m); return 0; }
void pse_cond_notify(void *c, int all) { pse_cv *v = (pse_cv *)c; if (all) v->released = v->next; else if (v->released < v->next) ++v->released; }
long pse_now = 1400000000; time_t time(time_t *t) { if (t) *t = pse_now; return pse_now; }
void pse_fail(const char *m) { pse_assert_(0, m); }
void pse_reach(const char *) {}
void pse_stop(void) { printf("STOPPED\n"); fflush(0); _exit(0); }
int pse_memeq(const void *a, const void *b, size_t n) { return n == 0 || memcmp(a, b, n) == 0; }
uint64_t pse_concretize(uint64_t v) { return v; }
uint64_t pse_arg(uint64_t i) { return i < args.size() ? args[i] : 0; }
void pse_observe(const char *n, uint64_t v) { printf("OBS %s %llu\n", n, (unsigned long long)v); }
int pse_symbolic_run(void) { return 0; }
void pse_debug(const char *n, uint64_t v) { fprintf(stderr, "DBG %s %llu\n", n, (unsigned long long)v); }
uint64_t pse_live_heap(void) { return 0; }
uint64_t pse_held_locks(void) { uint64_t n = 0; for (std::map<void *, int>::iterator i = owner.begin(); i != owner.end(); ++i) n += i->second != 0; return n; }
}
int main(int argc, char **argv) {
    if (argc < 3) return 2;
    std::ifstream f(argv[2]); std::string n, h;
    while (f >> n) { std::getline(f, h); size_t b = h.find_first_not_of(' '); h = b == std::string::npos ? "" : h.substr(b); std::vector<uint8_t> v; for (size_t i = 0; i + 1 < h.size(); i += 2) v.push_back((uint8_t)strtoul(h.substr(i, 2).c_str(), 0, 16)); ins.push_back(std::make_pair(n, v)); }
    for (int i = 3; i < argc; ++i) args.push_back(strtoull(argv[i], 0, 0));
    void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
    if (!fn) { fprintf(stderr, "no entry %s\n", argv[1]); return 2; }
    try { fn(); } catch (std::exception &e) { printf("UNCAUGHT %s\n", e.what()); fflush(0); _exit(76); } catch (...) { printf("UNCAUGHT\n"); fflush(0); _exit(76); }
    printf("DONE\n"); fflush(0); _exit(0);
}
