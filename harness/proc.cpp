// A process: waiting for shutdown, signals, and going into the background. No call reaches the system.
#include "pse.h"
#include <signal.h>
#include <fcntl.h>
#include <unistd.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <map>
#include <vector>
#include <string>
static void (*at_lock)(); // called after a lock was taken, before it is given back, and before a wait
#define PSE_LOCK_HOOK 1
extern "C" void pse_lock_hook(void) { if (at_lock) at_lock(); }
#include <boost/thread/mutex.hpp>
#include <boost/thread/condition.hpp>
#include <boost/filesystem.hpp>
#include <boost/date_time.hpp>
#include <pion/process.hpp>
typedef void (*Handler)(int); struct Ended { int code; };
// the system: signal dispositions, descriptors (what each refers to), the process
struct Os { std::map<int, Handler> sig; std::map<int, std::string> fd; unsigned mask; int parent, forks, leader, child; bool null; Os() : mask(022), parent(7), forks(0), leader(0), child(0), null(true) {} int lowest() { int i = 0; while (fd.count(i)) ++i; return i; } };
static Os *os;
static Handler p_signal_(int s, Handler h) { Handler o = os->sig.count(s) ? os->sig[s] : SIG_DFL; os->sig[s] = h; return o; }
static int p_sigaction_(int s, const struct sigaction *a, struct sigaction *) { if (a) os->sig[s] = a->sa_handler; return 0; }
static pid_t p_getppid() { return os->parent; } static pid_t p_fork() { ++os->forks; uint64_t r = pse_choose(3, "fork"); pse_observe("fork", r); os->child = r == 2; return r == 0 ? -1 : r == 1 ? 99 : 0; } static void p_exit(int c) { Ended e; e.code = c; throw e; }
static pid_t p_setsid() { pse_assert(os->child == 1, "process: the session is new"); os->leader = 1; return 5; } static int p_tablesize() { return 6; } static int p_close(int f) { return os->fd.erase(f) ? 0 : -1; } static int p_open(const char *n, int m) { if (std::string(n) == "/dev/null" && !os->null) return -1; int f = os->lowest(); os->fd[f] = std::string(n) + ((m & O_ACCMODE) == O_RDWR ? "" : "!"); return f; } static int p_dup(int o) { if (!os->fd.count(o)) return -1; int f = os->lowest(); os->fd[f] = os->fd[o]; return f; } static int p_dup2(int o, int f) { if (!os->fd.count(o)) return -1; os->fd[f] = os->fd[o]; return f; } static mode_t p_umask(mode_t m) { mode_t o = os->mask; os->mask = m; return o; }
#define signal(a, b) p_signal_(a, b)
#define sigaction(a, b, c) p_sigaction_(a, b, c)
#define getppid() p_getppid()
#define fork() p_fork()
#define exit(c) p_exit(c)
#define _exit(c) p_exit(c)
#define setsid() p_setsid()
#define getdtablesize() p_tablesize()
#define close(f) p_close(f)
#define open(n, m) p_open(n, m)
#define dup(f) p_dup(f)
#define dup2(a, b) p_dup2(a, b)
#define umask(m) p_umask(m)
#include "../src/process.cpp"
using pion::process;
static unsigned long told, back; static int waits;
static void waiter(void *) { process::wait_for_shutdown(); pse_assert(told != 0, "process: waiting ends only with the shutdown"); ++back; }
static void tell(void *) { pse_yield(); ++told; process::shutdown(); }
static void nudge(void *) { process::config_type &c = process::get_config(); boost::mutex::scoped_lock l(c.shutdown_mutex); c.shutdown_cond.notify_all(); }
// args: threads that wait, that tell, 1: one that wakes them up without reason, switches
extern "C" void p_wait() {
    os = new Os; pse_races(); pse_switches(pse_arg(3)); int t[8], n = 0; for (uint64_t k = 0; k < pse_arg(0); ++k) t[n++] = pse_spawn(waiter, 0); if (pse_arg(2)) t[n++] = pse_spawn(nudge, 0); for (uint64_t k = 0; k < pse_arg(1); ++k) t[n++] = pse_spawn(tell, 0); for (int k = 0; k < n; ++k) pse_join(t[k]);
    pse_assert(back == pse_arg(0), "process: everyone who waits goes on"); process::wait_for_shutdown(); process::shutdown(); process::wait_for_shutdown(); pse_assert(pse_held_locks() == 0, "process: no lock is left"); pse_observe("back", back); pse_reach("down");
}
static const int STOP[] = { SIGINT, SIGTERM }, IGN[] = { SIGPIPE, SIGCHLD, SIGTSTP, SIGTTOU, SIGTTIN, SIGHUP };
static int arrive, inside, sent; static void hit() { if (!sent && arrive-- == 0) { sent = 1; ++told; os->sig[STOP[inside & 1]](STOP[inside & 1]); } }
// which signals end the process's waiting, and which nothing
extern "C" void p_signals() {
    os = new Os; process::initialize(); for (int s = 1; s < 32; ++s) { Handler h = os->sig.count(s) ? os->sig[s] : SIG_DFL; bool stop = false, ign = false; for (int k = 0; k < 2; ++k) stop |= s == STOP[k]; for (int k = 0; k < 6; ++k) ign |= s == IGN[k]; if (ign) pse_assert(h == SIG_IGN, "process: a closed connection, a child or a terminal do not end it"); else if (stop) pse_assert(h != SIG_IGN && h != SIG_DFL, "process: it can be interrupted and terminated"); else pse_assert(h == SIG_DFL, "process: other signals mean what they mean"); }
    int a = pse_spawn(waiter, 0); pse_yield(); int s = STOP[pse_choose(2, "signal")]; ++told; os->sig[s](s); pse_join(a); pse_assert(back == 1, "process: a signal ends the waiting"); pse_observe("back", back); pse_reach("signal");
}
// a signal that arrives while the thread that waits is inside the call. args: signal
extern "C" void p_inside() { os = new Os; process::initialize(); process::get_config(); inside = (int)pse_arg(0); arrive = (int)pse_choose(3, "arrives"); sent = 0; at_lock = hit; int a = pse_spawn(tell, 0); waiter(0); at_lock = 0; pse_join(a); pse_observe("back", back); }
// going into the background. args: descriptors open before
extern "C" void p_daemon() {
    os = new Os; os->parent = pse_choose(2, "daemon") ? 1 : 7; os->null = !pse_choose(2, "nonull"); uint64_t fds = pse_choose(64, "fds"); for (int f = 0; f < 6; ++f) if (fds >> f & 1) os->fd[f] = "tty"; std::map<int, std::string> had = os->fd; int code = -1; try { process::daemonize(); } catch (Ended &e) { code = e.code; }
    if (os->parent == 1) { pse_assert(code == -1 && os->forks == 0 && os->fd == had && os->mask == 022, "process: a daemon stays as it is"); pse_reach("already"); return; }
    pse_assert(os->forks == 1, "process: one new process"); if (code >= 0) { pse_assert(!os->child, "process: the new process goes on"); pse_assert(os->fd == had && os->mask == 022, "process: the old one changes nothing"); pse_reach(code ? "failed" : "parent"); pse_observe("code", code); return; }
    pse_assert(os->child == 1 && os->leader == 1, "process: only the new process goes on, in its own session"); pse_assert(os->mask == 027, "process: files it creates are closed to others"); if (os->null) { pse_assert(os->fd.size() == 3, "process: nothing is left open"); for (int f = 0; f < 3; ++f) pse_assert(os->fd.count(f) && os->fd[f] == "/dev/null", "process: standard streams lead nowhere"); } else pse_assert(os->fd.empty(), "process: nothing is left open"); pse_reach("background"); pse_observe("n", os->fd.size());
}
