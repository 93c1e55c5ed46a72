// Thread schedulers: users, work, shutdown and restart, over all schedules of real threads.
#include "pse.h"
#include <pion/scheduler.hpp>
#include <stdexcept>
struct One : pion::single_service_scheduler { unsigned users() { return m_active_users; } size_t pool() { return m_thread_pool.size(); } };
struct Many : pion::one_to_one_scheduler { unsigned users() { return m_active_users; } size_t pool() { return m_thread_pool.size(); } };
static pion::scheduler *s; static unsigned long done, gone, joined; static bool many;
static void mk(int kind, int threads) { boost::thread::real() = boost::asio::io_service::threads() = true; many = kind; s = many ? (pion::scheduler *)new Many : (pion::scheduler *)new One; s->set_num_threads(threads); done = gone = joined = 0; pse_switches(pse_arg(2)); }
static unsigned users() { return many ? static_cast<Many *>(s)->users() : static_cast<One *>(s)->users(); }
static size_t pool() { return many ? static_cast<Many *>(s)->pool() : static_cast<One *>(s)->pool(); }
static void work() { ++done; } static void bad() { ++done; throw std::runtime_error("x"); } static void worse() { ++done; throw 1; }
// args: kind, threads: work that throws does not keep other work from being done
extern "C" void t_work() {
    int n = pse_arg(1); mk(pse_arg(0), n); s->add_active_user(); pse_assert(s->is_running() && users() == 1 && pool() == (size_t)n, "scheduler: a user starts the threads"); uint64_t a = pse_choose(3, "first"); s->post(a == 0 ? work : a == 1 ? bad : worse); s->post(pse_choose(2, "second") ? work : worse); s->post(work); pse_wait_until(&done, 3); s->remove_active_user(); s->shutdown();
    pse_assert(done == 3, "scheduler: work is done once, whatever other work throws"); pse_assert(!s->is_running() && pool() == 0 && boost::thread::joins() == n, "scheduler: shutdown ends every thread"); pse_observe("done", done);
}
static void leave(void *) { pse_yield(); s->post(work); pse_wait_until(&done, 1); gone = 1; s->remove_active_user(); }
static void joiner(void *) { s->join(); pse_assert(gone && !s->is_running(), "scheduler: join returns after the scheduler has stopped"); joined = 1; }
// args: kind, threads: shutdown waits for its users, join for shutdown
extern "C" void t_users() {
    mk(pse_arg(0), pse_arg(1)); s->add_active_user(); int a = pse_spawn(leave, 0), b = pse_spawn(joiner, 0); s->shutdown(); pse_assert(gone == 1 && users() == 0, "scheduler: shutdown waits for the last user"); pse_assert(!s->is_running() && pool() == 0, "scheduler: stopped"); pse_join(b); pse_assert(joined, "scheduler: join returns"); pse_join(a); pse_observe("done", done);
}
static void late(void *) { s->add_active_user(); pse_assert(s->is_running(), "scheduler: it runs as long as it has users"); s->post(work); pse_wait_until(&done, 1); pse_assert(s->is_running(), "scheduler: it runs as long as it has users"); s->remove_active_user(); }
// args: kind, threads: a user that comes while the scheduler shuts down
extern "C" void t_late() { mk(pse_arg(0), pse_arg(1)); s->startup(); int a = pse_spawn(late, 0); s->shutdown(); pse_join(a); pse_assert(done == 1, "scheduler: its work is done"); s->shutdown(); pse_assert(!s->is_running() && pool() == 0 && users() == 0, "scheduler: stopped"); pse_observe("joins", boost::thread::joins()); }
static void twouser(void *) { s->add_active_user(); ++gone; s->post(work); pse_yield(); s->remove_active_user(); }
// two users come and go at any time: the count is exact
extern "C" void t_count() { mk(pse_arg(0), pse_arg(1)); int a = pse_spawn(twouser, 0), b = pse_spawn(twouser, 0); pse_join(a); pse_join(b); pse_assert(users() == 0 && gone == 2, "scheduler: users are counted exactly"); pse_assert(s->is_running() && pool() == pse_arg(1), "scheduler: started once"); s->shutdown(); pse_assert(pool() == 0, "scheduler: stopped"); pse_observe("joins", boost::thread::joins()); }
static void again() { s->add_active_user(); s->remove_active_user(); ++done; }
// work that uses the scheduler while it shuts down
extern "C" void t_reenter() { mk(pse_arg(0), 1); s->startup(); s->post(again); s->shutdown(); pse_assert(!s->is_running() || users() == 0, "scheduler: stopped"); pse_observe("x", 1); }
static void down(void *) { s->shutdown(); ++joined; pse_assert(!s->is_running() && gone == 1, "scheduler: every shutdown returns after the last user"); }
// args: kind, threads: two threads shut down while there is a user
extern "C" void t_down() { mk(pse_arg(0), pse_arg(1)); s->add_active_user(); int a = pse_spawn(down, 0), b = pse_spawn(down, 0); leave(0); pse_join(a); pse_join(b); pse_assert(joined == 2 && users() == 0 && pool() == 0, "scheduler: every shutdown returns"); pse_observe("done", done); }
// args: kind. stopped and started again: idle means idle
extern "C" void t_restart() {
    bool two = pse_arg(0); One o; Many m; pion::scheduler &x = two ? (pion::scheduler &)m : (pion::scheduler &)o; s = &x; x.set_num_threads(2); done = 0; unsigned rounds = 1 + pse_choose(3, "rounds");
    for (unsigned k = 0; k < rounds; ++k) {
        x.startup(); pse_assert(x.is_running(), "scheduler: runs"); std::vector<boost::asio::io_service *> io; if (two) { io.push_back(&m.get_io_service(0)); io.push_back(&m.get_io_service(1)); } else io.push_back(&o.get_io_service());
        for (size_t i = 0; i < io.size(); ++i) { int n = 0; while (io[i]->poll_one()) if (++n > 20) { pse_fail("scheduler: an idle scheduler is never busy"); return; } pse_assert(!io[i]->stopped() && io[i]->timers.size() == 1 && io[i]->timers[0]->pending, "scheduler: something is always waited for"); io[i]->timers[0]->expire(); n = 0; while (io[i]->poll_one()) if (++n > 20) { pse_fail("scheduler: an idle scheduler is never busy"); return; } pse_assert(io[i]->timers[0]->pending, "scheduler: something is always waited for"); }
        x.post(work); for (size_t i = 0; i < io.size(); ++i) io[i]->poll(); pse_assert(done == k + 1, "scheduler: work is done after every start"); x.shutdown(); pse_assert(!x.is_running(), "scheduler: stops"); }
    pse_observe("rounds", rounds); pse_reach("restarted");
}
