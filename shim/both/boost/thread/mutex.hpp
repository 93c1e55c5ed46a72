// Stand-in for Boost.Thread on plain pthreads (modelled by the engine; real pthreads natively).
#ifndef PSE_BOOST_THREAD
#define PSE_BOOST_THREAD 1
#include <boost/noncopyable.hpp>
#include <boost/function/function0.hpp>
#include <boost/date_time/posix_time/posix_time_types.hpp>
#include <stdexcept>
#define BOOST_THREAD_POSIX 1
extern "C" { int pse_lock(void *); int pse_trylock(void *); int pse_unlock(void *); int pse_spawn(void (*)(void *), void *); void pse_join(int); int pse_self(void); int pse_cond_wait(void *c, void *m); void pse_cond_notify(void *c, int all); void pse_wait_until(unsigned long *, unsigned long); void pse_hb_acquire(void *); void pse_hb_release(void *); }
#ifdef PSE_LOCK_HOOK
extern "C" void pse_lock_hook(void);
#else
#define pse_lock_hook() ((void)0)
#endif
namespace boost {
struct defer_lock_t {}; struct adopt_lock_t {}; struct try_to_lock_t {}; static const try_to_lock_t try_to_lock = try_to_lock_t(); static const defer_lock_t defer_lock = defer_lock_t(); static const adopt_lock_t adopt_lock = adopt_lock_t();
class thread_resource_error : public std::runtime_error { public: thread_resource_error() : std::runtime_error("thread_resource_error") {} };
class lock_error : public std::runtime_error { public: lock_error() : std::runtime_error("lock_error") {} };
template <class M> class unique_lock : private boost::noncopyable {
    M *m_; bool o_;
public:
    explicit unique_lock(M &m) : m_(&m), o_(false) { lock(); } typedef M mutex_type; unique_lock(M &m, defer_lock_t) : m_(&m), o_(false) {} unique_lock(M &m, adopt_lock_t) : m_(&m), o_(true) {} unique_lock(M &m, try_to_lock_t) : m_(&m), o_(m.try_lock()) {} operator bool() const { return o_; } M *release() { M *m = m_; m_ = 0; o_ = false; return m; } void swap(unique_lock &o) { std::swap(m_, o.m_); std::swap(o_, o.o_); } unique_lock() : m_(0), o_(false) {} ~unique_lock() { if (o_) m_->unlock(); }
    void lock() { if (!m_ || o_) throw lock_error(); m_->lock(); o_ = true; } void unlock() { if (!o_) throw lock_error(); m_->unlock(); o_ = false; } bool owns_lock() const { return o_; } M *mutex() const { return m_; } bool try_lock() { return o_ = m_->try_lock(); }
};
template <class M> class lock_guard : private boost::noncopyable { M &m_; public: explicit lock_guard(M &m) : m_(m) { m.lock(); } lock_guard(M &m, adopt_lock_t) : m_(m) {} ~lock_guard() { m_.unlock(); } };
class mutex : private boost::noncopyable { public: char m; typedef unique_lock<mutex> scoped_lock; mutex() : m(0) {} ~mutex() {} void lock() { pse_lock(&m); pse_lock_hook(); } void unlock() { pse_lock_hook(); pse_unlock(&m); } bool try_lock() { return pse_trylock(&m) == 0; } };
typedef mutex timed_mutex; typedef mutex::scoped_lock scoped_lock_mutex;
class recursive_mutex : private boost::noncopyable { public: char m; int own, n; typedef unique_lock<recursive_mutex> scoped_lock; recursive_mutex() : m(0), own(-1), n(0) {} bool mine() { return n && own == pse_self(); }
    void lock() { if (!mine()) { pse_lock(&m); own = pse_self(); } ++n; pse_lock_hook(); } void unlock() { pse_lock_hook(); if (--n == 0) { own = -1; pse_unlock(&m); } } bool try_lock() { if (!mine()) { if (pse_trylock(&m)) return false; own = pse_self(); } ++n; return true; } };
typedef recursive_mutex recursive_timed_mutex;
// readers exclude each other too: the schedules in which they overlap are not explored
class shared_mutex : public mutex { public: void lock_shared() { lock(); } void unlock_shared() { unlock(); } bool try_lock_shared() { return try_lock(); } };
template <class M> class shared_lock : public unique_lock<M> { public: explicit shared_lock(M &m) : unique_lock<M>(m) {} shared_lock(M &m, defer_lock_t t) : unique_lock<M>(m, t) {} };
class condition : private boost::noncopyable { public: unsigned long c[2]; condition() { c[0] = c[1] = 0; } ~condition() {}
    template <class L> void wait(L &l) { pse_lock_hook(); pse_cond_wait(c, &l.mutex()->m); }
    template <class L, class P> void wait(L &l, P p) { while (!p()) wait(l); }
    template <class L, class T> bool timed_wait(L &l, const T &) { pse_cond_wait(c, &l.mutex()->m); return true; }
    void notify_one() { pse_cond_notify(c, 0); } void notify_all() { pse_cond_notify(c, 1); } };
typedef condition condition_variable; typedef condition condition_variable_any;
typedef boost::posix_time::ptime system_time;
inline system_time get_system_time() { return system_time(boost::gregorian::date(2014, 1, 1)); }
struct once_flag { unsigned long v; }; // 0 never, 1 under way, 2 done
#define BOOST_ONCE_INIT { 0 }
template <class F> inline void call_once(F f, once_flag &o) { if (!o.v) { o.v = 1; f(); pse_hb_release(&o); o.v = 2; } else { if (o.v == 1) pse_wait_until(&o.v, 2); pse_hb_acquire(&o); } }
template <class F> inline void call_once(once_flag &o, F f) { call_once(f, o); }
// threads start by themselves only if the harness asks for it (real() = true); otherwise the harness runs f
class thread : private boost::noncopyable {
    static void main(void *p) { boost::function0<void> *f = static_cast<boost::function0<void> *>(p); (*f)(); }
public:
    boost::function0<void> *f; int id_, tid_; bool joined; static int &count() { static int n = 0; return n; } static int &joins() { static int n = 0; return n; } static bool &real() { static bool b = false; return b; } static int &selfjoins() { static int n = 0; return n; }
    class id { int i; public: id(int k = -1) : i(k) {} bool operator==(const id &o) const { return i == o.i; } bool operator!=(const id &o) const { return i != o.i; } bool operator<(const id &o) const { return i < o.i; } };
    thread() : f(0), id_(0), tid_(-1), joined(false) {} template <class F> explicit thread(F x) : f(new boost::function0<void>(x)), id_(++count()), tid_(-1), joined(false) { if (real()) tid_ = pse_spawn(&thread::main, f); }
    void join() { if (tid_ >= 0 && tid_ == pse_self()) { ++selfjoins(); throw thread_resource_error(); } joined = true; ++joins(); if (tid_ >= 0) pse_join(tid_); } id get_id() const { return id(tid_ >= 0 ? tid_ : 1000 + id_); } bool operator!=(const thread &o) const { return id_ != o.id_; } bool operator==(const thread &o) const { return id_ == o.id_; } static void sleep(const system_time &) {} static void yield() {}
};
namespace this_thread { inline thread::id get_id() { return thread::id(pse_self()); } inline void yield() {} }
}
#endif
