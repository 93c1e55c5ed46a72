// Stand-in for the pre-1.66 Boost.Asio API that pion is written against (the installed Boost has
// dropped it).  Used for BOTH the symbolic encoding and the native replay, so pion's own
// tcp/connection.hpp, scheduler, reader, writer, server ... are the real code.  All I/O is driven by
// the harness: sockets read from a scripted byte string and record what is written; asynchronous
// operations park their handler until the harness completes them.
#ifndef PSE_BOOST_ASIO_HPP
#define PSE_BOOST_ASIO_HPP 1
#include <string>
#include <vector>
#include <deque>
#include <list>
#include <cstring>
#include <utility>
#include <stdexcept>
#include <iterator>
#include <sys/types.h>
#include <arpa/inet.h>
#include <boost/array.hpp>
#include <boost/cstdint.hpp>
#include <boost/noncopyable.hpp>
#include <boost/function.hpp>
#include <boost/bind.hpp>
#include <boost/system/error_code.hpp>
#include <boost/system/system_error.hpp>
#include <boost/throw_exception.hpp>
#include <boost/date_time/posix_time/posix_time_types.hpp>
#define BOOST_ASIO_VERSION 101000
extern "C" { void pse_hb_acquire(void *); void pse_hb_release(void *); void pse_yield(void); void pse_wait_until(unsigned long *, unsigned long); }
namespace boost { namespace asio {
// ---- errors
namespace error {
    enum basic_errors { connection_reset = 104, operation_aborted = 125, bad_descriptor = 9, not_connected = 107, connection_refused = 111, broken_pipe = 32, timed_out = 110, message_size = 90, invalid_argument = 22, address_in_use = 98 };
    enum netdb_errors { host_not_found = 1, no_data = 4 };
    enum misc_errors { already_open = 1, eof = 2, not_found = 3, fd_set_failure = 4 };
    struct pse_cat : boost::system::error_category { const char *n; explicit pse_cat(const char *s) : n(s) {} const char *name() const BOOST_NOEXCEPT { return n; } std::string message(int) const { return std::string(n); } };
    inline const boost::system::error_category &get_misc_category() { static const pse_cat c("asio.misc"); return c; }
    inline const boost::system::error_category &get_netdb_category() { static const pse_cat c("asio.netdb"); return c; }
    inline const boost::system::error_category &get_system_category() { return boost::system::system_category(); }
    static const boost::system::error_category &misc_category = boost::asio::error::get_misc_category();
    static const boost::system::error_category &system_category = boost::asio::error::get_system_category();
    static const boost::system::error_category &netdb_category = boost::asio::error::get_netdb_category();
    inline boost::system::error_code make_error_code(basic_errors e) { return boost::system::error_code(int(e), boost::system::system_category()); }
    inline boost::system::error_code make_error_code(netdb_errors e) { return boost::system::error_code(int(e), get_netdb_category()); }
    inline boost::system::error_code make_error_code(misc_errors e) { return boost::system::error_code(int(e), get_misc_category()); }
}
}
namespace system {
template <> struct is_error_code_enum<boost::asio::error::basic_errors> { static const bool value = true; };
template <> struct is_error_code_enum<boost::asio::error::netdb_errors> { static const bool value = true; };
template <> struct is_error_code_enum<boost::asio::error::misc_errors> { static const bool value = true; };
}
namespace asio {
// ---- buffers
class mutable_buffer { void *p_; std::size_t n_; public: mutable_buffer() : p_(0), n_(0) {} mutable_buffer(void *p, std::size_t n) : p_(p), n_(n) {} void *data() const { return p_; } std::size_t size() const { return n_; } };
class const_buffer { const void *p_; std::size_t n_; public: const_buffer() : p_(0), n_(0) {} const_buffer(const void *p, std::size_t n) : p_(p), n_(n) {} const_buffer(const mutable_buffer &b) : p_(b.data()), n_(b.size()) {} const void *data() const { return p_; } std::size_t size() const { return n_; } };
class mutable_buffers_1 : public mutable_buffer { public: typedef mutable_buffer value_type; typedef const mutable_buffer *const_iterator; mutable_buffers_1(void *p, std::size_t n) : mutable_buffer(p, n) {} explicit mutable_buffers_1(const mutable_buffer &b) : mutable_buffer(b) {} const_iterator begin() const { return this; } const_iterator end() const { return this + 1; } };
class const_buffers_1 : public const_buffer { public: typedef const_buffer value_type; typedef const const_buffer *const_iterator; const_buffers_1(const void *p, std::size_t n) : const_buffer(p, n) {} explicit const_buffers_1(const const_buffer &b) : const_buffer(b) {} const_iterator begin() const { return this; } const_iterator end() const { return this + 1; } };
inline mutable_buffers_1 buffer(void *p, std::size_t n) { return mutable_buffers_1(p, n); }
inline const_buffers_1 buffer(const void *p, std::size_t n) { return const_buffers_1(p, n); }
inline const_buffers_1 buffer(const std::string &s) { return const_buffers_1(s.data(), s.size()); }
inline mutable_buffers_1 buffer(const mutable_buffer &b) { return mutable_buffers_1(b); }
inline const_buffers_1 buffer(const const_buffer &b) { return const_buffers_1(b); }
template <class T> inline mutable_buffers_1 buffer(std::vector<T> &v) { return mutable_buffers_1(v.empty() ? 0 : &v[0], v.size() * sizeof(T)); }
template <class T> inline const_buffers_1 buffer(const std::vector<T> &v) { return const_buffers_1(v.empty() ? 0 : &v[0], v.size() * sizeof(T)); }
template <class T, std::size_t N> inline mutable_buffers_1 buffer(boost::array<T, N> &v) { return mutable_buffers_1(v.c_array(), N * sizeof(T)); }
template <class T, std::size_t N> inline mutable_buffers_1 buffer(T (&v)[N]) { return mutable_buffers_1(v, N * sizeof(T)); }
template <class T, std::size_t N> inline const_buffers_1 buffer(const T (&v)[N]) { return const_buffers_1(v, N * sizeof(T)); }
inline mutable_buffers_1 buffer(const mutable_buffer &b, std::size_t n) { return mutable_buffers_1(b.data(), b.size() < n ? b.size() : n); }
inline const_buffers_1 buffer(const const_buffer &b, std::size_t n) { return const_buffers_1(b.data(), b.size() < n ? b.size() : n); }
inline const_buffers_1 buffer(const std::string &s, std::size_t n) { return const_buffers_1(s.data(), s.size() < n ? s.size() : n); }
template <class T, std::size_t N> inline mutable_buffers_1 buffer(boost::array<T, N> &v, std::size_t n) { return buffer(mutable_buffer(v.c_array(), N * sizeof(T)), n); }
template <class T> inline mutable_buffers_1 buffer(std::vector<T> &v, std::size_t n) { return buffer(mutable_buffer(buffer(v)), n); }
inline mutable_buffer operator+(const mutable_buffer &b, std::size_t n) { if (n > b.size()) n = b.size(); return mutable_buffer(static_cast<char *>(b.data()) + n, b.size() - n); }
inline const_buffer operator+(const const_buffer &b, std::size_t n) { if (n > b.size()) n = b.size(); return const_buffer(static_cast<const char *>(b.data()) + n, b.size() - n); }
inline std::size_t buffer_size(const mutable_buffers_1 &b) { return b.size(); }
inline std::size_t buffer_size(const const_buffers_1 &b) { return b.size(); }
template <class S> inline std::size_t buffer_size(const S &s) { std::size_t n = 0; for (typename S::const_iterator i = s.begin(); i != s.end(); ++i) n += const_buffer(*i).size(); return n; }
inline std::size_t buffer_copy(const mutable_buffer &t, const const_buffer &f) { std::size_t n = t.size() < f.size() ? t.size() : f.size(); if (n) std::memcpy(t.data(), f.data(), n); return n; }
inline std::size_t buffer_size(const mutable_buffer &b) { return b.size(); }
inline std::size_t buffer_size(const const_buffer &b) { return b.size(); }
template <class P> inline P buffer_cast(const mutable_buffer &b) { return static_cast<P>(b.data()); }
template <class P> inline P buffer_cast(const const_buffer &b) { return static_cast<P>(b.data()); }
namespace placeholders { static boost::arg<1> error; static boost::arg<2> bytes_transferred; }
// ---- io_service
class deadline_timer;
class io_service : private boost::noncopyable {
public:
    std::vector<deadline_timer *> timers; // harness: every timer alive
    std::deque<boost::function0<void> > q; std::deque<char *> hb; bool stopped_; // hb: what a handler was posted after comes before it runs
    template <class H> void push(H h) { ++seq; q.push_back(boost::function0<void>(h)); if (threads()) { hb.push_back(new char); pse_hb_release(hb.back()); } } boost::function1<void, io_service &> idle; int runs;
    unsigned long seq; int pend; // seq: changes whenever something may run; pend: timers waiting
    static bool &threads() { static bool b = false; return b; } // harness: run() waits for events as the real one does
    static unsigned long &handled() { static unsigned long n = 0; return n; }
    io_service() : stopped_(false), runs(0), seq(0), pend(0) {}
    explicit io_service(std::size_t) : stopped_(false), runs(0), seq(0), pend(0) {}
    template <class H> void post(H h) { push(h); }
    template <class H> void dispatch(H h) { push(h); }
    std::size_t poll_one() { if (q.empty() || stopped_) return 0; boost::function0<void> f = q.front(); q.pop_front(); if (!hb.empty()) { pse_hb_acquire(hb.front()); delete hb.front(); hb.pop_front(); } ++handled(); f(); return 1; }
    std::size_t poll() { std::size_t n = 0; while (poll_one()) ++n; return n; }
    std::size_t run() { ++runs; std::size_t n = 0; if (threads()) { for (;;) { if (stopped_) return n; if (poll_one()) { ++n; pse_yield(); continue; } if (!pend) { stop(); return n; } pse_wait_until(&seq, seq + 1); } } for (;;) { n += poll(); if (stopped_ || !idle) break; idle(*this); if (q.empty()) break; } return n; }
    std::size_t run_one() { return poll_one(); }
    void stop() { stopped_ = true; ++seq; } bool stopped() const { return stopped_; } void reset() { stopped_ = false; } void restart() { stopped_ = false; }
    std::size_t run(boost::system::error_code &ec) { ec = boost::system::error_code(); return run(); } std::size_t poll(boost::system::error_code &ec) { ec = boost::system::error_code(); return poll(); } std::size_t run_one(boost::system::error_code &ec) { ec = boost::system::error_code(); return run_one(); } std::size_t poll_one(boost::system::error_code &ec) { ec = boost::system::error_code(); return poll_one(); }
    class work { public: explicit work(io_service &) {} };
};
typedef boost::function1<void, const boost::system::error_code &> pse_handler1;
typedef boost::function2<void, const boost::system::error_code &, std::size_t> pse_handler2;
class deadline_timer : private boost::noncopyable {
public:
    io_service &s; bool pending; pse_handler1 h; boost::posix_time::time_duration dur; int cancels;
    explicit deadline_timer(io_service &x) : s(x), pending(false), cancels(0) { s.timers.push_back(this); } deadline_timer(io_service &x, const boost::posix_time::time_duration &d) : s(x), pending(false), dur(d), cancels(0) { s.timers.push_back(this); } typedef boost::posix_time::time_duration duration_type;
    std::size_t expires_from_now(const boost::posix_time::time_duration &d, boost::system::error_code &ec) { ec = boost::system::error_code(); return expires_from_now(d); } std::size_t cancel(boost::system::error_code &ec) { ec = boost::system::error_code(); return cancel(); }
    ~deadline_timer() { cancel(); for (std::size_t i = 0; i < s.timers.size(); ++i) if (s.timers[i] == this) { s.timers.erase(s.timers.begin() + i); break; } }
    std::size_t expires_from_now(const boost::posix_time::time_duration &d) { std::size_t n = cancel(); dur = d; return n; }
    boost::posix_time::time_duration expires_from_now() const { return dur; }
    template <class H> void async_wait(H x) { h = pse_handler1(x); pending = true; ++s.pend; pse_hb_release(&h); }
    std::size_t cancel() { ++cancels; if (!pending) return 0; pending = false; --s.pend; pse_hb_acquire(&h); pse_handler1 k = h; h.clear(); s.post(boost::bind(k, boost::system::error_code(error::operation_aborted))); return 1; }
    bool expire() { if (!pending) return false; pending = false; --s.pend; pse_hb_acquire(&h); pse_handler1 k = h; h.clear(); s.post(boost::bind(k, boost::system::error_code())); return true; } // harness: the deadline passes, the handler is queued
    bool fire() { if (!pending) return false; pending = false; --s.pend; pse_hb_acquire(&h); pse_handler1 k = h; h.clear(); k(boost::system::error_code()); return true; } // harness: the deadline passes
    io_service &get_io_service() { return s; }
};
// ---- addresses
namespace ip {
class address_v4 { unsigned long a_; public: address_v4() : a_(0) {} explicit address_v4(unsigned long a) : a_(a) {} unsigned long to_ulong() const { return a_; } static address_v4 any() { return address_v4(); } static address_v4 loopback() { return address_v4(0x7F000001UL); } };
class address { unsigned long a_; public: address() : a_(0) {} address(const address_v4 &v) : a_(v.to_ulong()) {} bool operator==(const address &o) const { return a_ == o.a_; } bool operator!=(const address &o) const { return a_ != o.a_; } std::string to_string() const { std::string r; for (int k = 24; k >= 0; k -= 8) { unsigned b = (unsigned)(a_ >> k) & 255; if (b > 99) r += (char)('0' + b / 100); if (b > 9) r += (char)('0' + b / 10 % 10); r += (char)('0' + b % 10); if (k) r += '.'; } return r; } bool is_v4() const { return true; } unsigned long raw() const { return a_; } 
    // dotted decimal, as inet_pton reads it; no IPv6
    static address from_string(const std::string &s, boost::system::error_code &ec) { unsigned long a = 0; size_t i = 0; ec = boost::system::error_code(error::invalid_argument); for (int k = 0; k < 4; ++k) { if (k && (i >= s.size() || s[i++] != '.')) return address(); size_t b = i; unsigned v = 0; while (i < s.size() && s[i] >= '0' && s[i] <= '9') { if (i > b && v == 0) return address(); v = v * 10 + (unsigned)(s[i++] - '0'); if (v > 255) return address(); } if (i == b) return address(); a = (a << 8) | v; } if (i != s.size()) return address(); ec = boost::system::error_code(); return address(address_v4(a)); }
    static address from_string(const std::string &s) { boost::system::error_code ec; address a = from_string(s, ec); if (ec) boost::throw_exception(boost::system::system_error(ec)); return a; } };
class tcp {
public:
    static tcp v4() { return tcp(); } static tcp v6() { return tcp(); }
    class endpoint { address a_; unsigned short p_; public: endpoint() : p_(0) {} endpoint(const tcp &, unsigned short p) : p_(p) {} endpoint(const address &a, unsigned short p) : a_(a), p_(p) {} unsigned short port() const { return p_; } void port(unsigned short p) { p_ = p; } address address_() const { return a_; } ip::address address() const { return a_; } void address(const ip::address &a) { a_ = a; } tcp protocol() const { return tcp(); } bool operator==(const endpoint &o) const { return p_ == o.p_ && a_ == o.a_; } bool operator!=(const endpoint &o) const { return !(*this == o); } };
    struct pse_flag { bool v; explicit pse_flag(bool b = true) : v(b) {} bool value() const { return v; } }; typedef pse_flag no_delay; static bool pse_v4() { return true; }
    class socket : private boost::noncopyable {
    public:
        typedef socket lowest_layer_type; typedef tcp protocol_type; enum shutdown_type { shutdown_receive, shutdown_send, shutdown_both };
        // what a client sees; outlives the socket
        struct tap_type { std::string out; bool open; socket *s; tap_type() : open(false), s(0) {} }; tap_type *tap; void watch(tap_type &t) { tap = &t; t.s = this; t.open = open_; }
        // harness-controlled wire
        io_service &s; bool open_; std::string in; std::size_t in_pos; std::vector<std::size_t> chunks; std::size_t chunk_i; boost::system::error_code end_ec; // end_ec: what a read returns once `in` is exhausted
        std::string out; std::vector<std::size_t> writes; boost::system::error_code write_ec; std::size_t fail_after; // write number at which write_ec is reported
        std::size_t fail_byte; // once, after so many bytes were taken, write_ec is reported
        boost::system::error_code read_ec; std::size_t read_fail; // read_ec is reported once when so many bytes were read
        unsigned long plain, secure; std::size_t seg; // transfers started on the socket itself, and through SSL; bytes taken at once by a write that says how much it wants
        boost::function2<std::size_t, const boost::system::error_code &, std::size_t> rd_c;
        bool connect_failed, lost; /* lost: the other side is gone, which the socket only learns when asked */ bool rd_pending; pse_handler2 rd_h; void *rd_p; std::size_t rd_n; bool rd_exact; bool conn_pending; pse_handler1 conn_h; int cancels, shutdowns, closes; endpoint remote; bool hold_writes; std::deque<boost::function0<void> > held;
        explicit socket(io_service &x) : tap(0), s(x), open_(false), in_pos(0), chunk_i(0), end_ec(error::eof), fail_after((std::size_t)-1), fail_byte((std::size_t)-1), read_fail((std::size_t)-1), plain(0), secure(0), seg((std::size_t)-1), connect_failed(false), lost(false), rd_pending(false), rd_p(0), rd_n(0), rd_exact(false), conn_pending(false), cancels(0), shutdowns(0), closes(0), hold_writes(false) {}
        ~socket() { if (tap) { tap->open = false; tap->s = 0; } }
        socket &lowest_layer() { return *this; } const socket &lowest_layer() const { return *this; } socket &next_layer() { return *this; }
        io_service &get_io_service() { return s; } bool is_open() const { return open_; }
        endpoint remote_endpoint() const { if (!open_ || lost) boost::throw_exception(boost::system::system_error(boost::system::error_code(error::not_connected))); return remote; }
        template <class O> void set_option(const O &) {} template <class O> void set_option(const O &, boost::system::error_code &ec) { ec = boost::system::error_code(); } typedef pse_flag keep_alive; typedef pse_flag reuse_address;
        endpoint remote_endpoint(boost::system::error_code &ec) const { ec = open_ && !lost ? boost::system::error_code() : boost::system::error_code(error::not_connected); return open_ && !lost ? remote : endpoint(); } std::size_t available() const { return in.size() - in_pos; } std::size_t available(boost::system::error_code &ec) const { ec = boost::system::error_code(); return in.size() - in_pos; }
        void shutdown(shutdown_type, boost::system::error_code &ec) { ++shutdowns; ec = open_ && !lost ? boost::system::error_code() : boost::system::error_code(error::not_connected); }
        void shutdown(shutdown_type) { ++shutdowns; if (!open_ || lost) boost::throw_exception(boost::system::system_error(boost::system::error_code(error::not_connected))); }
        void close(boost::system::error_code &ec) { ec = boost::system::error_code(); ++closes; open_ = connect_failed = false; if (tap) tap->open = false; abort_ops(); } void close() { boost::system::error_code e; close(e); }
        void cancel(boost::system::error_code &ec) { ec = boost::system::error_code(); ++cancels; abort_ops(); } void cancel() { boost::system::error_code e; cancel(e); }
        void abort_ops() { if (rd_pending) { rd_pending = false; pse_hb_acquire(&rd_h); pse_handler2 h = rd_h; rd_h.clear(); s.post(boost::bind(h, boost::system::error_code(error::operation_aborted), std::size_t(0))); } if (conn_pending) { conn_pending = false; pse_handler1 h = conn_h; conn_h.clear(); s.post(boost::bind(h, boost::system::error_code(error::operation_aborted))); } }
        // one receive: the next scripted segment, at most n bytes
        std::size_t recv(void *p, std::size_t n, boost::system::error_code &ec) {
            if (!open_) { ec = error::bad_descriptor; return 0; }
            if (in_pos >= read_fail) { read_fail = (std::size_t)-1; ec = read_ec; return 0; }
            std::size_t avail = in.size() - in_pos; if (avail == 0) { ec = end_ec; return 0; }
            std::size_t k = avail; if (chunk_i < chunks.size()) { if (chunks[chunk_i] < k) k = chunks[chunk_i]; ++chunk_i; } if (k > n) k = n; if (k == 0 && n) k = 1;
            std::memcpy(p, in.data() + in_pos, k); in_pos += k; ec = boost::system::error_code(); return k; }
        template <class B> std::size_t read_some(const B &b, boost::system::error_code &ec) { ++plain; return take_some(b, ec); } template <class B, class H> void async_read_some(const B &b, H h) { ++plain; start_read_some(b, h); }
        template <class B> std::size_t take_some(const B &b, boost::system::error_code &ec) { mutable_buffer m(*b.begin()); return recv(m.data(), m.size(), ec); }
        template <class B, class H> void start_read_some(const B &b, H h) { mutable_buffer m(*b.begin()); rd_h = pse_handler2(h); rd_p = m.data(); rd_n = m.size(); rd_exact = false; rd_pending = true; ++s.seq; pse_hb_release(&rd_h); }
        bool complete_read() { // harness: data arrives for the parked read
            if (!rd_pending) return false; rd_pending = false; pse_hb_acquire(&rd_h); pse_handler2 h = rd_h; rd_h.clear(); boost::system::error_code ec; std::size_t n = recv(rd_p, rd_n, ec);
            if (rd_exact) while (!ec && n < rd_n && rd_c(ec, n) != 0) n += recv((char *)rd_p + n, rd_n - n, ec);
            h(ec, n); return true; }
        std::size_t send(const const_buffer &b) { std::size_t n = b.size(); if (n) { out.append(static_cast<const char *>(b.data()), n); if (tap) tap->out.append(static_cast<const char *>(b.data()), n); } return n; }
        template <class S> std::size_t send_all(const S &bufs, boost::system::error_code &ec) { if (!open_) { ec = error::bad_descriptor; return 0; } if (writes.size() >= fail_after) { ec = write_ec; return 0; } std::size_t n = 0; for (typename S::const_iterator i = bufs.begin(); i != bufs.end(); ++i) { const_buffer b(*i); if (b.size() > fail_byte) { n += send(const_buffer(b.data(), fail_byte)); fail_byte = (std::size_t)-1; writes.push_back(n); ec = write_ec; return n; } if (fail_byte != (std::size_t)-1) fail_byte -= b.size(); n += send(b); } writes.push_back(n); ec = boost::system::error_code(); return n; }
        // asynchronous writes take the bytes when they complete, not when they are started (the buffers must live that long)
        template <class S, class H> void start_write(const S &bufs, H h) { std::vector<const_buffer> v; for (typename S::const_iterator i = bufs.begin(); i != bufs.end(); ++i) v.push_back(const_buffer(*i)); s.post(boost::bind(&socket::finish_write, this, v, pse_handler2(h))); }
        template <class S, class C> std::size_t send_until(const S &bufs, C c, boost::system::error_code &ec) { // in pieces, as long as more is wanted
            if (seg == (std::size_t)-1) { ec = boost::system::error_code(); if (c(ec, std::size_t(0)) == 0) return 0; return send_all(bufs, ec); } std::size_t n = 0; ec = boost::system::error_code();
            for (typename S::const_iterator i = bufs.begin(); i != bufs.end(); ++i) { const_buffer b(*i); std::size_t k = 0; while (k < b.size()) { if (c(ec, n) == 0) return n; std::size_t m = b.size() - k < seg ? b.size() - k : seg; std::vector<const_buffer> one(1, const_buffer(static_cast<const char *>(b.data()) + k, m)); m = send_all(one, ec); n += m; k += m; if (ec) return n; } } return n; }
        void finish_write(const std::vector<const_buffer> &v, const pse_handler2 &h) { boost::system::error_code ec; std::size_t n = send_all(v, ec); h(ec, n); }
        template <class H> void async_connect(const endpoint &e, H h) { remote = e; conn_h = pse_handler1(h); conn_pending = true; }
        // harness: the ports that refuse; a socket whose connect failed has to be closed before it is used again
        static std::vector<unsigned short> &refusing() { static std::vector<unsigned short> v; return v; } static std::vector<unsigned short> &tried() { static std::vector<unsigned short> v; return v; }
        void connect(const endpoint &e) { boost::system::error_code ec; connect(e, ec); if (ec) boost::throw_exception(boost::system::system_error(ec)); }
        void connect(const endpoint &e, boost::system::error_code &ec) { tried().push_back(e.port()); if (connect_failed || (open_ && remote.port())) { ec = boost::system::error_code(int(error::already_open), error::get_misc_category()); return; } open_ = true; for (std::size_t i = 0; i < refusing().size(); ++i) if (refusing()[i] == e.port()) { connect_failed = true; ec = boost::system::error_code(error::connection_refused); return; } remote = e; ec = boost::system::error_code(); }
    };
    class acceptor : private boost::noncopyable {
    public:
        typedef pse_flag reuse_address; enum { max_connections = 128 };
        io_service &s; bool open_, bound, listening; endpoint ep; bool pending; socket *target; pse_handler1 h; boost::system::error_code bind_ec;
        explicit acceptor(io_service &x) : s(x), open_(false), bound(false), listening(false), pending(false), target(0) {}
        void open(const tcp &) { if (open_) boost::throw_exception(boost::system::system_error(boost::system::error_code(error::already_open))); open_ = true; } template <class O> void set_option(const O &) {} template <class O> void set_option(const O &, boost::system::error_code &ec) { ec = boost::system::error_code(); } acceptor(io_service &x, const endpoint &e, bool = true) : s(x), open_(true), bound(false), listening(true), pending(false), target(0) { bind(e); } void cancel() { if (pending) { pending = false; pse_hb_acquire(&h); pse_handler1 k = h; h.clear(); target = 0; s.post(boost::bind(k, boost::system::error_code(error::operation_aborted))); } } void cancel(boost::system::error_code &ec) { cancel(); ec = boost::system::error_code(); } io_service &get_io_service() { return s; } void accept(socket &k) { k.open_ = true; } void listen(int) { listening = true; }
        void bind(const endpoint &e, boost::system::error_code &ec) { ec = bind_ec; if (!ec) bind(e); } void bind(const endpoint &e) { if (bind_ec) boost::throw_exception(boost::system::system_error(bind_ec)); ep = e; if (ep.port() == 0) ep.port(49152); bound = true; } endpoint local_endpoint() const { return ep; } void listen() { listening = true; } bool is_open() const { return open_; }
        void close() { open_ = bound = listening = false; if (pending) { pending = false; pse_hb_acquire(&h); pse_handler1 k = h; h.clear(); target = 0; s.post(boost::bind(k, boost::system::error_code(error::operation_aborted))); } }
        void close(boost::system::error_code &ec) { close(); ec = boost::system::error_code(); }
        template <class H> void async_accept(socket &k, H x) { target = &k; h = pse_handler1(x); pending = true; pse_hb_release(&h); }
        void accept(socket &k, boost::system::error_code &ec) { k.open_ = true; ec = boost::system::error_code(); }
        bool complete_accept(const boost::system::error_code &ec = boost::system::error_code()) { if (!pending) return false; pending = false; pse_hb_acquire(&h); pse_handler1 k = h; h.clear(); if (!ec) { target->open_ = true; if (target->tap) target->tap->open = true; } target = 0; k(ec); return true; } // harness: a client connects
    };
    class resolver {
    public:
        struct query { enum { numeric_service = 1 }; query(const std::string &, const std::string &, int = 0) {} };
        // harness: what a name stands for
        static std::vector<tcp::endpoint> &found() { static std::vector<tcp::endpoint> v; return v; } static boost::system::error_code &fails() { static boost::system::error_code e; return e; }
        struct entry { tcp::endpoint e; tcp::endpoint endpoint() const { return e; } operator tcp::endpoint() const { return e; } }; typedef tcp::endpoint endpoint_type;
        struct iterator { std::size_t i, n; entry e_; iterator() : i(0), n(0) {} const entry *operator->() const { return &e_; } const entry &operator*() const { return e_; } iterator operator++(int) { iterator o(*this); ++*this; return o; } typedef std::forward_iterator_tag iterator_category; typedef entry value_type; typedef std::ptrdiff_t difference_type; typedef const entry *pointer; typedef const entry &reference; void load() { if (i < n) e_.e = found()[i]; } iterator &operator++() { ++i; load(); return *this; } bool end() const { return i >= n; } bool operator!=(const iterator &o) const { return end() != o.end() || (!end() && i != o.i); } bool operator==(const iterator &o) const { return !(*this != o); } };
        explicit resolver(io_service &) {} iterator resolve(const query &, boost::system::error_code &ec) { iterator r; ec = fails(); if (ec) return r; r.n = found().size(); r.load(); if (!r.n) ec = error::host_not_found; return r; } iterator resolve(const query &q) { boost::system::error_code ec; iterator r = resolve(q, ec); if (ec) boost::throw_exception(boost::system::system_error(ec)); return r; } void cancel() {}
    };
};
}
// ---- composed operations
// tries one address after the other, on a fresh socket each, and tells the last error
template <class It> It connect(ip::tcp::socket &s, It b, It e, boost::system::error_code &ec) { ec = boost::system::error_code(); for (; b != e; ++b) { boost::system::error_code x; s.close(x); s.connect(*b, ec); if (!ec) return b; } if (!ec) ec = error::not_found; return e; }
template <class It> It connect(ip::tcp::socket &s, It b, boost::system::error_code &ec) { return connect(s, b, It(), ec); }
struct transfer_exactly_t { std::size_t m; std::size_t operator()(const boost::system::error_code &ec, std::size_t n) const { return ec || n >= m ? 0 : m - n < 65536 ? m - n : 65536; } };
inline transfer_exactly_t transfer_exactly(std::size_t m) { transfer_exactly_t t; t.m = m; return t; }
struct transfer_all_t { std::size_t operator()(const boost::system::error_code &ec, std::size_t) const { return ec ? 0 : 65536; } };
inline transfer_all_t transfer_all() { return transfer_all_t(); }
struct transfer_at_least_t { std::size_t m; std::size_t operator()(const boost::system::error_code &ec, std::size_t n) const { return ec || n >= m ? 0 : 65536; } };
inline transfer_at_least_t transfer_at_least(std::size_t m) { transfer_at_least_t t; t.m = m; return t; }
inline void pse_touch(ip::tcp::socket &s) { ++s.plain; } template <class Sk> void pse_touch(Sk &k) { ++k.lowest_layer().secure; }
template <class Sk, class B, class C> std::size_t read(Sk &k, const B &b, C c, boost::system::error_code &ec) {
    pse_touch(k); mutable_buffer m(*b.begin()); std::size_t n = 0; ec = boost::system::error_code();
    std::size_t w; while (n < m.size() && (w = c(ec, n)) != 0) { n += k.lowest_layer().recv(static_cast<char *>(m.data()) + n, m.size() - n < w ? m.size() - n : w, ec); if (ec) break; }
    return n; }
template <class Sk, class B> std::size_t read(Sk &k, const B &b, boost::system::error_code &ec) { return read(k, b, transfer_all(), ec); }
template <class Sk, class B, class C, class H> void async_read(Sk &k, const B &b, C c, H h) { pse_touch(k); mutable_buffer m(*b.begin()); ip::tcp::socket &s = k.lowest_layer(); s.rd_h = pse_handler2(h); s.rd_c = c; s.rd_p = m.data(); s.rd_n = m.size(); s.rd_exact = true; s.rd_pending = true; pse_hb_release(&s.rd_h); }
template <class Sk, class B, class H> void async_read(Sk &k, const B &b, H h) { async_read(k, b, transfer_all(), h); }
template <class Sk, class S, class C> std::size_t write(Sk &k, const S &b, C c, boost::system::error_code &ec) { pse_touch(k); return k.lowest_layer().send_until(b, c, ec); }
template <class Sk, class S> std::size_t write(Sk &k, const S &b, boost::system::error_code &ec) { return write(k, b, transfer_all(), ec); }
template <class Sk, class S, class H> void async_write(Sk &k, const S &b, H h) { pse_touch(k); k.lowest_layer().start_write(b, h); }
template <class Sk, class S, class H> void async_write(Sk &k, const S &b, const transfer_all_t &, H h) { async_write(k, b, h); }
namespace ssl {
struct stream_base { enum handshake_type { client, server }; };
class context : private boost::noncopyable { public: enum method { sslv2, sslv3, tlsv1, sslv23 }; enum file_format { asn1, pem }; enum { default_workarounds = 1, no_sslv2 = 2, single_dh_use = 4 }; typedef long options; std::string pse_cert, pse_key; context(io_service &, method) {} explicit context(method) {} void set_options(long) {} void use_certificate_file(const std::string &f, file_format) { pse_cert = f; } void use_private_key_file(const std::string &f, file_format) { pse_key = f; } };
template <class S> class stream : private boost::noncopyable {
public:
    typedef ip::tcp::socket::lowest_layer_type lowest_layer_type; S n_; bool hs_pending; pse_handler1 hs_h; boost::system::error_code hs_ec;
    stream(io_service &s, context &) : n_(s), hs_pending(false) {}
    S &next_layer() { return n_; } lowest_layer_type &lowest_layer() { return n_.lowest_layer(); }
    template <class B> std::size_t read_some(const B &b, boost::system::error_code &ec) { ++n_.secure; return n_.take_some(b, ec); }
    template <class B, class H> void async_read_some(const B &b, H h) { ++n_.secure; n_.start_read_some(b, h); }
    void handshake(stream_base::handshake_type, boost::system::error_code &ec) { ec = hs_ec; }
    template <class H> void async_handshake(stream_base::handshake_type, H h) { hs_h = pse_handler1(h); hs_pending = true; waiting().push_back(this); } static std::vector<stream *> &waiting() { static std::vector<stream *> v; return v; } // harness: handshakes under way
    bool complete_handshake(const boost::system::error_code &ec) { if (!hs_pending) return false; hs_pending = false; pse_handler1 k = hs_h; hs_h.clear(); k(ec); return true; }
    void shutdown() {} void shutdown(boost::system::error_code &ec) { ec = boost::system::error_code(); } io_service &get_io_service() { return n_.get_io_service(); }
    template <class Q> std::size_t write_some(const Q &b, boost::system::error_code &ec) { ++n_.secure; return n_.send_all(b, ec); }
};
}
namespace detail { namespace socket_ops {
    inline unsigned long network_to_host_long(unsigned long v) { return ntohl(v); } inline unsigned long host_to_network_long(unsigned long v) { return htonl(v); }
    inline unsigned short network_to_host_short(unsigned short v) { return ntohs(v); } inline unsigned short host_to_network_short(unsigned short v) { return htons(v); }
} }
} }
#endif
