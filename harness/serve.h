// A server, its event queue and scripted clients.
#pragma once
#include "httpx.h"
#include "text.h"
#include <boost/shared_ptr.hpp>
#include <pion/scheduler.hpp>
#include <pion/http/server.hpp>
#include <pion/http/response_writer.hpp>
using namespace pion::http; using pion::tcp::connection; using pion::tcp::connection_ptr;
typedef boost::asio::ip::tcp::socket Sock; typedef boost::system::error_code Ec;
struct Sched : pion::scheduler { boost::asio::io_service io; virtual boost::asio::io_service &get_io_service() { return io; } virtual void startup() { m_is_running = true; } unsigned users() { return m_active_users; } };
struct Client { Sock::tap_type t; bool done; Client() : done(false) {} void send(const std::string &s) { if (t.s) t.s->in += s; } void shut() { done = true; } };
struct Net; static Net *theNet; static void pumpNet();
struct Net {
    Sched &s; std::vector<Client *> cs; Net() : s(*new Sched) { theNet = this; pse_wait_hook = pumpNet; } // never destroyed: parked handlers refer to it
    template <class S> Client *connect(S &srv, const Ec &ec = Ec()) { Sock *k = srv.get_acceptor().target; if (!k || !srv.get_acceptor().pending) return 0; Client *c = new Client; k->watch(c->t); cs.push_back(c); srv.get_acceptor().complete_accept(ec); return c; }
    bool step() { if (s.io.poll_one()) return true; for (size_t i = 0; i < cs.size(); ++i) { Sock *k = cs[i]->t.s; if (k && k->rd_pending && (k->in_pos < k->in.size() || cs[i]->done)) { k->complete_read(); return true; } } return false; }
    void run() { for (int n = 0; step(); ++n) if (n > 4000) { pse_fail("server: events never end"); return; } }
};
static void pumpNet() { theNet->run(); }
// reads the responses a client received, one after another; `want` of them, then nothing else
struct Answers {
    std::vector<response *> r; std::vector<bool> ended; std::string rest; bool bad;
    // head: which answers (bit i) are to HEAD requests; closed: the client saw the connection end
    Answers(const std::string &wire, bool closed, unsigned head = 0) : bad(false) { size_t pos = 0; while (pos < wire.size()) { Run u(false); request q; q.set_method((head >> r.size()) & 1 ? "HEAD" : "GET"); response *x = new response(q); u.feed(*x, wire.substr(pos)); if (u.rc == 1) { r.push_back(x); pos += u.consumed; } else if (u.rc == 2 && closed && !u.p.check_premature_eof(*x)) { r.push_back(x); pos = wire.size(); } else { bad = true; rest = wire.substr(pos); break; } } }
};
