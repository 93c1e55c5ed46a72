// TCP server: accepting, keeping, finishing and dropping connections; starting and stopping.
#include "serve.h"
#include <pion/tcp/server.hpp>
typedef boost::asio::ssl::stream<Sock> Ssl;
struct Srv : pion::tcp::server {
    std::vector<connection_ptr> held; std::vector<connection *> known; std::vector<int> handled; int before, after, users_at_stop; bool drop; uint64_t locks;
    Srv(pion::scheduler &s, unsigned p) : pion::tcp::server(s, p), before(0), after(0), drop(false), locks(0) {}
    virtual void before_starting() { ++before; } virtual void after_stopping() { ++after; }
    virtual void handle_connection(const connection_ptr &c) { locks += pse_held_locks(); size_t i = 0; while (i < known.size() && known[i] != c.get()) ++i; if (i == known.size()) { known.push_back(c.get()); handled.push_back(0); } ++handled[i]; if (drop) return; held.push_back(c); }
    void finish(bool keep) { connection_ptr c = held[0]; held.erase(held.begin()); c->set_lifecycle(keep ? connection::LIFECYCLE_KEEPALIVE : connection::LIFECYCLE_CLOSE); c->finish(); }
};
static Srv *ts; static int waits;
static void hook() { theNet->run(); if (++waits > 20) { pse_fail("tcp server: stopping never ends"); return; } if (!ts->held.empty()) ts->finish(waits & 1); theNet->run(); }
// args: number of steps, SSL, kinds of steps left out (bits)
extern "C" void t_history() {
    Net n; Srv srv(n.s, 8080); ts = &srv; waits = 0; pse_wait_hook = hook; bool ssl = pse_arg(1); if (ssl) srv.set_ssl_flag(true); srv.start(); n.run(); bool on = true; int starts = 1, stops = 0, accepted = 0, refused = 0, handled = 0, orphans = 0; std::vector<Client *> all;
    for (uint64_t k = 0; k < pse_arg(0); ++k) {
        int op = (int)pse_choose(8, "op"); pse_assume(!(pse_arg(2) >> op & 1)); size_t was = srv.held.size();
        if (op == 0 || op == 7) { pse_assume(on); Client *c = n.connect(srv); pse_assert(c != 0, "tcp server: while listening a client can connect"); if (!c) return; all.push_back(c); ++accepted; if (ssl) { pse_assert(Ssl::waiting().size() == 1 && srv.held.size() == was, "tcp server: the handshake comes first"); Ssl *x = Ssl::waiting()[0]; Ssl::waiting().clear(); bool ok = op == 0; x->complete_handshake(ok ? Ec() : Ec(boost::asio::error::eof)); if (!ok) { ++refused; pse_assert(srv.held.size() == was && !c->t.open, "tcp server: a failed handshake ends the connection"); pse_reach("refused"); } else ++handled; } else { pse_assume(op == 0); ++handled; } if (op == 0) pse_assert(srv.held.size() == was + 1 && c->t.open, "tcp server: an accepted connection is handled"); }
        else if (op == 1) { pse_assume(on); Client *c = n.connect(srv, boost::asio::error::connection_reset); pse_assert(c && !c->t.open && srv.held.size() == was, "tcp server: a failed accept is not handled"); }
        else if (op == 2 || op == 3) { pse_assume(was > 0); connection *c = srv.held[0].get(); srv.finish(op == 3); n.run(); if (on && op == 3) { ++handled; pse_assert(srv.held.size() == was && srv.held.back().get() == c && c->is_open(), "tcp server: a connection kept alive is handled again"); pse_reach("kept"); } else { pse_assert(srv.held.size() == was - 1, "tcp server: a finished connection is not handled again"); } }
        else if (op == 4) { pse_assume(was > 0); srv.held.erase(srv.held.begin()); ++orphans; pse_reach("orphan"); }
        else if (op == 5) { srv.stop(pse_choose(2, "wait")); if (on) { ++stops; pse_reach("stopped"); } on = false; orphans = 0; }
        else if (op == 6) { bool fail = pse_choose(2, "fail"); if (fail) srv.get_acceptor().bind_ec = boost::asio::error::broken_pipe; bool threw = false; try { srv.start(); } catch (std::exception &) { threw = true; } srv.get_acceptor().bind_ec = Ec(); pse_assert(threw == (fail && !on), "tcp server: starting fails exactly when the port cannot be bound"); if (!on) { if (!fail) { on = true; pse_reach("restarted"); ++starts; } else { pse_assert(!srv.get_acceptor().is_open(), "tcp server: nothing is left open after a failed start"); pse_reach("not bound"); } } }
        n.run(); if (op == 0 || op == 1 || op == 7) orphans = 0; // a new accept prunes
        pse_assert(srv.is_listening() == on, "tcp server: listening exactly between start and stop"); pse_assert(srv.get_acceptor().pending == on && srv.get_acceptor().is_open() == on, "tcp server: waits for the next client exactly while listening"); pse_assert(n.s.users() == (on ? 1u : 0u), "tcp server: counted once as a scheduler user while listening");
        size_t open = 0; for (size_t i = 0; i < all.size(); ++i) open += all[i]->t.open; size_t cs = srv.get_connections(); pse_assert(cs == srv.held.size() + orphans, "tcp server: the connections counted are those not finished"); pse_assert(open == cs, "tcp server: exactly the connections counted are open"); pse_assert(srv.after == stops, "tcp server: one notice per stop"); int h = 0; for (size_t i = 0; i < srv.handled.size(); ++i) h += srv.handled[i]; pse_assert(h == handled && srv.locks == 0, "tcp server: every connection is handled once per keep-alive, without locks held");
        if (!on) pse_assert(srv.held.empty() && open == 0, "tcp server: nothing is left after stopping");
    }
    pse_observe("handled", handled); pse_observe("open", srv.get_connections()); pse_observe("before", srv.before); srv.held.clear(); srv.stop(); n.run(); for (size_t i = 0; i < all.size(); ++i) pse_assert(!all[i]->t.open, "tcp server: all closed");
}
