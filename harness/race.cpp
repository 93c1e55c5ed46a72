// Objects that several threads use at once: no data race (memory that one thread writes while another uses it, with
// nothing that orders the two), no deadlock, and results as if one came after the other.
#include "serve.h"
#include <pion/user.hpp>
#include <pion/algorithm.hpp>
#include <pion/admin_rights.hpp>
#include <pion/http/basic_auth.hpp>
#include <pion/http/cookie_auth.hpp>
#include <pion/http/request_writer.hpp>
using pion::user_manager; using pion::user_manager_ptr; using pion::user_ptr; using pion::user;
static void begin(uint64_t switches) { boost::asio::io_service::threads() = true; pse_races(); pse_switches(switches); }
static void (*job[3])(int);
static void runJob(void *p) { int i = (int)(long)p; job[i](i); }
static void both(int n = 2) { int t[3]; for (int i = 1; i < n; ++i) t[i] = pse_spawn(runJob, (void *)(long)i); job[0](0); for (int i = 1; i < n; ++i) pse_join(t[i]); }
static uint64_t op[3]; static int done[3];
// ---- accounts. args: three operations of three threads, switches
static user_manager *um;
static void userJob(int i) {
    switch (op[i]) { case 0: done[i] = um->add_user("n", "p"); break; case 1: done[i] = um->update_user("u", "q"); break; case 2: done[i] = um->remove_user("u"); break; case 3: { user_ptr p = um->get_user("u"); done[i] = !!p; break; } case 4: done[i] = !!um->get_user("u", "p") + 2 * !!um->get_user("n", "p"); break; case 5: done[i] = um->empty(); break; case 6: done[i] = um->remove_user("n"); break; case 7: { user_ptr p = um->get_user("u"); done[i] = p && p->match_password("p"); break; } case 8: { user_ptr p = um->get_user("u"); done[i] = p ? p->get_password().size() : 0; break; } case 9: { user_ptr p = um->get_user("u"); if (p) p->set_password("r"); break; } }
}
extern "C" void r_users() {
    um = new user_manager; um->add_user("u", "p"); int n = 0; for (int i = 0; i < 3; ++i) { op[i] = pse_arg(i); job[i] = userJob; if (op[i] < 10) n = i + 1; } begin(pse_arg(3)); both(n); int adds = 0, removes = 0, got = 0; bool add = false, rem = false; for (int i = 0; i < n; ++i) { if (op[i] == 0) { add = true; adds += done[i]; } if (op[i] == 6) removes += done[i]; if (op[i] == 2) { rem = true; got += done[i]; } }
    pse_assert(adds - removes == !!um->get_user("n"), "users: added and removed exactly as often as the calls say"); pse_assert(got == rem && !um->get_user("u") == rem, "users: removed exactly once"); if (add) pse_reach("added"); pse_observe("adds", adds);
}
// ---- an authentication object that serves requests. args: 0 Basic / 1 cookies; operations of three threads (10: none); time has come to clean up; switches
struct RSite {
    Net n; server srv; user_manager_ptr um; int calls; static RSite *&self() { static RSite *s; return s; } RSite() : srv(n.s, 8080), um(new user_manager), calls(0) { self() = this; }
    static void handle(const request_ptr &q, const connection_ptr &k) { response_writer_ptr w(response_writer::create(k, *q, boost::bind(&connection::finish, k))); w << "in"; w->send(); }
    static void other(const request_ptr &q, const connection_ptr &k) { response_writer_ptr w(response_writer::create(k, *q, boost::bind(&connection::finish, k))); w << "other"; w->send(); }
    Client *ask(const std::string &res, const std::string &h = "") { Client *c = n.connect(srv); c->send("GET " + res + " HTTP/1.1\r\n" + h + "\r\n"); return c; }
};
static RSite *S; static pion::http::auth *au; static connection_ptr conn[3]; static request_ptr rq[3]; static std::string sid;
static connection_ptr newConn() { pion::tcp::connection *c = new pion::tcp::connection(S->n.s.io); c->get_socket().open_ = true; return connection_ptr(c); }
static const char *BASIC[] = { "Basic dTox", "Basic djoy", "Basic dToy", "" }; // u:1, v:2, u:2
static void authJob(int i) {
    switch (op[i]) {
        case 0: case 1: case 2: case 3: case 4: case 5: done[i] = au->handle_request(rq[i], conn[i]); if (rq[i]->get_user()) done[i] += rq[i]->get_user()->get_username().size(); break;
        case 6: au->add_restrict("/q"); break; case 7: au->add_permit("/p/x"); break; case 8: done[i] = au->remove_user("u"); break; case 9: done[i] = au->update_user("u", "3"); break; case 11: done[i] = au->add_user("w", "1"); break; }
}
extern "C" void r_auth() {
    bool cookie = pse_arg(0); S = new RSite; au = cookie ? (pion::http::auth *)new cookie_auth(S->um) : (pion::http::auth *)new basic_auth(S->um); au->add_restrict("/p"); au->add_user("u", "1"); au->add_user("v", "2"); int n = 0;
    for (int i = 0; i < 3; ++i) { op[i] = pse_arg(1 + i); job[i] = authJob; if (op[i] != 10) n = i + 1; conn[i] = newConn(); }
    std::string sid; if (cookie) { request_ptr q(new request("/login")); q->set_method("GET"); q->add_query("user", "u"); q->add_query("pass", "1"); connection_ptr c = newConn(); au->handle_request(q, c); S->n.run(); std::string o = c->get_socket().out; size_t at = o.find("pion_session_id=\""); pse_assert(at != std::string::npos, "threads: logged in"); at += 17; sid = o.substr(at, o.find('"', at) - at); }
    else if (pse_arg(4)) { request_ptr q(new request("/p")); q->add_header("Authorization", BASIC[0]); au->handle_request(q, newConn()); }
    for (int i = 0; i < 3; ++i) { request *q = new request(op[i] == 4 ? "/login" : op[i] == 5 ? "/logout" : op[i] == 3 ? "/other" : "/p/x"); rq[i] = request_ptr(q); q->set_method("GET"); if (op[i] == 4) { q->add_query("user", "v"); q->add_query("pass", "2"); } if (cookie) { if (op[i] == 0 || op[i] == 5) q->add_cookie("pion_session_id", sid); if (op[i] == 1) q->add_cookie("pion_session_id", "x"); } else q->add_header("Authorization", BASIC[op[i] % 4]); }
    pse_now += pse_arg(4) * (cookie ? 1900 : 151) * (1 + pse_choose(2, "late")); begin(pse_arg(5)); both(n); S->n.run(); for (int i = 0; i < n; ++i) pse_observe("done", done[i]); pse_assert(pse_held_locks() == 0, "threads: no lock is left");
}
// ---- a server whose resources change while it serves. args: three operations (10: none), switches
struct RSrv : server { RSrv(pion::scheduler &s) : server(s, 8080) {} void go(const request_ptr &r, const connection_ptr &c) { handle_request(r, c, Ec()); } };
static RSrv *rs; static unsigned long stopped; static void stopHook() { if (op[pse_self()] == 13) pse_wait_until(&stopped, 1); else while (theNet->step()) ; }
static void serverJob(int i) {
    switch (op[i]) {
        case 0: case 1: case 2: rs->go(rq[i], conn[i]); break; case 3: rs->add_resource("/b", RSite::other); break; case 4: rs->remove_resource("/a"); break; case 5: rs->add_redirect("/c", "/b"); break; case 6: rs->add_resource("/a", RSite::other); break; case 7: { size_t k = rs->get_connections(); pse_assert(k <= 1, "threads: connections are counted as they are"); done[i] = (int)k; break; } case 8: rs->start(); break; case 9: rs->stop(); ++stopped; break; case 11: rs->clear(); break; case 12: done[i] = rs->is_listening(); break; case 13: rs->join(); break; case 14: done[i] = rs->get_port(); break; }
}
extern "C" void r_server() {
    Net *n = new Net; rs = new RSrv(n->s); int k = 0; for (int i = 0; i < 3; ++i) { op[i] = pse_arg(i); job[i] = serverJob; if (op[i] != 10) k = i + 1; }
    rs->add_resource("/a", RSite::handle); rs->add_redirect("/d", "/a"); bool on = !(pse_arg(4) & 1); if (on) rs->start();
    for (int i = 0; i < 3; ++i) { pion::tcp::connection *c = new pion::tcp::connection(n->s.io); c->get_socket().open_ = true; conn[i] = connection_ptr(c); request *q = new request(op[i] == 1 ? "/d" : op[i] == 2 ? "/b/x" : "/a"); q->set_method("GET"); q->set_is_valid(true); rq[i] = request_ptr(q); }
    pse_race_name(&rs->m_is_listening, 1, "tcp::server::m_is_listening"); begin(pse_arg(3)); stopped = false; pse_wait_hook = stopHook; both(k); pse_wait_hook = pumpNet; n->run(); for (int i = 0; i < k; ++i) if (op[i] < 3) { std::string o = conn[i]->get_socket().out; pse_assert(o.compare(0, 9, "HTTP/1.1 ") == 0, "threads: every request is answered"); pse_observe("status", o[9]); } pse_assert(pse_held_locks() == 0, "threads: no lock is left"); rs->stop();
}
// ---- connections served by several threads. args: what each client asks, threads, switches, what else happens
static unsigned long ended; static void pumpAll() { while (theNet->step()) pse_yield(); }
static void pump(int) { pumpAll(); ++ended; }
static int waited; static void stopWait() { pumpAll(); if (waited++ == 0) pse_wait_until(&ended, 2); else if (waited > 9) pse_fail("threads: stopping never ends"); for (size_t i = 0; i < theNet->cs.size(); ++i) theNet->cs[i]->shut(); pumpAll(); }
static void stopJob(int) { pse_wait_hook = stopWait; S->srv.stop(pse_arg(3) == 2); pumpAll(); }
static void connectJob(int) { pumpAll(); Client *c = theNet->connect(S->srv); if (c) c->send("GET /a HTTP/1.1\r\n\r\n"); pumpAll(); ++ended; }
extern "C" void r_serve() {
    static const char *T[] = { "GET /a HTTP/1.1\r\n\r\n", "GET /none HTTP/1.0\r\n\r\n", "bad\r\n\r\n", "POST /a HTTP/1.1\r\nContent-Length: 2\r\n\r\nxyGET /a HTTP/1.0\r\n\r\n", "GET / HTTP/1.1\r\nAuthorization: Basic dTox\r\n\r\n" };
    S = new RSite; S->srv.add_resource("/a", RSite::handle); if (pse_arg(3) == 4) { basic_auth *a = new basic_auth(S->um); a->add_user("u", "1"); a->add_restrict("/"); S->srv.set_authentication(auth_ptr(a)); } S->srv.start(); Client *c[2]; c[0] = S->n.connect(S->srv); c[1] = S->n.connect(S->srv); c[0]->send(T[pse_arg(0)]); c[1]->send(T[pse_arg(1)]); int e = pse_arg(3); for (int i = 0; i < 3; ++i) job[i] = pump; int n = 2; if (e == 1 || e == 2) job[n++] = stopJob; if (e == 3 || e == 5) job[n++] = connectJob; if (e == 5) job[1] = stopJob; pse_race_name(&S->srv.m_is_listening, 1, "tcp::server::m_is_listening");
    begin(pse_arg(2)); both(n); S->n.run(); if (e == 0 || e == 3 || e == 4) for (int i = 0; i < 2; ++i) pse_assert(c[i]->t.out.compare(0, 7, "HTTP/1.") == 0, "threads: every request is answered"); pse_assert(pse_held_locks() == 0, "threads: no lock is left"); pse_observe("n", S->srv.get_connections()); for (int i = 0; i < 2; ++i) pse_observe("out", c[i]->t.out.size());
}
// ---- different messages in different threads. args: what each does, switches
static std::string txt[3]; static std::string shared_text;
static void messageJob(int i) {
    switch (op[i]) {
        case 0: { Run r(true); request q; r.feed(q, txt[i]); done[i] = r.rc + q.get_queries().size() + q.get_cookies().size(); break; }
        case 1: { Run r(true); request q; r.feed(q, "\x01\x02"); done[i] = r.rc == 0 ? r.ec.message().size() : 0; break; }
        case 2: { Run r(false); response q(request("/")); r.feed(q, txt[i]); done[i] = r.rc + q.get_status_code(); break; }
        case 3: { ihash_multimap d; done[i] = parser::parse_multipart_form_data(d, "multipart/form-data; boundary=xx", "--xx\r\nContent-Disposition: form-data; name=\"a\"\r\n\r\n1\r\n--xx--"); break; }
        case 4: { boost::asio::ip::address a; std::string s; done[i] = parser::parse_forwarded_for("1.2.3.4, 5.6.7.8", s); break; }
        case 5: { std::string a, b, c, d; boost::uint16_t p; done[i] = parser::parse_uri("http://a:8/b?c", a, b, p, c, d) ? p : 0; break; }
        case 6: { request q("/x"); q.add_header("A", "b"); q.set_content("ccc"); std::string s = pion::http::types::make_query_string(q.get_queries()); done[i] = s.size(); break; }
        case 7: { std::string s = pion::algorithm::url_encode(shared_text), t = pion::algorithm::url_decode(shared_text), u; pion::algorithm::base64_encode(shared_text, u); done[i] = s.size() + t.size() + u.size(); break; }
        case 8: { connection_ptr k = conn[i]; response_writer_ptr w(response_writer::create(k, *rq[i])); w << "x"; w->send(); break; }
        case 9: { connection_ptr k = conn[i]; server::handle_not_found_request(rq[i], k); break; } case 11: server::handle_bad_request(rq[i], conn[i]); break; case 12: server::handle_server_error(rq[i], conn[i], shared_text); break; case 13: server::handle_forbidden_request(rq[i], conn[i], shared_text); break; case 14: server::handle_method_not_allowed(rq[i], conn[i], shared_text); break; }
}
extern "C" void r_messages() {
    S = new RSite; shared_text = "a" + pse_string(2, "t"); int n = 0; for (int i = 0; i < 3; ++i) { op[i] = pse_arg(i); job[i] = messageJob; if (op[i] != 10) n = i + 1; conn[i] = newConn(); rq[i] = request_ptr(new request("/a")); txt[i] = hole(op[i] == 2 ? "HTTP/1.1 200 O~\r\nTransfer-Encoding: chunked\r\nA: ~\r\n\r\n1\r\n~\r\n0\r\n\r\n" : "POST /~?b=~ HTTP/1.1\r\nCookie: a=b\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: 3\r\n\r\nd~e"); }
    begin(pse_arg(3)); both(n); S->n.run(); int was[3]; for (int i = 0; i < n; ++i) { was[i] = done[i]; pse_observe("done", done[i]); } for (int i = 0; i < n; ++i) if (op[i] < 8) { done[i] = 0; messageJob(i); pse_assert(done[i] == was[i], "threads: the result is the one obtained alone"); } pse_assert(pse_held_locks() == 0, "threads: no lock is left");
}
// ---- a scheduler. args: three operations, kind, switches
struct One : pion::single_service_scheduler { }; struct Many : pion::one_to_one_scheduler { };
static pion::scheduler *sc; static void nothing() {}
static void schedJob(int i) {
    switch (op[i]) { case 0: sc->add_active_user(); sc->remove_active_user(); break; case 1: done[i] = sc->is_running(); break; case 2: sc->add_active_user(); sc->post(nothing); sc->remove_active_user(); break; case 3: sc->add_active_user(); sc->get_io_service(); sc->remove_active_user(); break; case 4: sc->shutdown(); break; case 5: sc->startup(); break; case 6: sc->join(); break; case 7: done[i] = sc->get_num_threads(); break; }
}
extern "C" void r_sched() {
    int n = 0; for (int i = 0; i < 3; ++i) { op[i] = pse_arg(i); job[i] = schedJob; if (op[i] != 10) n = i + 1; } boost::thread::real() = boost::asio::io_service::threads() = true; if (pse_arg(3)) sc = new Many; else sc = new One; sc->set_num_threads(1 + (pse_arg(3) & 1)); pse_races(); pse_race_name(&sc->m_is_running, 1, "scheduler::m_is_running"); pse_switches(pse_arg(4)); if (pse_arg(5)) sc->add_active_user(); both(n); if (pse_arg(5)) sc->remove_active_user(); sc->shutdown(); pse_assert(pse_held_locks() == 0, "threads: no lock is left"); pse_observe("x", 1);
}
