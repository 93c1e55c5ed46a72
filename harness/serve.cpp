// HTTP server: routing, redirects, the authentication gate, error answers, keep-alive, time limits.
#include "serve.h"
static const std::string GETL = "GET ";
struct Rec { int which; int calls; std::string res, orig; Rec() : which(-1), calls(0) {} };
static Rec rec; static uint64_t locks;
static void answer(int id, const request_ptr &q, const connection_ptr &c) { rec.which = id; ++rec.calls; rec.res = q->get_resource(); rec.orig = q->get_original_resource(); locks += pse_held_locks(); response_writer_ptr w(response_writer::create(c, *q, boost::bind(&connection::finish, c))); w << "r" << id; w->send(); }
static server::request_handler_t H(int id) { return boost::bind(answer, id, _1, _2); }
static std::string strip(const std::string &s) { return !s.empty() && s[s.size() - 1] == '/' ? s.substr(0, s.size() - 1) : s; }
// arbitrary resource characters (no controls, blanks or '?')
static std::string path(size_t n, const char *name) { std::string s = pse_string(n, name); for (size_t i = 0; i < n; ++i) { uint8_t c = s[i]; pse_assume((c > 32) & (c < 127) & (c != '?') & (c != '#')); } return s; }
static bool under(const std::string &r, const std::string &base) { if (r.size() < base.size() || !pse_memeq(r.data(), base.data(), base.size())) return false; return r.size() == base.size() || r[base.size()] == '/'; }
// args: lengths of three registered resources and of the requested one, slashes appended (bits), 1: the longest match is removed again
extern "C" void v_route() {
    rec = Rec(); locks = 0; Net n; server srv(n.s, 8080); std::string r[3]; for (int i = 0; i < 3; ++i) { r[i] = path(pse_arg(i), "r"); if (pse_arg(i)) r[i] = "/" + r[i]; if (pse_arg(4) >> i & 1) r[i] += "/"; srv.add_resource(r[i], H(i)); }
    std::string q = "/" + path(pse_arg(3), "q"); if (pse_arg(5)) srv.remove_resource(r[0]); srv.start(); Client *c = n.connect(srv); pse_assert(c != 0, "server: a client can connect"); c->send(GETL + q + " HTTP/1.1\r\n\r\n"); n.run();
    // the longest registered prefix that ends at a '/' (or is the whole resource); of equal ones the first
    std::string p = strip(q); int want = -1; size_t best = 0; bool gone[3] = { false, false, false }; for (int i = 0; i < 3; ++i) { std::string b = strip(r[i]); if (pse_arg(5)) gone[i] = pse_streq(b, strip(r[0])); }
    for (int i = 0; i < 3; ++i) { std::string b = strip(r[i]); if (gone[i] || !under(p, b)) continue; if (want < 0 || b.size() > best) { want = i; best = b.size(); } }
    Answers a(c->t.out, !c->t.open); pse_assert(!a.bad && a.r.size() == 1, "server: one answer"); pse_assert(locks == 0, "server: handlers run without locks held");
    if (want < 0) { pse_assert(rec.calls == 0 && a.r[0]->get_status_code() == 404, "server: a resource nobody registered is not found"); pse_reach("not found"); }
    else { pse_assert(rec.calls == 1 && rec.which == want, "server: the most specific handler is called, once"); pse_assert(pse_streq(rec.res, q) && pse_streq(rec.orig, q), "server: the handler sees the resource requested"); pse_assert(a.r[0]->get_status_code() == 200 && body(*a.r[0]) == std::string("r") + char('0' + want), "server: the handler's answer arrives"); pse_reach("found"); }
    pse_assert(c->t.open, "server: the connection stays open"); pse_observe("want", want + 1); pse_observe("n", c->t.out.size()); srv.stop();
}
// args: number of redirects with arbitrary one-letter names, handler at which letter
extern "C" void v_redirect() {
    rec = Rec(); Net n; server srv(n.s, 8080); size_t k = pse_arg(0); char from[4], to[4]; for (size_t i = 0; i < k; ++i) { from[i] = "abcd"[pse_choose(4, "f")]; to[i] = "abcd"[pse_choose(4, "t")]; std::string f("/x"), t("/x"); f[1] = from[i]; t[1] = to[i]; srv.add_redirect(f + (i & 1 ? "/" : ""), t); }
    srv.add_resource("/a", H(0)); srv.add_resource("/b", H(1)); srv.add_resource("/c", H(2)); srv.start(); Client *c = n.connect(srv); c->send("GET /a HTTP/1.1\r\n\r\n"); n.run();
    char at = 'a'; int hops = 0; for (;;) { size_t i = 0; while (i < k && from[i] != at) ++i; if (i == k) break; if (++hops > 10) break; at = to[i]; }
    Answers a(c->t.out, !c->t.open); pse_assert(!a.bad && a.r.size() == 1, "server: one answer"); int code = a.r[0]->get_status_code();
    if (hops > 10) { pse_assert(code == 500 && rec.calls == 0, "server: a redirect loop is a server error"); pse_reach("loop"); } else if (at == 'd') { pse_assert(code == 404 && rec.calls == 0, "server: redirected to nothing"); pse_reach("nothing"); } else { std::string w("/x"); w[1] = at; pse_assert(code == 200 && rec.calls == 1 && rec.which == at - 'a', "server: the redirect target is called"); pse_assert(rec.res == w && rec.orig == "/a", "server: the handler sees the target and the original resource"); pse_reach("target"); }
    pse_observe("code", code); pse_observe("hops", hops);
}
// a chain of redirects of every length. args: length
extern "C" void v_chain() {
    rec = Rec(); Net n; server srv(n.s, 8080); size_t k = pse_arg(0); for (size_t i = 0; i < k; ++i) { std::string f("/a"), t("/a"); f[1] = char('a' + i); t[1] = char('a' + i + 1); srv.add_redirect(f, t); } std::string last("/a"); last[1] = char('a' + k); srv.add_resource(last, H(0)); srv.start(); Client *c = n.connect(srv); bool sl = pse_choose(2, "slash"); c->send(std::string("GET /a") + (sl ? "/" : "") + " HTTP/1.1\r\n\r\n"); n.run();
    Answers a(c->t.out, !c->t.open); pse_assert(!a.bad && a.r.size() == 1, "server: one answer"); pse_assert(a.r[0]->get_status_code() == (k > 10 ? 500 : 200) && rec.calls == (k > 10 ? 0 : 1), "server: up to ten redirects are followed"); pse_observe("code", a.r[0]->get_status_code());
}
struct Gate : auth { bool ok; int calls; std::string seen; Gate() : auth(pion::user_manager_ptr(new pion::user_manager)), ok(false), calls(0) {} virtual bool handle_request(const request_ptr &q, const connection_ptr &c) { ++calls; seen = q->get_resource(); locks += pse_held_locks(); if (ok) return true; response_writer_ptr w(response_writer::create(c, *q, boost::bind(&connection::finish, c))); w->get_response().set_status_code(401); w << "no"; w->send(); return false; } };
// args: 1: the request is redirected, 2: ... to nothing, 3: to a loop, 4..: by that many less two redirects; several requests on one connection
extern "C" void v_auth() {
    rec = Rec(); locks = 0; Net n; server srv(n.s, 8080); Gate *g = new Gate; srv.set_authentication(auth_ptr(g)); size_t k = pse_arg(0); std::string priv = "/" + path(1, "p"); pse_assume(priv[1] != '/' && (priv[1] < 'r' || priv[1] > 'z')); srv.add_resource(priv, H(0)); srv.add_resource("/z", H(1)); if (k > 3) { std::string at = "/z"; for (size_t i = 3; i < k; ++i) { std::string to(at); --to[1]; srv.add_redirect(at, to); srv.add_resource(to, H(1)); at = to; } srv.add_redirect(at, priv); } else if (k) srv.add_redirect("/z", k == 1 ? priv : k == 2 ? "/none" : "/z"); srv.start(); if (k > 3) k = 1;
    Client *c = n.connect(srv); int want401 = 0, want200 = 0; for (int i = 0; i < 2; ++i) { bool direct = i == 1 && k < 2; g->ok = pse_u8("ok") & 1; bool ok = pse_concretize(g->ok); g->ok = ok; int before = rec.calls, ac = g->calls; c->send(GETL + (direct ? priv : std::string("/z")) + " HTTP/1.1\r\n\r\n"); n.run();
        if (k == 3) { pse_assert(rec.calls == before && g->calls == ac, "server: a loop reaches nothing"); continue; }
        pse_assert(g->calls == ac + 1, "server: every request is checked once"); std::string target = direct || k == 1 ? priv : k == 2 ? "/none" : "/z"; pse_assert(pse_streq(g->seen, target), "server: what is checked is the resource after redirects");
        pse_assert(rec.calls == before + (ok && k != 2 ? 1 : 0), "server: the handler is called if and only if the request is authorised"); if (ok && k != 2) { ++want200; pse_assert(rec.which == (direct || k == 1 ? 0 : 1), "server: the resource checked is the one handled"); } if (!ok) ++want401; }
    Answers a(c->t.out, !c->t.open); int n401 = 0, n200 = 0; for (size_t i = 0; i < a.r.size(); ++i) { n401 += a.r[i]->get_status_code() == 401; n200 += a.r[i]->get_status_code() == 200; } pse_assert(!a.bad && a.r.size() == 2 && n401 == want401 && n200 == want200, "server: one answer each"); pse_assert(locks == 0, "server: no locks held while authenticating"); pse_observe("n401", n401); pse_observe("n200", n200);
}
static std::string msg; static size_t what;
struct Odd : boost::exception {};
static void trouble(const request_ptr &q, const connection_ptr &c) { ++rec.calls;
    switch (what) { case 0: throw std::runtime_error(msg); case 1: BOOST_THROW_EXCEPTION(std::logic_error(msg)); case 2: throw Odd(); case 3: throw std::bad_alloc(); case 4: server::handle_forbidden_request(q, c, msg); break; case 5: server::handle_method_not_allowed(q, c, msg); break; case 6: server::handle_server_error(q, c, msg); break; case 7: server::handle_not_found_request(q, c); break; case 8: server::handle_bad_request(q, c); break; } }
static size_t count(const std::string &s, char c) { size_t k = 0; for (size_t i = 0; i < s.size(); ++i) k += s[i] == c; return k; }
static bool contains(const std::string &s, const std::string &t) { if (t.size() > s.size()) return false; bool r = false; for (size_t i = 0; i + t.size() <= s.size(); ++i) r |= pse_memeq(s.data() + i, t.data(), t.size()); return r; }
static std::string esc(const std::string &s) { std::string r; for (size_t i = 0; i < s.size(); ++i) switch (s[i]) { case '<': r += "&lt;"; break; case '>': r += "&gt;"; break; case '"': r += "&quot;"; break; case '\'': r += "&apos;"; break; case '&': r += "&amp;"; break; default: r += s[i]; } return r; }
static std::string page(size_t w, const std::string &res, const std::string &m, int *code, const std::string &method = "GET", std::string *allow = 0) {
    rec = Rec(); what = w; msg = m; Net n; server srv(n.s, 8080); srv.add_resource("/h", boost::bind(trouble, _1, _2)); srv.start(); Client *c = n.connect(srv); c->send(method + " " + res + " HTTP/1.1\r\n\r\n"); n.run(); Answers a(c->t.out, !c->t.open); pse_assert(!a.bad && a.r.size() == 1, "server: one answer"); *code = a.r[0]->get_status_code(); pse_assert(c->t.open, "server: a handler's failure does not cost the connection"); if (allow) *allow = a.r[0]->get_header("Allow");
    c->send("GET /none HTTP/1.1\r\n\r\n"); n.run(); Answers b(c->t.out, !c->t.open); pse_assert(!b.bad && b.r.size() == 2 && b.r[1]->get_status_code() == 404, "server: the next request is answered"); return body(*a.r[0]); }
// what a client or a failing handler says is text in the answer, never markup. args: what the handler does, message length, resource length, method length
extern "C" void v_error() {
    size_t w = pse_arg(0); std::string m = pse_string(pse_arg(1), "m"), res = "/h/" + path(pse_arg(2), "q"), meth = pse_arg(3) ? token(pse_arg(3), "meth") : std::string("GET"); for (size_t i = 0; i < m.size(); ++i) pse_assume((uint8_t)m[i] >= 32 && (uint8_t)m[i] < 127); if (pse_arg(3)) pse_assume(!pse_streq(meth, "HEAD"));
    int code, base; std::string allow; std::string b = page(w, res, m, &code, meth, &allow), b0 = page(w, "/h/", std::string(m.size() ? 1 : 0, 'x'), &base);
    static const int codes[] = { 500, 500, 500, 0, 403, 405, 500, 404, 400 }; pse_assert(code == codes[w], "server: the status of the failure");
    pse_assert(count(b, '<') == count(b0, '<') && count(b, '>') == count(b0, '>'), "server: no markup from the client or the message");
    if (w == 0 || w == 1 || w == 4 || w == 6) pse_assert(contains(b, esc(m)), "server: the message is there"); if (w == 4 || w == 7) pse_assert(contains(b, esc(res)), "server: the resource is there"); if (w == 5) { pse_assert(contains(b, esc(meth)), "server: the method is there"); pse_assert(pse_streq(allow, m), "server: the allowed methods are announced"); }
    pse_observe("code", code); if (w != 2) pse_observe_str("body", b);
}
// memory exhaustion is not hidden
extern "C" void v_badalloc() {
    rec = Rec(); what = 3; Net n; server srv(n.s, 8080); srv.add_resource("/h", boost::bind(trouble, _1, _2)); srv.start(); Client *c = n.connect(srv); c->send("GET /h HTTP/1.1\r\n\r\n"); bool got = false; try { n.run(); } catch (std::bad_alloc &) { got = true; } pse_assert(got && c->t.out.empty(), "server: bad_alloc reaches the event loop"); pse_observe("got", got); n.run(); Client *d = n.connect(srv); pse_assert(d != 0, "server: other clients are still served"); d->send("GET /x HTTP/1.1\r\n\r\n"); n.run(); pse_assert(d->t.out.compare(0, 12, "HTTP/1.1 404") == 0, "server: other clients are still served"); }
// a broken request is answered once and the connection closed, whatever follows. args: kind, bytes
extern "C" void v_bad() {
    rec = Rec(); Net n; server srv(n.s, 8080); srv.add_resource("/h", H(0)); srv.start(); Client *c = n.connect(srv); static const char *T[] = { "GET /h HTTP/~.1\r\n\r\n", "G~T /h HTTP/1.1\r\n\r\n", "GET /h HTTP/1.1\r\nContent-Length: ^^\r\n\r\nabc", "GET /h HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n~\r\nab", "GET /h HTTP/1.1~\n~\n", "GET /h HTTP/1.1\r\na~b\r\n\r\n", "~" }; std::string t = hole(T[pse_arg(0)]); c->send(t); if (pse_arg(1)) c->t.s->chunks.push_back(pse_arg(1)); n.run();
    bool before = c->t.open; std::string out = c->t.out; c->send("GET /h HTTP/1.1\r\n\r\n"); n.run(); c->shut(); n.run(); Answers a(c->t.out, true); int bad = 0; for (size_t i = 0; i < a.r.size(); ++i) { bad += a.r[i]->get_status_code() == 400; if (a.r[i]->get_status_code() == 400) pse_assert(i + 1 == a.r.size() && ieq(a.r[i]->get_header("Connection"), "close"), "server: nothing follows the answer to a broken request"); }
    int broken = 0; { std::string all = t + "GET /h HTTP/1.1\r\n\r\n"; size_t at = 0; while (at < all.size()) { request q; Run u(true); u.feed(q, all.substr(at)); broken += u.rc == 0; if (u.rc != 1 || !q.check_keep_alive()) break; at += u.consumed; } } pse_assert(bad == broken, "server: a request that cannot be parsed gets exactly one 400 answer");
    pse_assert(!a.bad && bad <= 1, "server: answers are well formed"); pse_assert(!c->t.open, "server: the connection ends"); if (!before && !out.empty()) pse_reach("rejected"); if (rec.calls) pse_reach("handled"); int ok = 0; for (size_t i = 0; i < a.r.size(); ++i) ok += body(*a.r[i]) == "r0"; pse_assert(rec.calls == ok, "server: answers match calls"); pse_assert(srv.get_connections() == 0, "server: no connection is left over"); pse_observe("calls", rec.calls); pse_observe("bad", bad);
}

// ---- several requests on one connection
struct Serve { server *srv; std::vector<std::string> seen; std::vector<response_writer_ptr> later; int style; size_t conns; Serve() : srv(0), style(0), conns(0) {} };
static Serve *sv;
static void onchunk(response_writer_ptr w, const std::string &t, const Ec &, std::size_t) { w->clear(); w << t; w->send_final_chunk(); }
static void echo(const request_ptr &q, const connection_ptr &c) {
    locks += pse_held_locks(); sv->seen.push_back(q->get_resource() + body(*q)); sv->conns = sv->srv->get_connections(); std::string b = sv->seen.back();
    if (sv->style == 3) { c->finish(); return; }
    response_writer_ptr w(response_writer::create(c, *q, boost::bind(&connection::finish, c)));
    if (sv->style == 2) { w << "<"; w->send_chunk(boost::bind(onchunk, w, b, _1, _2)); return; }
    w << "<" << b; if (sv->style == 1) sv->later.push_back(w); else w->send(); }
static std::string ask(int kind, char id, const std::string &content) { std::string r = std::string(kind == 2 ? "POST" : kind == 5 ? "HEAD" : "GET") + (kind == 4 ? " /none" : " /h/") + id + (kind == 3 ? " HTTP/1.0\r\n" : " HTTP/1.1\r\n"); if (kind == 1) r += "Connection: close\r\n"; if (kind == 2) { r += "Content-Length: "; r += char('0' + content.size()); r += "\r\n"; } return r + "\r\n" + (kind == 2 ? content : ""); }
// args: kinds of three requests, how the handler answers, split: 0 one segment, 1 anywhere, 2 request by request
extern "C" void v_pipe() {
    locks = 0; Serve S; sv = &S; Net n; server srv(n.s, 8080); S.srv = &srv; S.style = pse_arg(3); srv.add_resource("/h", echo); srv.start(); Client *c = n.connect(srv); std::string all; std::vector<std::string> want; bool open = true; std::vector<int> kinds; unsigned head = 0; std::vector<std::string> msgs;
    for (int i = 0; i < 3; ++i) { int k = pse_arg(i); std::string content = k == 2 ? pse_string(2, "body") : ""; std::string m = ask(k, char('a' + i), content); msgs.push_back(m); all += m; if (!open) continue; kinds.push_back(k); if (k == 5) head |= 1u << (kinds.size() - 1); if (k != 4) want.push_back(std::string("/h/") + char('a' + i) + content); if (k == 1 || k == 3 || (S.style == 3 && 0)) open = false; }
    if (pse_arg(4) == 2) for (size_t i = 0; i < msgs.size(); ++i) { c->send(msgs[i]); n.run(); for (size_t j = 0; j < S.later.size(); ++j) { response_writer_ptr w = S.later[j]; S.later.erase(S.later.begin()); w->send(); w.reset(); n.run(); break; } }
    else { c->send(all); if (pse_arg(4) == 1) c->t.s->chunks.push_back(1 + pse_choose(all.size() - 1, "cut")); n.run(); while (!S.later.empty()) { response_writer_ptr w = S.later[0]; S.later.erase(S.later.begin()); pse_assert(S.later.empty(), "server: one request at a time per connection"); w->send(); w.reset(); n.run(); } }
    pse_assert(S.seen.size() == want.size(), "server: every request is handled once, none after the connection is to be closed"); for (size_t i = 0; i < want.size() && i < S.seen.size(); ++i) pse_assert(pse_streq(S.seen[i], want[i]), "server: requests are handled in order and complete"); pse_assert(locks == 0, "server: handlers run without locks held"); pse_assert(want.empty() || S.conns == 1, "server: a handler sees its own connection counted");
    if (S.style != 3) { Answers a(c->t.out, !c->t.open, head); pse_assert(!a.bad && a.r.size() == kinds.size(), "server: every request is answered once"); size_t j = 0; for (size_t i = 0; i < a.r.size() && i < kinds.size(); ++i) { if (kinds[i] == 4) { pse_assert(a.r[i]->get_status_code() == 404, "server: answers in order"); continue; } std::string b = body(*a.r[i]); if (j < want.size()) pse_assert(kinds[i] == 5 ? b.empty() : pse_streq(b, "<" + want[j]), "server: answers in order"); ++j; bool last = kinds[i] == 1 || kinds[i] == 3; pse_assert(ieq(a.r[i]->get_header("Connection"), last ? "close" : "keep-alive"), "server: the last answer announces the close"); } }
    else pse_assert(c->t.out.find('<') == std::string::npos || pse_arg(0) == 4 || pse_arg(1) == 4 || pse_arg(2) == 4, "server: a handler that does not answer sends nothing");
    pse_assert(c->t.open == open, "server: the connection is closed exactly when a request asked for it"); pse_assert(srv.get_connections() == (open ? 1u : 0u), "server: connections are counted exactly"); if (open) pse_reach("open"); else pse_reach("closed");
    srv.stop(); n.run(); pse_assert(!c->t.open && srv.get_connections() == 0 && n.s.users() == 0, "server: stopping closes every connection"); pse_observe("seen", S.seen.size()); pse_observe("out", c->t.out.size());
}
// two clients, their requests interleaved in any order: neither sees the other's answers
extern "C" void v_two() {
    locks = 0; Serve S; sv = &S; Net n; server srv(n.s, 8080); S.srv = &srv; S.style = pse_arg(0); srv.add_resource("/h", echo); srv.start(); Client *c[2] = { n.connect(srv), n.connect(srv) }; pse_assert(srv.get_connections() == 2, "server: both are connected"); std::string m[2]; size_t at[2] = { 0, 0 }; for (int i = 0; i < 2; ++i) m[i] = ask(pse_arg(1 + i), char('a' + i), "xy");
    for (int k = 0; k < 6; ++k) { int i = (int)pse_choose(2, "who"); size_t step = (m[i].size() + 2) / 3, l = std::min(step, m[i].size() - at[i]); if (!l) continue; c[i]->send(m[i].substr(at[i], l)); at[i] += l; n.run(); } for (int i = 0; i < 2; ++i) { c[i]->send(m[i].substr(at[i])); n.run(); } while (!S.later.empty()) { size_t k = S.later.size() > 1 ? pse_choose(2, "first") : 0; response_writer_ptr w = S.later[k]; S.later.erase(S.later.begin() + k); w->send(); w.reset(); n.run(); }
    for (int i = 0; i < 2; ++i) { Answers a(c[i]->t.out, !c[i]->t.open); std::string w = std::string("</h/") + char('a' + i) + (pse_arg(1 + i) == 2 ? "xy" : ""); pse_assert(!a.bad && a.r.size() == 1 && body(*a.r[0]) == w, "server: each client gets its own answer"); pse_assert(c[i]->t.open == (pse_arg(1 + i) != 1), "server: only the connection asked to be closed is closed"); } pse_assert(S.seen.size() == 2, "server: two requests"); pse_observe("n", S.seen.size()); srv.stop(); n.run(); pse_assert(!c[0]->t.open && !c[1]->t.open, "server: stopped");
}
// ---- time limits. args: bytes of the request received before, 0 nothing more / 1 the rest comes first / 2 the limit passes but its handler is late
extern "C" void v_timeout() {
    locks = 0; Serve S; sv = &S; Net n; server srv(n.s, 8080); S.srv = &srv; srv.add_resource("/h", echo); srv.start(); Client *c = n.connect(srv); std::string m = ask(2, 'a', pse_string(3, "body")); size_t cut = pse_choose(m.size() + 1, "cut"), how = pse_arg(0); if (pse_arg(1)) { c->send(ask(0, 'z', "")); n.run(); } size_t done = S.seen.size();
    if (cut) { c->send(m.substr(0, cut)); n.run(); } boost::asio::deadline_timer *t = 0; int pend = 0; for (size_t i = 0; i < n.s.io.timers.size(); ++i) if (n.s.io.timers[i]->pending) { t = n.s.io.timers[i]; ++pend; }
    pse_assert(pend == 1 && t->dur.total_seconds() == 10, "server: every wait for a client is limited"); if (cut == m.size()) ++done; pse_assert(S.seen.size() == done, "server: handled when complete");
    if (how == 0) { t->fire(); n.run(); pse_assert(!c->t.open && srv.get_connections() == 0, "server: a client that sends nothing more is disconnected"); pse_assert(S.seen.size() == done, "server: an incomplete request is not handled"); Answers a(c->t.out, true); pse_assert(!a.bad && a.r.size() == done, "server: an incomplete request is not answered"); pse_reach("late"); }
    else { if (how == 2) { t->expire(); } c->send(m.substr(cut) + (cut == m.size() ? m : std::string())); Sock *k = c->t.s; pse_assert(k && k->rd_pending, "server: still reading"); k->complete_read(); n.run(); ++done; pse_assert(c->t.open && S.seen.size() == done, "server: a request that arrives in time is handled"); pse_assert(k->cancels == 0, "server: a limit that did not count cancels nothing"); pse_reach("in time");
        c->send(ask(1, 'y', "")); n.run(); pse_assert(S.seen.size() == done + 1 && !c->t.open, "server: so is the next"); }
    int left = 0; for (size_t i = 0; i < n.s.io.timers.size(); ++i) left += n.s.io.timers[i]->pending; pse_assert(left == 0, "server: no limits are left over"); pse_observe("seen", S.seen.size());
}
// a handler takes its time: no limit applies while the server is working
extern "C" void v_working() {
    locks = 0; Serve S; sv = &S; S.style = 1; Net n; server srv(n.s, 8080); S.srv = &srv; srv.add_resource("/h", echo); srv.start(); Client *c = n.connect(srv); size_t cut = pse_arg(0); std::string m = ask(0, 'a', ""); c->send(m.substr(0, cut)); n.run(); c->send(m.substr(cut)); n.run(); int pend = 0; for (size_t i = 0; i < n.s.io.timers.size(); ++i) pend += n.s.io.timers[i]->pending; pse_assert(S.later.size() == 1 && pend == 0, "server: no limit while the request is handled"); response_writer_ptr w = S.later[0]; S.later.clear(); w->send(); w.reset(); n.run(); pse_assert(c->t.open && c->t.out.size() > 4, "server: the answer arrives"); pse_observe("n", c->t.out.size()); }
// ---- content limit of the server. args: announced, limit
extern "C" void v_limit() {
    locks = 0; Serve S; sv = &S; Net n; server srv(n.s, 8080); S.srv = &srv; srv.set_max_content_length(pse_arg(1)); srv.add_resource("/h", echo); srv.start(); Client *c = n.connect(srv); size_t len = pse_arg(0), lim = pse_arg(1); std::string b = pse_string(len, "body"), m = ask(2, 'a', b); c->send(m + ask(0, 'b', "")); if (pse_arg(2)) c->t.s->chunks.push_back(1 + pse_choose(m.size(), "cut")); n.run();
    pse_assert(S.seen.size() == 2 && pse_streq(S.seen[0], "/h/a" + b.substr(0, std::min(len, lim))) && S.seen[1] == "/h/b", "server: content beyond the limit is dropped, the next request is intact"); pse_observe("n", S.seen.size()); }
