// The client's side: TCP streams, connecting, and requests answered over a connection.
#include "serve.h"
#include <pion/tcp/stream.hpp>
#include <pion/http/request_writer.hpp>
#include <pion/http/response_reader.hpp>
using pion::tcp::stream; using pion::tcp::stream_buffer;
// ---- streams: bytes written arrive in order, bytes that arrive are read in order
static boost::asio::io_service *io; static Sock *sk; static int early, waits;
// while the stream waits: first perhaps nothing at all (a wait may end early), then the operation is carried out
static void hook() { if (++waits > 60) { pse_fail("stream: waits for ever"); pse_stop(); } if (early && pse_choose(2, "early")) { --early; return; } if (!io->poll_one()) sk->complete_read(); }
struct Tcp { connection_ptr c; stream *s; Tcp(bool ssl) { io = new boost::asio::io_service; c.reset(new connection(*io, ssl)); sk = &c->get_socket(); sk->open_ = true; waits = 0; pse_wait_hook = hook; s = new stream(c); } ~Tcp() { delete s; pse_wait_hook = 0; } };
static std::string filler(size_t n) { std::string s(n, 'x'); for (size_t i = 0; i < n; ++i) s[i] = (char)('a' + i % 23); return s; }
// args: steps, room left in the buffer, a write fails (0 no, 1 after 0..2 bytes that do not fit, 2 anywhere in the last six), waits that end early, SSL
extern "C" void n_write() {
    Tcp t(pse_arg(4)); std::ostream &o = *t.s; size_t room = pse_arg(1), fill = stream_buffer::WRITE_BUFFER_SIZE - 1 - room; std::string want = filler(fill); if (fill) o.write(want.data(), fill); pse_assert(o.good() && sk->out.empty(), "stream: what fits is kept"); early = (int)pse_arg(3);
    bool failed = false; std::string last; if (pse_arg(2)) { sk->write_ec = boost::asio::error::connection_reset; sk->fail_byte = pse_arg(2) == 1 ? pse_choose(3, "at") : fill - 2 + pse_choose(6, "at"); }
    for (uint64_t k = 0; k < pse_arg(0); ++k) {
        int op = (int)pse_choose(5, "op"); std::string d; bool ok = true;
        if (op == 0) { d = pse_string(1, "c"); ok = !!o.put(d[0]); } else if (op == 1) { d = pse_string(pse_choose(4, "n"), "d"); ok = !!o.write(d.data(), d.size()); } else if (op == 2) ok = !!o.flush(); else if (op == 3) { d = filler(stream_buffer::WRITE_BUFFER_SIZE - 2 + pse_choose(4, "more")); ok = !!o.write(d.data(), d.size()); } else { d = pse_string(2, "t"); ok = o.rdbuf()->sputn(d.data(), 2) == 2; }
        pse_assert(ok || pse_arg(2), "stream: writing fails only if the connection does");
        if (!ok) { failed = true; last = d; pse_reach("failed"); break; }
        want += d; if (op == 2) { pse_assert(sk->out == want, "stream: after a flush the peer has everything"); pse_reach("flushed"); } else pse_assert(sk->out.size() <= want.size() && pse_memeq(sk->out.data(), want.data(), sk->out.size()), "stream: the peer gets the bytes written, in order");
    }
    if (failed) { // whatever became of the bytes of the last call, those that arrive are a beginning of what was written
        o.clear(); std::string d = pse_string(2, "z"); bool ok = true; int op = (int)pse_choose(3, "then"); if (op == 0) ok = !!o.put(d[0]).put(d[1]); else if (op == 1) ok = !!o.write(d.data(), 2); else d = ""; if (ok) ok = !!o.flush(); pse_assert(ok, "stream: a connection that works again can be written to"); bool any = false; for (size_t p = 0; p <= last.size(); ++p) { std::string w = want + last.substr(0, p) + d; any |= w.size() == sk->out.size() && pse_memeq(w.data(), sk->out.data(), w.size()); if (p == 9 && last.size() > 20) p = last.size() - 9; }
        pse_assert(any, "stream: after a failure nothing is sent twice, out of order or left out"); pse_observe("out", sk->out.size()); return; }
    sk->fail_byte = (std::size_t)-1; Sock::tap_type tap; sk->watch(tap); tap.out = sk->out; delete t.s; t.s = 0; pse_assert(pse_streq(tap.out, want), "stream: the peer has everything when the stream is gone"); sk->tap = 0; pse_observe("sent", tap.out.size()); pse_reach("sent");
}
// args: bytes that come, steps, an error comes first (0 no, 1 at an arbitrary place), waits that end early, SSL, bytes before (a full buffer)
extern "C" void n_read() {
    size_t n = pse_arg(0); Tcp t(pse_arg(4)); std::istream &i = *t.s; std::string in = filler(pse_arg(5)) + pse_string(n, "b"); sk->in = in; if (pse_arg(5)) { size_t one = pse_arg(5) - 1 + pse_choose(3, "first"); sk->chunks.push_back(one); } sk->chunks.push_back(1 + pse_choose(3, "s1")); sk->chunks.push_back(1 + pse_choose(3, "s2")); early = (int)pse_arg(3); if (pse_arg(2)) { sk->read_ec = boost::asio::error::operation_aborted; sk->read_fail = pse_arg(5) + pse_choose((uint8_t)(n + 1), "error"); }
    size_t pos = 0, back = 0; if (pse_arg(5)) { pos = pse_arg(5) - 2; std::string x(pos, 0); i.read(&x[0], pos); pse_assert(i.good() && x == in.substr(0, pos), "stream: bytes are read in order"); back = 2; }
    bool err = false; for (uint64_t k = 0; k < pse_arg(1); ++k) {
        int op = (int)pse_choose(6, "op"); bool stops = pse_arg(2) && !err;
        if (op == 0) { int c = i.get(); if (c < 0) { pse_assert(pos == in.size() || stops, "stream: ends only at the end"); err = true; i.clear(); pse_reach("end"); } else { pse_assert(pos < in.size() && c == (uint8_t)in[pos], "stream: bytes are read in order"); ++pos; if (back < 10) ++back; } }
        else if (op == 1) { int c = i.peek(); if (c < 0) { pse_assert(pos == in.size() || stops, "stream: ends only at the end"); err = true; i.clear(); } else pse_assert(pos < in.size() && c == (uint8_t)in[pos], "stream: bytes are read in order"); }
        else if (op == 2) { size_t m = 1 + pse_choose(4, "m"); std::string x(m, 0); i.read(&x[0], m); size_t g = i.gcount(); pse_assert(g <= m && pos + g <= in.size() && pse_memeq(x.data(), in.data() + pos, g), "stream: bytes are read in order"); pse_assert(g == m || pos + g == in.size() || stops, "stream: ends only at the end"); if (g < m) { err = true; i.clear(); pse_reach("end"); } pos += g; back = back + g > 10 ? 10 : back + g; }
        else if (op == 3) { pse_assume(pos > 0); bool ok = !!i.unget(); pse_assert(ok || back == 0, "stream: up to ten bytes can be put back"); if (ok) { --pos; if (back) --back; pse_reach("put back"); } else i.clear(); }
        else if (op == 4) { pse_assume(pos > 0 && back > 0); bool ok = !!i.putback(in[pos - 1]); pse_assert(ok, "stream: up to ten bytes can be put back"); --pos; --back; }
        else { std::streamsize m = i.rdbuf()->in_avail(); pse_assert(m >= 0 && pos + m <= in.size(), "stream: what is available has arrived"); }
    }
    while (pos < in.size()) { int c = i.get(); if (c < 0) { pse_assert(pse_arg(2) && !err, "stream: nothing is lost"); err = true; i.clear(); continue; } pse_assert(c == (uint8_t)in[pos], "stream: nothing is lost"); ++pos; } pse_assert(i.get() < 0, "stream: ends at the end"); pse_observe("pos", pos);
}
// another thread carries the operations out. args: bytes, switches
static connection_ptr tc; static unsigned long over;
static void carry(void *) { for (;;) { if (over) return; unsigned long q = io->seq; if (!io->poll_one() && !(sk->rd_pending && sk->complete_read())) pse_wait_until(&io->seq, q + 1); } }
extern "C" void n_threads() {
    boost::asio::io_service::threads() = true; io = new boost::asio::io_service; tc.reset(new connection(*io)); sk = &tc->get_socket(); sk->open_ = true; std::string in = pse_string(pse_arg(0), "b"); sk->in = in; sk->chunks.push_back(1); pse_races(); pse_switches(pse_arg(1)); over = 0; int th = pse_spawn(carry, 0);
    { stream s(tc); for (size_t k = 0; k < in.size(); ++k) { s.put(in[k]); if (k % 2) s.flush(); } s.flush(); for (size_t k = 0; k < in.size(); ++k) pse_assert(s.get() == (uint8_t)in[k], "stream: bytes are read in order"); } over = 1; ++io->seq; pse_join(th); pse_assert(pse_streq(sk->out, in), "stream: the peer gets the bytes written, in order"); pse_observe("n", sk->out.size());
}
// ---- connecting. args: by name? (0 address, 1 name, 2 stream to an address), SSL
extern "C" void n_connect() {
    typedef boost::asio::ip::tcp T; T::resolver::found().clear(); Sock::refusing().clear(); Sock::tried().clear(); boost::asio::io_service s; bool ssl = pse_arg(1); connection c(s, ssl); uint64_t n = pse_choose(4, "found"), bad = pse_choose(8, "refused"); boost::asio::ip::address a(boost::asio::ip::address_v4(0x01020304));
    for (uint64_t k = 0; k < n; ++k) { T::resolver::found().push_back(T::endpoint(a, (unsigned short)(80 + k))); if (bad >> k & 1) Sock::refusing().push_back((unsigned short)(80 + k)); } if (n == 0 && pse_choose(2, "unknown")) T::resolver::fails() = boost::asio::error::no_data;
    Ec ec; std::string host = "h"; if (pse_arg(0) == 1) { ec = c.connect(host, 80); size_t first = 0; while (first < n && (bad >> first & 1)) ++first; bool ok = first < n; pse_assert(!ec == ok, "connect: succeeds exactly if one of the addresses does"); pse_assert(c.is_open() == ok, "connect: open exactly if connected"); pse_assert(Sock::tried().size() == (ok ? first + 1 : n), "connect: the addresses are tried in order until one answers"); for (size_t k = 0; k < Sock::tried().size(); ++k) pse_assert(Sock::tried()[k] == 80 + k, "connect: the addresses are tried in order until one answers"); if (ok) { pse_assert(c.get_remote_port() == 80 + first && c.get_remote_ip() == a, "connect: tells the address connected to"); pse_reach("connected"); } else pse_reach("refused"); if (n == 0) pse_assert(ec == (T::resolver::fails() ? T::resolver::fails() : Ec(boost::asio::error::host_not_found)), "connect: the reason is reported"); if (n > 0 && !ok) pse_assert(ec == Ec(boost::asio::error::connection_refused), "connect: the reason is reported"); pse_observe("tried", Sock::tried().size()); return; }
    if (pse_arg(0) == 0) { ec = c.connect(a, 80); bool ok = !(n > 0 && (bad & 1)); pse_assert(!ec == ok, "connect: tells whether it succeeded"); if (!ok) pse_assert(ec == Ec(boost::asio::error::connection_refused), "connect: the reason is reported"); if (ok) pse_assert(c.get_remote_port() == 80, "connect: tells the address connected to"); pse_observe("ok", ok); return; }
    stream st(s, ssl); bool shake = pse_choose(2, "handshake"); st.rdbuf()->get_connection().get_ssl_socket().hs_ec = shake ? Ec(boost::asio::error::connection_reset) : Ec(); T::endpoint e(a, 80); ec = pse_choose(2, "form") ? st.connect(a, 80) : st.connect(e); bool ok = !(n > 0 && (bad & 1)) && !(ssl && shake); pse_assert(!ec == ok, "connect: a stream is connected exactly if the connection and the handshake succeed"); if (ok) pse_reach("stream"); pse_observe("ok", ok);
}
// ---- requests and their answers. What the other side sends, and how: content lengths, chunks, until the close, without content
struct Ans { const char *text; const char *body; bool keep, head, eof; };
static const Ans ANS[] = { { "HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\n~~", "~~", true, false, false }, { "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n2\r\n~~\r\n0\r\n\r\n", "~~", true, false, false }, { "HTTP/1.1 204 No\r\nX: ~\r\n\r\n", "", true, false, false }, { "HTTP/1.1 200 OK\r\nContent-Length: 9\r\nX: ~\r\n\r\n", "", true, true, false }, { "HTTP/1.0 404 Nope~\r\nContent-Length: 1\r\n\r\n~", "", false, false, false }, { "HTTP/1.1 500 E\r\nConnection: close\r\nContent-Length: 0\r\n\r\n", "", false, false, false }, { "HTTP/1.1 200 OK\r\nX: ~\r\n\r\n~~~", "~~~", false, false, true }, { "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nX: ~\r\n\r\n", "", true, true, false } };
static std::string sane(const char *t) { std::string s = t; for (size_t i = 0; i < s.size(); ++i) if (s[i] == '~') { uint8_t c = pse_u8("b"); pse_assume(!ctl(c) & (c != ' ')); s[i] = (char)c; } return s; }
static int heads, answers, sent; static response_ptr got; static Ec gotEc, sentEc; static uint64_t locksThen; static void idle(boost::asio::io_service &s) { for (size_t i = 0; i < s.timers.size(); ++i) pse_assert(!s.timers[i]->pending, "client: no time limit runs on after the answer"); }
static void onHead(const response_ptr &, const connection_ptr &, const Ec &) { ++heads; pse_assert(answers == 0, "client: the headers are reported before the answer"); }
static void onAnswer(const response_ptr &r, const connection_ptr &, const Ec &e) { ++answers; got = r; gotEc = e; } static void onSent(const Ec &e) { ++sent; sentEc = e; }
static void turn(boost::asio::io_service &s, Sock &k, int n = 400) { while (n-- > 0) { if (s.poll_one()) continue; if (k.rd_pending && (k.in_pos < k.in.size() || k.end_ec == Ec(boost::asio::error::eof))) { k.complete_read(); continue; } return; } pse_fail("client: events never end"); }
struct Ask {
    boost::asio::io_service &s; connection_ptr c; Ask() : s(*new boost::asio::io_service), c(new connection(s)) { c->get_socket().open_ = true; c->set_lifecycle(connection::LIFECYCLE_KEEPALIVE); } Sock &k() { return c->get_socket(); }
    void ask(request &q) { heads = answers = sent = 0; got.reset(); gotEc = Ec(); request_ptr p(new request(q)); request_writer_ptr w(request_writer::create(c, p, onSent)); w->send(); w.reset(); pse_assert(sent == 0, "client: the write is reported when it is done"); }
    void wait(request &q) { boost::shared_ptr<response_reader> r(response_reader::create(c, q, onAnswer)); response_reader::finished_handler_t h(onHead); r->set_headers_parsed_callback(h); r->receive(); r.reset(); }
};
static std::string fillIn(const char *t, std::string &b, const char *bt) { std::string s = sane(t); size_t n = std::string(bt).size(); b = ""; if (n) { size_t p = std::string(t).rfind('~', std::string(t).size()); while (p > 0 && t[p - 1] == '~') --p; b = s.substr(p, n); } return s; }
// args: answer to the first request, to the second, split (0 one piece each, 1 anywhere, 2 both at once), content of the request
extern "C" void n_ask() {
    Ask a; size_t k1 = pse_arg(0), k2 = pse_arg(1); std::string b1, b2, s1 = fillIn(ANS[k1].text, b1, ANS[k1].body), s2 = fillIn(ANS[k2].text, b2, ANS[k2].body); request q; std::string p = "/" + text(1, "p"), content = pse_string(pse_arg(3), "c"); pse_assume((p[1] != ' ') & (p[1] != '?')); q.set_method(ANS[k1].head ? "HEAD" : content.empty() ? "GET" : "POST"); q.set_resource(p); q.set_content(content);
    a.ask(q); turn(a.s, a.k()); pse_assert(sent == 1 && !sentEc, "client: the write is reported once"); { request r; Run u(true); pse_assert(u.feed(r, a.k().out) == 1 && u.consumed == a.k().out.size() && pse_streq(r.get_resource(), p) && pse_streq(body(r), content) && pse_streq(r.get_method(), q.get_method()), "client: the request is sent as it is"); }
    a.k().in = pse_arg(2) == 2 ? s1 + s2 : s1; a.k().end_ec = Ec(); if (pse_arg(2) == 1) { a.k().chunks.push_back(1 + pse_choose((uint8_t)(s1.size() - 1), "cut")); a.k().chunks.push_back(1 + pse_choose(3, "cut2")); } a.wait(q); turn(a.s, a.k()); if (ANS[k1].eof) { pse_assert(answers == 0, "client: without a length the answer ends with the connection"); a.k().end_ec = boost::asio::error::eof; turn(a.s, a.k()); }
    pse_assert(answers == 1 && !gotEc && got->is_valid() && heads == 1, "client: an answer is reported once, after its headers"); idle(a.s); if (answers != 1) return; { response x(q); Run u(false); u.feed(x, s1); if (!ANS[k1].eof) same_msg(*got, x, false); } if (ANS[k1].body[0]) pse_assert(pse_streq(body(*got), b1), "client: the content is what was sent"); bool more = a.k().in_pos > s1.size();
    connection::lifecycle_type l = a.c->get_lifecycle(); pse_assert(l == (!ANS[k1].keep || ANS[k1].eof ? connection::LIFECYCLE_CLOSE : more ? connection::LIFECYCLE_PIPELINED : connection::LIFECYCLE_KEEPALIVE), "client: the connection is kept exactly if the answer says so"); pse_observe("life", l); if (l == connection::LIFECYCLE_CLOSE) { pse_reach("closed"); return; }
    request q2; q2.set_method(ANS[k2].head ? "HEAD" : "GET"); if (!more) { a.ask(q2); turn(a.s, a.k()); a.k().in = s1 + s2; a.k().in_pos = s1.size(); } else { answers = heads = 0; got.reset(); } if (ANS[k2].eof) a.k().end_ec = boost::asio::error::eof; a.wait(q2); turn(a.s, a.k()); pse_assert(answers == 1 && !gotEc && got->is_valid() && heads == 1, "client: the next answer is reported once, from the bytes left over and what follows"); if (answers == 1 && ANS[k2].body[0]) pse_assert(pse_streq(body(*got), b2), "client: the next content is what was sent"); pse_reach(more ? "pipelined" : "kept");
}
// args: answer, how it is cut (0 closed, 1 error, 2 time limit, 3 one arbitrary byte): one report, with the reason, and the connection is not used again
extern "C" void n_cut() {
    Ask a; size_t k1 = pse_arg(0); std::string b1, s1 = fillIn(ANS[k1].text, b1, ANS[k1].body); uint64_t how = pse_arg(1); request q; q.set_method(ANS[k1].head ? "HEAD" : "GET"); a.ask(q); turn(a.s, a.k()); size_t cut = pse_choose((uint8_t)s1.size(), "cut"); if (how == 3) { s1[cut] = (char)pse_u8("x"); cut = s1.size(); } a.k().in = s1.substr(0, cut); a.k().end_ec = Ec(); a.k().chunks.push_back(1 + pse_choose(3, "c")); a.wait(q); turn(a.s, a.k()); bool rest = ANS[k1].eof && cut > s1.find("\r\n\r\n") + 3;
    if (how == 3) { if (answers == 0) { a.k().end_ec = boost::asio::error::eof; turn(a.s, a.k()); } pse_assert(answers == 1, "client: whatever comes, there is one report"); if (answers == 1) { pse_assert(!gotEc == got->is_valid() || gotEc, "client: an answer without error is valid"); if (gotEc) { pse_assert(a.c->get_lifecycle() == connection::LIFECYCLE_CLOSE, "client: after an error the connection is not used again"); pse_reach("broken"); } } pse_observe("ec", !!gotEc); return; }
    pse_assert(answers == 0, "client: nothing is reported before the answer is complete"); if (how == 2) { pse_assert(a.s.timers.size() == 1 && a.s.timers[0]->pending, "client: waiting is limited"); if (a.s.timers.size() == 1) a.s.timers[0]->fire(); } else a.k().end_ec = how ? Ec(boost::asio::error::connection_reset) : Ec(boost::asio::error::eof); if (how) { if (how == 1 && a.k().rd_pending) a.k().complete_read(); } turn(a.s, a.k());
    pse_assert(answers == 1, "client: an answer cut short is reported once"); idle(a.s); if (answers == 1) { pse_assert(rest && how == 0 ? !gotEc : !!gotEc, "client: an answer cut short is an error, unless the close ends it"); pse_assert(gotEc || got->is_valid(), "client: an answer without error is valid"); pse_reach(gotEc ? "cut" : "ended"); } pse_assert(a.c->get_lifecycle() == connection::LIFECYCLE_CLOSE, "client: after an error the connection is not used again"); pse_observe("ec", gotEc.value());
}
// ---- time limits. args: steps (each one of: started, cancelled, the time passes, a handler runs)
#include <pion/tcp/timer.hpp>
extern "C" void n_timer() {
    boost::asio::io_service &s = *new boost::asio::io_service; connection_ptr c(new connection(s)); Sock &k = c->get_socket(); k.open_ = true; pion::tcp::timer_ptr t(new pion::tcp::timer(c)); int want = 0; bool armed = false, due = false; uint32_t secs = 0;
    for (uint64_t i = 0; i < pse_arg(0); ++i) { int op = (int)pse_choose(4, "op"); if (op == 0) { static const uint32_t SECS[] = { 10, 0, 1, 4294967295u }; secs = SECS[i & 3]; t->start(secs); armed = true; due = false; pse_assert(s.timers.size() == 1 && s.timers[0]->pending && s.timers[0]->dur.total_seconds() == secs, "timer: waits as long as it was told to"); } else if (op == 1) { t->cancel(); armed = due = false; if (s.timers.size() == 1) pse_assert(!s.timers[0]->pending, "timer: nothing is left waiting"); } else if (op == 2) { if (s.timers.size() == 1 && s.timers[0]->expire()) { due = armed; armed = false; } } else { s.poll(); if (due) { ++want; due = false; pse_reach("fired"); } } pse_assert(k.cancels == want, "timer: the connection is cancelled exactly when the time has passed"); }
    t.reset(); if (s.timers.size() == 1) { if (s.timers[0]->expire()) due = armed; } s.poll(); want += due; pse_assert(k.cancels == want, "timer: waits on when nobody refers to it"); pse_assert(s.timers.empty(), "timer: gone when it is over"); pse_observe("n", k.cancels);
}
// the time passes in one thread while another cancels or restarts. args: switches, 0 cancels, 1 restarts
static pion::tcp::timer_ptr tt; static void passes(void *) { if (io->timers.size()) io->timers[0]->expire(); io->poll(); }
extern "C" void n_timer_threads() {
    boost::asio::io_service::threads() = true; io = new boost::asio::io_service; tc.reset(new connection(*io)); sk = &tc->get_socket(); sk->open_ = true; tt.reset(new pion::tcp::timer(tc)); pse_races(); pse_switches(pse_arg(0)); tt->start(5); int a = pse_spawn(passes, 0); if (pse_arg(1)) tt->start(7); else tt->cancel(); int then = sk->cancels; if (!pse_arg(1)) { pse_join(a); io->poll(); pse_assert(sk->cancels == then, "timer: once cancelled it cancels nothing"); } else { pse_join(a); io->poll(); pse_assert(sk->cancels <= 1, "timer: a time that was replaced does not count"); } tt.reset(); pse_observe("n", sk->cancels);
}
// ---- the operations of a connection itself. While a read or a write is under way it is driven here
static int ends; static Ec endEc; static size_t endN; static void ended(const Ec &e, std::size_t n) { ++ends; endEc = e; endN = n; }
static int dials; static Ec dialEc; static void dialled(const Ec &e) { ++dials; dialEc = e; }
static void through(connection &c, bool ssl) { Sock &k = c.get_socket(); pse_assert(ssl ? k.plain == 0 : k.secure == 0, "connection: bytes go through SSL exactly if it is used"); }
static int finished; static void nowFinished(const connection_ptr &) { ++finished; }
struct Conn { boost::asio::io_service &s; boost::asio::ssl::context x; connection_ptr c; Sock *k; bool ssl; explicit Conn(uint64_t how) : s(*new boost::asio::io_service), x(s, boost::asio::ssl::context::sslv23), c(how == 6 ? connection_ptr(new connection(s, x)) : how > 6 ? connection::create(s, x, how == 7, nowFinished) : connection_ptr(new connection(s, how == 1))), ssl(how != 0 && how != 8) { finished = 0; k = &c->get_socket(); k->open_ = true; if (how == 2) pse_assert(!c->handshake_client(), "connection: shakes hands"); if (how == 3) pse_assert(!c->handshake_server(), "connection: shakes hands"); if (how == 4) { c->async_handshake_client(dialled); } if (how == 5) { c->async_handshake_server(dialled); } pse_assert(c->get_ssl_flag() == ssl, "connection: knows whether it uses SSL"); } };
// args: SSL (0 no, 1 from the start, 2..5 since a handshake, 6 with a context, 7 made by a server with it, 8 without), bytes that come, reads, an error comes (0 no, 1 at any place)
extern "C" void n_reads() {
    Conn t(pse_arg(0)); size_t n = pse_arg(1), pos = 0, errs = 0; std::string in = pse_string(n, "b"); t.k->in = in; for (int j = 0; j < 2; ++j) t.k->chunks.push_back(1 + pse_choose(3, "piece")); bool fails = pse_arg(3); size_t at = 0; if (fails) { at = pse_choose((uint8_t)(n + 1), "fails"); t.k->read_fail = at; t.k->read_ec = boost::asio::error::connection_reset; }
    for (uint64_t k = 0; k < pse_arg(2); ++k) {
        int op = (int)pse_choose(8, "op"); static const size_t Z[] = { 1, 2, 4 }, M[] = { 3, 1 }; size_t z = op & 1 ? Z[pse_choose(3, "z")] : connection::READ_BUFFER_SIZE, m = op & 2 ? M[pse_choose(2, "m")] : 1; if (m > z) m = z; char own[6]; memset(own, 0x5a, 6); char *p = op & 1 ? own : t.c->get_read_buffer().data(); boost::asio::mutable_buffers_1 b = boost::asio::buffer(own, z); Ec ec = boost::asio::error::timed_out; size_t g = 0; ends = 0;
        switch (op) { case 0: g = t.c->read_some(ec); break; case 1: g = t.c->read_some(b, ec); break; case 2: g = t.c->read(boost::asio::transfer_at_least(m), ec); break; case 3: g = t.c->read(b, boost::asio::transfer_at_least(m), ec); break;
            case 4: t.c->async_read_some(ended); break; case 5: t.c->async_read_some(b, ended); break; case 6: t.c->async_read(boost::asio::transfer_at_least(m), ended); break; default: t.c->async_read(b, boost::asio::transfer_at_least(m), ended); }
        if (op > 3) { pse_assert(ends == 0 && t.k->rd_pending, "connection: a read waits for bytes"); if (!t.k->rd_pending) return; t.k->complete_read(); while (t.s.poll_one()); pse_assert(ends == 1, "connection: a read is reported once"); ec = endEc; g = endN; }
        pse_assert(g <= z && pos + g <= n && pse_memeq(p, in.data() + pos, g), "connection: bytes are read in order, where they were asked for"); pos += g; for (size_t j = op & 1 ? z : 6; j < 6; ++j) pse_assert(own[j] == 0x5a, "connection: nothing is written beyond the buffer");
        if (ec) { pse_assert(g < m, "connection: an error ends a read that is not complete"); if (ec == Ec(boost::asio::error::eof)) { pse_assert(pos == n, "connection: the end comes at the end"); pse_reach("end"); } else { pse_assert(fails && errs++ == 0 && pos >= at && ec == Ec(boost::asio::error::connection_reset), "connection: an error is told once, as it is"); pse_reach("error"); } } else { pse_assert(g >= m, "connection: a read without error is complete"); pse_reach("read"); }
        through(*t.c, t.ssl);
    }
    pse_assert(t.c->get_lifecycle() == connection::LIFECYCLE_CLOSE && !t.c->get_keep_alive() && !t.c->get_pipelined(), "connection: ends after one message unless told otherwise"); t.c->finish(); pse_assert(finished == (pse_arg(0) > 6 ? 1 : 0), "connection: its server is told that it is finished");
    pse_observe("pos", pos);
}
// args: SSL, writes, one fails (0 no, 1 after any number of bytes)
extern "C" void n_writes() {
    Conn t(pse_arg(0)); std::string want; t.k->write_ec = boost::asio::error::connection_reset; if (pse_choose(2, "pieces")) t.k->seg = 1 + pse_choose(2, "seg"); if (pse_arg(2)) t.k->fail_byte = pse_choose(5, "fails"); bool failed = false;
    for (uint64_t k = 0; k < pse_arg(1); ++k) {
        std::string x = pse_string(pse_choose(4, "x"), "a"), y = pse_string(pse_choose(3, "y"), "c"); std::vector<boost::asio::const_buffer> v; v.push_back(boost::asio::buffer(x)); v.push_back(boost::asio::buffer(y)); Ec ec = boost::asio::error::timed_out; size_t g = 0, before = want.size(); ends = 0;
        if (pse_choose(2, "later")) { t.c->async_write(v, ended); pse_assert(ends == 0, "connection: a write is reported later"); while (t.s.poll_one()); pse_assert(ends == 1, "connection: a write is reported once"); ec = endEc; g = endN; pse_reach("later"); } else g = t.c->write(v, ec);
        want += x + y; through(*t.c, t.ssl);
        if (ec) { pse_assert(pse_arg(2) && !failed && ec == Ec(boost::asio::error::connection_reset) && g < x.size() + y.size(), "connection: only a write that fails tells an error"); pse_assert(pse_streq(t.k->out, want.substr(0, before + g)), "connection: what was taken is told"); want.resize(before + g); failed = true; pse_reach("failed"); }
        else { pse_assert(g == x.size() + y.size() && pse_streq(t.k->out, want), "connection: a write without error is complete and in order"); pse_reach("written"); }
    }
    pse_observe("out", want.size());
}
// opening, cancelling, closing. args: SSL
extern "C" void n_open() {
    boost::asio::io_service &s = *new boost::asio::io_service; int how = (int)pse_choose(4, "how"); connection_ptr c(new connection(s, pse_arg(0) != 0)); Sock &k = c->get_socket(); boost::asio::ip::address a(boost::asio::ip::address_v4(0x7f000001)); uint16_t port = pse_u16("port"); boost::asio::ip::tcp::acceptor ac(s); dials = 0; pse_assert(!c->is_open(), "connection: not open before it is opened");
    if (how == 0) { c->async_connect(a, port, dialled); pse_assert(dials == 0 && k.conn_pending && k.remote.port() == port && k.remote.address() == a, "connection: connects to the address given"); } else if (how == 1) { boost::asio::ip::tcp::endpoint e(a, port); c->async_connect(e, dialled); pse_assert(dials == 0 && k.conn_pending && k.remote.port() == port, "connection: connects to the address given"); } else if (how == 2) { c->async_accept(ac, dialled); pse_assert(dials == 0 && ac.pending && ac.target == &k, "connection: is what is accepted"); ac.complete_accept(); pse_assert(dials == 1 && !dialEc && c->is_open(), "connection: accepted"); } else { pse_assert(!c->accept(ac) && c->is_open(), "connection: accepted"); }
    if (how < 2) { k.conn_pending = false; k.open_ = true; }
    if (how < 2) pse_assert(c->get_remote_port() == port && c->get_remote_endpoint().port() == port && c->get_remote_ip() == a, "connection: tells the other side"); else if (pse_choose(2, "lost")) { k.lost = true; pse_assert(c->get_remote_port() == 0, "connection: tells nothing about the other side once it is lost"); pse_reach("lost"); }
    ends = 0; c->async_read_some(ended); int then = (int)pse_choose(3, "then"); if (then == 0) c->cancel(); else if (then == 1) c->close(); else c.reset(); while (s.poll_one()); if (then < 2) pse_assert(ends == 1 && endEc == Ec(boost::asio::error::operation_aborted), "connection: what it waits for ends when it is cancelled or closed"); if (then == 0) { pse_assert(c->is_open(), "connection: open after cancelling"); pse_reach("cancelled"); } if (then == 1) { pse_assert(!c->is_open() && c->get_remote_port() == 0, "connection: not open after closing"); c->close(); c->cancel(); pse_assert(!c->is_open(), "connection: closing twice is harmless"); pse_reach("closed"); } if (then == 2) pse_reach("gone");
    pse_observe("then", then);
}
