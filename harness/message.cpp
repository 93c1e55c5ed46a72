// HTTP messages as containers and on the wire: dictionaries, copies, keep-alive rules, writing and reading back.
#include "httpx.h"
#include "text.h"
#include <sstream>
#include <pion/tcp/connection.hpp>
using pion::tcp::connection;
// ---- case-insensitive multi-dictionaries
typedef std::vector<std::pair<std::string, std::string> > Ref;
static void ref_erase(Ref &r, const std::string &k) { Ref n; for (size_t i = 0; i < r.size(); ++i) if (!ieq(r[i].first, k)) n.push_back(r[i]); r = n; }
// args: key lengths a,b,c, which dictionary (0 headers, 1 cookies, 2 queries), operation (0 add, 1 change, 2 delete), value length, further entries stored first
extern "C" void m_dict() {
    size_t which = pse_arg(3), op = pse_arg(4), vl = pse_arg(5); request m; ihash_multimap &d = which == 0 ? m.get_headers() : which == 1 ? m.get_cookies() : m.get_queries(); Ref ref;
    const int N = 3 + pse_arg(6); std::string k[5], v[5]; for (int i = 0; i < N; ++i) { k[i] = pse_string(pse_arg(i < 3 ? i : 0), "k"); v[i] = pse_string(vl, "v"); for (size_t j = 0; j < k[i].size(); ++j) pse_assume((uint8_t)k[i][j] < 128); }
    for (int i = 0; i < N; ++i) {
        size_t o = i < N - 1 ? 0 : op;
        if (o == 0) { if (which == 0) m.add_header(k[i], v[i]); else if (which == 1) m.add_cookie(k[i], v[i]); else m.add_query(k[i], v[i]); ref.push_back(std::make_pair(k[i], v[i])); }
        else if (o == 1) { if (which == 0) m.change_header(k[i], v[i]); else if (which == 1) m.change_cookie(k[i], v[i]); else m.change_query(k[i], v[i]); ref_erase(ref, k[i]); ref.push_back(std::make_pair(k[i], v[i])); }
        else { if (which == 0) m.delete_header(k[i]); else if (which == 1) m.delete_cookie(k[i]); else m.delete_query(k[i]); ref_erase(ref, k[i]); } }
    pse_assert(d.size() == ref.size(), "dictionary: number of entries");
    for (size_t i = 0; i < ref.size(); ++i) { pse_assert(has_value(d, ref[i].first, ref[i].second), "dictionary: every value stored is found under its key"); size_t n = 0; for (size_t j = 0; j < ref.size(); ++j) n += ieq(ref[j].first, ref[i].first); pse_assert(d.count(ref[i].first) == n, "dictionary: no other value is"); }
    std::string probe = pse_string(pse_arg(0), "probe"); for (size_t j = 0; j < probe.size(); ++j) pse_assume((uint8_t)probe[j] < 128); size_t n = 0; bool val = false;
    const std::string &g = which == 0 ? m.get_header(probe) : which == 1 ? m.get_cookie(probe) : m.get_query(probe); bool has = which == 0 ? m.has_header(probe) : which == 1 ? m.has_cookie(probe) : m.has_query(probe);
    for (size_t j = 0; j < ref.size(); ++j) if (ieq(ref[j].first, probe)) { ++n; if (pse_streq(ref[j].second, g)) val = true; }
    pse_assert(has == (n > 0), "dictionary: a key is present exactly if a value is stored under it, whatever the case"); pse_assert(n ? val : g.empty(), "dictionary: lookup gives one of the stored values, or an empty string"); pse_reach(n ? "present" : "absent"); pse_observe("n", n); pse_observe("size", d.size());
}
extern "C" void m_hash() {
    std::string a = pse_string(pse_arg(0), "a"), b = pse_string(pse_arg(1), "b"); bool hi = false; for (size_t i = 0; i < a.size(); ++i) hi |= (uint8_t)a[i] > 127; for (size_t i = 0; i < b.size(); ++i) hi |= (uint8_t)b[i] > 127;
    ihash_multimap d; bool e = d.key_eq()(a, b); if (!hi) pse_assert(e == ieq(a, b), "dictionary: keys are equal exactly if they differ in letter case only");
    if (e) { pse_reach("equal"); pse_assert(d.hash_function()(a) == d.hash_function()(b), "dictionary: equal keys have equal hashes"); }
    pse_observe("e", e);
}
// ---- writing and reading back
static bool obs_text(const std::string &s) { bool r = true; for (size_t i = 0; i < s.size(); ++i) r &= !ctl(s[i]); return r; }
static const unsigned VERS[][2] = { { 1, 1 }, { 1, 0 }, { 2, 0 }, { 11, 345 } };
struct Wire { boost::asio::io_service s; connection c; Wire() : c(s) { c.get_socket().open_ = true; } boost::asio::ip::tcp::socket &k() { return c.get_socket(); } };
// args: request?, over a connection?, content length, header name/value lengths, version, headers only, keep alive
extern "C" void m_roundtrip() {
    bool req = pse_arg(0), conn = pse_arg(1), honly = pse_arg(6), keep = pse_arg(7); size_t cl = pse_arg(2); request q, q2; response a, a2; message &m = req ? (message &)q : (message &)a, &n = req ? (message &)q2 : (message &)a2; unsigned code = 0;
    std::string hn = token(pse_arg(3), "hn"), hv = pse_string(pse_arg(4), "hv"), content = pse_string(cl, "content"); for (size_t i = 0; i < hv.size(); ++i) pse_assume(!ctl(hv[i]) | (hv[i] == '\t'));
    if (req) { std::string me = token(2, "m"), p = text(2, "p"), qs = text(pse_arg(8), "q"); for (size_t i = 0; i < p.size(); ++i) pse_assume((p[i] != ' ') & (p[i] != '?')); for (size_t i = 0; i < qs.size(); ++i) pse_assume(qs[i] != ' '); q.get_first_line(); q.set_method(me); q.set_resource(p); q.set_query_string(qs); }
    else { std::string msg = text(pse_arg(8), "msg"); code = 100 + pse_choose(200, "code") * 4 + pse_arg(9); pse_assume(code <= 999); a.get_first_line(); a.set_status_code(code); a.set_status_message(msg); if (cl) pse_assume(!a.is_content_length_implied()); }
    m.get_first_line(); m.set_version_major(VERS[pse_arg(5)][0]); m.get_first_line(); m.set_version_minor(VERS[pse_arg(5)][1]); m.add_header(hn, hv); m.add_header(hn, "2nd"); if (req) q.set_content(content); else a.set_content(content);
    if (pse_arg(10)) m.add_header("Transfer-Encoding", "chunked"); // left over from a message received in chunks
    std::string wire; boost::system::error_code ec; std::size_t sent;
    if (conn) { Wire w; w.c.set_lifecycle(keep ? connection::LIFECYCLE_KEEPALIVE : connection::LIFECYCLE_CLOSE); sent = m.send(w.c, ec, honly); wire = w.k().out; } else { std::ostringstream o; sent = m.write(o, ec, honly); wire = o.str(); keep = true; }
    pse_assert(!ec && sent == wire.size(), "message: the number of bytes written is reported"); std::string tail = pse_string(1, "tail");
    std::size_t got; if (conn) { Wire w; w.k().in = wire + tail; got = n.receive(w.c, ec, honly); } else { std::istringstream i(wire + tail); got = n.read(i, ec, honly); }
    pse_assert(!ec, "message: a message written can be read back");
    if (req || !a.is_content_length_implied()) pse_assert(got == wire.size(), "message: exactly the bytes written are read back");
    pse_assert(n.is_valid() && n.get_version_major() == VERS[pse_arg(5)][0] && n.get_version_minor() == VERS[pse_arg(5)][1], "message: version survives"); if (!honly) pse_assert(pse_streq(body(n), content), "message: content survives");
    if (honly) { std::string t; size_t p = wire.size(); pse_assert(p >= 4 && pse_streq(wire.substr(p - 4), "\r\n\r\n"), "message: headers only means no content"); }
    if (req) pse_assert(pse_streq(q2.get_method(), q.get_method()) && pse_streq(q2.get_resource(), q.get_resource()) && pse_streq(q2.get_query_string(), q.get_query_string()), "message: request line survives"); else pse_assert(a2.get_status_code() == code && pse_streq(a2.get_status_message(), a.get_status_message()), "message: status line survives");
    pse_assert(has_value(n.get_headers(), hn, hv) && has_value(n.get_headers(), hn, "2nd"), "message: header lines survive"); pse_assert(n.get_headers().size() == 4 && n.get_headers().count("Content-Length") == 1 && n.get_headers().count("Connection") == 1, "message: only length and connection headers are added"); pse_assert(ieq(n.get_header("Connection"), keep ? "keep-alive" : "close"), "message: the connection header says what happens to the connection");
    pse_observe("sent", sent); pse_observe("got", got);
}
// a stream that takes only so many bytes. args: request?, content length
struct Narrow : std::streambuf { size_t room; std::string got; int_type overflow(int_type c) { if (!room) return traits_type::eof(); --room; got += (char)c; return c; } };
extern "C" void m_narrow() {
    bool req = pse_arg(0); request q; response a; message &m = req ? (message &)q : (message &)a; std::string b = pse_string(pse_arg(1), "b"); if (req) q.set_resource("/x"); if (b.size()) { if (req) q.set_content(b); else a.set_content(b); } m.add_header("X", "y"); std::ostringstream o; boost::system::error_code ec; std::size_t all = m.write(o, ec); pse_assert(!ec && all == o.str().size(), "message: the number of bytes written is reported");
    Narrow n; n.room = pse_choose((uint8_t)(all + 2), "room"); bool fits = n.room >= all; std::ostream t(&n); std::size_t sent = m.write(t, ec); pse_assert(!ec == fits, "message: a stream that fails is an error"); pse_assert(fits ? sent == all : sent <= n.got.size(), "message: no more bytes are reported than were written"); pse_assert(o.str().compare(0, n.got.size(), n.got) == 0, "message: the bytes written are the beginning of the message"); pse_reach(fits ? "fits" : "fails"); pse_observe("sent", sent);
}
// args: how (0 query string, 1 post content), lengths of name, value: parameters reach the other side
extern "C" void m_params() {
    request q, q2; std::string n1 = pse_string(pse_arg(1), "n"), v1 = pse_string(pse_arg(2), "v"); for (size_t i = 0; i < n1.size(); ++i) pse_assume(n1[i] != 0); for (size_t i = 0; i < v1.size(); ++i) pse_assume(v1[i] != 0); q.set_resource("/x"); q.add_query(n1, v1); q.add_query("k", "w"); if (pse_arg(0)) q.use_query_params_for_post_content(); else q.use_query_params_for_query_string();
    std::ostringstream o; boost::system::error_code ec; q.write(o, ec); std::istringstream i(o.str()); q2.read(i, ec); pse_assert(!ec, "message: a request with parameters can be read back"); pse_assert(pse_streq(q2.get_method(), pse_arg(0) ? "POST" : "GET") && pse_streq(q2.get_resource(), "/x"), "message: method and resource of a request with parameters");
    pse_assert(q2.get_queries().size() == 2 && has_value(q2.get_queries(), n1, v1) && has_value(q2.get_queries(), "k", "w"), "message: parameters reach the other side"); pse_observe("n", q2.get_queries().size());
}
// ---- copies
static void fill(message &m, request *q, response *a, const std::string &x, const std::string &content) {
    m.set_version_major(2); m.set_version_minor(3); m.add_header("H" + x, x); m.add_cookie("C" + x, x); m.set_content(content); m.set_is_valid(true); m.set_chunks_supported(true); m.set_status(message::STATUS_PARTIAL); m.set_missing_packets(true); m.set_data_after_missing_packet(true); m.get_chunk_cache().push_back('z'); m.set_remote_ip(boost::asio::ip::address_v4(7));
    if (q) { q->set_method("M" + x); q->set_resource("/r" + x); q->change_resource("/c" + x); q->set_query_string("q" + x); q->add_query("k", x); } else { a->set_status_code(404); a->set_status_message(x); }
    m.get_first_line(); }
static void is_filled(message &m, request *q, response *a, const std::string &x, const std::string &content) {
    pse_assert(m.get_version_major() == 2 && m.get_version_minor() == 3 && pse_streq(m.get_header("H" + x), x) && m.get_headers().size() == 1 && pse_streq(m.get_cookie("C" + x), x) && m.get_cookies().size() == 1, "copy: version, headers and cookies"); pse_assert(m.get_content_length() == content.size() && pse_streq(body(m), content) && m.get_content()[content.size()] == 0, "copy: content"); pse_assert(m.is_valid() && m.get_chunks_supported() && m.get_status() == message::STATUS_PARTIAL && m.has_missing_packets() && m.has_data_after_missing_packets() && m.get_chunk_cache().size() == 1 && m.get_remote_ip() == boost::asio::ip::address(boost::asio::ip::address_v4(7)), "copy: flags");
    if (q) pse_assert(pse_streq(q->get_method(), "M" + x) && pse_streq(q->get_resource(), "/c" + x) && pse_streq(q->get_original_resource(), "/r" + x) && pse_streq(q->get_query_string(), "q" + x) && pse_streq(q->get_query("k"), x) && pse_streq(q->get_first_line(), "M" + x + " /c" + x + "?q" + x + " HTTP/2.3"), "copy: request line"); else pse_assert(a->get_status_code() == 404 && pse_streq(a->get_status_message(), x) && pse_streq(a->get_first_line(), "HTTP/2.3 404 " + x), "copy: status line"); }
static void wreck(message &m, request *q, response *a) { m.set_version_major(9); m.change_header("Ha", "wreck"); m.delete_header("Ha"); m.add_header("Other", "wreck"); m.get_headers().begin()->second = "wreck"; m.get_cookies().clear(); if (m.get_content_length()) m.get_content()[0] ^= 1; m.set_content("wreckage"); m.set_is_valid(false); m.get_chunk_cache().clear(); m.set_missing_packets(false); m.set_data_after_missing_packet(false); m.set_chunks_supported(false); m.set_status(message::STATUS_NONE); if (q) { q->set_method("W"); q->set_resource("/w"); q->get_queries().clear(); q->set_query_string(""); } else { a->set_status_code(1); a->set_status_message("w"); } }
// args: request?, how (0 construct, 1 assign to fresh, 2 assign over other content, 3 self, 4 clear), content length
extern "C" void m_copy() {
    bool req = pse_arg(0); size_t how = pse_arg(1); std::string x = pse_string(1, "x"), content = pse_string(pse_arg(2), "content"); request q; response a; message &m = req ? (message &)q : (message &)a; fill(m, req ? &q : 0, req ? 0 : &a, x, content);
    if (how == 0) { if (req) { request c(q); wreck(q, &q, 0); is_filled(c, &c, 0, x, content); } else { response c(a); wreck(a, 0, &a); is_filled(c, 0, &c, x, content); } }
    else if (how <= 2) { request c; response d; if (how == 2) { fill(c, &c, 0, "old", "old content"); fill(d, 0, &d, "old", "old content"); c.set_do_not_send_content_length(); } if (req) { c = q; wreck(q, &q, 0); is_filled(c, &c, 0, x, content); } else { d = a; wreck(a, 0, &a); is_filled(d, 0, &d, x, content); } }
    else if (how == 3) { if (req) { q = q; is_filled(q, &q, 0, x, content); } else { a = a; is_filled(a, 0, &a, x, content); } }
    else { m.set_do_not_send_content_length(); m.clear(); pse_assert(m.get_version_major() == 1 && m.get_version_minor() == 1 && m.get_headers().empty() && m.get_cookies().empty() && m.get_content_length() == 0 && m.get_content()[0] == 0 && !m.is_valid() && !m.is_chunked() && !m.get_chunks_supported() && m.get_status() == message::STATUS_NONE && !m.has_missing_packets() && !m.has_data_after_missing_packets() && m.get_chunk_cache().empty() && m.get_remote_ip() == boost::asio::ip::address(boost::asio::ip::address_v4(0)), "clear: nothing of the old message remains");
        if (req) pse_assert(q.get_method().empty() && q.get_resource().empty() && q.get_original_resource().empty() && q.get_query_string().empty() && q.get_queries().empty() && !q.get_user(), "clear: nothing of the old request remains"); else pse_assert(a.get_status_code() == 200 && pse_streq(a.get_status_message(), "OK") && !a.is_content_length_implied() && pse_streq(a.get_first_line(), "HTTP/1.1 200 OK"), "clear: nothing of the old response remains");
        if (req) { q.set_method("M"); q.set_resource("/r"); pse_assert(pse_streq(q.get_first_line(), "M /r HTTP/1.1"), "clear: the first line is rebuilt"); } std::ostringstream o; boost::system::error_code ec; m.write(o, ec); pse_assert(m.has_header("Content-Length"), "clear: the length is sent again"); }
    pse_observe("how", how);
}
// args: request?, how (0 construct, 1 assign to fresh, 2 assign over one with the opposite settings, 3 self, 4 clear): every setting that changes what a message does is copied, each on its own
struct Settings { bool nolen, missing, after, chunks, valid, head; };
static void set(message &m, request *q, response *a, const Settings &s, boost::shared_ptr<pion::user> u) { if (s.nolen) m.set_do_not_send_content_length(); m.set_missing_packets(s.missing); m.set_data_after_missing_packet(s.after); m.set_chunks_supported(s.chunks); m.set_is_valid(s.valid); if (q && s.head) q->set_user(u); if (a && s.head) { request h; h.set_method("HEAD"); a->update_request_info(h); m.set_chunks_supported(s.chunks); } }
static void has(message &m, request *q, response *a, const Settings &s, boost::shared_ptr<pion::user> u) {
    pse_assert(m.has_missing_packets() == s.missing && m.has_data_after_missing_packets() == s.after && m.get_chunks_supported() == s.chunks && m.is_valid() == s.valid, "copy: each flag is copied"); if (q) pse_assert(q->get_user() == (s.head ? u : boost::shared_ptr<pion::user>()), "copy: the user of the request"); if (a) pse_assert(a->is_content_length_implied() == s.head, "copy: the response belongs to the same request");
    std::ostringstream o; boost::system::error_code ec; m.write(o, ec); bool sent = o.str().find("Content-Length") != std::string::npos; pse_assert(sent == (!s.nolen && !(a && s.head)) || (a && s.head), "copy: whether the length is sent"); }
extern "C" void m_copy2() {
    bool req = pse_arg(0); size_t how = pse_arg(1); uint8_t b = pse_choose(64, "settings"); Settings s = { !!(b & 1), !!(b & 2), !!(b & 4), !!(b & 8), !!(b & 16), !!(b & 32) }, t = { false, !s.missing, !s.after, !s.chunks, !s.valid, !s.head }, none = { false, false, false, false, false, false }; boost::shared_ptr<pion::user> u(new pion::user("u")), other(new pion::user("v")); request q, q2; response a, a2; message &m = req ? (message &)q : (message &)a, &n = req ? (message &)q2 : (message &)a2; request *pq = req ? &q : 0, *pq2 = req ? &q2 : 0; response *pa = req ? 0 : &a, *pa2 = req ? 0 : &a2; set(m, pq, pa, s, u);
    if (how == 0) { if (req) { request c(q); has(c, &c, 0, s, u); } else { response c(a); has(c, 0, &c, s, u); } } else if (how <= 2) { if (how == 2) set(n, pq2, pa2, t, other); if (req) q2 = q; else a2 = a; has(n, pq2, pa2, s, u); } else if (how == 3) { if (req) { request &r = q; q = r; } else { response &r = a; a = r; } } else { m.clear(); has(m, pq, pa, none, u); }
    if (how < 4) has(m, pq, pa, s, u); pse_observe("b", b);
}
// ---- rules over all versions, codes and header texts
extern "C" void m_keepalive() {
    uint16_t ma = pse_u16("ma"), mi = pse_u16("mi"); std::string h = pse_string(pse_arg(0), "h"); for (size_t i = 0; i < h.size(); ++i) pse_assume((uint8_t)h[i] < 128); request q; q.set_version_major(ma); q.set_version_minor(mi); if (pse_arg(1)) q.add_header("connection", h);
    bool want = (ma > 1) | ((ma == 1) & (mi >= 1)); if (pse_arg(1) && ieq(h, "close")) { want = false; pse_reach("close"); } pse_assert(q.check_keep_alive() == want, "keep-alive: from HTTP/1.1 on and unless the connection header says close"); pse_observe("want", want);
}
extern "C" void m_implied() {
    uint32_t code = pse_u32("code"); std::string me = pse_string(pse_arg(0), "me"); uint16_t ma = pse_u16("ma"), mi = pse_u16("mi"); request q; q.set_method(me); q.set_version_major(ma); q.set_version_minor(mi); pse_assert(!q.is_content_length_implied(), "implied: a request's length never is");
    response a(q); if (ma == 0) { pse_reach("simple"); pse_assert(a.get_status_code() == 0 && a.get_status_message().empty() && a.get_version_major() == 0 && a.get_version_minor() == 0, "implied: the response to a simple request is one"); } else pse_assert(a.get_status_code() == 200 && a.get_version_major() == 1 && a.get_version_minor() == 1, "implied: a response starts as 200, HTTP/1.1"); pse_assert(a.get_chunks_supported() == ((ma == 1) & (mi >= 1)), "implied: chunks are supported by HTTP/1.1 and later 1.x requests");
    a.set_status_code(code); bool want = pse_streq(me, "HEAD") || (code / 100 == 1) || code == 204 || code == 205 || code == 304; pse_assert(a.is_content_length_implied() == want, "implied: HEAD, 1xx, 204, 205 and 304 responses have no content"); pse_reach(want ? "none" : "content"); pse_observe("want", want);
}
// ---- receiving from a connection
static const char *MSG[] = { "POST /a HTTP/1.1\r\nContent-Length: 2\r\n\r\n~~", "GET /b?~ HTTP/1.1\r\nX: ~\r\nCookie: k=1\r\n\r\n", "POST /c HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n2\r\n~~\r\n0\r\n\r\n", "GET /d HTTP/1.0\r\n\r\n", "GET /e HTTP/1.1\r\nConnection: close\r\n\r\n", "PUT /f HTTP/1.1\r\nConnection: cLose\r\nContent-Length: 1\r\n\r\n~" };
static const bool KEEP[] = { true, true, true, false, false, false };
static const bool EXACT[] = { true, true, true, true, true, true };
static std::string sane(const char *t) { std::string s = t; for (size_t i = 0; i < s.size(); ++i) if (s[i] == '~') { uint8_t c = pse_u8("b"); pse_assume(!ctl(c) & (c != ' ')); s[i] = (char)c; } return s; }
static std::string path_of(size_t k) { return std::string("/") + (char)('a' + k); }
// args: first message, second message, split of the first segment (0: at an arbitrary place): what follows a message stays available for the next
extern "C" void m_pipeline() {
    size_t k1 = pse_arg(0), k2 = pse_arg(1); std::string s1 = sane(MSG[k1]), s2 = sane(MSG[k2]), s = s1 + s2; Wire w; w.k().in = s; size_t cut = pse_arg(2) == 0 ? s.size() : 1 + pse_choose((uint8_t)(s.size() - 1), "cut"); w.k().chunks.push_back(cut); if (pse_arg(2) == 2) w.k().chunks.push_back(1 + pse_choose(4, "cut2"));
    request r1, r2; boost::system::error_code ec; std::size_t n = r1.receive(w.c, ec); pse_assert(!ec && r1.is_valid() && n == s1.size() && pse_streq(r1.get_resource(), path_of(k1)), "receive: the first message is delivered, and only its bytes are counted");
    bool more = w.k().in_pos > s1.size(); if (!KEEP[k1]) pse_assert(w.c.get_lifecycle() == connection::LIFECYCLE_CLOSE, "receive: a message that ends the connection"); else pse_assert(w.c.get_lifecycle() == (more ? connection::LIFECYCLE_PIPELINED : connection::LIFECYCLE_KEEPALIVE), "receive: the connection stays open, pipelined if bytes follow");
    { request c1; Run u(true); u.feed(c1, s1); same_msg(r1, c1, true); }
    if (KEEP[k1]) { request &q = pse_choose(2, "same") ? r1 : r2; pse_reach(more ? "pipelined" : "kept"); n = q.receive(w.c, ec); pse_assert(!ec && q.is_valid() && n == s2.size() && pse_streq(q.get_resource(), path_of(k2)), "receive: the next message is delivered from the bytes left over and what follows");
        request c2; Run u(true); u.feed(c2, s2); same_msg(q, c2, true); pse_assert(w.c.get_lifecycle() == (KEEP[k2] ? connection::LIFECYCLE_KEEPALIVE : connection::LIFECYCLE_CLOSE), "receive: lifecycle after the last message"); pse_assert(w.k().in_pos == s.size(), "receive: all bytes were read"); }
    pse_observe("life", w.c.get_lifecycle()); pse_observe("n", n);
}
// args: message, read error (0 eof, 1 reset): a message cut short is an error
extern "C" void m_cut() {
    size_t k = pse_arg(0); std::string s = sane(MSG[k]); size_t cut = pse_choose((uint8_t)s.size(), "cut"); Wire w; w.k().in = s.substr(0, cut); boost::system::error_code ee = pse_arg(1) ? boost::system::error_code(boost::asio::error::connection_reset) : boost::system::error_code(boost::asio::error::eof); w.k().end_ec = ee; w.k().chunks.push_back(1 + pse_choose(3, "c")); request r; r.set_resource("/old"); r.set_content("old"); boost::system::error_code ec; std::size_t n = r.receive(w.c, ec);
    pse_assert(ec == ee && !r.is_valid() && n == cut, "receive: a message cut short is reported as the error that cut it, and is not valid"); pse_assert(!pse_streq(r.get_resource(), "/old") && r.get_headers().count("Old") == 0, "receive: nothing of the previous message remains"); std::istringstream i(s.substr(0, cut)); request r2; n = r2.read(i, ec); pse_assert(!!ec && !r2.is_valid() && n == cut, "read: a message cut short is an error"); pse_observe("n", n);
}
// response without a length: everything until the close. args: bytes, 1: a reset, 2: an aborted read instead of the close
extern "C" void m_close() {
    std::string b = pse_string(pse_arg(0), "b"), s = "HTTP/1.1 200 OK\r\nX: y\r\n\r\n" + b; Wire w; w.k().in = s; w.k().chunks.push_back(1 + pse_choose((uint8_t)(s.size() - 1), "cut")); response a; boost::system::error_code ec; w.c.set_lifecycle(connection::LIFECYCLE_KEEPALIVE); if (pse_arg(1)) w.k().end_ec = pse_arg(1) == 1 ? boost::asio::error::connection_reset : boost::asio::error::operation_aborted; std::size_t n = a.receive(w.c, ec);
    if (pse_arg(1)) { pse_assert(ec == w.k().end_ec && n == s.size() && !a.is_valid(), "receive: content that a failure cuts short is not complete"); return; }
    pse_assert(!ec && a.is_valid() && n == s.size() && pse_streq(body(a), b), "receive: without a length the content is everything until the close"); pse_assert(w.c.get_lifecycle() == connection::LIFECYCLE_CLOSE, "receive: then the connection is finished"); std::istringstream i(s); response c; n = c.read(i, ec); pse_assert(!ec && n == s.size() && pse_streq(body(c), b), "read: without a length the content is everything until the end"); pse_observe("n", n);
}
// content limit of receive()
extern "C" void m_limit() {
    size_t len = pse_arg(0), lim = pse_arg(1); std::string b = pse_string(len, "b"), s = "POST / HTTP/1.1\r\nContent-Length: " + std::string(1, (char)('0' + len)) + "\r\n\r\n" + b; Wire w; w.k().in = s + "G"; request r; boost::system::error_code ec; r.receive(w.c, ec, false, lim); pse_assert(!ec && r.is_valid() && pse_streq(body(r), b.substr(0, lim)), "receive: content beyond the limit is dropped"); pse_assert(w.c.get_lifecycle() == connection::LIFECYCLE_PIPELINED, "receive: the next message starts after the dropped content"); const char *a, *e; w.c.load_read_pos(a, e); pse_assert(e == a + 1 && *a == 'G', "receive: read position"); pse_observe("n", r.get_content_length());
}
// response to a HEAD request announces a length but has no content
extern "C" void m_head() { request q; q.set_method("HEAD"); response a(q); Wire w; w.k().in = "HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\n"; boost::system::error_code ec; a.receive(w.c, ec); pse_assert(!ec && a.is_valid(), "receive: the response to a HEAD request ends with its headers"); pse_observe("ec", ec.value()); }
