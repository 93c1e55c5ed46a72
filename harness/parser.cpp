// The HTTP message parser: safety, segmentation, byte accounting.
#include "httpx.h"
// request / response texts that drive the parser into each of its states; '~' is an arbitrary byte
static const char *REQ[] = {
    "~~~", "G~~ / HTTP/1.1\r\n\r\n", "GET ~~~", "GET /a~~ HTTP/1.1\r\n\r\n", "GET /?~~~ HTTP/1.1\r\n\r\n", "GET / ~~\r\n\r\n", "GET / H~~P/1.1\r\n\r\n", "GET / HTT~~1.1\r\n\r\n", "GET / HTTP/~~~\r\n\r\n", "GET / HTTP/1.1~~~",
    "GET / HTTP/1.1\r~~~", "GET / HTTP/1.1\n~~~", "GET / HTTP/1.1\r\n~~~: a\r\n\r\n", "GET / HTTP/1.1\r\n ~~b: c\r\n\r\n", "GET / HTTP/1.1\r\na~~~ b\r\n\r\n", "GET / HTTP/1.1\r\na:~~~\r\n\r\n", "GET / HTTP/1.1\r\na: b~~~", "GET / HTTP/1.1\r\na: b\r\n\r~~", "GET / HTTP/1.1\r\na: b\n\n~~", "GET / HTTP/1.1\r\na: b\n\r\n~~",
    "POST / HTTP/1.1\r\nContent-Length:^^\r\n\r\nabcd", "POST / HTTP/1.1\r\nContent-Length: 3\r\n\r\n~~~~", "POST / HTTP/1.1\r\nContent-Length: 5\r\nContent-Type: application/x-www-form-urlencoded\r\n\r\na~~~b", "GET / HTTP/1.1\r\nCookie: ~~~\r\n\r\n",
    "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n^~\r\nab\r\n0\r\n\r\n", "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n2^~\nab\r\n0\r\n\r\n", "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n2\r~~ab\r\n0\r\n\r\n", "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n2\r\n~~~\n0\r\n\r\n", "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n2\r\nab\r~~\r\n\r\n", "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n0\r\n~~~", "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n2\r\nab\r\n0\r\nf:~~\r\n\r\n", "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n1;~~\r\nx\r\n0\r\n\r\n",
    "POST / HTTP/1.1\r\n~ransfer-Encoding: chunke~\r\nContent-Length: 1\r\n\r\n0\r\n\r\n", "POST / HTTP/1.1\r\nTransfer-Encoding: ~hunked~\r\nContent-Length: 1\r\n\r\n0\r\n\r\n",
    "POST / HTTP/1.1\r\nContent-Length: 41\r\nContent-Type: multipart/form-data; boundary=x\r\n\r\n--x\r\nContent-Disposition: name=\"q\"\r\n\r\n~~~", "GET /~?~=~ HTTP/1.~\r\n\r\nG" };
static const char *RES[] = {
    "~~~", "HTTP/~~~ 200 OK\r\n\r\n", "HTTP/1.1~~~", "HTTP/1.1 ~~~ OK\r\n\r\nab", "HTTP/1.1 20~~ \r\n\r\nab", "HTTP/1.1 200 ~~~", "HTTP/1.1 200 OK\r~~~", "HTTP/1.1 200 OK\n~~~", "HTTP/1.1 2~~\r\nContent-Length: 2\r\n\r\nabcd", "HTTP/1.1 200 OK\r\nContent-Length:1^\r\n\r\nabc",
    "HTTP/1.1 200 OK\r\nSet-Cookie: ~~~\r\nContent-Length: 0\r\n\r\n", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n1\r\n~\r\n^\r\n\r\n", "HTTP/1.1 200 OK\r\n\r\n~~~", "HTTP/1.0 200 OK\r\nContent-Length: 1^\r\n\r\na~b", "HTTP/1.1 ~04 x\r\n\r\nHTTP" };
static std::string text(bool req) { size_t i = pse_arg(1); return hole(req ? REQ[i] : RES[i]); }
static size_t limit() { size_t l = pse_arg(2); return l ? l - 1 : 1024 * 1024; }

// args: request?, template, limit+1 (0: default).  Any text, whole: safety, totality, honest reporting; then the connection
// closes and the message is finished: its content is readable
extern "C" void p_safe() {
    bool req = pse_arg(0); std::string s = text(req); request q; response a; message &m = req ? (message &)q : (message &)a; Run r(req, limit());
    r.feed(m, s); pse_reach(r.rc == 0 ? "error" : r.rc == 1 ? "done" : "more");
    if (r.rc == 2 && r.p.check_premature_eof(m)) r.p.finish(m);
    if (r.rc != 0) { uint8_t x = 0; for (size_t i = 0; i < m.get_content_length(); ++i) x ^= (uint8_t)m.get_content()[i]; if (r.rc == 1) pse_assert(m.get_content()[m.get_content_length()] == 0, "http: content is zero terminated"); pse_observe("x", x); pse_assert(m.get_content_length() <= limit(), "http: stored content never exceeds the limit"); }
    obs_msg(m, r);
}
// the same text one byte at a time: every byte boundary is a segment boundary
extern "C" void p_bytes() {
    bool req = pse_arg(0); std::string s = text(req); request q, q2; response a, a2; message &m = req ? (message &)q : (message &)a, &n = req ? (message &)q2 : (message &)a2; Run r(req, limit()), w(req, limit());
    w.feed(n, s); for (size_t i = 0; i < s.size() && r.rc == 2; ++i) r.feed(m, s.substr(i, 1));
    pse_assert(r.rc == w.rc, "http: same result however the bytes are segmented"); pse_assert(r.ec == w.ec, "http: same error however the bytes are segmented"); pse_assert(r.consumed == w.consumed, "http: same bytes consumed however the bytes are segmented");
    if (r.rc == 2) { bool x = r.p.check_premature_eof(m), y = w.p.check_premature_eof(n); pse_assert(x == y, "http: same end-of-stream verdict"); if (x) { r.p.finish(m); w.p.finish(n); } }
    if (r.rc != 0) same_msg(m, n, req); obs_msg(m, r);
}
// args: request?, template, limit.  one split at an arbitrary position, with a payload handler on both sides
extern "C" void p_split() {
    bool req = pse_arg(0); std::string s = text(req); request q, q2; response a, a2; message &m = req ? (message &)q : (message &)a, &n = req ? (message &)q2 : (message &)a2; Run r(req, limit()), w(req, limit()); Sink s1, s2;
    if (pse_arg(3)) { parser::payload_handler_t h1 = boost::bind(&Sink::take, &s1, _1, _2), h2 = boost::bind(&Sink::take, &s2, _1, _2); r.p.set_payload_handler(h1); w.p.set_payload_handler(h2); }
    w.feed(n, s); size_t k = pse_choose((uint8_t)(s.size() - 1), "split") + 1; r.feed(m, s.substr(0, k)); r.feed(m, s.substr(k));
    pse_assert(r.rc == w.rc, "http: same result however the bytes are segmented"); pse_assert(r.ec == w.ec, "http: same error however the bytes are segmented"); pse_assert(r.consumed == w.consumed, "http: same bytes consumed however the bytes are segmented");
    if (r.rc == 2 && !pse_arg(3)) { bool x = r.p.check_premature_eof(m), y = w.p.check_premature_eof(n); pse_assert(x == y, "http: same end-of-stream verdict"); if (x) { r.p.finish(m); w.p.finish(n); } }
    if (r.rc != 0) { pse_assert(pse_streq(s1.got, s2.got), "http: the payload handler sees the same bytes however they are segmented"); if (!pse_arg(3) || r.rc == 1) { if (!pse_arg(3)) same_msg(m, n, req); } }
    obs_msg(m, r);
}
// args: request?, template.  a reset parser behaves as a new one
extern "C" void p_reset() {
    bool req = pse_arg(0); static const char *first[] = { "GET /zz?q=1 HTTP/1.0\r\nA: b\r\nContent-Length: 4\r\n\r\nab", "POST /zz?q=1 HTTP/1.0\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nab", "GE", "GET /x?y HTTP/1.1\r\nFoo: b", "G\x01" }; static const char *firstr[] = { "HTTP/1.0 404 zz\r\nContent-Length: 4\r\n\r\nab", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nab", "HT", "HTTP/1.1 204 No\r\nFoo: b", "HTTP/1.1 200 OK\r\n\r\nabc" };
    std::string s = text(req); request q0, q, q2; response a0, a, a2; message &m0 = req ? (message &)q0 : (message &)a0, &m = req ? (message &)q : (message &)a, &n = req ? (message &)q2 : (message &)a2; Run r(req), w(req);
    r.feed(m0, req ? first[pse_arg(3)] : firstr[pse_arg(3)]); r.p.reset(); r.rc = 2; r.consumed = 0; r.ec.clear();
    r.feed(m, s); w.feed(n, s); pse_assert(r.rc == w.rc && r.ec == w.ec && r.consumed == w.consumed, "http: a reset parser gives the result of a new one");
    if (r.rc == 2) { bool x = r.p.check_premature_eof(m), y = w.p.check_premature_eof(n); pse_assert(x == y, "http: same end-of-stream verdict"); if (x) { r.p.finish(m); w.p.finish(n); } }
    if (r.rc != 0) same_msg(m, n, req); pse_assert(r.p.get_content_bytes_read() == w.p.get_content_bytes_read(), "http: same content bytes read"); obs_msg(m, r);
}
