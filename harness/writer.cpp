// Response and request writers: whatever is written arrives as exactly that content.
#include "httpx.h"
#include "text.h"
#include <pion/http/response_writer.hpp>
#include <pion/http/request_writer.hpp>
#include <pion/tcp/connection.hpp>
using pion::tcp::connection; using pion::tcp::connection_ptr; using namespace pion::http;
struct Done { int n; boost::system::error_code ec; Done() : n(0) {} void call(const boost::system::error_code &e) { ++n; ec = e; } void call2(const boost::system::error_code &e, std::size_t) { ++n; ec = e; } };
static std::string kept[4]; static int nkept;
// one write of the given kind; returns what it adds
template <class W> static std::string put(W &w, size_t kind, size_t len) {
    std::string s = pse_string(len, "c");
    switch (kind) {
    case 0: { std::string t = s; w->write(t); for (size_t i = 0; i < t.size(); ++i) t[i] ^= 1; break; }
    case 1: { char *p = new char[len + 1]; memcpy(p, s.data(), len); w->write((const void *)p, len); for (size_t i = 0; i < len; ++i) p[i] ^= 1; delete[] p; break; }
    case 2: { std::string &t = kept[nkept++]; t = s; w->write_no_copy(t); break; }
    case 3: { std::string &t = kept[nkept++]; t = s; w->write_no_copy((void *)t.data(), len); break; }
    case 4: w->write('x'); w->write(12); s = "x12"; break;
    case 5: w << "a" << s; s = "a" + s; break; }
    return s; }
static size_t any(int i, const char *n) { return pse_arg(i) == 9 ? pse_choose(6, n) : pse_arg(i); }
static void life(connection &c, bool keep) { c.set_lifecycle(keep ? connection::LIFECYCLE_KEEPALIVE : connection::LIFECYCLE_CLOSE); }
// args: kinds of three writes (9: any), length, mode (0 one message, 1 chunks, 2 single final chunk), request version minor or major*10, HEAD?, keep alive, status
extern "C" void w_response() {
    size_t len = pse_arg(3), mode = pse_arg(4); unsigned v = pse_arg(5); bool head = pse_arg(6), keep = pse_arg(7); boost::asio::io_service io; connection_ptr c(new connection(io)); c->get_socket().open_ = true; life(*c, keep); Done done;
    request q("/"); q.set_method(head ? "HEAD" : "GET"); q.set_version_major(v / 10); q.set_version_minor(v % 10); bool chunks = v / 10 == 1 && v % 10 >= 1; std::string want; nkept = 0;
    { response_writer_ptr w; std::string pre; if (pse_arg(9)) { response_ptr a(new response(q)); pre = pse_string(pse_arg(9), "pre"); a->set_content(pre); w = response_writer::create(c, a, boost::bind(&Done::call, &done, _1)); want = pre; } else w = response_writer::create(c, q, boost::bind(&Done::call, &done, _1));
      if (pse_arg(8)) w->get_response().set_status_code(pse_arg(8)); size_t k0 = any(0, "k0"), k1 = any(1, "k1");
      std::string a = put(w, k0, len), b, d; if (mode == 0) { b = put(w, k1, len ? len - 1 : 1); d = put(w, any(2, "k2"), 1); pse_assert(w->get_content_length() <= (want + a + b + d).size(), "writer: length counted"); w->send(); io.poll(); }
      else if (mode == 1) { Done step; w->send_chunk(boost::bind(&Done::call2, &step, _1, _2)); io.poll(); pse_assert(step.n == 1 && !step.ec && done.n == 0, "writer: the chunk's handler is called once"); w->clear(); pse_assert(w->get_content_length() == 0, "writer: clear empties the content"); b = put(w, k1, 1); w->send_chunk(boost::bind(&Done::call2, &step, _1, _2)); io.poll(); pse_assert(step.n == 2, "writer: the next chunk's handler too"); w->clear(); d = put(w, any(2, "k2"), len); w->send_final_chunk(); io.poll(); }
      else { b = put(w, k1, 1); w->send_final_chunk(); io.poll(); }
      want += a + b + d; }
    pse_assert(done.n == 1 && !done.ec, "writer: the finished handler is called exactly once"); std::string wire = c->get_socket().out; bool frame = mode == 0 || chunks, implied = head || pse_arg(8) == 204 || pse_arg(8) == 304; if (!frame) keep = false;
    pse_assert(c->get_keep_alive() == keep, "writer: content without an end closes the connection, nothing else does");
    if (implied) { pse_assert(wire.find("\r\n\r\n") == wire.size() - 4, "writer: a response that may not have content ends with its headers"); pse_assert(wire.find(keep ? "Connection: Keep-Alive\r\n" : "Connection: close\r\n") != std::string::npos, "writer: the connection header is true"); pse_observe("n", wire.size()); return; }
    response r(q); Run u(false); u.feed(r, wire + (frame ? "~" : ""));
    if (frame) pse_assert(u.rc == 1 && u.consumed == wire.size(), "writer: the message ends where its bytes end"); else pse_assert(u.rc == 2 && !u.p.check_premature_eof(r), "writer: content without chunk support ends with the connection");
    pse_assert(pse_streq(body(r), want), "writer: the content arrives, complete and in order"); pse_assert(r.get_headers().count("Connection") == 1 && ieq(r.get_header("Connection"), keep ? "keep-alive" : "close"), "writer: the connection header is true"); pse_assert(r.is_chunked() == (mode != 0 && chunks) && r.has_header("Content-Length") == (mode == 0), "writer: exactly one framing is announced");
    pse_observe_str("body", body(r)); pse_observe("n", wire.size());
}
// args: kinds of two writes, length, mode, preset content length
extern "C" void w_request() {
    size_t len = pse_arg(2), mode = pse_arg(3); boost::asio::io_service io; connection_ptr c(new connection(io)); c->get_socket().open_ = true; life(*c, true); Done done; request_ptr q(new request("/r")); q->set_method("POST"); std::string pre = pse_string(pse_arg(4), "pre"), want; if (pse_arg(4)) q->set_content(pre); if (mode) q->set_chunks_supported(true); nkept = 0;
    { request_writer_ptr w = request_writer::create(c, q, boost::bind(&Done::call, &done, _1)); want = pre; size_t k0 = any(0, "k0"), k1 = any(1, "k1"); want += put(w, k0, len); if (mode == 0) { want += put(w, k1, 1); w->send(); io.poll(); pse_assert(done.n == 1, "writer: finished once"); } else { w->send_chunk(boost::bind(&Done::call2, &done, _1, _2)); io.poll(); w->clear(); want += put(w, k1, 1); w->send_final_chunk(); io.poll(); pse_assert(done.n == 2, "writer: both handlers are called once"); } }
    std::string wire = c->get_socket().out; request r; Run u(true); u.feed(r, wire + "~"); pse_assert(u.rc == 1 && u.consumed == wire.size(), "writer: the request ends where its bytes end"); pse_assert(pse_streq(body(r), want) && pse_streq(r.get_method(), "POST") && pse_streq(r.get_resource(), "/r"), "writer: the request arrives, complete and in order"); pse_observe_str("body", body(r)); pse_observe("n", wire.size());
}
// args: size of the large piece: 0..5, chunks?, request?
static char *big; static std::string bigs;
extern "C" void w_large() {
    static const size_t N[] = { 255, 256, 4095, 4096, 65535, 65536, 65537, 1048577 }; size_t n = N[pse_arg(0)]; bool chunks = pse_arg(1); big = new char[n]; memset(big, 'y', n); big[0] = (char)pse_u8("c"); big[n - 1] = (char)pse_u8("d"); boost::asio::io_service io; connection_ptr c(new connection(io)); c->get_socket().open_ = true; life(*c, true); Done done; request q("/"); std::string wire;
    { response_writer_ptr w = response_writer::create(c, q, boost::bind(&Done::call, &done, _1)); w->write_no_copy(big, n); if (chunks) { w->send_chunk(boost::bind(&Done::call2, &done, _1, _2)); io.poll(); w->clear(); w << "z"; w->send_final_chunk(); } else { w << "z"; w->send(); } io.poll(); } wire = c->get_socket().out;
    size_t h = wire.find("\r\n\r\n"); pse_assert(h != std::string::npos, "writer: one header block"); if (h == std::string::npos) return; h += 4; char t[64]; sprintf(t, chunks ? "%lx\r\n" : "Content-Length: %lu\r\n", (unsigned long)(n + !chunks)); std::string len = t;
    if (chunks) { pse_assert(wire.compare(h, len.size(), len) == 0 || wire.compare(h, len.size() + 1, "0" + len) == 0, "writer: a large chunk has its size in front"); h = wire.find("\r\n", h) + 2; } else pse_assert(wire.find(len) < h, "writer: the length of large content is announced"); pse_assert(wire.size() >= h + n && pse_memeq(wire.data() + h, big, n), "writer: large content arrives, complete"); pse_assert(wire.substr(h + n) == (chunks ? "\r\n1\r\nz\r\n0\r\n\r\n" : "z"), "writer: what follows large content follows it"); pse_observe("n", wire.size());
}
// args: response?, 0 connection lost before sending, 1 error while sending
extern "C" void w_error() {
    boost::asio::io_service io; connection_ptr c(new connection(io)); Done done, step; request q("/"); if (pse_arg(1)) { c->get_socket().open_ = true; c->get_socket().fail_after = 0; c->get_socket().write_ec = boost::system::error_code(boost::asio::error::broken_pipe); }
    if (pse_arg(0)) { response_writer_ptr w = response_writer::create(c, q, boost::bind(&Done::call, &done, _1)); w << "text"; w->send(); io.poll(); } else { request_writer_ptr w = request_writer::create(c, boost::bind(&Done::call, &done, _1)); w << "text"; w->send(); io.poll(); }
    pse_assert(done.n == 1 && done.ec == (pse_arg(1) ? boost::system::error_code(boost::asio::error::broken_pipe) : boost::system::error_code(boost::asio::error::connection_reset)), "writer: a lost connection is reported once, as the error it is"); pse_assert(c->get_socket().out.empty(), "writer: nothing is sent"); pse_observe("n", done.n);
}
// memory: writing, sending and clearing does not accumulate
extern "C" void w_leak() {
    boost::asio::io_service io; connection_ptr c(new connection(io)); c->get_socket().open_ = true; request q("/"); Done step; c->get_socket().out.reserve(4096); c->get_socket().writes.reserve(64); response_writer_ptr w = response_writer::create(c, q); uint64_t h[4];
    for (int i = 0; i < 4; ++i) { char b[3]; pse_symbolic(b, 3, "b"); w->write((const void *)b, 3); w << "t"; w->send_chunk(boost::bind(&Done::call2, &step, _1, _2)); io.poll(); w->clear(); h[i] = pse_live_heap(); }
    if (pse_symbolic_run()) pse_assert(h[3] <= h[1], "writer: memory of content already sent is released"); pse_observe("n", step.n);
}
