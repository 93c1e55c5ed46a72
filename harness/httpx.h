// Common pieces of the HTTP harnesses: feeding a parser segment by segment and comparing outcomes.
#pragma once
#include "pse.h"
#include <vector>
#include <pion/http/parser.hpp>
#include <pion/http/request.hpp>
#include <pion/http/response.hpp>
using pion::http::parser; using pion::http::message; using pion::http::request; using pion::http::response; using pion::ihash_multimap;
static inline int tri(boost::tribool t) { return boost::indeterminate(t) ? 2 : t == true ? 1 : 0; } // 0 error, 1 finished, 2 wants more
// an arbitrary byte; the hex digits are forked, so that numbers made of them are concrete on each path
static inline char digit(const char *name) { uint8_t c = pse_u8(name); if (((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F'))) c = (uint8_t)pse_concretize(c); return (char)c; }
// template text: '~' is an arbitrary byte, '^' too (digits forked)
static inline std::string hole(const std::string &t, const char *name = "b") { std::string s = t; for (size_t i = 0; i < s.size(); ++i) if (s[i] == '~') s[i] = (char)pse_u8(name); else if (s[i] == '^') s[i] = digit(name); return s; }
static inline size_t nholes(const std::string &t) { size_t n = 0; for (size_t i = 0; i < t.size(); ++i) n += (t[i] == '~') | (t[i] == '^'); return n; }
// exact-size heap copy, so that a read past the segment is an error
struct Seg { char *p; size_t n; Seg(const std::string &s) : p(new char[s.size() ? s.size() : 1]), n(s.size()) { for (size_t i = 0; i < n; ++i) p[i] = s[i]; } ~Seg() { delete[] p; } private: Seg(const Seg &); };
struct Sink { std::string got; size_t calls; Sink() : calls(0) {} void take(const char *p, std::size_t n) { ++calls; got.append(p, n); } };
struct Run {
    parser p; boost::system::error_code ec; int rc; size_t consumed; size_t gsum; bool threw;
    explicit Run(bool req, size_t maxlen = 1024 * 1024) : p(req, maxlen), rc(2), consumed(0), gsum(0), threw(false) {}
    // feeds one segment; bytes left over stay unconsumed
    int feed(message &m, const std::string &s) {
        if (rc != 2 || s.empty()) return rc;
        Seg g(s); p.set_read_buffer(g.p, g.n);
        try { rc = tri(p.parse(m, ec)); } catch (...) { threw = true; rc = 0; pse_fail("http: parse throws"); }
        const char *a, *e; p.load_read_pos(a, e); pse_assert(a >= g.p && a <= g.p + g.n && e == g.p + g.n, "http: read position stays inside the buffer");
        size_t c = a - g.p; if (rc != 0) pse_assert(p.gcount() == c, "http: bytes reported for one parse call are the bytes consumed");
        consumed += c; gsum += p.gcount();
        if (rc == 2) pse_assert(c == g.n, "http: everything is consumed before asking for more");
        if (rc == 1) pse_assert(!ec, "http: success reports no error");
        if (rc == 0) pse_assert(!!ec, "http: failure reports an error");
        if (rc != 0) pse_assert(p.get_total_bytes_read() == consumed, "http: total bytes read is the sum of the bytes consumed");
        p.set_read_buffer(NULL, 0);
        return rc;
    }
};
static inline void same_dict(ihash_multimap &a, ihash_multimap &b, const char *msg) {
    pse_assert(a.size() == b.size(), msg); ihash_multimap::const_iterator i = a.begin(), j = b.begin();
    for (; i != a.end() && j != b.end(); ++i, ++j) { pse_assert(pse_streq(i->first, j->first), msg); pse_assert(pse_streq(i->second, j->second), msg); }
}
static inline std::string body(message &m) { return std::string(m.get_content(), m.get_content_length()); }
static inline void same_msg(message &a, message &b, bool req) {
    pse_assert(a.get_version_major() == b.get_version_major() && a.get_version_minor() == b.get_version_minor(), "http: same version");
    pse_assert(a.is_valid() == b.is_valid() && a.get_status() == b.get_status() && a.is_chunked() == b.is_chunked(), "http: same validity and status");
    same_dict(a.get_headers(), b.get_headers(), "http: same headers"); same_dict(a.get_cookies(), b.get_cookies(), "http: same cookies");
    pse_assert(a.get_content_length() == b.get_content_length(), "http: same content length");
    if (a.get_content_length() == b.get_content_length()) pse_assert(pse_memeq(a.get_content(), b.get_content(), a.get_content_length()), "http: same content");
    if (req) { request &x = static_cast<request &>(a), &y = static_cast<request &>(b); pse_assert(pse_streq(x.get_method(), y.get_method()) && pse_streq(x.get_resource(), y.get_resource()) && pse_streq(x.get_query_string(), y.get_query_string()), "http: same request line"); same_dict(x.get_queries(), y.get_queries(), "http: same query parameters"); }
    else { response &x = static_cast<response &>(a), &y = static_cast<response &>(b); pse_assert(x.get_status_code() == y.get_status_code() && pse_streq(x.get_status_message(), y.get_status_message()), "http: same status line"); }
}
static inline void obs_msg(message &m, Run &r) { pse_observe("rc", r.rc); pse_observe("ec", r.ec.value()); pse_observe("used", r.consumed); pse_observe("hdrs", m.get_headers().size()); pse_observe("cl", m.get_content_length()); }
