// What the HTTP parser extracts from well-formed messages, what it rejects, and where messages end.
#include "httpx.h"
#include "text.h"

// args: method len, path len, query len+1 (0: none), eol.  request line
extern "C" void g_request() {
    size_t ml = pse_arg(0), pl = pse_arg(1), ql = pse_arg(2); std::string eol = EOLS[pse_arg(3)];
    std::string m = token(ml, "m"), p = text(pl, "p"), q = ql ? text(ql - 1, "q") : ""; for (size_t i = 0; i < p.size(); ++i) pse_assume((p[i] != ' ') & (p[i] != '?')); for (size_t i = 0; i < q.size(); ++i) pse_assume(q[i] != ' ');
    uint8_t ma = pse_u8("ma"), mi = pse_u8("mi"); pse_assume((ma >= '1') & (ma <= '9') & (mi >= '0') & (mi <= '9'));
    std::string s = m + " " + p + (ql ? "?" + q : "") + " HTTP/" + (char)ma + "." + (char)mi + eol + eol, left = pse_string(2, "left");
    request r; Run w(true); w.feed(r, s + left);
    pse_assert(w.rc == 1, "request: a well-formed request line is accepted"); pse_assert(w.consumed == s.size(), "request: nothing past the end of the message is consumed");
    pse_assert(pse_streq(r.get_method(), m), "request: method"); pse_assert(pse_streq(r.get_resource(), p), "request: resource"); pse_assert(pse_streq(r.get_original_resource(), p), "request: original resource"); pse_assert(pse_streq(r.get_query_string(), q), "request: query string");
    pse_assert(r.get_version_major() == ma - '0' && r.get_version_minor() == mi - '0', "request: version"); pse_assert(r.get_content_length() == 0 && r.is_valid() && r.get_headers().empty(), "request: no content, no headers, valid");
    obs_msg(r, w); pse_observe_str("m", r.get_method());
}
// HTTP/0.9 simple request: no version
extern "C" void g_simple() {
    size_t pl = pse_arg(0), sp = pse_arg(1); std::string p = text(pl, "p"); for (size_t i = 0; i < p.size(); ++i) pse_assume((p[i] != ' ') & (p[i] != '?'));
    std::string s = "GET /" + p + (sp ? " " : "") + "\r\n", left = pse_string(1, "left"); request r; Run w(true); w.feed(r, s + left);
    pse_assert(w.rc == 1 && w.consumed == s.size(), "request: a request line without a version is a complete simple request"); pse_assert(r.get_version_major() == 0 && r.get_version_minor() == 0 && pse_streq(r.get_resource(), "/" + p), "request: simple request has version 0.0"); obs_msg(r, w);
}
// args: response version etc.
extern "C" void g_status() {
    size_t ml = pse_arg(0); std::string eol = EOLS[pse_arg(1)]; std::string msg = text(ml, "msg"); uint8_t d[3]; pse_symbolic(d, 3, "d"); for (int i = 0; i < 3; ++i) pse_assume((d[i] >= '0') & (d[i] <= '9')); pse_assume(d[0] >= '1'); uint8_t mi = pse_u8("mi"); pse_assume((mi >= '0') & (mi <= '9'));
    unsigned code = (d[0] - '0') * 100 + (d[1] - '0') * 10 + (d[2] - '0'); bool implied = (code < 200) | (code == 204) | (code == 205) | (code == 304);
    bool head = pse_arg(2); std::string s = std::string("HTTP/1.") + (char)mi + " " + (char)d[0] + (char)d[1] + (char)d[2] + (ml || pse_arg(3) ? " " : "") + msg + eol + eol, bodyt = pse_string(2, "body");
    response r(head ? "HEAD" : "GET"); Run w(false); w.feed(r, s + bodyt);
    pse_assert(r.get_status_code() == code, "response: status code"); pse_assert(pse_streq(r.get_status_message(), msg), "response: status message"); pse_assert(r.get_version_major() == 1 && r.get_version_minor() == mi - '0', "response: version");
    if (implied || head) { pse_reach("implied"); pse_assert(w.rc == 1 && w.consumed == s.size() && r.get_content_length() == 0, "response: 1xx, 204, 205, 304 and HEAD responses end with their headers"); }
    else { pse_reach("until close"); pse_assert(w.rc == 2 && w.consumed == s.size() + 2, "response: without a length the body runs until the connection closes"); pse_assert(!w.p.check_premature_eof(r), "response: the close is a proper end"); pse_assert(pse_streq(body(r), bodyt) && r.is_valid(), "response: body is what came before the close"); }
    obs_msg(r, w);
}
// args: HEAD?. headers that announce chunks do not give a response a content it may not have
extern "C" void g_head_chunked() {
    uint8_t d[3]; pse_symbolic(d, 3, "d"); for (int i = 0; i < 3; ++i) pse_assume((d[i] >= '0') & (d[i] <= '9')); pse_assume(d[0] >= '1'); unsigned code = (d[0] - '0') * 100 + (d[1] - '0') * 10 + (d[2] - '0'); bool head = pse_arg(0); pse_assume(head || code != 205);
    bool implied = head | (code < 200) | (code == 204) | (code == 304); std::string b = pse_string(2, "body"), s = std::string("HTTP/1.1 ") + (char)d[0] + (char)d[1] + (char)d[2] + " X\r\nTransfer-Encoding: chunked\r\n\r\n", t = "2\r\n" + b + "\r\n0\r\n\r\n"; response r(head ? "HEAD" : "GET"); Run w(false); w.feed(r, s + t);
    if (implied) { pse_assert(w.rc == 1 && w.consumed == s.size() && r.get_content_length() == 0 && r.is_valid(), "response: 1xx, 204, 304 and HEAD responses end with their headers, even if these announce chunks"); pse_reach("implied"); } else pse_assert(w.rc == 1 && w.consumed == s.size() + t.size() && pse_streq(body(r), b), "response: other responses have the chunks announced"); obs_msg(r, w);
}
// args: request?, digits of the major and minor version numbers
extern "C" void g_version() {
    bool req = pse_arg(0); unsigned v[2] = { 0, 0 }; std::string t[2]; for (int k = 0; k < 2; ++k) for (int i = 0; i < (int)pse_arg(1 + k); ++i) { uint8_t c = pse_u8("v"); pse_assume((c >= '0') & (c <= '9')); if (k == 0 && i == 0) pse_assume(c != '0'); v[k] = v[k] * 10 + (c - '0'); t[k] += (char)c; }
    std::string h = "HTTP/" + t[0] + "." + t[1], s = (req ? "GET /a?b " + h : h + " 204 No Content") + "\r\n\r\n"; request q; response a; message &m = req ? (message &)q : (message &)a; Run w(req); w.feed(m, s + "x"); pse_assert(w.rc == 1 && w.consumed == s.size(), "version: numbers of several digits are accepted"); pse_assert(m.get_version_major() == v[0] && m.get_version_minor() == v[1], "version: the numbers given"); if (!req) pse_assert(a.get_status_code() == 204 && a.get_status_message() == "No Content", "version: the rest of the line follows"); else pse_assert(q.get_resource() == "/a" && q.get_query_string() == "b", "version: the rest of the line comes before"); obs_msg(m, w);
}
// args: name len 1, value len 1, name len 2, value len 2, eol (2: each of either kind), request?, what separates name and value
extern "C" void g_headers() {
    bool req = pse_arg(5), mix = pse_arg(4) == 2; int sep = pse_arg(6); std::string e[5]; for (int i = 0; i < 5; ++i) e[i] = EOLS[mix ? pse_choose(2, "eol") : pse_arg(4)]; std::string n1 = token(pse_arg(0), "n1"), v1 = pse_string(pse_arg(1), "v1"), n2 = token(pse_arg(2), "n2"), v2 = pse_string(pse_arg(3), "v2");
    for (size_t i = 0; i < v1.size(); ++i) pse_assume(!ctl(v1[i]) | (v1[i] == '\t')); for (size_t i = 0; i < v2.size(); ++i) pse_assume(!ctl(v2[i]) | (v2[i] == '\t'));
    if (sep && v1.size()) pse_assume((v1[0] != ' ') & (v1[0] != '\t')); std::string s = std::string(req ? "GET / HTTP/1.1" : "HTTP/1.1 204 No") + e[0] + n1 + (sep == 2 ? ":\t" : sep ? ":" : ": ") + v1 + e[1] + n2 + ": " + v2 + e[2] + "Zed: x" + e[3] + e[4], left = pse_string(1, "left"); if (mix) pse_assume(left[0] != '\r');
    request q; response a; message &m = req ? (message &)q : (message &)a; Run w(req); w.feed(m, s + left);
    pse_assert(w.rc == 1 && w.consumed == s.size(), "headers: well-formed headers are accepted and end at the empty line"); pse_assert(m.get_headers().size() == 3, "headers: one entry per header line");
    pse_assert(has_value(m.get_headers(), n1, v1) && has_value(m.get_headers(), swapcase(n2), v2), "headers: every value is found under its name, whatever the case"); pse_assert(pse_streq(m.get_header("ZED"), "x"), "headers: lookup ignores case");
    pse_assume(!ieq(n1, "zed")); bool same = ieq(n1, n2); pse_assert(m.get_headers().count(n1) == (same ? 2u : 1u), "headers: repeated headers are all kept"); std::string g = m.get_header(n1); pse_assert(pse_streq(g, v1) || (same && pse_streq(g, v2)), "headers: get_header gives a value of that header");
    std::string other = token(pse_arg(0), "o"); if (!ieq(other, n1) && !ieq(other, n2) && !ieq(other, "zed")) { pse_assert(!m.has_header(other) && m.get_header(other).empty(), "headers: a header that was not sent is absent"); pse_reach("absent"); }
    obs_msg(m, w);
}
// args: place.  one arbitrary byte that is not allowed at that place
extern "C" void g_reject() {
    size_t place = pse_arg(0); uint8_t c = pse_u8("c"); std::string x(1, (char)c), s; int want = 0; bool req = true;
    switch (place) {
    case 0: pse_assume(!tok(c) & (c != ' ')); s = "GE" + x + " / HTTP/1.1\r\n\r\n"; want = parser::ERROR_METHOD_CHAR; break;
    case 1: pse_assume(!tok(c) & (c != ' ') & (c != '\r') & (c != '\n')); s = x + "ET / HTTP/1.1\r\n\r\n"; want = parser::ERROR_METHOD_CHAR; break;
    case 2: pse_assume(ctl(c) & (c != '\r') & (c != '\n')); s = "GET /a" + x + " HTTP/1.1\r\n\r\n"; want = parser::ERROR_URI_CHAR; break;
    case 3: pse_assume(ctl(c) & (c != '\r') & (c != '\n')); s = "GET /a?b" + x + " HTTP/1.1\r\n\r\n"; want = parser::ERROR_QUERY_CHAR; break;
    case 4: pse_assume((c != 'H') & (c != '\r') & (c != '\n')); s = "GET / " + x + "TTP/1.1\r\n\r\n"; want = parser::ERROR_VERSION_CHAR; break;
    case 5: pse_assume(c != 'T'); s = "GET / H" + x + "TP/1.1\r\n\r\n"; want = parser::ERROR_VERSION_CHAR; break;
    case 6: pse_assume(c != 'T'); s = "GET / HT" + x + "P/1.1\r\n\r\n"; want = parser::ERROR_VERSION_CHAR; break;
    case 7: pse_assume(c != 'P'); s = "GET / HTT" + x + "/1.1\r\n\r\n"; want = parser::ERROR_VERSION_CHAR; break;
    case 8: pse_assume(c != '/'); s = "GET / HTTP" + x + "1.1\r\n\r\n"; want = parser::ERROR_VERSION_CHAR; break;
    case 9: pse_assume((c < '0') | (c > '9')); s = "GET / HTTP/" + x + ".1\r\n\r\n"; want = parser::ERROR_VERSION_CHAR; break;
    case 10: pse_assume(((c < '0') | (c > '9')) & (c != '.')); s = "GET / HTTP/1" + x + "1\r\n\r\n"; want = parser::ERROR_VERSION_CHAR; break;
    case 11: pse_assume((c < '0') | (c > '9')); s = "GET / HTTP/1." + x + "\r\n\r\n"; want = parser::ERROR_VERSION_CHAR; break;
    case 12: pse_assume(((c < '0') | (c > '9')) & (c != ' ') & (c != '\r') & (c != '\n')); s = "GET / HTTP/1.1" + x + "\r\n\r\n"; want = parser::ERROR_VERSION_CHAR; break;
    case 13: pse_assume(!tok(c) & (c != ':')); s = "GET / HTTP/1.1\r\na" + x + ": b\r\n\r\n"; want = parser::ERROR_HEADER_CHAR; break;
    case 14: pse_assume(!tok(c) & (c != ' ') & (c != '\t') & (c != '\r') & (c != '\n')); s = "GET / HTTP/1.1\r\n" + x + "a: b\r\n\r\n"; want = parser::ERROR_HEADER_CHAR; break;
    case 15: pse_assume(ctl(c) & (c != '\t') & (c != '\r') & (c != '\n')); s = "GET / HTTP/1.1\r\na: b" + x + "\r\n\r\n"; want = parser::ERROR_HEADER_CHAR; break;
    case 16: req = false; pse_assume((c < '0') | (c > '9')); s = "HTTP/1.1 " + x + "00 OK\r\n\r\n"; want = parser::ERROR_STATUS_CHAR; break;
    case 17: req = false; pse_assume(((c < '0') | (c > '9')) & (c != ' ') & (c != '\r') & (c != '\n')); s = "HTTP/1.1 2" + x + "0 OK\r\n\r\n"; want = parser::ERROR_STATUS_CHAR; break;
    case 18: req = false; pse_assume(ctl(c) & (c != '\r') & (c != '\n')); s = "HTTP/1.1 200 O" + x + "\r\n\r\n"; want = parser::ERROR_STATUS_CHAR; break;
    case 19: req = false; pse_assume((c == '\r') | (c == '\n')); s = "HTTP/1.1" + x + "\n\r\n"; want = parser::ERROR_STATUS_EMPTY; break;
    case 20: req = false; pse_assume((c == '\r') | (c == '\n')); s = x + "TTP/1.1 200 OK\r\n\r\n"; want = parser::ERROR_VERSION_EMPTY; break;
    case 21: req = false; pse_assume((c != 'H') & (c != '\r') & (c != '\n')); s = x + "TTP/1.1 200 OK\r\n\r\n"; want = parser::ERROR_VERSION_CHAR; break;
    case 22: pse_assume((c >= '0') & (c <= '9')); s = "GET / HTTP/6553" + x + ".1\r\n\r\n"; want = parser::ERROR_VERSION_CHAR; break;
    case 23: req = false; pse_assume((c >= '0') & (c <= '9')); s = "HTTP/1.1 6573" + x + " OK\r\n\r\n"; want = parser::ERROR_STATUS_CHAR; break;
    case 24: pse_assume((c >= '0') & (c <= '9')); s = "GET / HTTP/1.6553" + x + "\r\n\r\n"; want = parser::ERROR_VERSION_CHAR; break;
    }
    request q; response a; message &m = req ? (message &)q : (message &)a; Run w(req); w.feed(m, s);
    pse_assert(w.rc == 0, "reject: a byte the grammar forbids there is an error"); pse_assert(w.ec.value() == want && std::string(w.ec.category().name()) == "parser", "reject: the error names the offending part"); pse_assert(w.ec.message() != "parser error" && !w.ec.message().empty(), "reject: the error has a description"); pse_observe("rc", w.rc); pse_observe("ec", w.ec.value());
}
// args: request?, body bytes sent, limit+1, content-length, handler?.
extern "C" void g_length() {
    bool req = pse_arg(0); size_t sent = pse_arg(1), n = pse_arg(3), lim = pse_arg(2) ? pse_arg(2) - 1 : 1024 * 1024; std::string b = pse_string(sent, "body");
    std::string cl; { size_t t = n; do { cl.insert(cl.begin(), (char)('0' + t % 10)); t /= 10; } while (t); } std::string h = std::string(req ? "POST / HTTP/1.1" : "HTTP/1.1 200 OK") + "\r\nContent-Length: " + cl + "\r\n\r\n";
    request q; response a; message &m = req ? (message &)q : (message &)a; Run w(req, lim); Sink k; if (pse_arg(4)) { parser::payload_handler_t f = boost::bind(&Sink::take, &k, _1, _2); w.p.set_payload_handler(f); }
    size_t split = pse_choose((uint8_t)(sent + 1), "split"), split2 = pse_arg(5) ? split + pse_choose((uint8_t)(sent - split + 1), "split2") : sent; w.feed(m, h + b.substr(0, split)); w.feed(m, b.substr(split, split2 - split)); w.feed(m, b.substr(split2)); size_t stored = n < lim ? n : lim; pse_assert(m.get_content_length() <= lim, "length: no more is set aside for content than the limit");
    if (sent >= n) { pse_assert(w.rc == 1, "length: message complete once the announced bytes are there"); pse_assert(w.consumed == h.size() + n, "length: exactly the announced bytes are consumed"); pse_assert(w.p.get_content_bytes_read() == n, "length: content bytes counted");
        if (!pse_arg(4)) { pse_assert(m.get_content_length() == stored, "length: stored length is the announced one, cut at the limit"); pse_assert(pse_memeq(m.get_content(), b.data(), stored), "length: content"); pse_assert(m.get_content()[stored] == 0, "length: content is zero terminated"); } else pse_assert(pse_streq(k.got, b.substr(0, n)), "length: the payload handler gets exactly the content"); pse_assert(m.is_valid() && m.get_status() == message::STATUS_OK, "length: complete message is valid"); pse_reach("complete"); }
    else { pse_assert(w.rc == 2 && w.consumed == h.size() + sent, "length: waits for the announced bytes"); pse_assert(w.p.check_premature_eof(m), "length: end of stream before the announced bytes is premature"); w.p.finish(m); pse_assert(!m.is_valid() && m.get_status() == message::STATUS_TRUNCATED, "length: truncated message is not valid"); size_t have = sent < lim ? sent : lim; if (!pse_arg(4)) { pse_assert(m.get_content_length() == have && pse_memeq(m.get_content(), b.data(), have), "length: truncated content is what arrived"); } else pse_assert(pse_streq(k.got, b), "length: the payload handler gets what arrived"); pse_reach("truncated"); }
    pse_observe("used", w.consumed); pse_observe("rc", w.rc);
}
// args: length of the header text, request?.  which Content-Length texts are numbers
extern "C" void g_length_text() {
    size_t n = pse_arg(0); bool req = pse_arg(1); std::string t; for (size_t i = 0; i < n; ++i) t += digit("t"); for (size_t i = 0; i < n; ++i) pse_assume((t[i] != '\r') & (t[i] != '\n') & (!ctl(t[i]) | (t[i] == '\t')));
    std::string h = std::string(req ? "POST / HTTP/1.1" : "HTTP/1.1 200 OK") + "\r\nContent-Length: " + t + "\r\n\r\n"; request q; response a; message &m = req ? (message &)q : (message &)a; Run w(req); w.feed(m, h);
    size_t b = 0, e = n; while (b < e && ((t[b] == ' ') | (t[b] == '\t'))) ++b; while (e > b && ((t[e - 1] == ' ') | (t[e - 1] == '\t'))) --e; bool num = b < e; uint64_t v = 0; for (size_t i = b; i < e && num; ++i) { if ((t[i] >= '0') & (t[i] <= '9')) v = v * 10 + (t[i] - '0'); else num = false; }
    if (num) { pse_reach("number"); pse_assert(w.rc == (v == 0 ? 1 : 2), "length: a decimal number is accepted and decides where the message ends"); if (v) pse_assert(m.get_content_length() == v, "length: announced length"); }
    else { pse_reach("not a number"); pse_assert(w.rc == 0 && w.ec.value() == parser::ERROR_INVALID_CONTENT_LENGTH, "length: anything but a decimal number is rejected"); }
    obs_msg(m, w);
}
// huge and negative numbers
extern "C" void g_length_huge() {
    static const char *T[] = { "-1", "-9", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "0x10", "1 2", "+5", "1e3", "", "--1", "9223372036854775807", "18446744073709551614" }; size_t i = pse_arg(0); std::string t = T[i]; bool req = pse_arg(1), isnum = i == 2 || i == 11 || i == 12; size_t lim = 64;
    std::string b = pse_string(3, "b"); std::string h = std::string(req ? "POST / HTTP/1.1" : "HTTP/1.1 200 OK") + "\r\nContent-Length: " + t + "\r\n\r\n"; request q; response a; message &m = req ? (message &)q : (message &)a; Run w(req, lim); w.feed(m, h + b);
    if (isnum) { pse_assert(w.rc == 2 && m.get_content_length() == lim && pse_memeq(m.get_content(), b.data(), 3), "length: a huge length stores at most the limit"); w.p.finish(m); pse_assert(m.get_content_length() == 3, "length: truncated content is what arrived"); }
    else pse_assert(w.rc == 0 && w.ec.value() == parser::ERROR_INVALID_CONTENT_LENGTH, "length: anything but a decimal number is rejected"); pse_observe("rc", w.rc);
}
static std::string hexs(size_t n, int style) { std::string r; do { r.insert(r.begin(), (style & 1 ? "0123456789ABCDEF" : "0123456789abcdef")[n & 15]); n >>= 4; } while (n); if (style & 2) r = "00" + r; if (style & 4) r = r + " \t"; if (style & 16) r += "\t \t"; if (style & 8) r += ";ext=1"; return r; }
// args: request?, sizes (3, 0 ends), style, footers, limit+1, handler?
extern "C" void g_chunks() {
    bool req = pse_arg(0), hnd = pse_arg(7); size_t foot = pse_arg(5), lim = pse_arg(6) ? pse_arg(6) - 1 : 1024 * 1024; int style = pse_arg(4); std::string s = std::string(req ? "POST / HTTP/1.1" : "HTTP/1.1 200 OK") + "\r\nTransfer-Encoding: chunked\r\n\r\n", all; size_t hs = s.size();
    for (int i = 1; i <= 3; ++i) { size_t n = pse_arg(i); if (!n) break; std::string d = pse_string(n, "d"); all += d; s += hexs(n, style) + "\r\n" + d + "\r\n"; }
    std::string fv; s += (style & 2 ? "000" : "0"); s += "\r\n"; if (foot) { fv = text(foot - 1, "fv"); s += "Foot: " + fv + "\r\n"; } s += "\r\n"; std::string left = pse_string(2, "left");
    request q; response a; message &m = req ? (message &)q : (message &)a; Run w(req, lim); Sink k; if (hnd) { parser::payload_handler_t f = boost::bind(&Sink::take, &k, _1, _2); w.p.set_payload_handler(f); }
    size_t split = hs + pse_choose((uint8_t)(s.size() - hs), "split"); w.feed(m, s.substr(0, split)); w.feed(m, s.substr(split) + left);
    pse_assert(w.rc == 1, "chunks: a well-formed chunked message is accepted"); pse_assert(w.consumed == s.size(), "chunks: the message ends after its last chunk and footers");
    size_t st = all.size() < lim ? all.size() : lim; if (!hnd) { pse_assert(m.get_content_length() == st && pse_memeq(m.get_content(), all.data(), st), "chunks: content is the chunk data, in order, cut at the limit"); pse_assert(m.get_content()[st] == 0, "chunks: content is zero terminated"); } else pse_assert(pse_streq(k.got, all), "chunks: the payload handler gets exactly the chunk data");
    pse_assert(m.is_chunked() && m.is_valid(), "chunks: message valid"); if (foot) pse_assert(pse_streq(m.get_header("foot"), fv), "chunks: footers become headers"); pse_assert(m.get_headers().size() == (foot ? 2u : 1u), "chunks: nothing else becomes a header"); pse_observe("used", w.consumed); pse_observe("cl", m.get_content_length());
}
// args: digits.  a chunk size of arbitrary hexadecimal digits, of either case and with any zeros in front
extern "C" void g_chunk_size() {
    size_t n = pse_arg(0); std::string t = pse_string(n, "size"); unsigned v = 0; bool any = n < 2; for (size_t i = 0; i < n; ++i) { uint8_t c = t[i]; bool d = (c >= '0') & (c <= '9'), u = (c >= 'A') & (c <= 'F'), l = (c >= 'a') & (c <= 'f'); pse_assume(d | u | l); v = v * 16 + (c & 15) + (d ? 0u : 9u); }
    pse_assume(v <= 20); v = (unsigned)pse_concretize(v); std::string h = "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n", d(v, 'x'), s = h + t + "\r\n"; if (v) { pse_symbolic(&d[v - 1], 1, "last"); s += d + "\r\n0\r\n"; } s += "\r\n"; request q; Run w(true); w.feed(q, s + "~");
    pse_assert(w.rc == 1 && w.consumed == s.size(), "chunks: the size is the hexadecimal number given"); pse_assert(q.get_content_length() == v && (v == 0 || pse_memeq(q.get_content(), d.data(), v)), "chunks: the size is the hexadecimal number given"); pse_observe("v", v); (void)any;
}
// args: place.  an arbitrary byte where the framing forbids it
extern "C" void g_chunk_bad() {
    size_t place = pse_arg(0); uint8_t c = pse_u8("c"); std::string x(1, (char)c), s = "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n"; bool hex = ((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F'));
    switch (place) {
    case 0: pse_assume(!hex & (c != ' ') & (c != '\t') & (c != '\r') & (c != '\n')); s += x + "2\r\nab\r\n0\r\n\r\n"; break;
    case 1: pse_assume(!hex & (c != ' ') & (c != '\t') & (c != '\r') & (c != ';')); s += "2" + x + "\r\nab\r\n0\r\n\r\n"; break;
    case 2: pse_assume(c != '\n'); s += "2\r" + x + "ab\r\n0\r\n\r\n"; break;
    case 3: pse_assume((c != ' ') & (c != '\t') & (c != '\r')); s += "2 " + x + "\r\nab\r\n0\r\n\r\n"; break;
    case 4: pse_assume(c != '\r'); s += "2\r\nab" + x + "\n0\r\n\r\n"; break;
    case 5: pse_assume(c != '\n'); s += "2\r\nab\r" + x + "0\r\n\r\n"; break;
    case 6: pse_assume(c != '\n'); s += "2\r\nab\r\n0\r\n\r" + x; break;
    case 7: pse_assume(c != '\n'); s += "0\r" + x + "\r\n\r\n"; break;
    }
    request q; Run w(true); w.feed(q, s); pse_assert(w.rc == 0 && w.ec.value() == parser::ERROR_CHUNK_CHAR, "chunks: broken chunk framing is an error"); pse_observe("rc", w.rc);
}
// args: n.  the transfer-encoding value is searched for 'chunked' without case; chunked framing wins over a length
extern "C" void g_chunked_header() {
    std::string base = "chunked"; size_t pos = pse_arg(0); uint8_t c = pse_u8("c"), d = pse_u8("d"); pse_assume(!ctl(c) & !ctl(d)); std::string v = base; if (pos < 7) v[pos] = (char)c; else if (pos == 7) v += (char)c; else if (pos == 8) v = (char)c + v; if (pos < 6) v[pos + 1] = (char)d; bool want = false; for (size_t i = 0; i + 7 <= v.size(); ++i) want |= ieq(v.substr(i, 7), base);
    std::string s = "POST / HTTP/1.1\r\nContent-Length: 4\r\nTransfer-Encoding: " + v + "\r\n\r\n0\r\n\r\n"; request q; Run w(true); w.feed(q, s);
    if (want) { pse_reach("chunked"); pse_assert(w.rc == 1 && w.consumed == s.size() && q.is_chunked() && q.get_content_length() == 0, "chunks: 'chunked' in any case selects chunked framing, over a length"); } else { pse_reach("not chunked"); pse_assert(w.rc == 1 && w.consumed == s.size() - 1 && !q.is_chunked() && q.get_content_length() == 4, "chunks: any other transfer-encoding leaves the length in force"); } obs_msg(q, w);
}
// args: kind, sent.  end of stream inside a message
extern "C" void g_eof() {
    static const char *T[] = { "GET / HTTP/1.1\r\nA: b\r\n\r\n", "POST /x?y=1 HTTP/1.1\r\nContent-Length: 4\r\n\r\nabcd", "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n2\r\nab\r\n1\r\nc\r\n0\r\nF: g\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: 4\r\n\r\nabcd", "HTTP/1.1 200 OK\r\nA: b\r\n\r\nabcd", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n2\r\nab\r\n0\r\n\r\n" };
    size_t k = pse_arg(0); std::string s = T[k]; bool req = k < 3; size_t cut = pse_choose((uint8_t)(s.size() - 1), "cut") + 1; request q; response a; message &m = req ? (message &)q : (message &)a; Run w(req); w.feed(m, s.substr(0, cut));
    pse_assert(w.rc == 2 && w.consumed == cut, "eof: an unfinished message asks for more"); bool nolen = k == 4 && cut >= s.size() - 4; bool pre = w.p.check_premature_eof(m); pse_assert(pre == !nolen, "eof: only a body without length may be ended by the close");
    if (nolen) pse_assert(m.is_valid() && pse_streq(body(m), s.substr(s.size() - 4, cut - (s.size() - 4))), "eof: body until close"); else { w.p.finish(m); std::string full = k == 2 ? "abc" : k == 5 ? "ab" : "abcd"; std::string got = body(m); pse_assert(got.size() <= full.size() && pse_memeq(got.data(), full.data(), got.size()), "eof: content of a cut message is a prefix of its content"); if (k == 1 || k == 3 || k == 0) pse_assert(!m.is_valid(), "eof: a cut message is not valid"); } pse_observe("pre", pre);
}
// args: part, over.  size limits: the largest allowed size passes, one more is an error
extern "C" void g_limits() {
    size_t part = pse_arg(0), over = pse_arg(1); uint8_t c = pse_u8("c"); pse_assume(tok(c)); std::string s; size_t n; bool req = true; int want = 0;
    switch (part) {
    case 0: n = 1024 + over; s = std::string(n, (char)c) + " / HTTP/1.1\r\n\r\n"; want = parser::ERROR_METHOD_SIZE; break;
    case 1: n = 1024 + over; s = "GET / HTTP/1.1\r\n" + std::string(n, (char)c) + ": x\r\n\r\n"; want = parser::ERROR_HEADER_NAME_SIZE; break;
    case 2: n = 1024 + over; req = false; s = "HTTP/1.1 204 " + std::string(n, (char)c) + "\r\n\r\n"; want = parser::ERROR_STATUS_CHAR; break;
    case 3: n = 256 * 1024 + over; s = "GET " + std::string(n, 'r') + (char)c + " HTTP/1.1\r\n\r\n"; s.erase(4, 1); want = parser::ERROR_URI_SIZE; break;
    case 4: n = 1024 * 1024 + over; s = "GET /?" + std::string(n, 'r') + (char)c + " HTTP/1.1\r\n\r\n"; s.erase(6, 1); want = parser::ERROR_QUERY_SIZE; break;
    default: n = 1024 * 1024 + over; s = "GET / HTTP/1.1\r\na: " + std::string(n, 'r') + (char)c + "\r\n\r\n"; s.erase(19, 1); want = parser::ERROR_HEADER_VALUE_SIZE; break;
    }
    request q; response a; message &m = req ? (message &)q : (message &)a; Run w(req); w.feed(m, s); if (over) pse_assert(w.rc == 0 && w.ec.value() == want, "limits: a part larger than its limit is an error"); else pse_assert(w.rc == 1, "limits: a part of the largest allowed size is accepted"); pse_observe("rc", w.rc);
}
// args: kind, received before, limit+1, handler.  lost bytes inside the content
extern "C" void g_missing() {
    size_t k = pse_arg(0), before = pse_arg(1), lim = pse_arg(2) ? pse_arg(2) - 1 : 1024; bool hnd = pse_arg(3); size_t len = pse_choose(7, "len") + 0; const size_t N = 5; std::string b = pse_string(N, "b"); bool req = k < 2;
    static const char *H[] = { "POST / HTTP/1.1\r\nContent-Length: 5\r\n\r\n", "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n5\r\n", "HTTP/1.1 200 OK\r\n\r\n" }; std::string h = H[k];
    request q; response a; message &m = req ? (message &)q : (message &)a; Run w(req, lim); Sink sk; if (hnd) { parser::payload_handler_t f = boost::bind(&Sink::take, &sk, _1, _2); w.p.set_payload_handler(f); }
    w.feed(m, h + b.substr(0, before)); pse_assert(w.rc == 2, "missing: waiting"); boost::system::error_code ec; int rc = tri(w.p.parse_missing_data(m, len, ec)); size_t tot0 = w.consumed;
    bool fits = k == 2 || (before + len <= N); pse_assert((rc != 0) == fits, "missing: only a gap that fits the current content can be bridged");
    if (!fits) { pse_assert(!!ec, "missing: error reported"); pse_reach("too much"); pse_observe("rc", rc); return; }
    pse_assert(w.p.get_total_bytes_read() == tot0 + len, "missing: the gap is counted");
    std::string want = b.substr(0, before) + std::string(len, 'X'); std::string rest = k == 2 ? b.substr(before) : b.substr(before + len < N ? before + len : N); bool done = k == 0 && before + len == N; pse_assert((rc == 1) == done, "missing: message complete when the gap was its end");
    if (!done) { w.consumed += len; w.rc = rc; w.feed(m, rest + (k == 1 ? "\r\n0\r\n\r\n" : "")); } want += rest; if (k == 2) pse_assert(!w.p.check_premature_eof(m) || hnd, "missing: until close"); else pse_assert(done || w.rc == 1, "missing: the rest is parsed as usual");
    if (hnd) { pse_assert(pse_streq(sk.got, want), "missing: the payload handler gets a placeholder for every lost byte"); } else { size_t st = want.size() < lim ? want.size() : lim; pse_assert(m.get_content_length() == st && pse_memeq(m.get_content(), want.data(), st), "missing: content has a placeholder for every lost byte"); pse_assert(m.get_content()[st] == 0, "missing: content is zero terminated"); }
    bool after = !done && (rest.size() || k == 1); pse_assert(m.get_status() == (after ? message::STATUS_PARTIAL : message::STATUS_TRUNCATED), "missing: status tells lost data in the middle from lost data at the end"); pse_reach("bridged"); pse_observe("st", m.get_status());
}
extern "C" void g_missing_header() {
    static const char *H[] = { "GET / HT", "GET / HTTP/1.1\r\nA: ", "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n5", "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n2\r\nab", "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n2\r\nab\r\n0\r\nF: ", "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n" }; static const int E[] = { parser::ERROR_MISSING_HEADER_DATA, parser::ERROR_MISSING_HEADER_DATA, parser::ERROR_MISSING_CHUNK_DATA, parser::ERROR_MISSING_CHUNK_DATA, parser::ERROR_MISSING_HEADER_DATA, parser::ERROR_MISSING_CHUNK_DATA };
    size_t k = pse_arg(0); size_t len = pse_u64("len"); pse_assume(len > 0); request m; Run w(true); w.feed(m, H[k]); boost::system::error_code ec; int rc = tri(w.p.parse_missing_data(m, len, ec)); pse_assert(rc == 0 && ec.value() == E[k], "missing: lost header or chunk framing bytes cannot be bridged"); pse_observe("rc", rc);
}
// args: template.  raw headers saved are the header bytes
extern "C" void g_raw() {
    size_t n = pse_arg(0); std::string v = text(n, "v"); std::string h = "GET /r HTTP/1.1\r\nA: " + v + "\r\nContent-Length: 2\r\n\r\n"; request q; Run w(true); w.p.set_save_raw_headers(true); size_t split = pse_choose((uint8_t)h.size(), "split"); w.feed(q, h.substr(0, split)); w.feed(q, h.substr(split) + "zz"); pse_assert(w.rc == 1 && pse_streq(w.p.get_raw_headers(), h), "raw headers are the header bytes as received"); pse_observe("n", w.p.get_raw_headers().size());
}
// args: kind.  headers-only parsing stops before the content
extern "C" void g_headers_only() {
    static const char *T[] = { "GET / HTTP/1.1\r\nA: b\r\n\r\n", "POST / HTTP/1.1\r\nContent-Length: 4\r\n\r\n", "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: 4\r\n\r\n", "HTTP/1.1 200 OK\r\n\r\n", "HTTP/1.1 304 NM\r\n\r\n" };
    size_t k = pse_arg(0); bool req = k < 3; request q; response a; message &m = req ? (message &)q : (message &)a; Run w(req); w.p.parse_headers_only(true); std::string h = T[k], b = pse_string(4, "b"); w.feed(m, h + b); pse_assert(w.rc == 1 && w.consumed == h.size(), "headers only: parsing stops right after the headers"); obs_msg(m, w);
}
// args: length announced, limit, request?.  cut anywhere, received in two pieces, stored up to the limit
extern "C" void g_cut() {
    size_t n = pse_arg(0), lim = pse_arg(1), st = pse_choose((uint8_t)n, "sent"), one = pse_choose((uint8_t)(st + 1), "first"); bool req = pse_arg(2); std::string b = pse_string(st, "body"), h = std::string(req ? "POST / HTTP/1.1" : "HTTP/1.1 200 OK") + "\r\nContent-Length: " + char('0' + n) + "\r\n\r\n"; request q; response a; message &m = req ? (message &)q : (message &)a; Run w(req, lim);
    w.feed(m, h + b.substr(0, one)); w.feed(m, b.substr(one)); pse_assert(w.rc == 2, "eof: an unfinished message asks for more"); pse_assert(w.p.check_premature_eof(m), "eof: only a body without length may be ended by the close"); w.p.finish(m); size_t k = st < lim ? st : lim;
    pse_assert(m.get_content_length() == k, "eof: a cut message has the content that arrived, up to the limit"); pse_assert(pse_memeq(m.get_content(), b.data(), k), "eof: content of a cut message is a prefix of its content"); pse_assert(!m.is_valid(), "eof: a cut message is not valid"); pse_observe("cl", m.get_content_length());
}
// args: bytes, limit+1, payload handler.  a response body without length, cut into three pieces anywhere, ended by the close
extern "C" void g_until_close() {
    size_t n = pse_arg(0), lim = pse_arg(1) ? pse_arg(1) - 1 : 1024 * 1024; bool hnd = pse_arg(2); std::string b = pse_string(n, "body"), h = "HTTP/1.1 200 OK\r\nX: y\r\n\r\n"; response m; Run w(false, lim); Sink k; if (hnd) { parser::payload_handler_t f = boost::bind(&Sink::take, &k, _1, _2); w.p.set_payload_handler(f); }
    size_t s1 = pse_choose((uint8_t)(n + 1), "s1"), s2 = s1 + pse_choose((uint8_t)(n - s1 + 1), "s2"); w.feed(m, h + b.substr(0, s1)); w.feed(m, b.substr(s1, s2 - s1)); w.feed(m, b.substr(s2));
    pse_assert(w.rc == 2 && w.consumed == h.size() + n, "close: more content is expected until the close"); pse_assert(!w.p.check_premature_eof(m), "close: the close is the proper end"); w.p.finish(m); size_t st = n < lim ? n : lim;
    if (!hnd) { pse_assert(m.get_content_length() == st && pse_memeq(m.get_content(), b.data(), st), "close: content is what arrived, cut at the limit"); pse_assert(m.get_content()[st] == 0, "close: content is zero terminated"); } else pse_assert(pse_streq(k.got, b), "close: the payload handler gets what arrived"); pse_assert(m.is_valid() && m.get_status() == message::STATUS_OK, "close: message valid"); pse_observe("cl", m.get_content_length());
}
