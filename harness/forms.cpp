// Query strings, forms, cookies, URIs, data URIs and forwarded addresses.
#include "httpx.h"
#include <pion/http/types.hpp>
#include <pion/algorithm.hpp>
using pion::http::types; using pion::algorithm;
static bool ctl(uint8_t c) { return (c < 32) | (c == 127); }
static bool special(uint8_t c) { return (c == '(') | (c == ')') | (c == '<') | (c == '>') | (c == '@') | (c == ',') | (c == ';') | (c == ':') | (c == '\\') | (c == '"') | (c == '/') | (c == '[') | (c == ']') | (c == '?') | (c == '=') | (c == '{') | (c == '}') | (c == ' ') | (c == '\t'); }
static bool tok(uint8_t c) { return (c < 128) & !ctl(c) & !special(c); }
static uint8_t low(uint8_t c) { return (c >= 'A') & (c <= 'Z') ? c | 32 : c; }
static bool ieq(const std::string &a, const std::string &b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); ++i) r &= low(a[i]) == low(b[i]); return r; }
static size_t n_value(ihash_multimap &d, const std::string &k, const std::string &v) { size_t n = 0; std::pair<ihash_multimap::iterator, ihash_multimap::iterator> r = d.equal_range(k); for (; r.first != r.second; ++r.first) if (pse_streq(r.first->first, k) && pse_streq(r.first->second, v)) ++n; return n; }
typedef std::vector<std::pair<std::string, std::string> > Pairs;
static void expect(ihash_multimap &d, const Pairs &want, const char *msg) {
    pse_assert(d.size() == want.size(), msg);
    for (size_t i = 0; i < want.size(); ++i) { size_t n = 0; for (size_t j = 0; j < want.size(); ++j) if (pse_streq(want[i].first, want[j].first) && pse_streq(want[i].second, want[j].second)) ++n; pse_assert(n_value(d, want[i].first, want[i].second) == n, msg); }
}
// args: n.  any bytes, against the splitting rules
extern "C" void f_urlenc() {
    size_t n = pse_arg(0); std::string s = pse_arg(1) == 0 ? pse_string(n, "s") : hole(pse_arg(1) == 1 ? "a=~&~=c" : pse_arg(1) == 2 ? "a~b=~%4~" : pse_arg(1) == 3 ? "x=1,~,~&y" : pse_arg(1) == 4 ? "k=%~~&a" : pse_arg(1) == 5 ? "=~&~=~" : "~,~&=b&c"); Seg g(s); ihash_multimap d; bool ok = parser::parse_url_encoded(d, g.p, g.n);
    bool bad = false; std::string t; for (size_t i = 0; i < s.size(); ++i) { uint8_t c = s[i]; if ((c == '\r') | (c == '\n') | (c == '\t')) continue; if (ctl(c)) { bad = true; break; } t += (char)c; }
    pse_assert(ok == !bad, "form: fails exactly on control characters"); pse_observe("ok", ok); if (bad) { pse_reach("bad"); return; }
    Pairs want; std::string part; for (size_t i = 0; i <= t.size(); ++i) { if (i < t.size() && t[i] != '&') { part += t[i]; continue; }
        size_t e = 0; while (e < part.size() && part[e] != '=') ++e; std::string name = part.substr(0, e); if (!name.empty()) { if (e == part.size()) want.push_back(std::make_pair(algorithm::url_decode(name), std::string())); else { std::string v; for (size_t k = e + 1; k <= part.size(); ++k) { if (k < part.size() && part[k] != ',') { v += part[k]; continue; } want.push_back(std::make_pair(algorithm::url_decode(name), algorithm::url_decode(v))); v.clear(); } } } part.clear(); }
    expect(d, want, "form: the parameters are the decoded name=value pairs, one per listed value"); pse_reach("ok"); pse_observe("n", d.size());
}
// args: lengths.  parameters written as a query string and parsed again
extern "C" void f_query_roundtrip() {
    Pairs want; ihash_multimap d, e; for (int i = 0; i < 2; ++i) { size_t nl = pse_arg(2 * i), vl = pse_arg(2 * i + 1); if (!nl) break; std::string n = pse_string(nl, "n"), v = pse_string(vl, "v"); for (size_t k = 0; k < nl; ++k) pse_assume(n[k] != 0); for (size_t k = 0; k < vl; ++k) pse_assume(v[k] != 0); want.push_back(std::make_pair(n, v)); d.insert(want.back()); }
    std::string q = types::make_query_string(d); pse_assert(parser::parse_url_encoded(e, q), "query: a made query string parses"); expect(e, want, "query: parsing a made query string gives the parameters back"); pse_observe("n", q.size());
}
// args: content type (0 form, 1 with charset, 2 other, 3 multipart, 4 its type in another case), chunked?, split?.  parameters of the query string and of the content reach the request
extern "C" void f_request_form() {
    static const char *CT[] = { "application/x-www-form-urlencoded", "application/x-www-form-urlencoded; charset=UTF-8", "text/plain", "multipart/form-data; boundary=bnd" }; int ct = pse_arg(0); std::string v = pse_string(2, "v"), u = pse_string(2, "u"); for (int i = 0; i < 2; ++i) { pse_assume(tok(u[i]) & (u[i] != '%') & (u[i] != '+') & (u[i] != '&') & (u[i] != '=')); pse_assume(ct == 3 ? 1 : (v[i] != '&') & (v[i] != '%') & (v[i] != '+') & (v[i] != ',') & (v[i] != '\t') & (v[i] != '\r') & (v[i] != '\n')); }
    bool bad = ct != 3 && (ctl(v[0]) || ctl(v[1])); std::string b = ct == 3 ? "--bnd\r\nContent-Disposition: form-data; name=\"p\"\r\n\r\n" + v + "\r\n--bnd--\r\n" : "p=" + v; char len[40]; sprintf(len, pse_arg(1) ? "%x" : "%d", (int)b.size());
    std::string s = "POST /a?q=" + u + " HTTP/1.1\r\nContent-Type: " + CT[ct] + "\r\n" + (pse_arg(1) ? std::string("Transfer-Encoding: chunked\r\n\r\n") + len + "\r\n" + b + "\r\n0\r\n\r\n" : std::string("Content-Length: ") + len + "\r\n\r\n" + b); request r; Run w(true); size_t cut = pse_arg(2) ? s.size() - 1 - pse_choose(9, "cut") : s.size(); w.feed(r, s.substr(0, cut)); w.feed(r, s.substr(cut));
    pse_assert(w.rc == 1 && w.consumed == s.size() && r.is_valid(), "form: whatever the parameters, the request is delivered"); pse_assert(n_value(r.get_queries(), "q", u) == 1, "form: the query string's parameters reach the request"); pse_assert(r.get_queries().count("p") == (ct == 2 || bad ? 0u : 1u), "form: the content's parameters reach the request exactly if it says it is a form"); if (ct != 2 && !bad) pse_assert(n_value(r.get_queries(), "p", v) == 1, "form: the content's parameters reach the request"); pse_assert(pse_streq(body(r), b), "form: the content stays what it is"); pse_reach(bad ? "odd form" : "form"); pse_observe("n", r.get_queries().size());
}
// args: name len limit test
extern "C" void f_urlenc_limit() { size_t over = pse_arg(0); uint8_t c = pse_u8("c"); pse_assume(tok(c) & (c != '&') & (c != '+') & (c != '%')); ihash_multimap d; std::string s = std::string(1024 + over, (char)c) + "=1"; bool ok = parser::parse_url_encoded(d, s); pse_assert(ok == !over, "form: a parameter name longer than its limit is an error"); ihash_multimap k; std::string ck = std::string(1024 + over, (char)c) + "=1"; pse_assert(parser::parse_cookie_header(k, ck, false) == !over || c == '$', "cookie: a cookie name longer than its limit is an error"); pse_observe("ok", ok); }
// args: name1 len, value1 len, name2 len, value2 len, separator, quoting.  well-formed Cookie header
extern "C" void f_cookie() {
    static const char *SEP[] = { "; ", ";", ",", " ; " }; std::string n1 = pse_string(pse_arg(0), "n1"), v1 = pse_string(pse_arg(1), "v1"), n2 = pse_string(pse_arg(2), "n2"), v2 = pse_string(pse_arg(3), "v2"); int qk = pse_arg(5); bool set = pse_arg(6);
    for (size_t i = 0; i < n1.size(); ++i) pse_assume(tok(n1[i])); for (size_t i = 0; i < n2.size(); ++i) pse_assume(tok(n2[i])); pse_assume((n1[0] != '$') & (n2[0] != '$')); if (set) { static const char *AT[] = { "comment", "domain", "max-age", "path", "secure", "version", "expires", "httponly" }; for (int i = 0; i < 8; ++i) { pse_assume(!ieq(n1, AT[i])); pse_assume(!ieq(n2, AT[i])); } }
    char q = qk == 1 ? '"' : '\''; for (size_t i = 0; i < v1.size(); ++i) pse_assume(qk ? v1[i] != q : (!ctl(v1[i])) & (v1[i] != ';') & (v1[i] != ',') & (v1[i] != '"') & (v1[i] != '\'')); if (!qk && v1.size()) pse_assume(v1[0] != ' '); for (size_t i = 0; i < v2.size(); ++i) pse_assume((!ctl(v2[i])) & (v2[i] != ';') & (v2[i] != ',') & (v2[i] != '"') & (v2[i] != '\'') & (v2[i] != ' '));
    std::string h = n1 + "=" + (qk ? std::string(1, q) : "") + v1 + (qk ? std::string(1, q) : "") + SEP[pse_arg(4)] + n2 + "=" + v2; Seg g(h); ihash_multimap d; pse_assert(parser::parse_cookie_header(d, g.p, g.n, set), "cookie: a well-formed header parses"); Pairs want; want.push_back(std::make_pair(n1, pse_arg(4) == 3 && !qk ? v1 + " " : v1)); want.push_back(std::make_pair(n2, v2)); expect(d, want, "cookie: names and values, quoted or not"); pse_observe("n", d.size());
}
// args: n, set.  any bytes: safe, attributes and empty names never become cookies, control characters outside quotes fail
extern "C" void f_cookie_any() {
    std::string s = pse_arg(2) ? hole(pse_arg(2) == 1 ? "a=b; ~~th=/" : pse_arg(2) == 2 ? "~=\"~~;" : "$a=1;~=~;c") : pse_string(pse_arg(0), "s"); bool set = pse_arg(1); Seg g(s); ihash_multimap d; bool ok = parser::parse_cookie_header(d, g.p, g.n, set);
    for (ihash_multimap::const_iterator i = d.begin(); i != d.end(); ++i) { pse_assert(!i->first.empty() && i->first[0] != '$', "cookie: no cookie without a name or with an attribute name"); if (set) pse_assert(!ieq(i->first, "path") && !ieq(i->first, "version") && !ieq(i->first, "secure") && !ieq(i->first, "max-age"), "cookie: attributes of Set-Cookie are not cookies"); for (size_t k = 0; k < i->first.size(); ++k) pse_assert(!ctl(i->first[k]), "cookie: no control characters in names"); } pse_observe("ok", ok); pse_observe("n", d.size());
}
// several cookie headers, the first with arbitrary text. args: text, response?
extern "C" void f_cookie_headers() {
    std::string t = hole(pse_arg(0) == 0 ? "~~" : pse_arg(0) == 1 ? "a=~" : pse_arg(0) == 2 ? "a=\"~~" : "~=b;c=d"); bool bad = false; for (size_t i = 0; i < t.size(); ++i) { pse_assume((t[i] == '\t') | !ctl(t[i])); bad |= t[i] == '\t'; } bool res = pse_arg(1); std::string n = res ? "Set-Cookie: " : "Cookie: ", s = std::string(res ? "HTTP/1.1 204 No\r\n" : "GET / HTTP/1.1\r\n") ; int at = (int)pse_choose(3, "at"); const std::string H[3] = { t, "k=v", "l=w" }; for (int i = 0; i < 3; ++i) s += n + H[(i + at) % 3] + "\r\n"; s += "\r\n"; request q; response a; message &m = res ? (message &)a : (message &)q; Run w(!res); w.feed(m, s);
    pse_assert(w.rc == 1 && m.get_headers().count(res ? "Set-Cookie" : "Cookie") == 3, "cookie: a header that is no cookie is still a header"); pse_assert(n_value(m.get_cookies(), "k", "v") && n_value(m.get_cookies(), "l", "w"), "cookie: each header yields its cookies, whatever the others hold"); pse_reach(bad ? "odd header" : "several headers"); pse_observe("n", m.get_cookies().size());
}
// args: name len, value len, path len+1, max-age?.  a made Set-Cookie header parses back to the cookie
extern "C" void f_setcookie() {
    std::string n = pse_string(pse_arg(0), "n"), v = pse_string(pse_arg(1), "v"), p = pse_arg(2) ? "/" + pse_string(pse_arg(2) - 1, "p") : ""; for (size_t i = 0; i < n.size(); ++i) pse_assume(tok(n[i])); pse_assume((n[0] != '$')); { static const char *AT[] = { "comment", "domain", "max-age", "path", "secure", "version", "expires", "httponly" }; for (int i = 0; i < 8; ++i) pse_assume(!ieq(n, AT[i])); } for (size_t i = 0; i < v.size(); ++i) pse_assume(v[i] != '"'); for (size_t i = 0; i < p.size(); ++i) pse_assume((!ctl(p[i])) & (p[i] != ';') & (p[i] != ',')); unsigned long age = pse_choose(3, "age") * 3600;
    std::string h = types::make_set_cookie_header(n, v, p, pse_arg(3), age); ihash_multimap d; pse_assert(parser::parse_cookie_header(d, h, true), "set-cookie: a made header parses"); Pairs want; want.push_back(std::make_pair(n, v)); expect(d, want, "set-cookie: parsing a made header gives exactly the cookie back");
    pse_assert(pse_arg(2) == 0 || h.find("; Path=" + p) != std::string::npos, "set-cookie: path attribute present"); pse_assert((h.find("Max-Age=") != std::string::npos) == (pse_arg(3) != 0), "set-cookie: lifetime present exactly when asked for"); if (pse_arg(3)) pse_assert(h.find(age == 0 ? "Max-Age=0" : age == 3600 ? "Max-Age=3600" : "Max-Age=7200") != std::string::npos, "set-cookie: lifetime"); pse_observe("n", h.size());
}
// args: name len, value1 len, value2 len, type of field 2 (0 none, 1 text, 2 binary), flags: 1 preamble, 2 LF only
static std::string b64(const std::string &s) { static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string r; for (size_t i = 0; i < s.size(); i += 3) { unsigned a = (uint8_t)s[i], b = i + 1 < s.size() ? (uint8_t)s[i + 1] : 0, c = i + 2 < s.size() ? (uint8_t)s[i + 2] : 0; r += A[a >> 2]; r += A[(a & 3) << 4 | b >> 4]; r += i + 1 < s.size() ? A[(b & 15) << 2 | c >> 6] : '='; r += i + 2 < s.size() ? A[c & 63] : '='; } return r; }
extern "C" void f_multipart() {
    std::string n1 = pse_string(pse_arg(0), "n1"), v1 = pse_string(pse_arg(1), "v1"), v2 = pse_string(pse_arg(2), "v2"); for (size_t i = 0; i < n1.size(); ++i) pse_assume((n1[i] != '"') & (n1[i] != '\r') & (n1[i] != '\n')); int ty = pse_arg(3), fl = pse_arg(4); const std::string B = "--bnd";
    std::string h3 = fl & 4 ? pse_string(2, "v3") : ""; std::string h2 = ty == 1 ? "Content-Type: text/plain\r\n" : ty == 2 ? "Content-Type: image/png\r\n" : ""; std::string s = (fl & 1 ? "preamble\r\n" : "") + B + "\r\nContent-Disposition: form-data; name=\"" + n1 + "\"\r\n\r\n" + v1 + "\r\n" + B + "\r\ncontent-disposition: form-data; name=\"f2\"; filename=\"x\"\r\n" + h2 + "\r\n" + v2 + "\r\n" + B + (fl & 4 ? "\r\nContent-Disposition: form-data; name=\"f3\"\r\n\r\n" + h3 + "\r\n" + B : "") + "--\r\n"; Seg g(s); ihash_multimap d; bool ok = parser::parse_multipart_form_data(d, "multipart/form-data; boundary=bnd", g.p, g.n);
    pse_assert(ok, "multipart: a well-formed form parses"); Pairs want; if (n1.size()) want.push_back(std::make_pair(n1, v1)); want.push_back(std::make_pair(std::string("f2"), ty == 2 ? "data:image/png; base64, " + b64(v2) : v2)); if (fl & 4) want.push_back(std::make_pair(std::string("f3"), h3)); expect(d, want, "multipart: each named field has exactly its bytes, binary fields base64-coded"); pse_observe("n", d.size());
}
// args: template.  any bytes in a form body: safe
extern "C" void f_multipart_any() {
    static const char *T[] = { "~~~~", "--b~~~", "--b\r\n~~~", "--b\r\nContent-Disposition: name=\"q\"\r\n~~~", "--b\r\nContent-Disposition: name=\"q\"\r\n\r\n~~~", "--b\r\nContent-Disposition: name=\"q\"\r\nContent-Type: a/~\r\n\r\n~~--b~", "--b\r\nContent-Disposition: name=\"q\"\n\n~--b~~", "--b\r\nContent-Disposition: name=\"~~\r\n\r\n--b--", "--b\r\nA:~~\r\n\r\nx~--b--", "--b\r\nContent-Disposition: name=\"q\"\r\nContent-Type: a/b\r\n\r\n--b~~", "--b\r\nContent-Disposition: name=\"q\"\r\n\r\n~~\r\n-~b--" };
    std::string s = hole(T[pse_arg(0)]); Seg g(s); ihash_multimap d; bool ok; try { ok = parser::parse_multipart_form_data(d, "multipart/form-data; boundary=b", g.p, g.n); } catch (...) { pse_fail("multipart: parsing never throws"); return; } size_t tot = 0; for (ihash_multimap::const_iterator i = d.begin(); i != d.end(); ++i) tot += i->second.size(); pse_assert(tot <= 2 * s.size() + 40, "multipart: fields are no larger than the form"); if (!d.empty()) pse_assert(ok || true, ""); pse_observe("ok", ok); pse_observe("n", d.size()); pse_observe("tot", tot);
}
extern "C" void f_multipart_type() { // arbitrary content type text
    std::string ct = hole(pse_arg(0) == 0 ? "multipart/form-data; ~oundary=~" : pse_arg(0) == 1 ? "multipart/form-data; boundary=" : "boundary=~~"); if (pse_arg(0) == 2) pse_assume(tok(ct[9]) & tok(ct[10])); std::string s = "--x\r\nContent-Disposition: name=\"q\"\r\n\r\nv\r\n--x--"; Seg g(s); ihash_multimap d; bool ok = parser::parse_multipart_form_data(d, ct, g.p, g.n); if (ok && !d.empty() && pse_arg(0) == 0) { pse_assert(pse_streq(d.begin()->first, "q"), "multipart: field name"); pse_reach("parsed"); } else if (pse_arg(0)) pse_assert(d.empty(), "multipart: no fields without a boundary that occurs"); pse_observe("ok", ok); }
// args: n, type len.  data URIs round trip
extern "C" void f_datauri() {
    size_t n = pse_arg(0); std::string b = pse_string(n, "b"), ty = pse_string(pse_arg(1), "ty"), o; for (size_t i = 0; i < ty.size(); ++i) pse_assume(ty[i] != ';'); Seg g(b); pse_assert(parser::binary_2base64(o, g.p, n, ty), "data uri: coding succeeds"); pse_assert(pse_streq(o, "data:" + ty + "; base64, " + b64(b)), "data uri: prefix, type and RFC 4648 text");
    size_t cap = o.size() + 1; char *buf = new char[cap]; size_t outn = 0; std::string t2; bool ok = parser::base64_2binary(buf, cap, outn, t2, o); pse_assert(ok && pse_streq(t2, ty), "data uri: decoding gives the type back"); pse_assert(outn == n + 1 && pse_memeq(buf, b.data(), n) && buf[n] == 0, "data uri: decoding gives the bytes back, zero terminated"); delete[] buf; pse_observe("n", o.size());
}
extern "C" void f_datauri_any() {
    static const char *T[] = { "~~~~~", "data:~; base64, ~~~", "data:x; base64, ~~=", "data:x; base64, ~==", "data:; base64, ~~~~~", "data:; base64,~", "data:x; base64, QQ~~", "data:x; base64, ~" }; std::string s = hole(T[pse_arg(0)]), ty; size_t cap = s.size(), outn = 77; char *buf = new char[cap + 1]; buf[cap] = 0x5a; bool ok; try { ok = parser::base64_2binary(buf, cap, outn, ty, s); } catch (...) { pse_fail("data uri: decoding never throws"); return; }
    pse_assert(buf[cap] == 0x5a, "data uri: decoding stays inside the buffer"); if (ok) { pse_assert(outn <= cap, "data uri: reported size fits the buffer"); pse_reach("ok"); } else pse_reach("rejected"); delete[] buf; pse_observe("ok", ok);
    char small[1]; small[0] = 7; bool ok2 = parser::base64_2binary(small, 1, outn, ty, s); pse_assert(!ok2 && small[0] == 7, "data uri: a buffer that is too small is left alone");
}
// args: proto, host len, port kind, path len+1, query len+1
extern "C" void f_uri() {
    static const char *PR[] = { "", "http", "https", "HTTP", "HTTPS", "ftp" }; int pk = pse_arg(0), po = pse_arg(2); std::string host = pse_string(pse_arg(1), "host"), path = pse_arg(3) ? "/" + pse_string(pse_arg(3) - 1, "path") : "", q = pse_arg(4) ? pse_string(pse_arg(4) - 1, "q") : ""; for (size_t i = 0; i < host.size(); ++i) pse_assume((host[i] != '/') & (host[i] != ':')); for (size_t i = 0; i < path.size(); ++i) pse_assume((path[i] != '?') & (path[i] != ':')); for (size_t i = 0; i < q.size(); ++i) pse_assume(q[i] != ':');
    std::string pt; unsigned pn = 0; if (po) { for (int i = 0; i < po; ++i) { char c = digit("port"); pse_assume((c >= '0') & (c <= '9')); pt += c; } for (size_t i = 0; i < pt.size(); ++i) pn = pn * 10 + (pt[i] - '0'); }
    std::string u = (pk ? std::string(PR[pk]) + "://" : "") + host + (po ? ":" + pt : "") + path + (pse_arg(4) ? "?" + q : ""), proto = "old", h = "old", pa = "old", qu = "old"; boost::uint16_t port = 9; bool ok = parser::parse_uri(u, proto, h, port, pa, qu);
    if (host.empty() || pn > 65535) { pse_assert(!ok, "uri: without a host, or with a port that is no port number, it is rejected"); pse_reach("rejected"); return; }
    pse_assert(ok, "uri: a well-formed URI parses"); pse_assert(proto == PR[pk], "uri: scheme"); pse_assert(pse_streq(h, host), "uri: host"); pse_assert(pse_streq(pa, path.empty() ? "/" : path), "uri: path"); pse_assert(pse_streq(qu, q), "uri: query"); pse_assert(port == (po ? pn : pk == 1 || pk == 3 ? 80 : pk == 2 || pk == 4 ? 443 : 0), "uri: port, or the default of the scheme"); pse_observe("port", port);
}
extern "C" void f_uri_any() { std::string u = hole(pse_arg(0) == 0 ? "~~~~~" : pse_arg(0) == 1 ? "http://h:~~~/p" : pse_arg(0) == 2 ? "http://h:6553^/" : "h:655^^"), a, b, c, d; boost::uint16_t p = 0; bool ok = parser::parse_uri(u, a, b, p, c, d); if (ok) { pse_assert(!b.empty() && !c.empty(), "uri: a parsed URI has a host and a path"); pse_assert(a.size() + b.size() + d.size() <= u.size(), "uri: parts are parts of the text"); } if (pse_arg(0) > 1) { std::string o = pse_arg(0) == 2 ? u.substr(9, 5) : u.substr(2); unsigned v = 0; bool num = true; for (size_t i = 0; i < o.size(); ++i) if ((o[i] >= '0') & (o[i] <= '9')) v = v * 10 + (o[i] - '0'); else num = false; if (num) { pse_assert(ok == (v <= 65535), "uri: a port is a number up to 65535"); if (ok) pse_assert(p == v, "uri: port"); pse_reach("port"); } } pse_observe("ok", ok); pse_observe("p", p); }
// forwarded-for
static bool priv(const unsigned *o) { return (o[0] == 10) | (o[0] == 127) | ((o[0] == 192) & (o[1] == 168)) | ((o[0] == 172) & (o[1] >= 16) & (o[1] <= 31)); }
static std::string oct(int len, const char *nm, unsigned &v) { std::string s; v = 0; for (int i = 0; i < len; ++i) { uint8_t c = pse_u8(nm); pse_assume((c >= '0') & (c <= '9')); if (i == 0 && len > 1) pse_assume(c != '0'); s += (char)c; v = v * 10 + (c - '0'); } return s; }
// args: digits of the four octets of the first address, second address kind, separator
extern "C" void f_forwarded() {
    unsigned o[4]; std::string a, pub = "old"; for (int i = 0; i < 4; ++i) { if (i) a += "."; a += oct(pse_arg(i), "o", o[i]); } static const char *S[] = { "", ", 8.8.4.4", " 10.1.2.3", ",172.16.0.1,9.9.9.9", "; 127.0.0.1 unknown" }; static const char *W[] = { 0, "8.8.4.4", 0, "9.9.9.9", 0 }; static const char *PRE[] = { "", "unknown, ", "for=", "192.168.1.1 " }; int k = pse_arg(4);
    std::string h = std::string(PRE[pse_arg(5)]) + a + S[k]; bool ok = parser::parse_forwarded_for(h, pub); if (!priv(o)) { pse_assert(ok && pse_streq(pub, a), "forwarded: the first public address is the client"); pse_reach("public"); } else if (W[k]) { pse_assert(ok && pub == W[k], "forwarded: private addresses are skipped"); pse_reach("skipped"); } else { pse_assert(!ok && pub == "old", "forwarded: no address is reported when all are private"); pse_reach("none"); } pse_observe("ok", ok);
}
extern "C" void f_forwarded_any() { std::string h = hole(pse_arg(0) == 0 ? "~~~~" : pse_arg(0) == 1 ? "1~.2.3.4" : pse_arg(0) == 2 ? "1.2.3~4, 5.6.7.8" : "~0.1.1.1~"), pub = "old"; bool ok = parser::parse_forwarded_for(h, pub); if (ok) { pse_assert(h.find(pub) != std::string::npos, "forwarded: the address is part of the header"); pse_assert(pub.compare(0, 3, "10.") != 0 && pub.compare(0, 4, "127.") != 0 && pub.compare(0, 8, "192.168.") != 0, "forwarded: never a private address"); } else pse_assert(pub == "old", "forwarded: left alone on failure"); pse_observe("ok", ok); }
