// The services that come with pion (except FileService), behind a server.
#include "serve.h"
#include <pion/http/plugin_server.hpp>
#include <pion/http/auth.hpp>
#include "EchoService.hpp"
#include "CookieService.hpp"
#include "HelloService.hpp"
#include "LogService.hpp"
#include "AllowNothingService.hpp"
using namespace pion::plugins;
static void *NOLIB; extern "C" { void *pse_dlopen(const char *, int) { return NOLIB; } int pse_dlclose(void *) { return 0; } void *pse_dlsym(void *, const char *) { return 0; } char *pse_dlerror(void) { return 0; } }
struct Known : auth { Known() : auth(pion::user_manager_ptr(new pion::user_manager)) {} virtual bool handle_request(const request_ptr &q, const connection_ptr &) { q->set_user(pion::user_ptr(new pion::user("bob"))); return true; } virtual void set_option(const std::string &, const std::string &) {} };
struct Site {
    Net n; plugin_server *srv; Client *c; size_t used; Site(pion::http::plugin_service *s, bool known = false) : c(0), used(0) { srv = new plugin_server(n.s, 8080); srv->add_service("/s", s); if (known) srv->set_authentication(auth_ptr(new Known)); srv->start(); }
    response *ask(const std::string &text, bool head = false) { if (!c || !c->t.open) { c = n.connect(*srv); used = 0; } c->send(text); n.run(); std::string out = c->t.out.substr(used); used = c->t.out.size(); Answers a(out, !c->t.open, head); if (a.bad || a.r.size() != 1) return 0; return a.r[0]; }
};
static std::string num(unsigned n) { std::string s; do { s.insert(s.begin(), (char)('0' + n % 10)); n /= 10; } while (n); return s; }
static std::string pct(const std::string &s) { std::string r; for (size_t i = 0; i < s.size(); ++i) { r += '%'; uint8_t h = (uint8_t)s[i] >> 4, l = (uint8_t)s[i] & 15; r += (char)(h < 10 ? '0' + h : 'A' + h - 10); r += (char)(l < 10 ? '0' + l : 'a' + l - 10); } return r; }
static bool one(response &r, const char *k, const std::string &v) { return r.get_headers().count(k) == 1 && r.get_headers().find(k)->second == v; }
// ---- echo: the answer says what was asked. args: bytes in path, query value, header value, cookie value, content, 1: authenticated, method (0 GET, 1 POST, 2 HEAD)
extern "C" void x_echo() {
    Site s(new EchoService, pse_arg(5)); std::string p = pse_string(pse_arg(0), "p"), v = pse_string(pse_arg(1), "q"), h = text(pse_arg(2), "h"), c = pse_string(pse_arg(3), "c"), d = pse_string(pse_arg(4), "d"); const char *me = pse_arg(6) == 0 ? "GET" : pse_arg(6) == 1 ? "POST" : "HEAD"; for (size_t i = 0; i < p.size(); ++i) pse_assume(!ctl(p[i]) & (p[i] != ' ') & (p[i] != '?') & (p[i] != '/')); for (size_t i = 0; i < c.size(); ++i) pse_assume(!ctl(c[i]) & (c[i] != ' ') & (c[i] != ';') & (c[i] != ',') & (c[i] != '"') & (c[i] != '\'')); for (size_t i = 0; i < h.size(); ++i) pse_assume(h[i] != ' '); for (size_t i = 0; i < v.size(); ++i) pse_assume(v[i] != 0);
    std::string path = p.empty() ? "/s" : "/s/" + p, qs = v.empty() ? "" : "k=" + pct(v), len = d.empty() ? "" : num(d.size()); std::string t = std::string(me) + " " + path + (qs.empty() ? "" : "?" + qs) + " HTTP/1.1\r\n" + (h.empty() ? "" : "X: " + h + "\r\n") + (c.empty() ? "" : "Cookie: n=" + c + "\r\n") + (len.empty() ? "" : "Content-Length: " + len + "\r\n") + "\r\n" + d;
    response *r = s.ask(t, pse_arg(6) == 2); pse_assert(r && r->get_status_code() == 200 && one(*r, "Content-Type", "text/plain"), "services: a request has one answer"); if (!r || r->get_status_code() != 200) return; std::string b = body(*r), a = "[Request Echo]\r\n\r\nRequest method: " + std::string(me) + "\r\nResource originally requested: " + path + "\r\nResource delivered: " + path + "\r\nQuery string: " + qs + "\r\nHTTP version: 1.1\r\nContent length: " + (len.empty() ? "0" : len) + "\r\n\r\n[Request Headers]\r\n\r\n";
    if (pse_arg(6) == 2) { pse_assert(b.empty(), "services: no content in the answer to HEAD"); pse_reach("head"); return; }
    pse_assert(b.size() >= a.size() && pse_memeq(b.data(), a.data(), a.size()), "echo: the request line"); std::string z = "\r\n[Query Parameters]\r\n\r\n" + (v.empty() ? "" : "k: " + v + "\r\n") + "\r\n[Cookie Parameters]\r\n\r\n" + (c.empty() ? "" : "n: " + c + "\r\n") + "\r\n[POST Content]\r\n\r\n" + (d.empty() ? "" : d + "\r\n\r\n") + (pse_arg(5) ? "[USER Info]\r\n\r\nUser authenticated, username: bob\r\n" : "");
    std::string l[3]; int n = 0; if (!h.empty()) l[n++] = "X: " + h + "\r\n"; if (!c.empty()) l[n++] = "Cookie: n=" + c + "\r\n"; if (!len.empty()) l[n++] = "Content-Length: " + len + "\r\n"; std::string all = l[0] + l[1] + l[2]; bool any = false; static const int O[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
    pse_assert(b.size() == a.size() + all.size() + z.size(), "echo: everything that was sent and nothing else"); if (b.size() != a.size() + all.size() + z.size()) return; for (int k = 0; k < 6; ++k) any |= pse_memeq(b.data() + a.size(), (l[O[k][0]] + l[O[k][1]] + l[O[k][2]]).data(), all.size()); pse_assert(any, "echo: the headers"); pse_assert(pse_memeq(b.data() + a.size() + all.size(), z.data(), z.size()), "echo: parameters, cookies and content"); pse_observe("size", b.size()); pse_reach("echo");
}
// ---- cookies: nothing of the client becomes markup or a header
struct Marks { size_t lt, gt, quote, quot1; Marks(const std::string &s) : lt(0), gt(0), quote(0), quot1(0) { for (size_t i = 0; i < s.size(); ++i) { uint8_t c = s[i]; lt += c == '<'; gt += c == '>'; quote += c == '"'; quot1 += c == '\''; } } bool operator==(const Marks &o) const { return (lt == o.lt) & (gt == o.gt) & (quote == o.quote) & (quot1 == o.quot1); } };
static std::string unxml(std::string s) { static const char *E[][2] = { { "&lt;", "<" }, { "&gt;", ">" }, { "&quot;", "\"" }, { "&apos;", "'" }, { "&#39;", "'" }, { "&amp;", "&" } }; std::string r; for (size_t i = 0; i < s.size();) { bool f = false; for (int k = 0; k < 6 && !f; ++k) { std::string e = E[k][0]; if (s.compare(i, e.size(), e) == 0) { r += E[k][1]; i += e.size(); f = true; } } if (!f) r += s[i++]; } return r; }
static std::string part(const std::string &b, const char *from, const char *to) { size_t i = b.find(from); if (i == std::string::npos) return "?"; i += std::string(from).size(); size_t e = b.find(to, i); return e == std::string::npos ? "?" : b.substr(i, e - i); }
// other headers and further cookie headers: exactly the cookie headers are shown. args: headers before, after
extern "C" void x_headers() {
    Site s(new CookieService); static const char *H[] = { "Cookie: n1=v\r\n", "A: zz\r\n", "~: zz\r\n", "cookie: n2=v\r\n" }; std::string t = "GET /s HTTP/1.1\r\n"; int n = 0; for (uint64_t k = 0; k < pse_arg(0); ++k) { int w = (int)pse_choose(4, "h"); std::string l = H[w]; if (w == 2) l[0] = token(1, "x")[0]; n += w == 0 || w == 3; t += l; } response *r = s.ask(t + "\r\n"); pse_assert(r && r->get_status_code() == 200, "services: a request has one answer"); if (!r) return; std::string b = body(*r); int shown = 0, vars = 0; for (size_t i = b.find("<li>"); i != std::string::npos; i = b.find("<li>", i + 1)) { bool h = b.compare(i, 12, "<li>Cookie: ") == 0; shown += h; vars += !h; }
    pse_assert(shown == n && b.find("zz") == std::string::npos, "cookies: exactly the cookie headers are shown"); pse_assert(vars == n, "cookies: every cookie is shown"); pse_observe("n", n); pse_reach("headers");
}
// args: place (0 path, 1 cookie name, 2 quoted cookie value), bytes
extern "C" void x_show() {
    Site s(new CookieService); uint64_t w = pse_arg(0); std::string v = pse_string(pse_arg(1), "b"), o(v.size(), 'o'); for (size_t i = 0; i < v.size(); ++i) { uint8_t c = v[i]; pse_assume(!ctl(c) & (c < 128) & (w == 2 ? (c != '"') : (c != ' '))); if (w == 0) pse_assume((c != '?') & (c != '/')); if (w == 1) pse_assume((c != ';') & (c != ',') & (c != '=') & (i || c != '$')); }
    std::string text[2]; for (int k = 0; k < 2; ++k) { const std::string &x = k ? o : v; text[k] = "GET /s/" + (w == 0 ? x : std::string("o")) + " HTTP/1.1\r\nCookie: " + (w == 1 ? x : std::string("n")) + "=\"" + (w == 2 ? x : std::string("o")) + "\"\r\n\r\n"; }
    response *r = s.ask(text[0]), *p = s.ask(text[1]); pse_assert(r && p && r->get_status_code() == 200 && p->get_status_code() == 200, "services: a request has one answer"); if (!r || !p) return; pse_assert(one(*r, "Content-Type", "text/html") && r->get_headers().size() == p->get_headers().size(), "cookies: no other headers"); std::string b = body(*r), q = body(*p); pse_assert(Marks(b) == Marks(q), "cookies: nothing the client sent becomes markup");
    if (w == 0) { pse_assert(unxml(part(b, "<form action=\"", "\"")) == "/s/" + v, "cookies: the form leads back to the resource"); pse_assert(unxml(part(b, "<a href=\"", "?action")) == "/s/" + v, "cookies: the link leads back to the resource"); }
    if (w == 1) { std::string l = unxml(part(b, "?action=delete&cookie_name=", "\">")); pse_assert(pion::algorithm::url_decode(l) == v, "cookies: the link deletes the cookie it stands by"); pse_assert(unxml(part(b, "Cookie: ", "\n")) == v + "=\"o\"", "cookies: headers are shown as they were sent"); pse_reach("name"); }
    if (w == 2) { pse_assert(unxml(part(b, "<li>n: ", " <a")) == v, "cookies: values are shown as they were sent"); pse_reach("value"); } pse_observe("size", b.size());
}
// args: action (0 add, 1 delete, 2 other, 3 none), bytes of name, value
extern "C" void x_change() {
    Site s(new CookieService); static const char *ACT[] = { "Add+Cookie", "delete", "x", "" }; uint64_t a = pse_arg(0); std::string n = pse_string(pse_arg(1), "n"), v = pse_string(pse_arg(2), "v"); bool fine = true, ascii = true; for (size_t i = 0; i < v.size(); ++i) ascii &= (uint8_t)v[i] < 128; for (size_t i = 0; i < n.size(); ++i) { pse_assume(n[i] != 0); fine &= tok(n[i]); } for (size_t i = 0; i < v.size(); ++i) { uint8_t c = v[i]; pse_assume(c != 0); fine &= !ctl(c) & (c != '"'); }
    if (a == 2) n = v = ""; std::string t = "GET /s?action=" + std::string(ACT[a]) + (n.empty() ? "" : "&cookie_name=" + pct(n)) + (v.empty() ? "" : "&cookie_value=" + pct(v)) + " HTTP/1.1\r\n\r\n", y = "GET /s?action=x HTTP/1.1\r\n\r\n"; response *p = s.ask(y), *r = s.ask(t); pse_assert(r && p && r->get_status_code() == 200 && p->get_status_code() == 200, "services: a request has one answer"); if (!r || !p) return; std::string b = body(*r), q = body(*p);
    if (a == 3) { pse_assert(r->get_headers().size() == p->get_headers().size(), "cookies: nothing is set unless asked for"); return; } pse_assert(Marks(b) == Marks(q), "cookies: nothing the client sent becomes markup"); size_t set = r->get_headers().count("Set-Cookie"); pse_assert(r->get_headers().size() == p->get_headers().size() + set && set <= 1, "cookies: nothing the client sent becomes another header"); bool want = a < 2 && !n.empty() && (a || !v.empty()) && fine; bool plain = true; for (size_t i = 0; i < n.size(); ++i) plain &= (n[i] >= 'a') & (n[i] <= 'z'); for (size_t i = 0; i < v.size(); ++i) plain &= (v[i] >= 'a') & (v[i] <= 'z');
    if (set) { pse_assert(a < 2 && !n.empty() && (a || !v.empty()), "cookies: set only if asked for"); std::string h = r->get_headers().find("Set-Cookie")->second; pse_assert(h.size() >= n.size() + 3 && pse_memeq(h.data(), (n + "=\"").data(), n.size() + 2), "cookies: the cookie set is the one asked for"); ihash_multimap d; pse_assert(pion::http::parser::parse_cookie_header(d, h, true), "cookies: the header can be read"); if (fine && n[0] != '$') pse_assert(d.size() >= 1 && has_value(d, n, a ? std::string() : v), "cookies: the cookie set is the one asked for"); pse_assert((h.find("; Max-Age=0") != std::string::npos) == (a == 1) || !fine, "cookies: deleted exactly if asked for"); pse_assert(unxml(part(b, a ? "[Deleted cookie " : "[Added cookie ", "]</p>")) == (a ? n : n + "=" + v) || !fine || !ascii || n.find(']') != std::string::npos || v.find(']') != std::string::npos, "cookies: the page says what was done"); pse_reach(a ? "deleted" : "added"); }
    else { pse_assert(!(want && plain), "cookies: an ordinary cookie is set"); pse_assert(b.find("[Error: ") != std::string::npos, "cookies: an error is reported"); pse_reach("refused"); } pse_observe("set", set);
}
// ---- the others. args: service (0 hello, 1 allow nothing, 2 log), method
extern "C" void x_simple() {
    static const char *ME[] = { "GET", "HEAD", "POST", "DELETE", "~~" }; uint64_t w = pse_arg(0); std::string me = ME[pse_arg(1)]; if (me[0] == '~') { me = token(2, "m"); } Site s(w == 0 ? (pion::http::plugin_service *)new HelloService : w == 1 ? (pion::http::plugin_service *)new AllowNothingService : new LogService); std::string p = text(1, "p"); pse_assume((p[0] != ' ') & (p[0] != '?')); bool head = pse_arg(1) == 1;
    for (int k = 0; k < 2; ++k) { response *r = s.ask(me + " /s/" + p + " HTTP/1.1\r\n" + (me == "POST" ? "Content-Length: 1\r\n\r\nx" : "\r\n"), head); pse_assert(r && r->get_status_code() == (w == 1 ? 405 : 200) && s.c->t.open, "services: a request has one answer"); if (!r) return; std::string b = body(*r); pse_assert(head ? b.empty() : w == 2 || b == (w == 0 ? "<html><body>Hello World!</body></html>\r\n\r\n" : "<html><body>No, you can't.</body></html>\r\n\r\n"), "services: the page"); if (w == 1) pse_assert(r->get_headers().count("Allow") == 1, "services: says what is allowed"); pse_observe("n", b.size()); } pse_reach(head ? "head" : "page");
}
// args: entries kept, steps: the last of them are kept
extern "C" void x_log() {
    LogServiceAppender a; unsigned m = pse_arg(0), n = pse_arg(1), first = pse_choose(n + 1, "when"); std::list<std::string> want; for (unsigned i = 0; i < n; ++i) { if (i == first) a.setMaxEvents(m); std::string t = pse_string(1, "t"); a.addLogString(t); want.push_back(t); while (want.size() > (i >= first ? m : 25u)) want.pop_front(); pse_assert(a.m_num_events == a.m_log_events.size() && a.m_log_events.size() == want.size(), "log: as many entries as kept"); bool ok = a.m_log_events.size() == want.size(); std::list<std::string>::iterator x = a.m_log_events.begin(), y = want.begin(); for (; ok && y != want.end(); ++x, ++y) ok &= pse_streq(*x, *y); pse_assert(ok, "log: the last entries are kept, in order"); } pse_observe("n", want.size());
}
