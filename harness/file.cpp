// FileService behind a server, over files in memory (shim/both/boost/filesystem).
#include "serve.h"
#include <pion/http/plugin_server.hpp>
#include <boost/filesystem/fstream.hpp>
#include <boost/shared_array.hpp>
#include "FileService.hpp"
using pion::plugins::FileService;
static void *NOLIB; extern "C" { void *pse_dlopen(const char *, int) { return NOLIB; } int pse_dlclose(void *) { return 0; } void *pse_dlsym(void *, const char *) { return 0; } char *pse_dlerror(void) { return 0; } }
static std::string visible(const char *t) { std::string s = t; for (size_t i = 0; i < s.size(); ++i) if (s[i] == '~') { uint8_t c = pse_u8("b"); pse_assume((c > 32) & (c < 127) & (c != '?')); s[i] = (char)c; } return s; }
static const char *BASE = "/srv/www";
static void tree() { pse_fs_type &f = pse_fs(); f.add("/srv", true); f.add("/srv/www", true); f.add("/srv/www/a", false, "in-a"); f.add("/srv/www/s", true); f.add("/srv/www/s/b", false, "in-b"); f.add("/srv/www2", true); f.add("/srv/www2/a", false, "OUT1"); f.add("/srv/a", false, "OUT2"); f.add("/a", false, "OUT3"); }
static const char *DIRS[][2] = { { "/srv/www", "/" }, { "/srv/www/", "/" }, { ".", "/srv/www" }, { "..", "/srv/www/s" }, { "www", "/srv" }, { "/srv/x/../www", "/" }, { "./www/s/..", "/srv" } };
// where a relative path leads from the base, name by name; false: out of it at some point or at the end
static bool walk(const std::string &rel, std::string &place, bool &slash) { place = BASE; size_t i = 0, depth = 0; slash = false; bool out = false; while (i < rel.size()) { if (rel[i] == '/') { ++i; slash = true; continue; } size_t e = i; while (e < rel.size() && rel[e] != '/') ++e; std::string c = rel.substr(i, e - i); i = e; slash = false; if (c == ".") { slash = true; continue; } if (c == "..") { if (!depth) { out = true; place.erase(place.rfind('/')); } else { --depth; place.erase(place.rfind('/')); } if (place.empty()) return false; continue; } ++depth; place += "/" + c; } return !out; }
struct Site {
    Net n; plugin_server *srv; FileService *svc; Client *c; size_t used; Site() : svc(new FileService), c(0), used(0) { srv = new plugin_server(n.s, 8080); srv->add_service("/f", svc); }
    void start() { srv->start(); c = n.connect(*srv); } void again() { if (!c || !c->t.open) { c = n.connect(*srv); used = 0; } }
    // the answer to one request; null if there is none
    response *ask(const std::string &text, bool head = false) { again(); c->send(text); n.run(); std::string out = c->t.out.substr(used); used = c->t.out.size(); Answers a(out, !c->t.open, head); if (a.bad || a.r.size() != 1) return 0; return a.r[0]; }
};
static const char *METHOD[] = { "GET", "HEAD", "PUT", "POST", "DELETE", "PATCH" };
static const char *PATHS[] = { "~", "~~", "~~~", "../~~~", "../www~/~", "~/../~", "s/~~/~", "%2e%2e/~~", "..%2f~~", "/~~~", "s/../../~", "s/%2E%2e/~~", "~~/../../a", "s/b/~~", "%~~a", "a%0~", "~~~~", "../~~~~", "~~/~~/~", "s/~~/~~", "%~~%~~a", "s/~" };
// args: directory option, path, method, scan
extern "C" void f_contain() {
    tree(); pse_fs().cwd = DIRS[pse_arg(0)][1]; Site s; s.svc->set_option("directory", DIRS[pse_arg(0)][0]); s.svc->set_option("writable", "true"); s.svc->set_option("scan", pse_arg(3) == 1 ? "1" : pse_arg(3) == 3 ? "3" : "0"); s.start(); std::string p = visible(PATHS[pse_arg(1)]), me = METHOD[pse_arg(2)]; bool body_ = me == "PUT" || me == "POST"; pse_fs().log.clear();
    response *r = s.ask(me + " /f/" + p + " HTTP/1.1\r\n" + (body_ ? "Content-Length: 1\r\n\r\nx" : "\r\n"), me == "HEAD"); pse_assert(r != 0, "files: every request has one answer"); if (!r) return; int code = r->get_status_code();
    std::string rel = pion::algorithm::url_decode(p), place; rel = rel.c_str(); bool slash = false, in = walk(rel, place, slash); const std::string base = BASE;
    for (size_t i = 0; i < pse_fs().log.size(); ++i) { const std::string &t = pse_fs().log[i].name; pse_assert(t == base || t.compare(0, base.size() + 1, base + "/") == 0, "files: nothing outside the directory is looked at, read, changed or deleted"); }
    pse_node *n = pse_fs().at("/srv/a"); pse_assert(n && n->data == "OUT2", "files: what is outside stays as it was"); n = pse_fs().at("/srv/www2/a"); pse_assert(n && n->data == "OUT1", "files: what is next to it stays as it was");
    bool back = place == base || place.compare(0, base.size() + 1, base + "/") == 0; if (!back) { pse_assert(code == 403, "files: a path that leads outside is forbidden"); pse_reach("outside"); }
    else if (in && me == "GET") { if (place == base || place == "/srv/www/s") { pse_assert(code == 403, "files: directories are not served"); pse_reach("directory"); } else if (!slash && place == "/srv/www/a" && !(pse_arg(3) && rel != "a")) { pse_assert(code == 200 && body(*r) == "in-a", "files: a file inside is served"); pse_reach("served"); } else if (!slash && place == "/srv/www/s/b" && !(pse_arg(3) && rel != "s/b")) { pse_assert(code == 200 && body(*r) == "in-b", "files: a file in a subdirectory is served"); pse_reach("below"); } else { pse_assert(code == 404, "files: a file that is not there is not found"); pse_reach("missing"); } }
    pse_observe("code", code); pse_observe("n", pse_fs().log.size());
}
static std::string num(unsigned n) { std::string s; do { s.insert(s.begin(), (char)('0' + n % 10)); n /= 10; } while (n); return s; }
static std::string one(const ihash_multimap &h, const char *k) { return h.count(k) == 1 ? h.find(k)->second : std::string(h.count(k) ? "?several" : "?none"); }
// args: cache, scan, chunk size, minor version, content length, steps, 1: asked for as the file option (each one of 0 GET, 1 HEAD, 2 GET if changed, 3 changed, 4 unreadable, 5 shorter than it says, 6 removed, 7 one more file, 8 stopped and started again), 1: the first one plus one
extern "C" void f_serve() {
    unsigned cache = pse_arg(0), scan = pse_arg(1), chunk = pse_arg(2), minor = pse_arg(3), steps = pse_arg(5); size_t len = pse_arg(4); tree(); pse_node *n = pse_fs().at("/srv/www/a"); n->name = "/srv/www/a.b.tXt"; std::string cur = pse_string(len, "d"); n->data = cur; std::vector<std::string> had; had.push_back(cur);
    Site s; s.svc->set_option("directory", BASE); s.svc->set_option("cache", num(cache)); s.svc->set_option("scan", num(scan)); s.svc->set_option("max_chunk_size", num(chunk)); if (pse_arg(6)) s.svc->set_option("file", "/srv/www/a.b.tXt"); s.start(); std::string last = "x"; bool broken = false, old = cache == 2 || (cache == 0 && false); bool late = false, absent = false, asked = false, more = false; std::time_t older = n->mtime;
    for (unsigned i = 0; i < steps; ++i) { int op = i == 0 && pse_arg(7) ? (int)pse_arg(7) - 1 : (int)pse_choose(9, "op"); if (op == 8) { s.srv->stop(); try { s.srv->start(); } catch (std::exception &) { pse_assert(pse_arg(6) && scan > 1 && (n->name == "/gone" || broken), "files: the service starts again"); return; } had.clear(); had.push_back(cur); absent = (scan == 1 || scan == 3) && (n->name == "/gone" || broken); more = asked; late = false; pse_reach("again"); continue; } if (op == 3) { unsigned when = pse_choose(4, "when"); cur = pse_string(when & 1 ? len : 1 + len, "d"); len = cur.size(); n->data = cur; if (when == 0 || when == 3) n->mtime = ++pse_fs().now; else if (when == 1) n->mtime = --older; n->can_read = true; n->size = -1; broken = false; had.push_back(cur); continue; } if (op == 4) { n->can_read = false; broken = true; continue; } if (op == 5) { n->size = n->data.size() + 2; broken = true; continue; } if (op == 6) { n->name = "/gone"; continue; } if (op == 7 && n->name == "/gone") { n->name = "/srv/www/a.b.tXt"; continue; } if (op == 7) { late = true; if (!asked) pse_fs().add("/srv/www/n.html", false, "new"); asked = true; }
        bool here = n->name != "/gone"; bool head = op == 1; std::string q = std::string(head ? "HEAD" : "GET") + (op == 7 ? " /f/n.html" : pse_arg(6) ? " /f" : " /f/a.b.tXt") + " HTTP/1." + (char)('0' + minor) + "\r\n" + (op == 2 ? "If-Modified-Since: " + last + "\r\n" : "") + "\r\n"; s.again(); response *r = s.ask(q, head);
        if (!r) { pse_assert(broken && chunk && !s.c->t.open, "files: a request has one answer, or the connection ends because the file could not be read"); pse_reach("cut"); continue; } int code = r->get_status_code(); std::string b = body(*r), date = one(r->get_headers(), "Last-Modified"), type = one(r->get_headers(), "Content-Type"); pse_observe("code", code);
        if (minor == 1) pse_assert(s.c->t.open, "files: the connection stays open"); else pse_assert(!s.c->t.open, "files: the connection is closed");
        if (op == 7) { if ((scan == 1 || scan == 3) && !more) pse_assert(code == 404, "files: files added later are not served"); else pse_assert(code == 200 && b == "new" && type == "text/html", "files: files added later are served"); continue; }
        if (code == 200) { if (!old) pse_assert(here, "files: a removed file is not served"); pse_assert(type == "text/plain", "files: content type from the extension"); pse_assert(!head || b.empty(), "files: no content in the answer to HEAD");
            if (!head) { bool ok = pse_streq(b, cur); if (old) for (size_t i = 0; i < had.size(); ++i) ok = ok || pse_streq(b, had[i]); if (broken && chunk && !minor && b.size() < cur.size()) ok = ok || pse_streq(b, cur.substr(0, b.size())); pse_assert(ok, "files: the content is the file's content"); if (old && !late) { had.clear(); had.push_back(b); } pse_reach("content"); } else { std::string cl = one(r->get_headers(), "Content-Length"); if (!old) pse_assert(cl == "?none" || cl == num(cur.size()) || (broken && cl == num(cur.size() + 2)), "files: HEAD announces the length of the file or none"); pse_reach("head"); }
            if (!old && here) pse_assert(date == pion::http::types::get_date_string(n->mtime), "files: the date is that of the file"); if (op == 2) pse_assert(date != last, "files: not modified if the date is the one given"); last = date; }
        else if (code == 304) { pse_assert(op == 2 && b.empty() && date == last, "files: not modified only when the date is the one given"); if (!old) pse_assert(last == pion::http::types::get_date_string(n->mtime), "files: not modified only when it was not"); pse_reach("not modified"); }
        else if (code == 404) { pse_assert(!here || absent, "files: not found only when it is not there"); pse_reach("not found"); }
        else { pse_assert(code == 500 && (broken || !here), "files: server errors only when the file cannot be read"); pse_reach("error"); }
    }
    s.srv->stop();
}
// args: steps (each one of METHOD), state of the file (0 there, 1 not there, 2 directory not there, 3 not writable or removable, 4 its directory not writable, 5 disk full, 6 not allowed), content length, cache, 1: the clock stands still, scan
extern "C" void f_write() {
    int st = pse_arg(1); unsigned cache = pse_arg(3), scan = pse_arg(5), steps = pse_arg(0); tree(); const char *name = st == 1 || st == 4 ? "n" : st == 2 ? "x/n" : "a"; std::string full = std::string(BASE) + "/" + name, cur = "in-a"; pse_node *n = pse_fs().at("/srv/www/a"); Site s; s.svc->set_option("directory", BASE); s.svc->set_option("cache", num(cache)); s.svc->set_option("scan", num(scan)); s.svc->set_option("writable", st == 6 ? "false" : "true"); s.start(); bool there = st != 1 && st != 2 && st != 4, known = there || scan == 0 || scan == 2; const std::string url = std::string(" /f/") + name + " HTTP/1.1\r\n"; if (!there) cur = "";
    if (there) { response *r = s.ask("GET" + url + "\r\n"); pse_assert(r && r->get_status_code() == 200 && body(*r) == "in-a", "files: content before"); }
    if (st == 3) { n->can_write = n->can_remove = false; } if (st == 4) pse_fs().at("/srv/www")->can_write = false; if (st == 5) pse_fs().full = true; if (pse_arg(4)) { pse_fs().now = n->mtime; pse_fs().step = 0; }
    for (unsigned i = 0; i <= steps; ++i) { int m = i == steps ? 0 : pse_choose(6, "method"); std::string d; if (m == 2 || m == 3) d = pse_string(pse_arg(2), "d"); response *r = s.ask(std::string(METHOD[m]) + url + (d.size() ? "Content-Length: " + num(d.size()) + "\r\n" : "") + "\r\n" + d, m == 1); pse_assert(r != 0, "files: every request has one answer"); if (!r) return; int code = r->get_status_code(); pse_node *now = pse_fs().at(full); pse_observe("code", code); if (m != 4) pse_assert((now != 0) == there || m == 2 || m == 3, "files: only DELETE removes a file");
        if (m < 2) { if (cache != 2 || scan == 0) { if (there && known && (cache != 2 || scan == 0)) { if (cache != 2) { pse_assert(code == 200 && (m == 1 || pse_streq(body(*r), cur)), "files: what was written is what is served next"); pse_reach("read back"); } } else if (cache != 2) { pse_assert(code >= 400, "files: what was deleted is not served"); pse_reach("gone"); } } if (now) pse_assert(pse_streq(now->data, cur), "files: reading changes nothing"); continue; }
        if (st == 6) { pse_assert(code == (m == 5 ? 501 : 405) && now && now->data == "in-a", "files: nothing changes unless it is allowed"); pse_assert(m == 5 || one(r->get_headers(), "Allow") == "GET, HEAD", "files: what is allowed"); pse_reach("not allowed"); continue; }
        if (m == 5) { pse_assert(code == 501, "files: unknown methods are not implemented"); continue; }
        bool can = m == 4 ? there && st != 3 : st != 2 && st != 3 && st != 4 && (st != 5 || d.empty()); if (!can) { pse_assert(code >= 400, "files: what could not be done is an error"); if (st == 3) pse_assert(now && now->data == "in-a", "files: and leaves the file as it was"); pse_assert(code == (m == 4 && !there ? 404 : st == 2 ? 404 : 500), "files: kind of error"); if (st == 5 && m != 4) { there = now != 0; if (m == 3) pse_assert(!now || now->data == cur, "files: POST that fails leaves what was there"); cur = now ? now->data : std::string(); } pse_reach("failed"); continue; }
        if (m == 4) { pse_assert(code == 204 && !now, "files: DELETE removes the file"); there = false; cur = ""; pse_reach("deleted"); } else { pse_assert(code == (there ? 204 : 201), "files: created or changed"); cur = m == 2 ? d : cur + d; there = true; pse_assert(now && pse_streq(now->data, cur), "files: PUT replaces and POST appends, exactly the bytes sent"); if (code == 201) { pse_assert(one(r->get_headers(), "Location") == std::string("/f/") + name, "files: place of the new file"); pse_reach("created"); } pse_reach("written"); } }
    n = pse_fs().at("/srv/www/s/b"); pse_assert(n && n->data == "in-b", "files: other files stay as they were");
}
