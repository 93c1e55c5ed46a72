// Plug-in libraries, plug-in managers and servers made of services.  Libraries are stand-ins (shim/both/dlfcn.h), files are in memory.
#include "serve.h"
#include <fstream>
#include <boost/filesystem/operations.hpp>
#include <boost/thread/once.hpp>
#include <boost/thread/mutex.hpp>
#include <pion/plugin.hpp>
#include <pion/plugin_manager.hpp>
#include <pion/http/plugin_server.hpp>
#include <pion/http/plugin_service.hpp>
using pion::plugin; using pion::plugin_ptr; using pion::plugin_manager;
// ---- libraries: /p/A.so and /q/B.so are good, /p/C.so cannot be loaded, /p/D.so has no symbol to create and /p/E.so none to destroy objects
struct Lib { const char *file; int opened; long live; }; static Lib libs[] = { { "/p/A.so", 0, 0 }, { "/q/B.so", 0, 0 }, { "/p/C.so", 0, 0 }, { "/p/D.so", 0, 0 }, { "/p/E.so", 0, 0 } };
struct Thing { int lib; bool good, by; unsigned long n; explicit Thing(int l) : lib(l), good(true), by(false), n(1) { if (l < 2) ++libs[l].live; } virtual ~Thing() { pse_assert(good, "plug-ins: objects are destroyed once"); good = false; if (lib < 2) { pse_assert(by, "plug-ins: objects are destroyed by their library"); --libs[lib].live; pse_assert(libs[lib].opened > 0, "plug-ins: objects are destroyed while their library is loaded"); } else --spare; } static long spare; };
long Thing::spare; static bool nocreate;
extern "C" { static void *make_a() { pse_assert(libs[0].opened > 0, "plug-ins: a library is loaded while it is used"); if (nocreate) throw 1; return new Thing(0); } static void *make_b() { pse_assert(libs[1].opened > 0, "plug-ins: a library is loaded while it is used"); return new Thing(1); } static void gone_a(Thing *t) { pse_assert(t->lib == 0, "plug-ins: objects go back to the library they came from"); t->by = true; delete t; } static void gone_b(Thing *t) { pse_assert(t->lib == 1, "plug-ins: objects go back to the library they came from"); t->by = true; delete t; }
void *pse_dlopen(const char *f, int) { for (int i = 0; i < 5; ++i) if (std::string(f) == libs[i].file) { if (i == 2) return 0; ++libs[i].opened; return &libs[i]; } return 0; }
int pse_dlclose(void *h) { Lib *l = (Lib *)h; pse_assert(l->opened > 0, "plug-ins: a library is closed once"); --l->opened; pse_assert(l->opened > 0 || l->live == 0, "plug-ins: no object is left when its library is closed"); return 0; }
void *pse_dlsym(void *h, const char *s) { Lib *l = (Lib *)h; pse_assert(l->opened > 0, "plug-ins: symbols of loaded libraries"); std::string n = s; if (n == "pion_create_A" && l == libs) return (void *)make_a; if (n == "pion_destroy_A" && l == libs) return (void *)gone_a; if (n == "pion_create_B" && l == libs + 1) return (void *)make_b; if (n == "pion_destroy_B" && l == libs + 1) return (void *)gone_b; if (n == "pion_create_E" && l == libs + 4) return (void *)make_a; return 0; }
char *pse_dlerror(void) { return 0; } }
static void disk() { pse_fs().add("/p", true); pse_fs().add("/q", true); for (int i = 0; i < 5; ++i) pse_fs().add(libs[i].file, false, "x"); pse_fs().add("/p/x.conf", false, "x"); plugin::reset_plugin_directories(); plugin::add_plugin_directory("/p"); plugin::add_plugin_directory("/q"); }
static Thing *make_s() { ++Thing::spare; return new Thing(7); } static void gone_s(Thing *t) { delete t; }
typedef plugin_ptr<Thing> Ptr;
// args: handles, steps, first step (plus one) or 0, 1: nothing is linked in
extern "C" void g_library() {
    disk(); bool in = !pse_arg(3); if (in) plugin::add_static_entry_point("S", (void *)make_s, (void *)gone_s); size_t k = pse_arg(0); Ptr *h = new Ptr[k]; std::vector<std::string> m(k); static const char *NAME[] = { "A", "B", "S", "/p/A.so", "/q/B", "C", "D", "E", "F" };
    for (unsigned i = 0; i < pse_arg(1); ++i) { size_t a = k > 1 ? pse_choose(k, "handle") : 0; unsigned op = i == 0 && pse_arg(2) ? pse_arg(2) - 1 : pse_choose(13, "op"); if (op < 9) { std::string want = op == 3 ? "A" : op == 4 ? "B" : NAME[op]; bool ok = true; try { h[a].open(NAME[op]); } catch (pion::error::open_plugin &) { ok = false; pse_assert(op == 5, "plug-ins: refused to open"); } catch (pion::error::plugin_missing_symbol &) { ok = false; pse_assert(op == 6 || op == 7, "plug-ins: refused for a symbol"); } catch (pion::error::plugin_not_found &) { ok = false; pse_assert(op == 8 || (op == 2 && !in), "plug-ins: not found"); } pse_assert(ok == (op < 5 && (op != 2 || in)), "plug-ins: opened unless something is missing"); if (ok) { m[a] = want; pse_reach("opened"); } else { pse_assert(!h[a].is_open() || h[a].get_plugin_name() == m[a], "plug-ins: closed or as before"); if (!h[a].is_open()) m[a] = ""; pse_reach("refused"); } }
        else if (op == 9) { h[a].close(); m[a] = ""; } else if (op == 10) { size_t b = k > 1 ? pse_choose(k, "other") : 0; h[a] = h[b]; m[a] = m[b]; pse_reach("assigned"); } else if (op == 11) { Ptr t(h[a]); pse_assert(t.is_open() == !m[a].empty(), "plug-ins: a copy is open too"); h[a].close(); pse_assert(t.get_plugin_name() == m[a], "plug-ins: a copy stays open"); m[a] = ""; }
        else { try { Thing *t = h[a].create(); pse_assert(!m[a].empty() && t->good && t->lib == (m[a] == "A" ? 0 : m[a] == "B" ? 1 : 7), "plug-ins: objects of the kind asked for"); h[a].destroy(t); pse_reach("created"); } catch (pion::error::plugin_undefined &) { pse_assert(m[a].empty(), "plug-ins: only closed ones cannot create"); } }
        int n[2] = { 0, 0 }; for (size_t j = 0; j < k; ++j) { pse_assert(h[j].is_open() == !m[j].empty() && h[j].get_plugin_name() == m[j], "plug-ins: each handle refers to what it was given"); if (m[j] == "A") ++n[0]; if (m[j] == "B") ++n[1]; } for (int j = 0; j < 5; ++j) pse_assert((libs[j].opened > 0) == (j < 2 && n[j] > 0), "plug-ins: a library is loaded exactly while a handle refers to it"); pse_assert(pse_held_locks() == 0, "plug-ins: no lock is left"); }
    delete[] h; for (int j = 0; j < 5; ++j) pse_assert(libs[j].opened == 0 && libs[j].live == 0, "plug-ins: nothing stays loaded"); pse_assert(Thing::spare == 0, "plug-ins: nothing is left");
}
// args: steps
extern "C" void g_manager() {
    disk(); plugin_manager<Thing> *pm = new plugin_manager<Thing>; static const char *ID[] = { "/x", "/x/y" }; Thing *m[2] = { 0, 0 }; int kind[2] = { 0, 0 };  // 1: own, 2: library A
    for (unsigned i = 0; i < pse_arg(0); ++i) { unsigned a = pse_choose(2, "id"), op = pse_choose(8, "op"); std::string id = ID[a]; bool thrown = false; try { switch (op) {
        case 0: if (m[a]) break; { Thing *t = make_s(); pm->add(id, t); m[a] = t; kind[a] = 1; } break;
        case 1: nocreate = false; { Thing *t = pm->load(id, "A"); pse_assert(!m[a], "manager: one plug-in for one identifier"); m[a] = t; kind[a] = 2; pse_reach("loaded"); } break;
        case 2: nocreate = true; try { pm->load(id, "A"); pse_fail("manager: loaded"); } catch (int) { pse_reach("failed"); } break;
        case 3: pm->remove(id); pse_assert(m[a] != 0, "manager: removed what was there"); m[a] = 0; kind[a] = 0; pse_reach("removed"); break;
        case 4: nocreate = false; { Thing *t = pm->clone(id); pse_assert(kind[a] == 2 && t != m[a] && t->lib == 0, "manager: clones are new objects of the same kind"); pm->replace(id, t); m[a] = t; pse_reach("cloned"); } break;
        case 5: if (kind[a] == 2) break; { Thing *t = make_s(); try { pm->replace(id, t); pse_assert(m[a] != 0, "manager: replaced what was there"); m[a] = t; pse_reach("replaced"); } catch (...) { delete t; throw; } } break;
        case 6: pm->clear(); m[0] = m[1] = 0; kind[0] = kind[1] = 0; break;
        default: pm->load(id, "nothing"); pse_fail("manager: loaded nothing"); } } catch (pion::error::duplicate_plugin &) { thrown = true; pse_assert(m[a] && (op == 1 || op == 2 || op == 7), "manager: duplicates are refused"); } catch (pion::error::plugin_not_found &) { thrown = true; pse_assert((!m[a] && (op == 3 || op == 4 || op == 5)) || op == 7, "manager: refused what is not there"); } catch (pion::error::plugin_undefined &) { thrown = true; pse_assert(op == 4 && kind[a] == 1, "manager: own objects cannot be cloned"); } (void)thrown;
        long own = 0, lib = 0; for (int j = 0; j < 2; ++j) { pse_assert(pm->get(ID[j]) == m[j], "manager: each identifier refers to its plug-in"); if (m[j]) pse_assert(m[j]->good, "manager: plug-ins being managed exist"); own += kind[j] == 1; lib += kind[j] == 2; } pse_assert(Thing::spare == own && libs[0].live == lib, "manager: plug-ins are destroyed when they are removed, replaced or cleared, and not before"); pse_assert((libs[0].opened > 0) == (lib > 0), "manager: a library is loaded exactly while it is used"); pse_assert(pm->empty() == (own + lib == 0) && pse_held_locks() == 0, "manager: no lock is left"); }
    delete pm; pse_assert(Thing::spare == 0 && libs[0].live == 0 && libs[0].opened == 0, "manager: nothing is left at its end");
}
static std::string pattern(const char *t, const char *n) { std::string s = t; for (size_t i = 0; i < s.size(); ++i) if (s[i] == '~') { uint8_t c = pse_u8(n); pse_assume(c != 0); s[i] = (char)c; } return s; }
static const char *KEYS[][4] = { { "/~", "/~~", "/~/~", "/~/~~" }, { "/~", "/~/~~", "/~/~~~", "/~/~~" }, { "", "/~", "/~/~", "/~/~" }, { "/a", "/a~~~~", "/a~~~~", "/a~~~" }, { "/~~", "/~~~", "/~~", "/~~~~" }, { "~", "~~", "~~~", "~~~~" }, { "/a/~~", "/a", "/~/~", "/a/~~/~" }, { "/a~", "/a~/", "/a~/~", "/a~/~~" }, { "", "~", "~~", "~~" } };
// args: which identifiers
extern "C" void g_find() {
    plugin_manager<Thing> pm; std::vector<std::string> k; std::vector<Thing *> t; const char **p = KEYS[pse_arg(0)]; for (int i = 0; i < 3; ++i) { std::string s = pattern(p[i], "k"); bool dup = false; for (size_t j = 0; j < k.size(); ++j) dup = dup || s == k[j]; if (dup) continue; Thing *x = make_s(); pm.add(s, x); k.push_back(s); t.push_back(x); } std::string r = pattern(p[3], "r");
    Thing *best = 0; size_t len = 0; for (size_t i = 0; i < k.size(); ++i) if (r.size() >= k[i].size() && pse_streq(r.substr(0, k[i].size()), k[i]) && (r.size() == k[i].size() || r[k[i].size()] == '/') && (!best || k[i].size() > len)) { best = t[i]; len = k[i].size(); }
    Thing *got = pm.find(r); pse_assert(got == best, "manager: a resource belongs to the longest identifier that it is or that a slash follows in it"); if (best) pse_reach("found"); else pse_reach("none"); pse_observe("n", got ? 1 : 0); for (size_t i = 0; i < k.size(); ++i) pse_assert(pm.get(k[i]) == t[i], "manager: exact identifiers");
}
// ---- services
struct Event { int who; char what; std::string a, b; }; static std::vector<Event> events; static void note(int w, char c, const std::string &a = "", const std::string &b = "") { Event e; e.who = w; e.what = c; e.a = a; e.b = b; events.push_back(e); } static unsigned count(int w, char c) { unsigned n = 0; for (size_t i = 0; i < events.size(); ++i) n += events[i].who == w && events[i].what == c; return n; }
static plugin_server *SRV; static int serial; static bool refusing; static long alive;
struct Service : plugin_service { int id; Service() : id(serial++) { ++alive; } ~Service() { note(id, 'd'); --alive; }
    virtual void operator()(const request_ptr &q, const connection_ptr &c) { note(id, 'r', get_relative_resource(q->get_resource())); response_writer_ptr w(response_writer::create(c, *q, boost::bind(&connection::finish, c))); w << "R" << get_resource() << "=" << get_relative_resource(q->get_resource()); w->send(); }
    virtual void set_option(const std::string &n, const std::string &v) { if (n == "no") plugin_service::set_option(n, v); note(id, 'o', n, v); }
    virtual void start() { pse_assert(!SRV->is_listening(), "services: started before the server listens"); if (refusing && id == 1) throw 5; note(id, 's'); } virtual void stop() { pse_assert(!SRV->is_listening(), "services: stopped after the server"); note(id, 'p'); } };
extern "C" { static void *make_w() { return new Service; } static void gone_w(plugin_service *s) { delete s; } }
static void entry() { plugin::add_static_entry_point("W", (void *)make_w, (void *)gone_w); }
static response *ask(Net &n, plugin_server &s, const std::string &path, const std::string &more = "") { Client *c = n.connect(s); if (!c) return 0; c->send("GET " + path + " HTTP/1.0\r\n" + more + "\r\n"); n.run(); Answers a(c->t.out, true); return a.bad || a.r.size() != 1 ? 0 : a.r[0]; }
// args: steps
extern "C" void g_server() {
    entry(); disk(); Net n; plugin_server *srv = SRV = new plugin_server(n.s, 8080); srv->add_service("/a/", new Service); srv->load_service("/b%2Fc", "W"); int running = 0; unsigned starts[3] = { 0, 0, 0 }, stops[3] = { 0, 0, 0 }; bool have = true; 
    for (unsigned i = 0; i < pse_arg(0); ++i) { unsigned op = pse_choose(6, "op"); refusing = op == 4; switch (op) {
        case 0: case 4: try { srv->start(); pse_assert(srv->is_listening(), "services: started"); pse_assert(op == 0 || running || !have, "services: a service that fails to start keeps the server from starting"); if (!running && have) for (int j = 0; j < 2; ++j) ++starts[j]; running = 1; } catch (int) { pse_assert(op == 4 && have && !running && !srv->is_listening(), "services: the server does not start"); starts[0] = count(0, 's'); pse_reach("refused"); } break;
        case 1: srv->stop(); if (running && have) for (int j = 0; j < 2; ++j) ++stops[j]; running = 0; pse_assert(!srv->is_listening(), "services: stopped"); break;
        case 2: if (running) { response *r = ask(n, *srv, "/a/x%20y"); if (have) pse_assert(r && r->get_status_code() == 200 && body(*r) == "R/a=x y", "services: a request reaches the service of its resource"); else pse_assert(r && r->get_status_code() == 404, "services: requests for what is not there"); r = ask(n, *srv, "/b%2Fc"); pse_assert(r && r->get_status_code() == (have ? 200 : 404) && (!have || body(*r) == "R/b%2Fc="), "services: the other one"); r = ask(n, *srv, "/b%2Fc/d%2fe"); pse_assert(r && r->get_status_code() == (have ? 200 : 404) && (!have || body(*r) == "R/b%2Fc=d/e"), "services: the other one as well"); r = ask(n, *srv, "/b%2Fcc"); pse_assert(r && r->get_status_code() == 404, "services: names that only begin alike"); pse_reach("served"); } break;
        case 3: srv->clear(); if (running && have) for (int j = 0; j < 2; ++j) ++stops[j]; running = 0; if (have) pse_assert(alive == 0 && count(0, 'd') == 1 && count(1, 'd') == 1, "services: destroyed once when they are cleared"); have = false; pse_reach("cleared"); break;
        default: if (have) { srv->set_service_option("/a", "k", "v"); pse_assert(events.back().who == 0 && events.back().what == 'o' && events.back().a == "k" && events.back().b == "v", "services: options reach their service"); } try { srv->set_service_option("/c", "k", "v"); pse_fail("services: option of nothing"); } catch (pion::error::plugin_not_found &) {} if (have) try { srv->set_service_option("/b%2Fc/", "no", "v"); pse_fail("services: unknown option"); } catch (pion::error::bad_arg &) {} }
        for (int j = 0; j < 2; ++j) pse_assert(count(j, 's') == starts[j] && count(j, 'p') == stops[j], "services: started once when the server starts and stopped once when it stops"); pse_assert((running != 0) == srv->is_listening() && pse_held_locks() == 0, "services: no lock is left"); }
    if (running && have) for (int j = 0; j < 2; ++j) ++stops[j]; delete srv; SRV = 0; pse_assert(alive == 0 && count(0, 'd') == 1 && count(1, 'd') == 1, "services: destroyed once with the server"); 
}
// ---- configuration files
static const char *TEXT[] = { "service /a W\noption /a k=v\n", "service /a W\noption /a k=v", "service /a W\r\noption /a ~=~~\r\n", "#~~\n\nservice  \t/~ W\n", "~ervice /a W\n", "service /a W\noption /a ~~~\n", "auth basic\nuser u p~\nservice /a W\nrestrict /~", "auth basic\nservice /a W\nuser u p\nrestrict /a\n", "service /a W\nauth cookie\nuser u p\nrestrict /a\nrestrict /b", "restrict /a\nservice /a W\n", "user u p\n", "service /a~W\n", "SerVice /a W\nOPTION\t/a a b=c d ~\n", "path /q\nservice /a W\n", "path /none\nservice /a W\n", "service /a W\nauth ~asic\n", "service /a W\nauth basic\nuser ~\n", "option /a k=v\n", "service /a W\nservice /a W\n", "service /a W\n~", "service /a W\noption /a =~", "service /a W\noption\n", "service /a W\n#~\noption /a x=y#~\n", "service /a W\noption /a ~~=1\noption /a k=~", "auth basic\nauth cookie\nuser u p\nservice /a W\nrestrict /a", "service /a W\nopt", "service /a W\noption /a", "service /a W\noption /a ", "auth basic\nservice /a W\nuser u p\nrestrict" };
struct Line { std::string cmd, first, value; };
// what a configuration file says, line by line; false from the first line that makes no sense
static bool reading(const std::string &t, std::vector<Line> &v) { size_t i = 0; while (i < t.size()) { size_t e = i; while (e < t.size() && t[e] != '\n' && t[e] != '\r') ++e; std::string l = t.substr(i, e - i); i = e + 1; if (l.empty() || l[0] == '#') continue; Line x; size_t p = 0; while (p < l.size() && ((l[p] >= 'a' && l[p] <= 'z') || (l[p] >= 'A' && l[p] <= 'Z'))) { x.cmd += l[p] >= 'a' ? l[p] : (char)(l[p] + 32); ++p; } bool two = x.cmd == "service" || x.cmd == "option" || x.cmd == "user"; if (p == l.size() || (l[p] != ' ' && l[p] != '\t') || (!two && x.cmd != "path" && x.cmd != "auth" && x.cmd != "restrict")) return false;
        while (p < l.size() && (l[p] == ' ' || l[p] == '\t')) ++p; if (two) { while (p < l.size() && l[p] != ' ' && l[p] != '\t') x.first += l[p++]; if (p == l.size()) return false; while (p < l.size() && (l[p] == ' ' || l[p] == '\t')) ++p; } x.value = l.substr(p); if (x.value.empty()) return false; if (x.cmd == "option" && x.value.find('=') == std::string::npos) return false; if (x.cmd == "auth" && x.value != "basic" && x.value != "cookie") return false; if (x.cmd == "restrict" || x.cmd == "user") { bool a = false; for (size_t j = 0; j < v.size(); ++j) a = a || v[j].cmd == "auth"; if (!a) return false; } v.push_back(x); } return true; }
// args: which text
extern "C" void g_config() {
    entry(); disk(); Net n; plugin_server *srv = SRV = new plugin_server(n.s, 8080); std::string t = pattern(TEXT[pse_arg(0)], "c"); pse_files()["/p/x.conf"] = t; std::vector<Line> v; bool ok = reading(t, v), thrown = false, twice = false; std::string svc; for (size_t i = 0; i < v.size(); ++i) if (v[i].cmd == "service") { if (v[i].value != "W" || !svc.empty()) { twice = true; break; } svc = v[i].first; } else if (v[i].cmd == "option" && v[i].first != svc) { twice = true; break; } else if (v[i].cmd == "option" && v[i].value.compare(0, 3, "no=") == 0) { twice = true; break; }
    try { srv->load_service_config("x"); } catch (pion::error::bad_config &) { thrown = true; pse_assert(!ok, "configuration: refused only if it makes no sense"); pse_reach("refused"); } catch (pion::exception &) { thrown = true; pse_assert(!ok || twice, "configuration: refused only if services or options are not there"); pse_reach("failed"); } pse_assert(thrown == (!ok || twice), "configuration: every line takes effect, or the file is refused"); pse_observe("thrown", thrown); if (thrown) return; 
    size_t o = 0; for (size_t i = 0; i < v.size(); ++i) if (v[i].cmd == "option") { size_t e = v[i].value.find('='); while (o < events.size() && events[o].what != 'o') ++o; pse_assert(o < events.size() && pse_streq(events[o].a, v[i].value.substr(0, e)) && pse_streq(events[o].b, v[i].value.substr(e + 1)), "configuration: options have the name and value written"); ++o; pse_reach("option"); } pse_assert(o >= events.size(), "configuration: no other option");
    srv->start(); if (!svc.empty()) { std::string where = svc; while (!where.empty() && where[where.size() - 1] == '/') where.erase(where.size() - 1); bool plain = !svc.empty() && svc[0] == '/'; for (size_t i = 0; i < svc.size(); ++i) { unsigned char c = svc[i]; plain = plain & ((c > 32) & (c < 127) & (c != '?') & (c != '%') & (c != '#')); } if (!plain) return; bool restricted = false, auth = false; std::string kind; for (size_t i = 0; i < v.size(); ++i) { if (v[i].cmd == "auth") { auth = true; kind = v[i].value; restricted = false; } if (v[i].cmd == "restrict" && pse_streq(v[i].value, svc)) restricted = true; } response *r = ask(n, *srv, svc); pse_assert(r != 0, "configuration: the server answers"); if (!r) return; int code = r->get_status_code(); pse_observe("code", code); if (restricted) { pse_assert(code == 401, "configuration: what is restricted needs a user"); pse_reach("restricted"); if (kind == "basic") { r = ask(n, *srv, svc, "Authorization: Basic " + std::string("dTpw") + "\r\n"); bool right = false; for (size_t i = 0; i < v.size(); ++i) right = right || (v[i].cmd == "user" && v[i].first == "u" && pse_streq(v[i].value, std::string("p"))); pse_assert(r && (r->get_status_code() == 200) == right, "configuration: users have the passwords written"); pse_reach("user"); } } else if (!auth) { pse_assert(code == 200, "configuration: a service is where it was put"); pse_reach("service"); } }
}
// two servers, a file each: the users of one are not the users of the other
extern "C" void g_two() {
    entry(); disk(); Net n; std::string p = pse_string(1, "p"), q = pse_string(1, "q"), u[2] = { "dTpw", "dTpx" }; for (int k = 0; k < 2; ++k) { char c = (k ? q : p)[0]; pse_assume((c == 'p') | (c == 'q')); } plugin_server *s[2]; for (int k = 0; k < 2; ++k) { pse_fs().add(k ? "/p/z.conf" : "/p/y.conf", false, "x"); pse_files()[k ? "/p/z.conf" : "/p/y.conf"] = std::string("service /a W\nauth basic\nuser ") + (k ? "v" : "u") + " " + (k ? q : p) + "\nrestrict /a\n"; SRV = s[k] = new plugin_server(n.s, 8080 + k); s[k]->load_service_config(k ? "z" : "y"); s[k]->start(); }
    // u:p u:q v:p v:q
    static const char *WHO[] = { "dTpw", "dTpx", "djpw", "djpx" }; for (int k = 0; k < 2; ++k) for (int w = 0; w < 4; ++w) { response *r = ask(n, *s[k], "/a", std::string("Authorization: Basic ") + WHO[w] + "\r\n"); bool right = (w / 2 == k) & ((k ? q : p)[0] == (w % 2 ? 'q' : 'p')); pse_assert(r && (r->get_status_code() == 200) == right, "configuration: users belong to the server whose file names them"); pse_observe("code", r ? r->get_status_code() : 0); } pse_reach("two");
    for (int k = 0; k < 2; ++k) { SRV = s[k]; delete s[k]; }
}
