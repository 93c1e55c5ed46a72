// The programs: piond and helloserver.  Their servers run on the harness's event queue, process::initialize and
// wait_for_shutdown are stand-ins that look at the server while the program waits, files and libraries are in memory.
#include "serve.h"
#include <iostream>
#include <fstream>
#include <boost/filesystem/operations.hpp>
#include <boost/thread/once.hpp>
#include <boost/thread/mutex.hpp>
#include <pion/plugin.hpp>
#include <pion/process.hpp>
#include <pion/http/plugin_server.hpp>
#include <pion/http/plugin_service.hpp>
using pion::plugin;
struct Event { char what; std::string a, b; }; static std::vector<Event> events; static void note(char c, const std::string &a = "", const std::string &b = "") { Event e; e.what = c; e.a = a; e.b = b; events.push_back(e); } static unsigned count(char c) { unsigned n = 0; for (size_t i = 0; i < events.size(); ++i) n += events[i].what == c; return n; }
static long alive; static bool taken; static int ready, waits, shown; static Net *net; static pion::tcp::server *SRV; static void (*during)(pion::tcp::server &);
struct Service : plugin_service { std::string name; explicit Service(const char *n) : name(n) { ++alive; } ~Service() { --alive; }
    virtual void operator()(const request_ptr &q, const connection_ptr &c) { response_writer_ptr w(response_writer::create(c, *q, boost::bind(&connection::finish, c))); w << name << get_resource(); w->send(); }
    virtual void set_option(const std::string &n, const std::string &v) { pse_assert(!count('s'), "program: options come before the start"); if (n == "no") plugin_service::set_option(n, v); note('o', n, v); }
    virtual void start() { note('s'); } virtual void stop() { note('p'); } };
extern "C" { static void *make_w() { return new Service("W"); } static void *make_l() { return new Service("L"); } static void *make_m() { return new Service("M"); } static void gone(plugin_service *s) { delete s; }
static const char *LIBS[] = { "/d/L.so", "/prog/M.so" };
void *pse_dlopen(const char *f, int) { for (int i = 0; i < 2; ++i) if (std::string(f) == LIBS[i]) return (void *)LIBS[i]; return 0; } int pse_dlclose(void *) { return 0; }
void *pse_dlsym(void *h, const char *s) { std::string n = s; char k = ((const char *)h)[h == (void *)LIBS[0] ? 3 : 6]; if (n == std::string("pion_create_") + k) return k == 'L' ? (void *)make_l : (void *)make_m; if (n == std::string("pion_destroy_") + k) return (void *)gone; return 0; } char *pse_dlerror(void) { return 0; } }
static boost::asio::io_service *queue() { return &net->s.io; }
template <class S> struct Begin : S { typedef boost::asio::ip::tcp::endpoint E; void at() { SRV = this; ++shown; if (taken) this->get_acceptor().bind_ec = Ec(boost::asio::error::address_in_use); }
    explicit Begin(const E &e) : S(net->s, e) { at(); } explicit Begin(unsigned p = 0) : S(net->s, p) { at(); } explicit Begin(int p) : S(net->s, (unsigned)p) { at(); } Begin(pion::scheduler &, const E &e) : S(net->s, e) { at(); } explicit Begin(pion::scheduler &, unsigned p = 0) : S(net->s, p) { at(); } ~Begin() { SRV = 0; } };
namespace pion { struct Told : process { static void initialize() { pse_assert(!SRV || !SRV->is_listening(), "program: signals are handled before the server starts"); ++ready; } static void shutdown() {} static void wait_for_shutdown() { ++waits; pse_assert(SRV && SRV->is_listening(), "program: it waits while the server listens"); pse_assert(ready > 0, "program: signals are handled while it waits"); if (SRV) during(*SRV); } static void daemonize() { pse_fail("program: into the background"); } };
namespace http { typedef Begin<pion::http::plugin_server> Shown; } namespace tcp { typedef Begin<pion::tcp::server> Plain; } }
namespace std { struct pse_sink { template <class T> pse_sink &operator<<(const T &) { return *this; } pse_sink &operator<<(ostream &(*)(ostream &)) { return *this; } }; static pse_sink pse_err; }
#define cerr pse_err
#define cout pse_err
#define process Told
#define plugin_server Shown
#define main piond_main
#include "../utils/piond.cpp"
#undef plugin_server
#undef main
#define main hello_main
#define server Plain
#include "../utils/helloserver.cpp"
#undef server
#undef main
#undef process
#undef cerr
#undef cout
// ---- what a command line says
struct Want { bool usage, odd, nodir; unsigned long port, ip; bool ssl; std::string conf, res, svc, pem; std::vector<std::pair<std::string, std::string> > opts; std::vector<std::string> dirs; Want() : usage(false), odd(false), nodir(false), port(8080), ip(0), ssl(false) {} };
static bool number(const std::string &s, unsigned long &v) { v = 0; for (size_t i = 0; i < s.size(); ++i) { if (s[i] < '0' || s[i] > '9') return false; v = v * 10 + (unsigned long)(s[i] - '0'); v = v > 99999 ? 99999 : v; } return !s.empty(); }
static bool quad(const std::string &s, unsigned long &a) { a = 0; size_t i = 0; for (int k = 0; k < 4; ++k) { size_t e = i; while (e < s.size() && s[e] != '.') ++e; unsigned long v; if (!number(s.substr(i, e - i), v) || v > 255 || e - i > (size_t)(v > 99 ? 3 : v > 9 ? 2 : 1)) return false; a = a * 256 + v; if (k < 3 && e == s.size()) return false; if (k == 3 && e < s.size()) return false; i = e + 1; } return true; }
static Want reading(const std::vector<std::string> &a) {
    Want w; size_t i = 1; std::vector<std::string> rest; for (; i < a.size(); ++i) { const std::string &o = a[i]; if (o.empty() || o[0] != '-') { rest.push_back(o); continue; } if (!rest.empty()) { if (a.size() > i) w.odd = true; } if (o == "-v") continue; bool takes = o == "-p" || o == "-i" || o == "-c" || o == "-d" || o == "-o" || o == "-ssl"; if (!takes || i + 1 == a.size()) { w.usage = true; return w; } const std::string &x = a[++i];
        if (o == "-p") { unsigned long p; if (!number(x, p)) w.odd = true; else if (p > 65535) { w.usage = true; return w; } else w.port = p ? p : 8080; } else if (o == "-i") { if (!quad(x, w.ip)) { w.usage = true; return w; } } else if (o == "-c") w.conf = x; else if (o == "-d") { w.dirs.push_back(x); if (x != "/d" && x != "/cfg") { w.nodir = true; return w; } } else if (o == "-ssl") { w.ssl = true; w.pem = x; } else { size_t e = x.find('='); if (e == std::string::npos) { w.usage = true; return w; } w.opts.push_back(std::make_pair(x.substr(0, e), x.substr(e + 1))); } }
    if (rest.size() == 2 && w.conf.empty()) { w.res = rest[0]; w.svc = rest[1]; if (w.res.empty() || w.svc.empty()) w.usage = true; } else if (rest.size() > 2 || w.conf.empty()) w.usage = true; else if (!rest.empty()) w.odd = true; return w; }
static Want want; static bool odd;
static response *ask(pion::tcp::server &s, const std::string &path) { Client *c = net->connect(s); if (!c) return 0; c->send("GET " + path + " HTTP/1.0\r\n\r\n"); net->run(); Answers a(c->t.out, true); return a.bad || a.r.size() != 1 ? 0 : a.r[0]; }
static void look(pion::tcp::server &s) {
    if (want.odd) return; boost::asio::ip::tcp::endpoint e = s.get_acceptor().ep; pse_assert(e.port() == want.port && s.get_port() == want.port, "program: it listens on the port asked for"); pse_assert(e.address().raw() == want.ip, "program: it listens on the address asked for"); pse_observe("port", e.port());
    pse_assert(s.get_ssl_flag() == want.ssl, "program: encrypted exactly if asked for"); if (want.ssl) { pse_assert(pse_streq(s.get_ssl_context_type().pse_key, want.pem) && pse_streq(s.get_ssl_context_type().pse_cert, want.pem), "program: with the key asked for"); pse_reach("ssl"); } pse_assert(count('s') == 1, "program: the service is started");
    std::vector<std::pair<std::string, std::string> > o = want.opts; if (!want.conf.empty()) { o.clear(); o.push_back(std::make_pair(std::string("k"), std::string("v"))); } size_t n = 0; for (size_t i = 0; i < events.size(); ++i) if (events[i].what == 'o') { pse_assert(n < o.size() && pse_streq(events[i].a, o[n].first) && pse_streq(events[i].b, o[n].second), "program: options in their order"); ++n; } pse_assert(n == o.size(), "program: every option"); if (n) pse_reach("option");
    bool plain = true; for (size_t i = 0; i < want.res.size(); ++i) { uint8_t c = want.res[i]; plain &= (c > 32) & (c < 127) & (c != '?') & (c != '%') & (c != '#'); } if (!want.ssl && plain && (want.res.empty() || want.res[0] == '/')) { std::string res = want.conf.empty() ? want.res : "/c"; while (res.size() > 1 && res[res.size() - 1] == '/') res.erase(res.size() - 1); response *r = ask(s, res); pse_assert(r && r->get_status_code() == 200 && pse_streq(body(*r), (want.conf.empty() ? want.svc : std::string("W")) + res), "program: the service asked for serves its resource"); pse_reach("served"); if (!want.conf.empty()) pse_reach("configured"); } }
static std::string fill(const char *t) { std::string s = t; for (size_t i = 0; i < s.size(); ++i) if (s[i] == '^') { uint8_t c = pse_u8("digit"); pse_assume((c >= '0') & (c <= '9')); s[i] = (char)c; } else if (s[i] == '~') { uint8_t c = pse_u8("c"); pse_assume(c != 0); s[i] = (char)c; } return s; }
static int run(int (*f)(int, char **), std::vector<std::string> &a) { std::vector<char *> v; for (size_t i = 0; i < a.size(); ++i) v.push_back(const_cast<char *>(a[i].c_str())); v.push_back(0); return f((int)a.size(), &v[0]); }
static std::vector<std::string> words(const char *t) { std::vector<std::string> v; std::string s; for (const char *p = t;; ++p) if (*p == ' ' || !*p) { v.push_back(fill(s == "''" ? "" : s.c_str())); s.clear(); if (!*p) break; } else s += *p; return v; }
static const char *LINE[] = { "/a W", "-o k= -ssl k~ -c /cfg/x.conf", "-o ~= -o k= -o ~= /a W", "-p ^^^^^ /a W", "-p ^ -p 81 /a/ W", "-i 1^^.2.^.4 /a W", "-i 127.0.0~1 /a W", "-o k=~ -o ~~x -o no=w /a W", "-o k=v -o a=b=c -v /a W", "-d /d /a L", "/a L", "/a M", "-d /none /a W", "-ssl /k~.pem -p 443 /a W", "-c /cfg/x.conf -p 90", "-d /cfg -c x", "-c /cfg/none.conf", "-c /cfg/y.conf", "-~ /a W", "-~~ 1 /a W", "-~", "/a", "/a W x", "-p", "-o", "''", "'' W", "/a ''", "-p 655^^ /a W", "-p 4294967^^^ /a W", "-i '' /a W", "-i 1.2.3 /a W", "-o =~ /a W", "-o ''= /a W", "-v -v /a~ W", "-ssl k", "/a ~", "-i 10.0.0.^^^ -p 81^ -o k=v -d /d -ssl x /a L", "-p 18446744073709551^^^ /a W", "''  /a W" };
// args: command line, 1: the address is taken
extern "C" void d_piond() {
    Net n; net = &n; during = look; plugin::reset_plugin_directories(); plugin::add_static_entry_point("W", (void *)make_w, (void *)gone); taken = pse_arg(1); pse_fs().add("/d", true); pse_fs().add("/prog", true); pse_fs().add("/cfg", true); pse_fs().add("/d/L.so", false, "x"); pse_fs().add("/prog/M.so", false, "x"); pse_fs().add("/prog/piond", false, "x"); pse_fs().add("/cfg/x.conf", false, "x"); pse_fs().add("/cfg/y.conf", false, "x"); pse_files()["/cfg/x.conf"] = "service /c W\noption /c k=v\n"; pse_files()["/cfg/y.conf"] = "service /c W\nnonsense\n";
    std::vector<std::string> a = words(LINE[pse_arg(0)]); a.insert(a.begin(), "/prog/piond"); want = reading(a); int rc = run(piond_main, a); pse_observe("rc", rc); pse_assert(alive == 0 && SRV == 0 && pse_held_locks() == 0 && (taken || count('s') == count('p')), "program: nothing is left"); if (want.odd) return;
    bool ok = !want.usage && !want.nodir && !taken; if (ok) { bool there = want.svc == "W" || want.svc == "M"; for (size_t i = 0; i < want.dirs.size(); ++i) there = there || (want.dirs[i] == "/d" && want.svc == "L"); if (!want.conf.empty()) { there = want.conf == "/cfg/x.conf"; for (size_t i = 0; i < want.dirs.size(); ++i) there = there || (want.dirs[i] == "/cfg" && want.conf == "x"); } else for (size_t i = 0; i < want.opts.size(); ++i) there = there && want.opts[i].first != "no"; ok = there; }
    pse_assert(waits == (ok ? 1 : 0), "program: it runs until it is told to stop, exactly if it can"); pse_assert((rc == 0) == ok, "program: success is reported exactly if it ran"); if (want.usage) { pse_assert(!shown && !ready, "program: a command line that makes no sense starts nothing"); pse_reach("usage"); } else if (!ok) pse_reach("failed");
}
static unsigned long hello; static void greet(pion::tcp::server &s) { boost::asio::ip::tcp::endpoint e = s.get_acceptor().ep; pse_assert(e.port() == hello && e.address().raw() == 0, "program: it listens on the port asked for"); for (int i = 0; i < 2; ++i) { Client *c = net->connect(s); pse_assert(c != 0, "program: it accepts connections"); if (!c) return; net->run(); pse_assert(c->t.out == "Hello there!\r\n" && !c->t.open, "program: every connection is told the same and closed"); } pse_reach("hello"); }
static const char *HELLO[] = { "", "^^", "^^^^^", "655^^", "1 2", "0", "1844674407370955^^^^" };
// args: command line, 1: the address is taken
extern "C" void d_hello() {
    Net n; net = &n; during = greet; taken = pse_arg(1); std::vector<std::string> a; a.push_back("helloserver"); if (pse_arg(0)) { std::vector<std::string> b = words(HELLO[pse_arg(0)]); a.insert(a.end(), b.begin(), b.end()); } bool bad = a.size() > 2; hello = 8080; if (a.size() == 2) { unsigned long p; number(a[1], p); if (p > 65535) bad = true; else if (p) hello = p; } int rc = run(hello_main, a); pse_observe("rc", rc); bool ok = !bad && !taken; pse_assert(waits == (ok ? 1 : 0) && (rc == 0) == ok, "program: it runs exactly if it can, and says so"); if (bad) { pse_assert(!shown && !ready, "program: a command line that makes no sense starts nothing"); pse_reach("usage"); } pse_assert(SRV == 0 && pse_held_locks() == 0, "program: nothing is left");
}
