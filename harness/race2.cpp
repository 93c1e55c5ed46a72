// Plug-ins and files that several threads use at once.
#include "serve.h"
#include <boost/filesystem/fstream.hpp>
#include <boost/shared_array.hpp>
#include <boost/thread/once.hpp>
#include <pion/plugin_manager.hpp>
#include <pion/http/plugin_server.hpp>
#include "FileService.hpp"
using pion::plugin; using pion::plugin_ptr; using pion::plugin_manager; using pion::plugins::FileService;
static void begin(uint64_t switches) { boost::asio::io_service::threads() = true; pse_races(); pse_switches(switches); }
static void (*job[3])(int); static uint64_t op[3]; static int done[3];
static void runJob(void *p) { int i = (int)(long)p; job[i](i); }
static void both(int n) { int t[3]; for (int i = 1; i < n; ++i) t[i] = pse_spawn(runJob, (void *)(long)i); job[0](0); for (int i = 1; i < n; ++i) pse_join(t[i]); }
// ---- plug-ins
static int opened; struct Thing { int k; Thing() : k(0) {} virtual ~Thing() {} };
static __thread int made_; static int made[4], gone[4]; static int me() { return made_; }
extern "C" { static void *make() { pse_assert(opened > 0, "threads: a library is loaded while it is used"); ++made[me()]; return new Thing; } static void drop(Thing *t) { pse_assert(opened > 0, "threads: a library is loaded while it is used"); ++gone[me()]; delete t; }
void *pse_dlopen(const char *, int) { ++opened; return &opened; } int pse_dlclose(void *) { --opened; pse_assert(opened >= 0, "threads: a library is closed once"); return 0; } void *pse_dlsym(void *, const char *s) { std::string n = s; return n == "pion_create_A" ? (void *)make : n == "pion_destroy_A" ? (void *)drop : 0; } char *pse_dlerror(void) { return 0; } }
typedef plugin_ptr<Thing> Ptr; static plugin_manager<Thing> *pm; static Ptr *shared; static void touch(Thing *t) { ++t->k; } static boost::uint64_t stat(const Thing *) { return 1; }
static void plugJob(int i) { made_ = i; try { switch (op[i]) {
    case 0: pm->load("/x", "A"); done[i] = 1; break; case 1: pm->load("/y", "A"); done[i] = 1; break; case 2: done[i] = pm->get("/x") != 0; break; case 3: pm->remove("/z"); done[i] = 1; break; case 4: done[i] = pm->find("/z/1") != 0; break; case 5: pm->run(touch); done[i] = 1; break; case 6: pm->clear(); done[i] = 1; break;
    case 7: { Ptr p; p.open("A"); Thing *t = p.create(); p.destroy(t); done[i] = 1; break; } case 8: { Ptr p(*shared), q; q = p; done[i] = q.is_open() && q.get_plugin_name() == "A"; break; } case 9: { std::string s; done[i] = plugin::find_config_file(s, "x") && s == "/p/x.conf"; break; } case 11: plugin::add_plugin_directory("/q"); done[i] = 1; break; case 12: { std::vector<std::string> v; plugin::get_all_plugin_names(v); done[i] = v.size() >= 1; break; } case 13: plugin::add_static_entry_point("S", (void *)make, (void *)drop); done[i] = 1; break; case 14: done[i] = pm->empty() + 1; break; case 15: done[i] = 1 + (int)pm->get_statistic(stat); break; case 16: { Ptr p = pm->get_lib_ptr("/z"); done[i] = p.is_open() + 1; break; } case 17: plugin::reset_plugin_directories(); done[i] = 1; break; case 18: { Thing *t = pm->clone("/w"); pm->replace("/w", t); done[i] = 1; break; } } } catch (pion::exception &) { done[i] = -1; } }
// args: three operations of three threads (10 none), switches
extern "C" void r_plugins() {
    pse_fs().add("/p", true); pse_fs().add("/q", true); pse_fs().add("/p/A.so", false, "x"); pse_fs().add("/p/x.conf", false, "x"); plugin::reset_plugin_directories(); plugin::add_plugin_directory("/p"); pm = new plugin_manager<Thing>; made_ = 3; int k = 0; bool open = false; for (; k < 3; ++k) { op[k] = pse_arg(k); if (op[k] == 10) break; job[k] = plugJob; open = open || op[k] == 8; }
    if (open) { shared = new Ptr; shared->open("A"); } if (!(op[0] == 7 && op[1] == 7)) { pm->load("/z", "A"); pm->load("/w", "A"); } begin(pse_arg(3)); both(k); made_ = 3; int loads = 0; bool cleared = false; for (int i = 0; i < k; ++i) { if (op[i] < 2) { if (op[i] == 0) loads += done[i] == 1; } else if (op[i] == 3 || op[i] == 18 || op[i] == 16) { for (int j = 0; j < k; ++j) cleared = cleared || op[j] == 6 || (op[j] == 3 && op[i] == 3 && i != j) || op[j] == 17; pse_assert(done[i] > 0 || cleared, "threads: what is there can be removed, cloned and replaced"); } else if (op[i] == 2 || op[i] == 4) pse_observe("got", done[i]); else { bool reset = false; for (int j = 0; j < k; ++j) reset = reset || op[j] == 17; pse_assert(done[i] > 0 || reset, "threads: operations on plug-ins succeed"); } }
    int zero = 0, alone = 0; for (int i = 0; i < k; ++i) { zero += op[i] == 0; alone += op[i] != 0 && op[i] != 6; } if (zero > 1 && alone + zero == k) { pse_assert(loads == 1, "threads: one of two that load the same plug-in has it, the other is refused"); pse_reach("one"); }
    delete pm; if (shared) delete shared; int m = 0, g = 0; for (int i = 0; i < 4; ++i) { m += made[i]; g += gone[i]; } pse_assert(m == g && opened == 0, "threads: every object is destroyed and the library closed in the end"); pse_assert(pse_held_locks() == 0, "threads: no lock is left");
}
// ---- files
static FileService *fs; static connection_ptr conn[3]; static request_ptr rq[3];
static void fileJob(int i) { if (op[i] < 6) { try { (*fs)(rq[i], conn[i]); done[i] = 1; } catch (std::exception &) { done[i] = -1; } } else { fs->stop(); fs->start(); done[i] = 1; } }
// args: three operations of three threads (10 none), cache, scan, switches
extern "C" void r_files() {
    static const char *M[] = { "GET", "HEAD", "PUT", "POST", "DELETE", "GET" }; pse_fs_type &f = pse_fs(); f.add("/w", true); f.add("/w/a.txt", false, "one"); f.add("/w/b.txt", false, "two"); fs = new FileService; fs->set_resource("/f"); fs->set_option("directory", "/w"); fs->set_option("writable", "true"); char t[2] = { (char)('0' + pse_arg(3)), 0 }; fs->set_option("cache", t); t[0] = (char)('0' + pse_arg(4)); fs->set_option("scan", t); fs->start(); Net *n = new Net; int k = 0;
    for (; k < 3; ++k) { op[k] = pse_arg(k); if (op[k] == 10) break; job[k] = fileJob; pion::tcp::connection *c = new pion::tcp::connection(n->s.io); c->get_socket().open_ = true; conn[k] = connection_ptr(c); if (op[k] < 6) { request *q = new request(op[k] == 5 ? "/f/b.txt" : "/f/a.txt"); q->set_method(M[op[k]]); if (op[k] == 2 || op[k] == 3) q->set_content("three"); q->set_is_valid(true); rq[k] = request_ptr(q); } }
    begin(pse_arg(5)); both(k); n->run(); bool write = false; for (int i = 0; i < k; ++i) write = write || (op[i] >= 2 && op[i] <= 4);
    for (int i = 0; i < k; ++i) if (op[i] < 6) { std::string o = conn[i]->get_socket().out; if (done[i] == 1) pse_assert(o.compare(0, 9, "HTTP/1.1 ") == 0, "threads: every request is answered"); else pse_assert(write && op[i] < 2, "threads: only a file that changes cannot be read"); if (o.compare(0, 12, "HTTP/1.1 200") == 0 && (op[i] == 0 || op[i] == 5) && !write) { pse_assert(o.size() > 3 && o.substr(o.size() - 3) == (op[i] == 5 ? "two" : "one"), "threads: each answer has the content of its file"); pse_reach("content"); } pse_observe("s", done[i]); }
    pse_assert(pse_held_locks() == 0, "threads: no lock is left");
}
