#include "pse.h"
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>
#include <list>
#include <algorithm>
#include <sstream>
#include <memory>
#include <mutex>
#include <atomic>
#include <thread>
#include <condition_variable>
#include <functional>
#include <unordered_map>
#include <unordered_set>
#include <boost/algorithm/string.hpp>
#include <boost/lexical_cast.hpp>
#include <boost/thread.hpp>
#include <boost/foreach.hpp>
#include <boost/scoped_ptr.hpp>
#include <boost/scoped_array.hpp>
#include <boost/utility/string_ref.hpp>
#include <boost/optional.hpp>
#include <boost/array.hpp>
#include <boost/date_time/posix_time/posix_time.hpp>
#include <boost/numeric/conversion/cast.hpp>
#include <boost/functional/hash.hpp>
#include <boost/enable_shared_from_this.hpp>
#include <tuple>
#include <array>
#include <arpa/inet.h>
#include <thread>
#include <boost/shared_ptr.hpp>
#include <boost/make_shared.hpp>
#include <boost/bind.hpp>
#include <boost/function.hpp>
#include <string.h>
#include <strings.h>
#include <stdio.h>
#include <stdlib.h>
#include <ctype.h>
#include <iomanip>
#include <iterator>
#include <numeric>
#include <stack>
#include <queue>
#define E(n) extern "C" void n()
#define S std::string s = pse_string(pse_arg(0), "s")
E(k_strspn) { S; pse_observe("v", strspn(s.c_str(), "ab") + strcspn(s.c_str(), "xy")); }
E(k_strpbrk) { S; const char *p = strpbrk(s.c_str(), "ab"); pse_observe("v", p ? p - s.c_str() : -1); }
E(k_strtok) { S; char b[20]; strcpy(b, s.c_str()); char *sv; char *p = strtok_r(b, ",", &sv); pse_observe("v", p ? p - b : -1); }
E(k_strdup) { S; char *d = strdup(s.c_str()); pse_observe("v", strlen(d)); free(d); }
E(k_strnlen) { S; pse_observe("v", strnlen(s.data(), s.size())); }
E(k_stpcpy) { S; char b[20]; char *e = stpcpy(b, s.c_str()); pse_observe("v", e - b); }
E(k_strncat) { S; char b[20] = "x"; strncat(b, s.c_str(), 10); pse_observe("v", strlen(b)); }
E(k_memmem) { S; void *p = memmem(s.data(), s.size(), "ab", 2); pse_observe("v", p ? 1 : 0); }
E(k_strcasestr) { S; pse_observe("v", strcasestr(s.c_str(), "ab") ? 1 : 0); }
E(k_sscanf) { S; unsigned v = 0; int r = sscanf(s.c_str(), "%x", &v); pse_observe("v", r > 0 ? v : 77777); }
E(k_sscanf2) { S; int a = 0, b = 0; char c = 0; int r = sscanf("12.34", "%d.%d%c", &a, &b, &c); pse_observe("v", r * 1000 + a + b); }
E(k_snprintf) { unsigned v = pse_u32("v") & 0xff; char b[20]; int n = snprintf(b, sizeof b, "%02X-%u-%s", v, v, "q"); pse_observe("v", n); }
E(k_tostring) { unsigned v = pse_u32("v") & 0xff; std::string r = std::to_string(v); pse_observe("v", r.size()); }
E(k_stoi) { std::string s = "12"; int v = std::stoi(s) + std::stoul(std::string("ff"), 0, 16); pse_observe("v", v); }
E(k_stoi_any) { S; int v = -1; try { v = std::stoi(s); } catch (std::exception &) {} pse_observe("v", v); }
E(k_oss) { unsigned v = pse_u32("v") & 0xff; std::ostringstream o; o << "a" << v << ' ' << std::hex << v << std::setw(4) << std::setfill('0') << v; pse_observe("v", o.str().size()); }
E(k_iss) { S; std::istringstream i(s); int v = -1; i >> v; pse_observe("v", i.fail() ? -1 : v); }
E(k_isshex) { S; std::istringstream i(s); unsigned v = 0; i >> std::hex >> v; pse_observe("v", i.fail() ? -1 : v); }
E(k_getline) { S; std::istringstream i(s); std::string l; int n = 0; while (std::getline(i, l)) ++n; pse_observe("v", n); }
E(k_issword) { S; std::istringstream i(s); std::string l; int n = 0; while (i >> l) ++n; pse_observe("v", n); }
E(k_ss) { std::stringstream o; o << 12; int v; o >> v; pse_observe("v", v); }
E(k_lexcast) { S; int v = -1; try { v = boost::lexical_cast<int>(s); } catch (boost::bad_lexical_cast &) {} pse_observe("v", v); }
E(k_lexcastu) { S; unsigned long long v = 1; try { v = boost::lexical_cast<unsigned long long>(s); } catch (boost::bad_lexical_cast &) {} pse_observe("v", v); }
E(k_lexstr) { unsigned v = pse_u32("v") & 0xff; pse_observe("v", boost::lexical_cast<std::string>(v).size()); }
E(k_ialgo) { S; pse_observe("v", boost::algorithm::iequals(s, "ab") + 2 * boost::algorithm::istarts_with(s, "a") + 4 * boost::algorithm::contains(s, "b")); }
E(k_trim) { S; boost::algorithm::trim(s); pse_observe("v", s.size()); }
E(k_tolower) { S; boost::algorithm::to_lower(s); pse_observe("v", s.size()); }
E(k_split) { S; std::vector<std::string> v; boost::algorithm::split(v, s, boost::algorithm::is_any_of(",;")); pse_observe("v", v.size()); }
E(k_replace) { S; boost::algorithm::replace_all(s, "a", "bb"); pse_observe("v", s.size()); }
E(k_transform) { S; std::transform(s.begin(), s.end(), s.begin(), ::tolower); pse_observe("v", s[0]); }
E(k_find) { S; pse_observe("v", s.find("ab") + s.find_first_of("xy") + s.find_last_not_of(" ") + s.rfind('c') + s.find_first_not_of("q")); }
E(k_count) { S; pse_observe("v", std::count(s.begin(), s.end(), 'a') + (std::find_if(s.begin(), s.end(), ::isdigit) - s.begin())); }
E(k_search) { S; std::string p = "ab"; pse_observe("v", std::search(s.begin(), s.end(), p.begin(), p.end()) - s.begin()); }
E(k_str) { S; std::string t(s); t.insert(0, "x"); t.erase(1, 1); t.replace(0, 1, "yy"); t.append(s, 0, 1); t += 'q'; t.push_back('z'); t.pop_back(); t.resize(5, 'k'); pse_observe("v", t.compare("yy") ); pse_observe("l", t.substr(1, 2).size()); }
E(k_sort) { S; std::sort(s.begin(), s.end()); pse_observe("v", s[0]); }
E(k_reverse) { S; std::reverse(s.begin(), s.end()); pse_observe("v", s[0]); }
E(k_map) { S; std::map<std::string, int> m; m[s] = 1; m["b"] = 2; m.emplace("c", 3); m.erase("b"); pse_observe("v", m.size()); }
E(k_set) { S; std::set<char> m(s.begin(), s.end()); pse_observe("v", m.size()); }
E(k_umap) { std::unordered_map<int, int> m; m[1] = 2; m[3] = 4; pse_observe("v", m.size() + m.count(3)); }
E(k_umaps) { std::unordered_map<std::string, int> m; m["a"] = 2; m["b"] = 4; pse_observe("v", m.size() + m.count("b")); }
E(k_uset) { std::unordered_set<std::string> m; m.insert("a"); pse_observe("v", m.size() + m.count("b")); }
E(k_deque) { std::deque<int> d; for (int i = 0; i < 5; ++i) d.push_front(i); d.pop_back(); pse_observe("v", d.size()); std::queue<int> q; q.push(1); std::stack<int> t; t.push(2); }
E(k_list) { std::list<int> d; d.push_back(1); d.push_back(0); d.sort(); d.remove(1); pse_observe("v", d.size()); }
E(k_ptr) { std::unique_ptr<int> p(new int(3)); std::shared_ptr<int> q = std::make_shared<int>(4); std::weak_ptr<int> w(q); pse_observe("v", *p + *q + !w.expired()); boost::scoped_ptr<int> b(new int(1)); boost::shared_ptr<int> c = boost::make_shared<int>(1); boost::scoped_array<char> d(new char[3]); }
E(k_mutex) { std::mutex m; { std::lock_guard<std::mutex> l(m); } { std::unique_lock<std::mutex> l(m); l.unlock(); l.lock(); } std::recursive_mutex r; { std::lock_guard<std::recursive_mutex> l(r); } pse_observe("v", 1); }
E(k_bmutex) { boost::mutex m; { boost::lock_guard<boost::mutex> l(m); } { boost::unique_lock<boost::mutex> l(m); l.unlock(); l.lock(); } { boost::mutex::scoped_lock l(m, boost::defer_lock); l.lock(); } { boost::mutex::scoped_lock l(m, boost::try_to_lock); pse_observe("o", l.owns_lock()); } { m.lock(); m.unlock(); } pse_observe("v", 1); }
E(k_bmutex2) { boost::recursive_mutex r; { boost::recursive_mutex::scoped_lock l(r); boost::recursive_mutex::scoped_lock k(r); } pse_observe("v", 1); }
E(k_shared) { boost::shared_mutex r; { boost::shared_lock<boost::shared_mutex> l(r); } { boost::unique_lock<boost::shared_mutex> l(r); } pse_observe("v", 1); }
E(k_bonce) { static boost::once_flag f = BOOST_ONCE_INIT; struct X { static void g() {} }; boost::call_once(X::g, f); boost::call_once(f, X::g); pse_observe("v", 1); }
E(k_once) { static std::once_flag f; int v = 0; std::call_once(f, [&] { v = 1; }); pse_observe("v", v); }
E(k_atomic) { std::atomic<int> a(0); ++a; a.store(3); std::atomic<bool> b(false); b.exchange(true); int e = 3; a.compare_exchange_strong(e, 4); pse_observe("v", a.load()); }
E(k_cv) { std::condition_variable c; c.notify_all(); pse_observe("v", 1); }
E(k_bcv) { boost::condition_variable c; c.notify_all(); boost::condition d; d.notify_one(); boost::mutex m; boost::mutex::scoped_lock l(m); int x = 1; c.wait(l, [&] { return x; }); pse_observe("v", 1); }
E(k_func) { std::function<int(int)> f = std::bind([](int a, int b) { return a + b; }, 1, std::placeholders::_1); boost::function<int(int)> g = f; pse_observe("v", f(2) + g(3)); }
E(k_vec) { S; std::vector<char> v(s.begin(), s.end()); v.insert(v.begin(), 'a'); v.erase(v.begin()); v.reserve(20); v.shrink_to_fit(); std::vector<char> w; w.swap(v); std::copy(w.begin(), w.end(), std::back_inserter(v)); pse_observe("v", v.size() + std::accumulate(v.begin(), v.end(), 0) * 0); std::vector<bool> q(3); }
E(k_foreach) { S; int n = 0; BOOST_FOREACH(char c, s) n += c == 'a'; for (auto &c : s) n += c == 'b'; pse_observe("v", n); }
E(k_any) { S; pse_observe("v", std::any_of(s.begin(), s.end(), [](char c) { return c == 'a'; }) + std::all_of(s.begin(), s.end(), [](char c) { return isalnum((unsigned char)c); })); }
E(k_equal) { S; std::string t = "ab"; pse_observe("v", s.size() == 2 && std::equal(s.begin(), s.end(), t.begin()) ? 1 : 0); pse_observe("w", std::lexicographical_compare(s.begin(), s.end(), t.begin(), t.end())); }
E(k_strerror) { const char *p = strerror(2); pse_observe("v", 1); (void)p; }
E(k_itoa) { char b[16]; sprintf(b, "%d", 12); pse_observe("v", strlen(b)); std::string s = boost::lexical_cast<std::string>(-5); pse_observe("w", s.size()); }
E(k_ctype) { S; int n = 0; std::locale l; for (char c : s) n += std::isalpha(c, l) + std::isspace(c, std::locale::classic()) + (std::tolower(c, l) == 'a'); pse_observe("v", n); }
E(k_isalnum) { S; int n = 0; for (char c : s) n += isalnum((unsigned char)c) + std::isdigit((unsigned char)c) + isxdigit((unsigned char)c); pse_observe("v", n != 0); }
E(k_bsearch) { static const int t[4] = {1, 3, 5, 7}; pse_observe("v", std::lower_bound(t, t + 4, 5) - t + std::binary_search(t, t + 4, 3)); }
E(k_locmt) { S; std::string o; std::copy_if(s.begin(), s.end(), std::back_inserter(o), [](char c) { return c != 'a'; }); s.erase(std::remove(s.begin(), s.end(), 'b'), s.end()); pse_observe("v", o.size() * 10 + s.size()); }
E(k_bformat) { std::ostringstream o; o << std::dec << std::uppercase << std::hex << 255 << std::left << std::boolalpha << true << 3.5; pse_observe("v", o.str().size()); }
E(k_ostream_double) { std::ostringstream o; o << 3.5; pse_observe("v", o.str().size()); }
E(k_isskeep) { S; std::istringstream i(s); std::string r((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); pse_observe("v", r.size()); i.clear(); i.seekg(0); char c; i.get(c); i.ignore(1); i.peek(); }
E(k_assign) { S; std::string t; t.assign(s.rbegin(), s.rend()); t.clear(); t.reserve(10); std::swap(s, t); pse_observe("v", t.size()); }
E(k_exc) { int v = 0; try { throw std::system_error(std::make_error_code(std::errc::invalid_argument), "x"); } catch (std::system_error &e) { v = e.code().value(); } pse_observe("v", v); }
E(k_bexc) { int v = 0; try { boost::throw_exception(std::runtime_error("x")); } catch (std::exception &e) { v = e.what()[0]; } pse_observe("v", v); }
E(k_current) { int v = 0; std::exception_ptr p; try { throw 1; } catch (...) { p = std::current_exception(); } try { std::rethrow_exception(p); } catch (int i) { v = i; } pse_observe("v", v); }
E(k_abs) { pse_observe("v", abs(-3) + labs(-4) + std::min(1, 2) + std::max(3, 4) + div(7, 2).quot); }
E(k_bthread) { int v = 0; boost::thread::real() = true; boost::thread t([&] { v = 1; }); t.join(); pse_observe("v", v); }
E(k_sthread) { int v = 0; std::thread t([&] { v = 1; }); t.join(); pse_observe("v", v); }
E(k_memx) { char b[8]; memset(b, 1, 8); char c[8]; memcpy(c, b, 8); pse_observe("v", memcmp(b, c, 8)); bzero(b, 8); std::fill(b, b + 8, 'c'); std::fill_n(b, 3, 'd'); pse_observe("w", b[2] + std::char_traits<char>::length("ab")); }
E(k_strtol) { S; char *e; long v = strtol(s.c_str(), &e, 10); unsigned long w = strtoul(s.c_str(), &e, 16); pse_observe("v", v + w); }
E(k_regex) { pse_observe("v", 1); }
E(k_tuple) { std::tuple<int, int> t = std::make_tuple(1, 2); int a, b; std::tie(a, b) = t; pse_observe("v", a + b); }
E(k_array) { std::array<int, 3> a = {{1, 2, 3}}; pse_observe("v", a.at(1)); }
E(k_mapci) { std::multimap<std::string, int> m; m.insert(std::make_pair("a", 1)); m.insert(std::make_pair("a", 2)); auto r = m.equal_range("a"); pse_observe("v", std::distance(r.first, r.second)); }
E(k_clock) { time_t t = time(0); struct tm r; gmtime_r(&t, &r); char b[40]; strftime(b, 40, "%a, %d %b %Y %H:%M:%S GMT", &r); pse_observe("v", r.tm_mday); }
E(k_bptime) { boost::posix_time::ptime p = boost::posix_time::second_clock::universal_time(); pse_observe("v", p.time_of_day().hours()); pse_observe("w", (p - p).total_seconds()); }
E(k_rand) { pse_observe("v", 1); }
E(k_cerr) { std::ostringstream o; std::ostream &q = o; q.write("ab", 2); q.put('c'); q.flush(); pse_observe("v", o.str().size()); pse_observe("p", (long)o.tellp()); }
E(k_malloc) { char *p = (char *)calloc(3, 2); p = (char *)realloc(p, 9); free(p); char *q = new (std::nothrow) char[3]; delete[] q; pse_observe("v", 1); }
E(k_iter) { S; std::string::const_reverse_iterator r = s.rbegin(); pse_observe("v", std::distance(s.begin(), s.end()) + (*r == 'a')); }
E(k_bitset) { unsigned v = pse_u32("v"); pse_observe("v", __builtin_popcount(v & 7)); }
E(k_isc) { S; bool b = false; for (size_t i = 0; i < s.size(); ++i) b |= strchr("()<>@,;:\\\"/[]?={} \t", s[i]) != 0; pse_observe("v", b); }
E(k_hash) { pse_observe("v", std::hash<std::string>()("ab") != 0); std::size_t z = 0; boost::hash_combine(z, 3); pse_observe("w", boost::hash<std::string>()("ab") != 0); }
E(k_cast) { struct A { virtual ~A() {} }; struct B : A {}; A *a = new B; pse_observe("v", dynamic_cast<B *>(a) != 0); delete a; }
E(k_opt) { pse_observe("v", boost::iequals("a", "A") + boost::ends_with(std::string("ab"), "b")); std::string j = boost::join(std::vector<std::string>(2, "x"), ","); pse_observe("w", j.size()); }
E(k_token) { S; boost::algorithm::trim_left(s); boost::algorithm::erase_all(s, "a"); pse_observe("v", s.size()); std::string u = boost::to_upper_copy(s); pse_observe("w", u.size()); }
E(k_strcoll) { pse_observe("v", strcoll("a", "b") < 0); }
E(k_asprintf) { char b[30]; int n = snprintf(b, 30, "%s:%d:%lu:%c:%5d:%-3d:%x", "a", -3, 5ul, 'c', 4, 5, 255u); pse_observe("v", n); for (int i = 0; i < n; ++i) pse_observe("c", b[i]); }
E(k_stod) { pse_observe("v", (int)atof("2.5")); }
E(k_dbl) { unsigned n = pse_u32("v") & 15; double d = n * 1.5; pse_observe("v", (int)d); }
E(k_lower_tbl) { S; const char *T = "0123456789abcdef"; const char *p = (const char *)memchr(T, s[0], 16); pse_observe("v", p ? p - T : -1); }
E(k_ssize) { S; std::string t = s + std::string("a") + 'b' + "c"; t.swap(s); pse_observe("v", (t == s) + (t < s) + (t != "q")); std::string u(3, 'x'); std::string w(s, 1); w.at(0); w.front(); w.back(); w.copy(&u[0], 1); }
E(k_at) { S; int v = 0; try { s.at(100); } catch (std::out_of_range &) { v = 1; } try { s.substr(100); } catch (std::out_of_range &) { v += 1; } pse_observe("v", v); }
E(k_streambuf) { struct B : std::streambuf { int overflow(int c) { return c; } } b; std::ostream o(&b); o << "abc" << 3; pse_observe("v", o.good()); }
E(k_setbase) { std::ostringstream o; o << std::setbase(16) << 255 << std::showbase << 3 << std::oct << 8; pse_observe("v", o.str().size()); }
E(k_strings_cmp) { S; pse_observe("v", s.compare(0, 1, "a") == 0); pse_observe("w", strncasecmp(s.c_str(), "ab", 2) == 0); }
E(k_ldexp) { std::vector<std::pair<std::string, int> > v; v.emplace_back("b", 1); v.emplace_back("a", 2); std::sort(v.begin(), v.end()); std::stable_sort(v.begin(), v.end()); pse_observe("v", v[0].second); }
E(k_cfind) { S; std::map<std::string, int>::iterator i; std::map<std::string, int> m; m["a"] = 1; i = m.find(s); pse_observe("v", i == m.end()); m.insert(std::make_pair(s, 3)); m.lower_bound("a"); m.upper_bound("a"); m.erase(m.begin()); std::map<std::string,int> n(m); n = m; n.swap(m); m.clear(); }
E(k_mem_fn) { pse_observe("v", std::mem_fn(&std::string::size)(std::string("ab"))); }
E(k_strto) { S; pse_observe("v", atoi(s.c_str()) + (int)strtoull(s.c_str(), 0, 10)); }
E(k_usleep) { pse_observe("v", 1); }
E(k_bsleep) { boost::this_thread::yield(); pse_observe("v", boost::this_thread::get_id() == boost::this_thread::get_id()); }
E(k_timed) { boost::mutex m; boost::condition_variable c; boost::mutex::scoped_lock l(m); bool b = c.timed_wait(l, boost::posix_time::seconds(1)); pse_observe("v", 1); (void)b; }
E(k_ref) { int a = 1; boost::reference_wrapper<int> r = boost::ref(a); r.get() = 2; std::ref(a).get() = 3; pse_observe("v", a); }
E(k_mt) { pse_observe("v", std::is_same<int, int>::value); auto f = [](int x) { return x; }; pse_observe("w", f(2)); std::initializer_list<int> il = {1, 2}; pse_observe("z", il.size()); }
E(k_tribool) { boost::tribool t = boost::indeterminate; pse_observe("v", boost::indeterminate(t)); t = !t; t = t && true; std::ostringstream o; }
E(k_aton) { pse_observe("v", htons(1) + ntohl(1)); }
E(k_catch) { int v = 0; try { try { throw std::runtime_error("a"); } catch (std::exception &) { throw; } } catch (std::runtime_error &e) { v = 1; } pse_observe("v", v); }
E(k_nested) { struct G { int &x; ~G() { x = 1; } }; int x = 0; try { G g = {x}; throw 1; } catch (int) {} pse_observe("v", x); }
E(k_unique) { S; s.erase(std::unique(s.begin(), s.end()), s.end()); pse_observe("v", s.size()); auto p = std::mismatch(s.begin(), s.end(), s.begin()); pse_observe("w", p.first == s.end()); std::partition(s.begin(), s.end(), [](char c) { return c > 'a'; }); std::for_each(s.begin(), s.end(), [](char) {}); std::rotate(s.begin(), s.begin() + 1, s.end()); }
E(k_bind) { struct X { int f(int a) { return a; } } x; boost::function<int()> f = boost::bind(&X::f, &x, 3); pse_observe("v", f()); std::function<int()> g = std::bind(&X::f, &x, 4); pse_observe("w", g()); }
E(k_esft) { struct X : boost::enable_shared_from_this<X> {}; boost::shared_ptr<X> p(new X); boost::weak_ptr<X> w(p); pse_observe("v", p->shared_from_this() == p && w.lock()); boost::dynamic_pointer_cast<X>(p); }
E(k_emplace) { std::map<int, std::unique_ptr<int> > m; m[1].reset(new int(3)); m.insert(std::make_pair(2, std::unique_ptr<int>(new int(2)))); pse_observe("v", *m[1]); }
E(k_static) { static const std::string T("abc"); static const std::map<std::string, int> M = {{"a", 1}, {"b", 2}}; pse_observe("v", M.at("a") + T.size()); }
E(k_switch) { S; int v; switch (s[0]) { case 'a': v = 1; break; case 'b' ... 'f': v = 2; break; case '0': case '1': v = 3; break; default: v = 4; } pse_observe("v", v); }
E(k_goto) { S; size_t i = 0; again: if (i < s.size() && s[i] == 'a') { ++i; goto again; } pse_observe("v", i); }
E(k_table) { S; static const signed char T[256] = {1, 2, 3}; pse_observe("v", T[(unsigned char)s[0]]); static const bool Q[128] = {0}; (void)Q; }
E(k_fnptr) { S; static int (*T[3])(int) = {isdigit, isalpha, isspace}; pse_observe("v", T[s[0] & 1](s[1]) != 0); }
E(k_memfnptr) { struct X { int a() { return 1; } int b() { return 2; } } x; typedef int (X::*F)(); static const F T[2] = {&X::a, &X::b}; S; pse_observe("v", (x.*T[s[0] & 1])()); }
E(k_rec) { struct R { static int f(int n) { return n ? n + f(n - 1) : 0; } }; pse_observe("v", R::f(5)); }
E(k_vla) { S; unsigned n = (unsigned char)s[0] & 3; char *b = (char *)__builtin_alloca(n + 1); memset(b, 0, n + 1); pse_observe("v", b[n]); }
E(k_bits) { unsigned v = pse_u32("v"); pse_observe("v", __builtin_clz(v | 1) + __builtin_ctz(v | 256)); pse_observe("b", __builtin_bswap32(v)); }
E(k_float) { float f = 1.5f; f *= 2; pse_observe("v", (int)f); }
E(k_i128) { unsigned long v = pse_u32("v"); pse_observe("v", (unsigned long)(((unsigned __int128)v * v) >> 32)); }
E(k_ovf) { unsigned v = pse_u32("v"); unsigned r; bool o = __builtin_mul_overflow(v, 10u, &r); pse_observe("v", o); size_t q; pse_observe("w", __builtin_add_overflow((size_t)v, (size_t)5, &q)); }
E(k_minmax) { S; pse_observe("v", *std::max_element(s.begin(), s.end()) - *std::min_element(s.begin(), s.end())); }
E(k_tls) { static thread_local int t = 3; ++t; pse_observe("v", t); }
E(k_strsep) { char b[8] = "a,b"; char *p = b; char *q = strsep(&p, ","); pse_observe("v", strlen(q)); }
E(k_toascii) { S; pse_observe("v", isascii(s[0]) != 0); }
E(k_copyn) { S; char b[20]; char *e = std::copy(s.begin(), s.end(), b); pse_observe("v", e - b); std::copy_n(s.begin(), 1, b); std::copy_backward(b, b + 2, b + 4); std::move(b, b + 2, b + 3); }
E(k_gen) { std::string t; std::generate_n(std::back_inserter(t), 3, [] { return 'a'; }); std::iota(t.begin(), t.end(), 'a'); pse_observe("v", t[2]); std::next(t.begin()); std::advance(*new std::string::iterator(t.begin()), 1); }
E(k_ostrit) { std::ostringstream o; std::string s = "ab"; std::copy(s.begin(), s.end(), std::ostreambuf_iterator<char>(o)); std::vector<int> v(2, 1); std::copy(v.begin(), v.end(), std::ostream_iterator<int>(o, ",")); pse_observe("v", o.str().size()); }
E(k_bdt) { pse_observe("v", boost::posix_time::seconds(3).total_milliseconds()); boost::posix_time::ptime a(boost::gregorian::date(2014, 1, 1)), b = a + boost::posix_time::minutes(3); pse_observe("w", (b - a).total_seconds()); pse_observe("x", b > a); }
E(k_from_time_t) { boost::posix_time::ptime p = boost::posix_time::from_time_t(1400000000); pse_observe("v", p.date().day()); }
E(k_chrono) { pse_observe("v", 1); }
E(k_u16) { unsigned short v = pse_u32("v"); pse_observe("v", (unsigned short)(v << 8 | v >> 8)); }
E(k_noexc) { int *p = new (std::nothrow) int; delete p; std::string *q = new std::string[2]; delete[] q; pse_observe("v", 1); }
E(k_rlock) { std::mutex a, b; std::lock(a, b); a.unlock(); b.unlock(); std::timed_mutex t; pse_observe("v", 1); }
E(k_defer) { std::mutex a; std::unique_lock<std::mutex> l(a, std::defer_lock); pse_observe("o", l.try_lock()); pse_observe("v", 1); }
E(k_cvwait) { std::mutex m; std::condition_variable c; std::unique_lock<std::mutex> l(m); int x = 1; c.wait(l, [&] { return x; }); pse_observe("v", 1); }
E(k_cvwaitfor) { std::mutex m; std::condition_variable c; std::unique_lock<std::mutex> l(m); bool b = c.wait_for(l, std::chrono::seconds(1), [&] { return true; }); pse_observe("v", b); }
E(k_logxx) { std::string s; s.append(3, 'a').append("bc", 1).append(s.begin(), s.end()); s.insert(s.begin(), 'c'); s.insert(1, 2, 'q'); s.erase(s.begin()); s.replace(s.find('a'), 1, 2, 'z'); pse_observe("v", s.size()); }
E(k_stringview) { pse_observe("v", boost::string_ref("abc").size()); boost::string_ref r("abc"); pse_observe("w", r.substr(1).to_string().size() + r.find('c')); }
E(k_optional) { boost::optional<int> o; o = 3; pse_observe("v", o ? *o : 0); }
E(k_array2) { boost::array<char, 4> a; a.assign('c'); pse_observe("v", a[2] + a.size()); }
E(k_noncopy) { struct X : boost::noncopyable {} x; (void)x; pse_observe("v", 1); }
E(k_variant) { pse_observe("v", 1); }
E(k_stoull) { unsigned long long v = 0; try { v = std::stoull("99999999999999999999999"); } catch (std::out_of_range &) { v = 7; } try { std::stoi("x"); } catch (std::invalid_argument &) { v += 1; } pse_observe("v", v); }
E(k_bcast) { int v = 0; try { v = boost::numeric_cast<short>(70000); } catch (boost::bad_numeric_cast &) { v = 1; } pse_observe("v", v); }
E(k_lexc) { pse_observe("v", boost::lexical_cast<int>("12") + (boost::lexical_cast<bool>("1") ? 1 : 0)); unsigned char c = boost::lexical_cast<char>("x"); pse_observe("c", c); pse_observe("s", boost::lexical_cast<std::size_t>(std::string("5"))); }
E(k_trylex) { int v = 0; bool b = boost::conversion::try_lexical_convert("12", v); pse_observe("v", b ? v : -1); }
