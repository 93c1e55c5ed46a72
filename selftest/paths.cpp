// Compares the stand-in path (shim/both) with the installed Boost.Filesystem on every text over "/.ab" of up to 7 characters.
// usage: built twice (with and without the stand-in); the outputs must be equal.
#include <boost/filesystem/path.hpp>
#include <stdio.h>
#include <string>
using boost::filesystem::path;
static unsigned long long h = 1469598103934665603ull; static bool show;
static void put(const std::string &s) { if (show) printf("[%s]", s.c_str()); for (size_t i = 0; i <= s.size(); ++i) { h ^= (unsigned char)s.c_str()[i]; h *= 1099511628211ull; } }
static void one(const std::string &s) { if (show) printf("%s: ", s.c_str()); path p(s); put(p.string()); for (path::iterator i = p.begin(); i != p.end(); ++i) put(i->string()); path n(p); n.normalize(); put(n.string()); put(p.filename().string()); put(p.parent_path().string()); put(p.extension().string()); put(p.stem().string()); put((path("/w") / p).string()); put((p / "x").string()); put((p / "/x").string()); put((path("/w/") / p).normalize().string()); put((path(".") / p).normalize().string()); put(p.is_absolute() ? "1" : "0"); put(p == path("/a/b") ? "=" : p < path("/a/b") ? "<" : ">"); path r(p); r.remove_filename(); put(r.string()); if (show) puts(""); }
static void all(std::string s, int n) { one(s); if (n) for (const char *c = "/.ab"; *c; ++c) all(s + *c, n - 1); }
int main(int n, char **a) { show = n > 2; all("", n > 1 ? atoi(a[1]) : 7); printf("%llx\n", h); }
