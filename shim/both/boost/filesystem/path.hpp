// Paths and files in memory (both builds).  path follows Boost.Filesystem v3 on POSIX (compared with the
// library by selftest/paths.cpp); pse_fs() is the tree of files, and logs every file the code touches.
#ifndef PSE_FILESYSTEM
#define PSE_FILESYSTEM 1
#ifndef BOOST_FILESYSTEM_VERSION
#define BOOST_FILESYSTEM_VERSION 3
#endif
#include <string>
#include <vector>
#include <ctime>
#include <iosfwd>
#include <cstring>
#include <boost/cstdint.hpp>
#include <boost/system/error_code.hpp>
#include <boost/system/system_error.hpp>
namespace boost { namespace filesystem {
class path {
    std::string m_;
    static void split(const std::string &s, std::vector<std::string> &v) {
        size_t i = 0, n = s.size(); if (!n) return;
        if (n > 2 && s[0] == '/' && s[1] == '/' && s[2] != '/') { size_t e = 2; while (e < n && s[e] != '/') ++e; v.push_back(s.substr(0, e)); i = e; if (i < n) { v.push_back("/"); while (i < n && s[i] == '/') ++i; } }
        else if (n == 2 && s[0] == '/' && s[1] == '/') { v.push_back("//"); return; }
        else if (s[0] == '/') { v.push_back("/"); while (i < n && s[i] == '/') ++i; }
        while (i < n) { size_t e = i; while (e < n && s[e] != '/') ++e; v.push_back(s.substr(i, e - i)); i = e; if (i < n) { while (i < n && s[i] == '/') ++i; if (i == n) v.push_back("."); } }
    }
    size_t parent_end() const { // the length of the parent path
        size_t n = m_.size(); if (!n) return 0; size_t root = 0; if (n > 2 && m_[0] == '/' && m_[1] == '/' && m_[2] != '/') { root = 2; while (root < n && m_[root] != '/') ++root; if (root == n) return 0; size_t r2 = root; while (r2 < n && m_[r2] == '/') ++r2; if (r2 == n) return root; root = root + 1; } else if (m_[0] == '/') { size_t r2 = 0; while (r2 < n && m_[r2] == '/') ++r2; if (r2 == n) return 0; root = 1; }
        size_t e = n; if (m_[n - 1] != '/') while (e > root && m_[e - 1] != '/') --e; while (e > root && m_[e - 1] == '/') --e; return e;
    }
public:
    typedef char value_type; typedef std::string string_type;
    class iterator { std::vector<std::string> v_; size_t i_; path cur() const; mutable path *c_; public: typedef std::bidirectional_iterator_tag iterator_category; typedef path value_type; typedef std::ptrdiff_t difference_type; typedef const path *pointer; typedef const path &reference;
        iterator() : i_(0), c_(0) {} iterator(const std::string &s, bool end) : i_(0), c_(0) { path::split(s, v_); if (end) i_ = v_.size(); } iterator(const iterator &o) : v_(o.v_), i_(o.i_), c_(0) {} ~iterator() { drop(); } iterator &operator=(const iterator &o) { v_ = o.v_; i_ = o.i_; drop(); return *this; } void drop() { delete c_; c_ = 0; }
        const path &operator*() const { if (!c_) c_ = new path(v_[i_]); return *c_; } const path *operator->() const { return &**this; } iterator &operator++() { ++i_; drop(); return *this; } iterator operator++(int) { iterator t(*this); ++*this; return t; } iterator &operator--() { --i_; drop(); return *this; } iterator operator--(int) { iterator t(*this); --*this; return t; } bool operator==(const iterator &o) const { return v_.size() - i_ == o.v_.size() - o.i_; } bool operator!=(const iterator &o) const { return !(*this == o); } };
    typedef iterator const_iterator;
    path() {} path(const char *s) : m_(s) {} path(const std::string &s) : m_(s) {} template <class I> path(I b, I e) : m_(b, e) {}
    const std::string &string() const { return m_; } const std::string &native() const { return m_; } std::string generic_string() const { return m_; } const char *c_str() const { return m_.c_str(); } bool empty() const { return m_.empty(); } size_t size() const { return m_.size(); } void clear() { m_.clear(); } void swap(path &o) { m_.swap(o.m_); } operator std::string() const { return m_; }
    path &operator/=(const path &p) { if (p.m_.empty()) return *this; std::string t = p.m_; if (t[0] != '/' && !m_.empty() && m_[m_.size() - 1] != '/') m_ += '/'; m_ += t; return *this; }
    path &append(const std::string &s) { return *this /= path(s); } path &operator+=(const path &p) { m_ += p.m_; return *this; } path &concat(const path &p) { return *this += p; }
    iterator begin() const { return iterator(m_, false); } iterator end() const { return iterator(m_, true); }
    std::vector<std::string> parts() const { std::vector<std::string> v; split(m_, v); return v; }
    path filename() const { std::vector<std::string> v = parts(); return v.empty() ? path() : path(v.back()); } path leaf() const { return filename(); }
    path parent_path() const { return path(m_.substr(0, parent_end())); } path branch_path() const { return parent_path(); } path &remove_filename() { m_.erase(parent_end()); return *this; }
    path stem() const { std::string f = filename().m_; if (f == "." || f == "..") return f; size_t p = f.rfind('.'); return p == std::string::npos ? f : f.substr(0, p); } path extension() const { std::string f = filename().m_; if (f == "." || f == "..") return path(); size_t p = f.rfind('.'); return p == std::string::npos ? std::string() : f.substr(p); }
    path &replace_extension(const path &e = path()) { m_.erase(m_.size() - extension().m_.size()); if (!e.empty()) { if (e.m_[0] != '.') m_ += '.'; m_ += e.m_; } return *this; }
    bool has_root_directory() const { std::vector<std::string> v = parts(); return !v.empty() && (v[0] == "/" || (v.size() > 1 && v[1] == "/")); } bool has_root_path() const { return !m_.empty() && m_[0] == '/'; } bool is_absolute() const { return has_root_directory(); } bool is_complete() const { return is_absolute(); } bool is_relative() const { return !is_absolute(); } bool has_parent_path() const { return parent_end() != 0; } bool has_branch_path() const { return has_parent_path(); } bool has_filename() const { return !m_.empty(); } bool has_leaf() const { return has_filename(); } bool has_extension() const { return !extension().empty(); } bool has_stem() const { return !stem().empty(); } bool has_relative_path() const { return !relative_path().empty(); }
    path relative_path() const { std::vector<std::string> v = parts(); size_t i = 0; if (i < v.size() && v[i].size() > 1 && v[i][0] == '/') ++i; if (i < v.size() && v[i] == "/") ++i; path r; for (; i < v.size(); ++i) r /= v[i]; return r; } path root_path() const { std::vector<std::string> v = parts(); std::string r; if (!v.empty() && v[0][0] == '/') r = v[0]; if (v.size() > 1 && r.size() > 1 && v[1] == "/") r += "/"; return r; }
    path lexically_normal() const {
        if (m_.empty()) return *this; std::vector<std::string> v = parts(), o; size_t root = 0; if (v[0][0] == '/') { root = 1; if (v[0].size() > 1 && v.size() > 1 && v[1] == "/") root = 2; } for (size_t i = 0; i < root; ++i) o.push_back(v[i]); bool dot = false;
        for (size_t i = root; i < v.size(); ++i) { bool last = i + 1 == v.size(); if (v[i] == ".") { if (last) dot = true; continue; } if (v[i] == ".." && o.size() > root && o.back() != "..") { o.pop_back(); continue; } o.push_back(v[i]); }
        std::string r; for (size_t i = 0; i < o.size(); ++i) { if (i && r[r.size() - 1] != '/' && o[i] != "/") r += '/'; r += o[i]; } if (dot && !o.empty()) r += r[r.size() - 1] == '/' ? "." : "/."; if (r.empty()) r = "."; return r;
    }
    path &normalize() { std::string n = lexically_normal().m_; m_.swap(n); return *this; }
    int compare(const path &o) const { std::vector<std::string> a = parts(), b = o.parts(); for (size_t i = 0; i < a.size() && i < b.size(); ++i) { int c = a[i].compare(b[i]); if (c) return c; } return a.size() == b.size() ? 0 : a.size() < b.size() ? -1 : 1; }
};
inline path operator/(const path &a, const path &b) { path r(a); r /= b; return r; }
inline bool operator==(const path &a, const path &b) { return a.compare(b) == 0; } inline bool operator!=(const path &a, const path &b) { return !(a == b); } inline bool operator<(const path &a, const path &b) { return a.compare(b) < 0; }
inline void swap(path &a, path &b) { a.swap(b); }
template <class O> inline O &operator<<(O &o, const path &p) { o << '"' << p.string() << '"'; return o; }
}}
// ---- the files
struct pse_node { std::string name; bool dir; std::string data; long size; std::time_t mtime; bool can_read, can_write, can_remove; pse_node() : dir(false), size(-1), mtime(1), can_read(true), can_write(true), can_remove(true) {} };
struct pse_touch { char how; std::string name; }; // s status, r read, w write, d delete, l list
struct pse_fs_type {
    std::vector<pse_node *> nodes; std::vector<pse_touch> log; std::string cwd; std::time_t now, step; bool full; pse_fs_type() : cwd("/"), now(1000), step(1), full(false) { add("", true); }
    pse_node &add(const std::string &n, bool dir, const std::string &data = std::string()) { pse_node *x = new pse_node; x->name = n; x->dir = dir; x->data = data; x->mtime = now; nodes.push_back(x); return *x; }
    pse_node *at(const std::string &n) { for (size_t i = 0; i < nodes.size(); ++i) if (nodes[i]->name.size() == n.size() && nodes[i]->name == n) return nodes[i]; return 0; }
    void drop(const std::string &n) { for (size_t i = 0; i < nodes.size(); ++i) if (nodes[i]->name == n) { nodes.erase(nodes.begin() + i); return; } }
    // the place a path names, as the kernel resolves it: no links; empty result and false if some directory on the way is not there
    bool resolve(const std::string &given, std::string &out) { std::string p = given.c_str(); if (p.empty()) return false; std::string cur = p[0] == '/' ? std::string() : cwd == "/" ? std::string() : cwd; size_t i = 0;
        while (i < p.size()) { if (p[i] == '/') { ++i; pse_node *n = at(cur); if (!n || !n->dir) return false; continue; } size_t e = i; while (e < p.size() && p[e] != '/') ++e; pse_node *n = at(cur); if (!n || !n->dir) return false; size_t l = e - i; if (l == 1 && p[i] == '.') {} else if (l == 2 && p[i] == '.' && p[i + 1] == '.') { size_t s = cur.rfind('/'); if (s != std::string::npos) cur.erase(s); } else { cur += '/'; cur.append(p, i, l); } i = e; }
        out = cur; return true; }
    pse_node *find(const std::string &p, char how, std::string *place = 0) { std::string n; if (!resolve(p, n)) return 0; pse_touch t; t.how = how; t.name = n; log.push_back(t); if (place) *place = n; return at(n); }
};
inline pse_fs_type &pse_fs() { static pse_fs_type *f = new pse_fs_type; return *f; }
#endif
