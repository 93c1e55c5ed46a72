#ifndef PSE_FILESYSTEM_OPS
#define PSE_FILESYSTEM_OPS 1
#include <boost/filesystem/path.hpp>
#include <boost/shared_ptr.hpp>
namespace boost { namespace filesystem {
class filesystem_error : public boost::system::system_error { path a_; public: filesystem_error(const std::string &w, const boost::system::error_code &e) : boost::system::system_error(e, w) {} filesystem_error(const std::string &w, const path &p, const boost::system::error_code &e) : boost::system::system_error(e, w), a_(p) {} ~filesystem_error() throw() {} const path &path1() const { return a_; } };
inline boost::system::error_code pse_fs_err(int e) { return boost::system::error_code(e, boost::system::generic_category()); }
inline void pse_fs_throw(const char *w, const path &p, int e) { throw filesystem_error(w, p, pse_fs_err(e)); }
enum file_type { status_error, file_not_found, regular_file, directory_file, type_unknown }; 
class file_status { file_type t_; public: explicit file_status(file_type t = status_error) : t_(t) {} file_type type() const { return t_; } };
inline file_status status(const path &p) { pse_node *n = pse_fs().find(p.string(), 's'); return file_status(!n ? file_not_found : n->dir ? directory_file : regular_file); }
inline file_status status(const path &p, boost::system::error_code &ec) { ec.clear(); return status(p); } inline file_status symlink_status(const path &p) { return status(p); }
inline bool exists(file_status s) { return s.type() != file_not_found && s.type() != status_error; } inline bool is_directory(file_status s) { return s.type() == directory_file; } inline bool is_regular_file(file_status s) { return s.type() == regular_file; } inline bool is_regular(file_status s) { return is_regular_file(s); } inline bool is_symlink(file_status) { return false; } inline bool is_other(file_status) { return false; }
inline bool is_symlink(const path &) { return false; } inline bool is_other(const path &) { return false; }
inline bool exists(const path &p) { return exists(status(p)); } inline bool exists(const path &p, boost::system::error_code &ec) { ec.clear(); return exists(p); }
inline bool is_directory(const path &p) { return is_directory(status(p)); } inline bool is_directory(const path &p, boost::system::error_code &ec) { ec.clear(); return is_directory(p); }
inline bool is_regular_file(const path &p) { return is_regular_file(status(p)); } inline bool is_regular_file(const path &p, boost::system::error_code &ec) { ec.clear(); return is_regular_file(p); } inline bool is_regular(const path &p) { return is_regular_file(p); }
inline boost::uintmax_t file_size(const path &p, boost::system::error_code &ec) { pse_node *n = pse_fs().find(p.string(), 's'); if (!n) { ec = pse_fs_err(2); return (boost::uintmax_t)-1; } if (n->dir) { ec = pse_fs_err(1); return (boost::uintmax_t)-1; } ec.clear(); return n->size >= 0 ? (boost::uintmax_t)n->size : n->data.size(); }
inline boost::uintmax_t file_size(const path &p) { boost::system::error_code ec; boost::uintmax_t r = file_size(p, ec); if (ec) pse_fs_throw("boost::filesystem::file_size", p, ec.value()); return r; }
inline std::time_t last_write_time(const path &p, boost::system::error_code &ec) { pse_node *n = pse_fs().find(p.string(), 's'); if (!n) { ec = pse_fs_err(2); return -1; } ec.clear(); return n->mtime; }
inline std::time_t last_write_time(const path &p) { boost::system::error_code ec; std::time_t r = last_write_time(p, ec); if (ec) pse_fs_throw("boost::filesystem::last_write_time", p, ec.value()); return r; }
inline bool remove(const path &p, boost::system::error_code &ec) { std::string at; pse_node *n = pse_fs().find(p.string(), 'd', &at); ec.clear(); if (!n) return false; if (!n->can_remove) { ec = pse_fs_err(13); return false; } pse_fs().drop(at); return true; }
inline bool remove(const path &p) { boost::system::error_code ec; bool r = remove(p, ec); if (ec) pse_fs_throw("boost::filesystem::remove", p, ec.value()); return r; }
inline path current_path() { return pse_fs().cwd; } inline path initial_path() { return pse_fs().cwd; }
inline path absolute(const path &p, const path &b) { return p.is_absolute() ? p : b / p; } inline path absolute(const path &p) { return absolute(p, current_path()); } inline path complete(const path &p) { return absolute(p); } inline path system_complete(const path &p) { return p.empty() || p.is_absolute() ? p : current_path() / p; }
inline path canonical(const path &p) { std::string r; if (!pse_fs().resolve(absolute(p).string(), r)) pse_fs_throw("boost::filesystem::canonical", p, 2); return r.empty() ? path("/") : path(r); }
class directory_entry { path p_; public: directory_entry() {} explicit directory_entry(const path &p) : p_(p) {} const boost::filesystem::path &path() const { return p_; } operator const boost::filesystem::path &() const { return p_; } file_status status() const { return boost::filesystem::status(p_); } };
class directory_iterator { struct S { std::vector<directory_entry> v; size_t i; }; boost::shared_ptr<S> s_; public: typedef std::input_iterator_tag iterator_category; typedef directory_entry value_type; typedef std::ptrdiff_t difference_type; typedef const directory_entry *pointer; typedef const directory_entry &reference; directory_iterator() {}
    explicit directory_iterator(const boost::filesystem::path &p) { std::string at; pse_node *n = pse_fs().find(p.string(), 'l', &at); if (!n || !n->dir || !n->can_read) pse_fs_throw("boost::filesystem::directory_iterator::construct", p, n ? 20 : 2); s_.reset(new S); s_->i = 0; for (size_t k = 0; k < pse_fs().nodes.size(); ++k) { const std::string &m = pse_fs().nodes[k]->name; if (m.size() > at.size() + 1 && m.compare(0, at.size(), at) == 0 && m[at.size()] == '/' && m.find('/', at.size() + 1) == std::string::npos) s_->v.push_back(directory_entry(p / m.substr(at.size() + 1))); } if (s_->v.empty()) s_.reset(); }
    const directory_entry &operator*() const { return s_->v[s_->i]; } const directory_entry *operator->() const { return &**this; } directory_iterator &operator++() { if (++s_->i == s_->v.size()) s_.reset(); return *this; } directory_iterator operator++(int) { directory_iterator t(*this); ++*this; return t; } bool operator==(const directory_iterator &o) const { return s_ == o.s_; } bool operator!=(const directory_iterator &o) const { return s_ != o.s_; } };
inline directory_iterator begin(const directory_iterator &i) { return i; } inline directory_iterator end(const directory_iterator &) { return directory_iterator(); }
inline bool is_directory(const directory_entry &e) { return is_directory(e.path()); } inline bool is_regular(const directory_entry &e) { return is_regular_file(e.path()); } inline bool is_regular_file(const directory_entry &e) { return is_regular_file(e.path()); } inline bool exists(const directory_entry &e) { return exists(e.path()); }
inline std::string basename(const path &p) { return p.stem().string(); } inline std::string extension(const path &p) { return p.extension().string(); }
}}
#endif
