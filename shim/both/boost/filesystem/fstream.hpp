#ifndef PSE_FILESYSTEM_FSTREAM
#define PSE_FILESYSTEM_FSTREAM 1
#include <boost/filesystem/operations.hpp>
#include <fstream>
#include <sstream>
namespace boost { namespace filesystem {
class pse_in : public std::istringstream { bool open_; public: pse_in() : open_(false) {} explicit pse_in(const path &p, std::ios_base::openmode m = std::ios_base::in) : open_(false) { open(p, m); }
    void open(const path &p, std::ios_base::openmode = std::ios_base::in) { pse_node *n = pse_fs().find(p.string(), 'r'); if (!n || n->dir || !n->can_read || open_) { setstate(std::ios_base::failbit); return; } clear(); str(n->data); open_ = true; }
    bool is_open() const { return open_; } void close() { if (!open_) setstate(std::ios_base::failbit); open_ = false; } };
class pse_out : public std::ostringstream { bool open_, over_; std::string at_; pse_node *node() { return pse_fs().at(at_); } public: pse_out() : open_(false), over_(false) {} explicit pse_out(const path &p, std::ios_base::openmode m = std::ios_base::out) : open_(false), over_(false) { open(p, m); } ~pse_out() { if (open_) flush_(); }
    void open(const path &p, std::ios_base::openmode m = std::ios_base::out) { std::string at; pse_node *n = pse_fs().find(p.string(), 'w', &at); if (!n) { std::string up = at; size_t s = up.rfind('/'); if (at.empty() || s == std::string::npos) { setstate(std::ios_base::failbit); return; } up.erase(s); pse_node *d = pse_fs().at(up); if (!d || !d->dir || !d->can_write || p.string()[p.string().size() - 1] == '/') { setstate(std::ios_base::failbit); return; } n = &pse_fs().add(at, false); n->mtime = (pse_fs().now += pse_fs().step); } else if (n->dir || !n->can_write) { setstate(std::ios_base::failbit); return; }
        clear(); str(std::string()); over_ = !(m & std::ios_base::app) && (m & std::ios_base::in) && !(m & std::ios_base::trunc); if (!(m & std::ios_base::app)) { if (!over_) { n->data.clear(); n->mtime = (pse_fs().now += pse_fs().step); } } at_ = at; open_ = true; }
    bool flush_() { pse_node *n = node(); std::string d = str(); if (n && !d.empty()) { if (pse_fs().full) return false; if (over_) { n->data.replace(0, d.size(), d); over_ = false; } else n->data += d; n->mtime = (pse_fs().now += pse_fs().step); } str(std::string()); return true; }
    bool is_open() const { return open_; } void close() { if (!open_) { setstate(std::ios_base::failbit); return; } if (!flush_()) setstate(std::ios_base::failbit); open_ = false; } };
typedef pse_in ifstream; typedef pse_out ofstream;
}}
#endif
