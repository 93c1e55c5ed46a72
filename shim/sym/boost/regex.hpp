// Symbolic-side model of the part of Boost.Regex that pion uses.  The pattern given by the code is
// parsed at run time; regex_match is decided by a branch-free NFA simulation (so a symbolic subject
// does not fork), regex_search with captures by Perl-style backtracking.
#ifndef PSE_BOOST_REGEX
#define PSE_BOOST_REGEX 1
#include <string>
#include <vector>
#include <stdexcept>
#include <utility>
namespace boost {
class bad_expression : public std::runtime_error { public: explicit bad_expression(const std::string &s) : std::runtime_error(s) {} };
typedef bad_expression regex_error;
namespace regex_constants { enum { normal = 0, perl = 0, icase = 1 }; typedef unsigned match_flag_type; enum { match_default = 0, format_default = 0 }; }
typedef regex_constants::match_flag_type match_flag_type; using regex_constants::match_default;
struct pse_rx_inst { enum Op { Set, Any, Split, Jmp, Save, Bol, Eol, Match } op; int x, y; unsigned char set[32], lo[16], hi[16]; unsigned nr; pse_rx_inst() : op(Match), x(0), y(0), nr(0) { for (int i = 0; i < 32; ++i) set[i] = 0; }
    void ranges() { nr = 0; for (unsigned k = 0; k < 256;) { if (!set[k >> 3]) { k = (k | 7) + 1; continue; } if (!(set[k >> 3] >> (k & 7) & 1)) { ++k; continue; } unsigned h = k; while (h < 255 && (set[(h + 1) >> 3] >> ((h + 1) & 7) & 1)) ++h; if (nr == 16) throw std::runtime_error("regex: set too complex for the model"); lo[nr] = k; hi[nr++] = h; k = h + 1; } } };
class basic_regex_char {
public:
    typedef unsigned flag_type; enum { normal = 0, perl = 0, icase = 1, extended = 0 };
    std::vector<pse_rx_inst> prog; int ngroups; bool ic; std::string src; std::vector<std::vector<int> > clos;
    basic_regex_char() : ngroups(1), ic(false) { compile(std::string(), 0); }
    basic_regex_char(const char *p, flag_type f = 0) { compile(p, f); }
    basic_regex_char(const std::string &p, flag_type f = 0) { compile(p, f); }
    basic_regex_char &assign(const std::string &p, flag_type f = 0) { compile(p, f); return *this; }
    basic_regex_char &operator=(const char *p) { compile(p, 0); return *this; }
    std::string str() const { return src; } bool empty() const { return src.empty(); } unsigned mark_count() const { return ngroups - 1; }
private:
    const char *p, *e; typedef std::vector<pse_rx_inst> Code;
    void compile(const std::string &s, flag_type f) {
        src = s; ic = (f & icase) != 0; ngroups = 1; p = src.data(); e = p + src.size(); prog.clear(); Code c = alt(); if (p != e) throw bad_expression("regex");
        pse_rx_inst i; i.op = pse_rx_inst::Save; i.x = 0; prog.push_back(i); app(prog, c); i.x = 1; prog.push_back(i); i.op = pse_rx_inst::Match; prog.push_back(i);
        for (unsigned k = 0; k < prog.size(); ++k) if (prog[k].op == pse_rx_inst::Set) prog[k].ranges();
        clos.clear(); for (unsigned k = 0; k < prog.size(); ++k) { std::vector<int> v; std::vector<char> seen(prog.size(), 0); cl(k, v, seen); clos.push_back(v); }
    }
    void cl(unsigned k, std::vector<int> &v, std::vector<char> &seen) { if (seen[k]) return; seen[k] = 1; const pse_rx_inst &i = prog[k];
        switch (i.op) { case pse_rx_inst::Split: cl(i.x, v, seen); cl(i.y, v, seen); break; case pse_rx_inst::Jmp: cl(i.x, v, seen); break; case pse_rx_inst::Save: cl(k + 1, v, seen); break; default: v.push_back(k); } }
    static void app(Code &a, const Code &b) { int n = a.size(); for (unsigned i = 0; i < b.size(); ++i) { pse_rx_inst k = b[i]; if (k.op == pse_rx_inst::Split || k.op == pse_rx_inst::Jmp) { k.x += n; k.y += n; } a.push_back(k); } }
    static pse_rx_inst in(pse_rx_inst::Op o, int x = 0, int y = 0) { pse_rx_inst i; i.op = o; i.x = x; i.y = y; return i; }
    Code alt() { Code a = seq(); while (p != e && *p == '|') { ++p; Code b = seq(); Code r; r.push_back(in(pse_rx_inst::Split, 1, a.size() + 2)); app(r, a); r.push_back(in(pse_rx_inst::Jmp, a.size() + 2 + b.size())); app(r, b); a = r; } return a; }
    Code seq() { Code r; while (p != e && *p != '|' && *p != ')') app(r, rep()); return r; }
    static Code q(const Code &a, bool lazy) { Code r; int n = a.size(); r.push_back(lazy ? in(pse_rx_inst::Split, n + 1, 1) : in(pse_rx_inst::Split, 1, n + 1)); app(r, a); return r; }
    static Code star(const Code &a, bool lazy) { Code r; int n = a.size(); r.push_back(lazy ? in(pse_rx_inst::Split, n + 2, 1) : in(pse_rx_inst::Split, 1, n + 2)); app(r, a); r.push_back(in(pse_rx_inst::Jmp, 0)); return r; }
    Code rep() {
        Code a = atom();
        while (p != e && (*p == '*' || *p == '+' || *p == '?' || *p == '{')) {
            int lo, hi; char c = *p++;
            if (c == '*') { lo = 0; hi = -1; } else if (c == '+') { lo = 1; hi = -1; } else if (c == '?') { lo = 0; hi = 1; }
            else { lo = num(); hi = lo; if (p != e && *p == ',') { ++p; hi = (p != e && *p == '}') ? -1 : num(); } if (p == e || *p != '}') throw bad_expression("regex"); ++p; }
            bool lazy = p != e && *p == '?'; if (lazy) ++p;
            Code r; for (int i = 0; i < lo; ++i) app(r, a);
            if (hi < 0) app(r, star(a, lazy)); else if (hi > lo) { Code t; for (int i = lo; i < hi; ++i) { Code u = a; app(u, t); t = q(u, lazy); } app(r, t); }
            a = r;
        }
        return a;
    }
    int num() { int v = 0, n = 0; while (p != e && *p >= '0' && *p <= '9') { v = v * 10 + (*p++ - '0'); ++n; } if (!n) throw bad_expression("regex"); return v; }
    static void put(pse_rx_inst &i, unsigned c) { i.set[(c & 255) >> 3] |= 1 << (c & 7); }
    void fold(pse_rx_inst &i) { if (ic) for (unsigned c = 'a'; c <= 'z'; ++c) { bool b = (i.set[c >> 3] >> (c & 7) & 1) | (i.set[(c - 32) >> 3] >> ((c - 32) & 7) & 1); if (b) { put(i, c); put(i, c - 32); } } }
    static void cls(pse_rx_inst &i, char c) { // \d \w \s and complements
        pse_rx_inst t; char l = c | 32; for (unsigned k = 0; k < 256; ++k) { bool d = k >= '0' && k <= '9', w = d || (k >= 'a' && k <= 'z') || (k >= 'A' && k <= 'Z') || k == '_', s = k == ' ' || (k >= 9 && k <= 13); bool m = l == 'd' ? d : l == 'w' ? w : s; if (!(c & 32)) m = !m; if (m) put(i, k); } }
    static unsigned char esc(char c) { return c == 'n' ? '\n' : c == 'r' ? '\r' : c == 't' ? '\t' : c == 'f' ? '\f' : c == 'v' ? '\v' : c; }
    static bool iscls(char c) { return c == 'd' || c == 'D' || c == 'w' || c == 'W' || c == 's' || c == 'S'; }
    Code atom() {
        Code r; char c = *p++; pse_rx_inst i; i.op = pse_rx_inst::Set;
        if (c == '(') { int g = -1; if (p + 1 < e && p[0] == '?' && p[1] == ':') p += 2; else g = ngroups++; if (g >= 0) r.push_back(in(pse_rx_inst::Save, 2 * g)); app(r, alt()); if (p == e || *p != ')') throw bad_expression("regex"); ++p; if (g >= 0) r.push_back(in(pse_rx_inst::Save, 2 * g + 1)); return r; }
        if (c == '.') { r.push_back(in(pse_rx_inst::Any)); return r; }
        if (c == '^') { r.push_back(in(pse_rx_inst::Bol)); return r; }
        if (c == '$') { r.push_back(in(pse_rx_inst::Eol)); return r; }
        if (c == '*' || c == '+' || c == '?' || c == '{') throw bad_expression("regex");
        if (c == '[') {
            bool neg = p != e && *p == '^'; if (neg) ++p; bool first = true;
            while (p != e && (*p != ']' || first)) {
                first = false; unsigned char a = *p++;
                if (a == '[' && p != e && *p == ':') { std::string n; ++p; while (p != e && *p != ':') n += *p++; p += 2; for (unsigned k = 0; k < 128; ++k) { bool d = k >= '0' && k <= '9', al = (k >= 'a' && k <= 'z') || (k >= 'A' && k <= 'Z'); if ((n == "digit" && d) || (n == "alpha" && al) || (n == "alnum" && (d || al)) || (n == "space" && (k == ' ' || (k >= 9 && k <= 13))) || (n == "xdigit" && (d || ((k | 32) >= 'a' && (k | 32) <= 'f')))) put(i, k); } continue; }
                if (a == '\\') { if (p == e) throw bad_expression("regex"); char x = *p++; if (iscls(x)) { cls(i, x); continue; } a = esc(x); }
                unsigned char b = a; if (p + 1 < e && p[0] == '-' && p[1] != ']') { ++p; b = *p++; if (b == '\\') b = esc(*p++); }
                for (unsigned k = a; k <= b; ++k) put(i, k);
            }
            if (p == e) throw bad_expression("regex"); ++p; fold(i); if (neg) for (int k = 0; k < 32; ++k) i.set[k] = ~i.set[k]; r.push_back(i); return r;
        }
        if (c == '\\') { if (p == e) throw bad_expression("regex"); char x = *p++; if (iscls(x)) { cls(i, x); r.push_back(i); return r; } c = esc(x); }
        put(i, (unsigned char)c); fold(i); r.push_back(i); return r;
    }
};
typedef basic_regex_char regex; template <class C> struct basic_regex_sel { typedef basic_regex_char type; };
inline unsigned pse_rx_in(const pse_rx_inst &i, unsigned char c) { // branch-free membership, as a union of ranges
    unsigned r = 0; for (unsigned k = 0; k < i.nr; ++k) r |= (unsigned)((unsigned char)(c - i.lo[k]) <= (unsigned char)(i.hi[k] - i.lo[k])); return r; }
inline unsigned pse_rx_step(const pse_rx_inst &i, unsigned char c) { return i.op == pse_rx_inst::Any ? 1u : i.op == pse_rx_inst::Set ? pse_rx_in(i, c) : 0u; }
// whole-string match, no captures: symbolic state set, no forks per character
template <class It> bool pse_rx_full(It f, It l, const regex &r) {
    unsigned n = r.prog.size(); std::vector<unsigned> cur(n, 0), nx(n, 0); bool anch = false; for (unsigned k = 0; k < n; ++k) if (r.prog[k].op == pse_rx_inst::Bol || r.prog[k].op == pse_rx_inst::Eol) anch = true;
    (void)anch; for (unsigned k = 0; k < r.clos[0].size(); ++k) cur[r.clos[0][k]] = 1;
    // anchors at the ends of a full match are always satisfied
    for (int t = 0; t < 4; ++t) for (unsigned k = 0; k < n; ++k) if (r.prog[k].op == pse_rx_inst::Bol && cur[k]) { for (unsigned j = 0; j < r.clos[k + 1].size(); ++j) cur[r.clos[k + 1][j]] |= cur[k]; }
    for (; f != l; ++f) { unsigned char c = *f; for (unsigned k = 0; k < n; ++k) nx[k] = 0;
        for (unsigned k = 0; k < n; ++k) if (r.prog[k].op <= pse_rx_inst::Any) { unsigned b = cur[k] & pse_rx_step(r.prog[k], c); const std::vector<int> &cl = r.clos[k + 1]; for (unsigned j = 0; j < cl.size(); ++j) nx[cl[j]] |= b; }
        cur.swap(nx); }
    for (int t = 0; t < 4; ++t) for (unsigned k = 0; k < n; ++k) if (r.prog[k].op == pse_rx_inst::Eol) for (unsigned j = 0; j < r.clos[k + 1].size(); ++j) cur[r.clos[k + 1][j]] |= cur[k];
    unsigned m = 0; for (unsigned k = 0; k < n; ++k) if (r.prog[k].op == pse_rx_inst::Match) m |= cur[k]; return m != 0;
}
template <class It> struct sub_match : std::pair<It, It> { bool matched; sub_match() : matched(false) {} std::string str() const { return matched ? std::string(this->first, this->second) : std::string(); } operator std::string() const { return str(); } size_t length() const { return matched ? this->second - this->first : 0; } };
template <class It> struct match_results {
    std::vector<sub_match<It> > v; sub_match<It> none; It base;
    size_t size() const { return v.size(); } bool empty() const { return v.empty(); }
    const sub_match<It> &operator[](size_t i) const { return i < v.size() ? v[i] : none; }
    std::string str(size_t i = 0) const { return (*this)[i].str(); } size_t position(size_t i = 0) const { return (*this)[i].first - base; } size_t length(size_t i = 0) const { return (*this)[i].length(); }
};
typedef match_results<std::string::const_iterator> smatch; typedef match_results<const char *> cmatch;
template <class It> bool pse_rx_bt(const regex &r, unsigned pc, It b, It s, It l, std::vector<It> &cap, std::vector<char> &set, bool full) {
    for (;;) { const pse_rx_inst &i = r.prog[pc];
        switch (i.op) {
        case pse_rx_inst::Set: case pse_rx_inst::Any: if (s == l) return false; if (!pse_rx_step(i, (unsigned char)*s)) return false; ++s; ++pc; break;
        case pse_rx_inst::Jmp: pc = i.x; break;
        case pse_rx_inst::Bol: if (s != b) return false; ++pc; break;
        case pse_rx_inst::Eol: if (s != l) return false; ++pc; break;
        case pse_rx_inst::Save: { It o = cap[i.x]; char os = set[i.x]; cap[i.x] = s; set[i.x] = 1; if (pse_rx_bt(r, pc + 1, b, s, l, cap, set, full)) return true; cap[i.x] = o; set[i.x] = os; return false; }
        case pse_rx_inst::Split: if (pse_rx_bt(r, i.x, b, s, l, cap, set, full)) return true; pc = i.y; break;
        default: return !full || s == l;
        } }
}
template <class It> bool pse_rx_run(It b, It s, It l, match_results<It> &m, const regex &r, bool full) {
    std::vector<It> cap(2 * r.ngroups, s); std::vector<char> set(2 * r.ngroups, 0); if (!pse_rx_bt(r, 0, b, s, l, cap, set, full)) return false;
    m.v.assign(r.ngroups, sub_match<It>()); m.base = b; for (int g = 0; g < r.ngroups; ++g) if (set[2 * g] && set[2 * g + 1]) { m.v[g].first = cap[2 * g]; m.v[g].second = cap[2 * g + 1]; m.v[g].matched = true; } return true; }
template <class It> bool regex_match(It f, It l, const regex &r, match_flag_type = 0) { return pse_rx_full(f, l, r); }
inline bool regex_match(const std::string &s, const regex &r, match_flag_type = 0) { return pse_rx_full(s.begin(), s.end(), r); }
inline bool regex_match(const char *s, const regex &r, match_flag_type = 0) { std::string t(s); return pse_rx_full(t.begin(), t.end(), r); }
template <class It> bool regex_match(It f, It l, match_results<It> &m, const regex &r, match_flag_type = 0) { m.v.clear(); return pse_rx_run(f, f, l, m, r, true); }
inline bool regex_match(const std::string &s, smatch &m, const regex &r, match_flag_type = 0) { m.v.clear(); return pse_rx_run(s.begin(), s.begin(), s.end(), m, r, true); }
template <class It> bool regex_search(It f, It l, match_results<It> &m, const regex &r, match_flag_type = 0) { m.v.clear(); for (It s = f;; ++s) { if (pse_rx_run(f, s, l, m, r, false)) return true; if (s == l) return false; } }
inline bool regex_search(const std::string &s, smatch &m, const regex &r, match_flag_type = 0) { return regex_search(s.begin(), s.end(), m, r); }
template <class It> bool regex_search(It f, It l, const regex &r, match_flag_type = 0) { match_results<It> m; return regex_search(f, l, m, r); }
inline bool regex_search(const std::string &s, const regex &r, match_flag_type = 0) { smatch m; return regex_search(s.begin(), s.end(), m, r); }
inline std::string regex_replace(const std::string &s, const regex &r, const std::string &fmt, match_flag_type = 0) { std::string o; std::string::const_iterator f = s.begin(); smatch m; while (f != s.end() && regex_search(f, s.end(), m, r) && m[0].second != m[0].first) { o.append(f, m[0].first); o += fmt; f = m[0].second; } o.append(f, s.end()); return o; }
}
#endif
