// Symbolic-side stand-ins for the non-template part of libstdc++'s locale and iostream support
// ("C" locale only).  The templates (basic_ostream, basic_stringbuf, num_put ...) are the real ones.
#include <sstream>
#include <locale>
#include <ios>
#include <ostream>
#include <istream>
#include <new>
namespace std {
typedef num_put<char, ostreambuf_iterator<char> > NP; typedef num_get<char, istreambuf_iterator<char> > NG; typedef numpunct<char> NU;
enum { NF = 16 };
static const locale::facet *pse_facets[NF]; static const locale::facet *pse_caches[NF]; static char pse_impl_store[sizeof(locale::_Impl)] __attribute__((aligned(16))); static bool pse_impl_ready; static size_t pse_next_id;
size_t locale::id::_M_id() const throw() { if (!_M_index) _M_index = ++pse_next_id; return _M_index - 1; }
locale::id ctype<char>::id;
void locale::_Impl::_M_install_cache(const facet *f, size_t i) { if (i < NF) _M_caches[i] = f; }
static locale::_Impl *pse_impl();
locale::locale() noexcept : _M_impl(pse_impl()) {}
locale::locale(const locale &o) noexcept : _M_impl(o._M_impl) {}
locale::~locale() noexcept {}
const locale &locale::operator=(const locale &) noexcept { return *this; }
bool locale::operator==(const locale &) const noexcept { return true; }
const locale &locale::classic() { static locale l; return l; }
locale locale::global(const locale &) { return locale(); }
locale::facet::~facet() {}
template <> void numpunct<char>::_M_initialize_numpunct(__c_locale) { if (!_M_data) _M_data = new __numpunct_cache<char>; _M_data->_M_grouping = ""; _M_data->_M_grouping_size = 0; _M_data->_M_use_grouping = false; _M_data->_M_decimal_point = '.'; _M_data->_M_thousands_sep = ',';
    for (size_t i = 0; i < __num_base::_S_oend; ++i) _M_data->_M_atoms_out[i] = __num_base::_S_atoms_out[i]; for (size_t i = 0; i < __num_base::_S_iend; ++i) _M_data->_M_atoms_in[i] = __num_base::_S_atoms_in[i];
    _M_data->_M_truename = "true"; _M_data->_M_truename_size = 4; _M_data->_M_falsename = "false"; _M_data->_M_falsename_size = 5; }
template <> numpunct<char>::~numpunct() {}
const char *__num_base::_S_atoms_in = "-+xX0123456789abcdefABCDEF"; const char *__num_base::_S_atoms_out = "-+xX0123456789abcdef0123456789ABCDEF";
// ctype<char>
static unsigned short pse_tbl[256];
static char pse_ctype_store[sizeof(ctype<char>)] __attribute__((aligned(16))); static ctype<char> *pse_ctype;
ctype<char>::~ctype() {}
ctype<char>::ctype(const mask *t, bool, size_t) : facet(0), _M_c_locale_ctype(0), _M_del(false), _M_toupper(0), _M_tolower(0), _M_table(t), _M_widen_ok(0), _M_narrow_ok(0) {
    for (int i = 0; i < 256; ++i) { unsigned short m = 0; bool up = i >= 'A' && i <= 'Z', lo = i >= 'a' && i <= 'z', dg = i >= '0' && i <= '9', xd = dg || (i >= 'a' && i <= 'f') || (i >= 'A' && i <= 'F'), sp = i == 32 || (i >= 9 && i <= 13), pr = i >= 32 && i < 127;
        if (up) m |= upper | alpha; if (lo) m |= lower | alpha; if (dg) m |= digit; if (xd) m |= xdigit; if (sp) m |= space; if (pr) m |= print; if (pr && !up && !lo && !dg && i != 32) m |= punct; if (i < 32 || i == 127) m |= cntrl; if (i == 32 || i == 9) m |= blank; pse_tbl[i] = m; }
    _M_table = pse_tbl; }
char ctype<char>::do_toupper(char c) const { unsigned char u = (unsigned char)c; return (char)(u - ((unsigned char)(u - 'a') <= 25 ? 32 : 0)); }
char ctype<char>::do_tolower(char c) const { unsigned char u = (unsigned char)c; return (char)(u + ((unsigned char)(u - 'A') <= 25 ? 32 : 0)); }
const char *ctype<char>::do_toupper(char *p, const char *e) const { for (; p < e; ++p) *p = do_toupper(*p); return e; }
const char *ctype<char>::do_tolower(char *p, const char *e) const { for (; p < e; ++p) *p = do_tolower(*p); return e; }
static const ctype<char> &pse_get_ctype() { if (!pse_ctype) pse_ctype = new (pse_ctype_store) ctype<char>(pse_tbl, false, 1); return *pse_ctype; }
void ctype<char>::_M_widen_init() const {} void ctype<char>::_M_narrow_init() const {}
static char pse_np_store[sizeof(NP)] __attribute__((aligned(16))), pse_ng_store[sizeof(NG)] __attribute__((aligned(16))), pse_nu_store[sizeof(NU)] __attribute__((aligned(16)));
static locale::_Impl *pse_impl() { locale::_Impl *p = (locale::_Impl *)pse_impl_store; if (!pse_impl_ready) { pse_impl_ready = true; p->_M_refcount = 1000; p->_M_facets = pse_facets; p->_M_facets_size = NF; p->_M_caches = pse_caches;
    pse_facets[ctype<char>::id._M_id()] = &pse_get_ctype(); pse_facets[NU::id._M_id()] = new (pse_nu_store) NU(); pse_facets[NP::id._M_id()] = new (pse_np_store) NP(); pse_facets[NG::id._M_id()] = new (pse_ng_store) NG(); } return p; }
// ios_base
ios_base::ios_base() noexcept : _M_precision(6), _M_width(0), _M_flags(skipws | dec), _M_exception(goodbit), _M_streambuf_state(goodbit), _M_callbacks(0), _M_word_size(_S_local_word_size), _M_word(_M_local_word) {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw() { _M_precision = 6; _M_width = 0; _M_flags = fmtflags(skipws | dec); }
int ios_base::xalloc() throw() { static int n = 0; return n++; }
ios_base::_Words &ios_base::_M_grow_words(int, bool) { return _M_local_word[0]; }
locale ios_base::imbue(const locale &) throw() { return locale(); }
ios_base::Init::Init() {} ios_base::Init::~Init() {}
void __throw_ios_failure(const char *s) { throw runtime_error(s); }
void __throw_ios_failure(const char *s, int) { throw runtime_error(s); }
}
namespace std { template class numpunct<char>; template class num_put<char>; template class num_get<char>; template class basic_ios<char>; template class basic_istream<char>; template class basic_ostream<char>; template class basic_iostream<char>; template class basic_streambuf<char>; template class basic_stringbuf<char>; template class basic_istringstream<char>; template class basic_ostringstream<char>; template class basic_stringstream<char>; }
namespace std { template ostream &__ostream_insert(ostream &, const char *, streamsize); template ostream &endl(ostream &); template ostream &flush(ostream &); template ostream &operator<<(ostream &, char); template ostream &operator<<(ostream &, const char *); template ostream &ostream::_M_insert(long); template ostream &ostream::_M_insert(unsigned long); template ostream &ostream::_M_insert(bool); template istream &istream::_M_extract(unsigned short &); template istream &istream::_M_extract(unsigned &); template istream &istream::_M_extract(long &); template istream &istream::_M_extract(unsigned long &); template istream &getline(istream &, string &, char); }
namespace std {
template <> istream &getline(istream &in, string &s, char d) { istream::sentry ok(in, true); if (!ok) return in; s.clear(); streambuf *b = in.rdbuf(); bool any = false; for (;;) { int c = b->sgetc(); if (c == char_traits<char>::eof()) { in.setstate(any ? ios_base::eofbit : ios_base::eofbit | ios_base::failbit); break; } any = true; b->sbumpc(); if ((char)c == d) break; s.push_back((char)c); } return in; }
template <> istream &operator>>(istream &in, string &s) { istream::sentry ok(in, false); if (!ok) return in; s.clear(); streambuf *b = in.rdbuf(); streamsize w = in.width(); in.width(0); size_t n = 0; for (;;) { int c = b->sgetc(); if (c == char_traits<char>::eof()) { in.setstate(ios_base::eofbit); break; } if (c == ' ' || (c >= 9 && c <= 13) || (w > 0 && (streamsize)n >= w)) break; ++n; b->sbumpc(); s.push_back((char)c); } if (!n) in.setstate(ios_base::failbit); return in; }
template <> istream &istream::ignore(streamsize n) { _M_gcount = 0; sentry ok(*this, true); if (!ok) return *this; while (n-- > 0) { int c = rdbuf()->sbumpc(); if (c == char_traits<char>::eof()) { setstate(ios_base::eofbit); break; } ++_M_gcount; } return *this; }
size_t _Hash_bytes(const void *p, size_t n, size_t seed) { const unsigned char *q = (const unsigned char *)p; size_t h = seed; for (size_t i = 0; i < n; ++i) h = (h ^ q[i]) * 1099511628211ul; return h; }
}
