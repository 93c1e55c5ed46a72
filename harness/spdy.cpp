// SPDY frames.  zlib is a stand-in (below, for both builds): inflate consumes what it is given and yields
// whatever bytes and return code the harness says; the parser and decompressor are the real code.
#include "pse.h"
#include <vector>
#include <string.h>
#include <pion/spdy/parser.hpp>
#include <pion/spdy/decompressor.hpp>
using namespace pion::spdy;
static std::vector<std::string> g_out; static size_t g_next; static int g_rc[8]; static z_streamp g_used[8]; static size_t g_given[8]; static int g_nused; static z_streamp g_live[4]; static int g_nlive; static bool g_wrongdict; static uLong g_adler; static bool g_leave; static volatile unsigned char g_sum;
extern "C" {
int inflateInit2_(z_streamp s, int, const char *, int) { g_live[g_nlive++] = s; s->state = 0; return Z_OK; }
int inflateEnd(z_streamp s) { pse_assert(g_nlive > 0, "zlib: each stream is released once"); --g_nlive; return Z_OK; }
uLong adler32(uLong a, const Bytef *b, uInt n) { if (!b) return 1; unsigned s = 0; for (uInt i = 0; i < n; ++i) s ^= b[i] << (i & 7); g_adler = 0x55550000u + s; return g_adler; }
int inflateSetDictionary(z_streamp s, const Bytef *d, uInt n) { uLong a = adler32(1, d, n); pse_assert(a == s->adler, "spdy: the dictionary the stream names is given"); return Z_OK; }
int inflate(z_streamp s, int) {
    unsigned char sum = 0; for (uInt i = 0; i < s->avail_in; ++i) sum += s->next_in[i]; g_sum = sum; // touches every byte it was given
    if (g_nused < 8) { g_used[g_nused] = s; g_given[g_nused] = s->avail_in; }
    int rc = g_rc[g_nused < 8 ? g_nused : 7]; ++g_nused;
    if (rc == Z_NEED_DICT) { s->adler = g_wrongdict ? g_adler + 1 : g_adler; return rc; }
    if (rc != Z_OK) return rc;
    std::string o = g_next < g_out.size() ? g_out[g_next++] : std::string(); for (size_t i = 0; i < o.size() && s->avail_out; ++i) { *s->next_out++ = (Bytef)o[i]; --s->avail_out; }
    s->next_in += s->avail_in; s->avail_in = g_leave ? 1 : 0; return Z_OK;
}
}
static int tri(boost::tribool t) { return boost::indeterminate(t) ? 2 : t == true ? 1 : 0; }
struct Seg { char *p; size_t n; Seg(const std::string &s) : p(new char[s.size() ? s.size() : 1]), n(s.size()) { for (size_t i = 0; i < n; ++i) p[i] = s[i]; } ~Seg() { delete[] p; } private: Seg(const Seg &); };
static std::string be(uint32_t v, int n) { std::string r; for (int i = n; i-- > 0;) r += (char)(v >> (8 * i)); return r; }
// args: packet length.  arbitrary packets of at least one frame header
extern "C" void s_any() {
    size_t n = pse_arg(0), blk = pse_arg(1); std::string s = pse_string(n, "p"); if (pse_arg(2)) { static const unsigned char T[] = { 1, 2, 3, 6, 7, 8, 9, 0 }; s[0] = (char)0x80; s[1] = (char)2; s[2] = 0; s[3] = (char)T[pse_arg(2) - 1]; } bool data = s[0] == 0; if (!data) pse_assume(n >= 12); // shorter control packets: see s_short
    g_out.push_back(pse_string(blk, "z")); decompressor_ptr d(new decompressor); static const int RC[] = { Z_OK, Z_NEED_DICT, Z_DATA_ERROR }; g_rc[0] = RC[pse_choose(3, "rc")]; if (g_rc[0] == Z_NEED_DICT) g_wrongdict = pse_choose(2, "dict"); g_leave = pse_choose(2, "left");
    Seg g(s); parser p; http_protocol_info i; boost::system::error_code ec; boost::uint32_t left = n; int rc; try { rc = tri(p.parse(i, ec, d, g.p, left, 0)); } catch (...) { pse_fail("spdy: parsing never throws"); return; }
    pse_assert((rc == 0) == !!ec, "spdy: failure and error go together"); size_t len = ((uint8_t)s[5] << 16) | ((uint8_t)s[6] << 8) | (uint8_t)s[7];
    if (rc == 2) { pse_assert(left == n - 8 - len, "spdy: the rest of the packet is what follows the frame"); const char *nx = p.get_spdy_read_pointer(); pse_assert(nx == g.p + 8 + len, "spdy: the next frame starts after this one"); pse_reach("more"); }
    if (rc == 1) { pse_assert(len >= n - 8, "spdy: a finished packet has nothing after its frame"); pse_reach("done"); } if (rc == 0) pse_reach("error");
    pse_observe("rc", rc); pse_observe("ec", ec.value()); pse_observe("type", i.http_type);
}
// packets shorter than a frame header (known finding)
extern "C" void s_short() { size_t n = pse_arg(0); std::string s = pse_string(n, "p"); if (n > 7) pse_assume(s[0] != 0); decompressor_ptr d(new decompressor); Seg g(s); parser p; http_protocol_info i; boost::system::error_code ec; boost::uint32_t left = n; int rc = tri(p.parse(i, ec, d, g.p, left, 0)); pse_assert(rc != 2 || left < n, "spdy: a short packet leaves less than its size"); pse_observe("rc", rc); }
// args: frame kind, payload bytes, bytes after the frame
extern "C" void s_fields() {
    int kind = pse_arg(0); size_t pl = pse_arg(1), after = pse_arg(2); std::string h = pse_string(8, "h"), b = pse_string(pl, "b"), tail = pse_string(after, "t"); h[5] = 0; h[6] = 0; h[7] = (char)pl; uint32_t sid; if (kind == 0) { h[0] = 0; sid = ((uint8_t)h[1] << 16) | ((uint8_t)h[2] << 8) | (uint8_t)h[3]; } else { h[0] = (char)0x80; h[2] = 0; h[3] = (char)kind; pse_assume((uint8_t)h[1] <= 3); sid = (((uint8_t)b[0] & 127u) << 24) | ((uint8_t)b[1] << 16) | ((uint8_t)b[2] << 8) | (uint8_t)b[3]; }
    Seg g(h + b + tail); size_t n = g.n; parser p; http_protocol_info i; boost::system::error_code ec; boost::uint32_t left = n; decompressor_ptr d(new decompressor); g_out.push_back(std::string(2, '\0')); uint32_t st = kind == 7 && pl == 8 ? ((uint8_t)b[4] << 24) | ((uint8_t)b[5] << 16) | ((uint8_t)b[6] << 8) | (uint8_t)b[7] : 0;
    int rc = tri(p.parse(i, ec, d, g.p, left, 0)); bool bad = (st == 1) | (st == 11);
    if (bad) { pse_assert(rc == 0 && ec.value() == (st == 1 ? parser::ERROR_PROTOCOL_ERROR : parser::ERROR_INTERNAL_SPDY_ERROR), "spdy: a go-away with an error status is reported as that error"); pse_reach("goaway"); return; }
    pse_assert(rc == (after ? 2 : 1), "spdy: a complete frame is accepted, and more is announced exactly when more follows"); pse_assert(i.data_offset == 8 && i.data_size == pl, "spdy: payload place and size");
    uint32_t want = kind == 0 ? HTTP_DATA : kind == 1 ? HTTP_REQUEST : kind == 2 ? HTTP_RESPONSE : kind == 8 || kind == 5 ? NON_SPDY : SPDY_CONTROL; pse_assert(i.http_type == want, "spdy: kind of message"); if (kind == 0 || kind == 1 || kind == 2 || kind == 8) pse_assert(i.stream_id == sid, "spdy: stream identifier");
    pse_assert(i.last_chunk == (kind == 0 && (h[4] & 1)), "spdy: last chunk exactly when the data frame says so"); pse_assert(parser::get_spdy_frame_type(g.p) == (kind ? spdy_control_frame : spdy_data_frame), "spdy: frame type"); if (kind) { pse_assert(parser::is_spdy_control_frame(g.p) == ((uint8_t)h[1] >= 1), "spdy: control frame test"); pse_assert(parser::get_control_frame_stream_id(g.p) == sid, "spdy: stream of a control frame"); } else { pse_assert(!parser::is_spdy_control_frame(g.p), "spdy: data is no control frame"); pse_assert(p.get_spdy_data_content() == g.p + 8, "spdy: data content starts after the frame header"); }
    if (after) { pse_assert(left == after, "spdy: remaining bytes"); pse_assert(p.get_spdy_read_pointer() == g.p + 8 + pl, "spdy: next frame"); } pse_observe("sid", i.stream_id);
}
// frames whose length needs more than two bytes. args: payload bytes, bytes after the frame
extern "C" void s_large() {
    size_t pl = pse_arg(0), after = pse_arg(1); std::string h = pse_string(5, "h"), t = pse_string(after, "t"); h[0] = 0; Seg g(h + be(pl, 3) + std::string(pl, 'x') + t); parser p; http_protocol_info i; boost::system::error_code ec; boost::uint32_t left = g.n; decompressor_ptr d(new decompressor); int rc = tri(p.parse(i, ec, d, g.p, left, 0)); pse_assert(rc == (after ? 2 : 1) && i.data_size == pl && i.data_offset == 8 && i.http_type == HTTP_DATA, "spdy: large frames"); pse_assert(i.stream_id == (((uint8_t)h[1] << 16) | ((uint8_t)h[2] << 8) | (uint8_t)h[3]) && i.last_chunk == (h[4] & 1), "spdy: large frames have the same header"); if (after) pse_assert(left == after && p.get_spdy_read_pointer() == g.p + 8 + pl, "spdy: what follows a large frame"); pse_observe("sid", i.stream_id); pse_reach("large");
}
// what is rejected
extern "C" void s_reject() {
    std::string s = pse_string(16, "p"); uint8_t b0 = s[0], b1 = s[1]; s[5] = 0; s[6] = 0; s[7] = 8; uint16_t type = ((uint8_t)s[2] << 8) | (uint8_t)s[3]; bool ctl = b0 == 0x80; pse_assume(!ctl || (type != 1 && type != 2 && type != 8 && type != 7)); Seg g(s); parser p; http_protocol_info i; boost::system::error_code ec; boost::uint32_t left = 16; decompressor_ptr d(new decompressor); int rc = tri(p.parse(i, ec, d, g.p, left, 0));
    if ((b0 != 0) & (b0 != 0x80)) { pse_assert(rc == 0 && ec.value() == parser::ERROR_INVALID_SPDY_FRAME, "spdy: anything else is no frame"); pse_assert(parser::get_spdy_frame_type(g.p) == spdy_invalid_frame, "spdy: invalid frame type"); }
    else if (ctl && type >= 11) { pse_assert(rc == 0 && ec.value() == parser::ERROR_INVALID_SPDY_FRAME, "spdy: unknown control frame"); pse_assert(!parser::is_spdy_control_frame(g.p), "spdy: unknown type is no control frame"); }
    else if (ctl && b1 > 3) { pse_assert(rc == 0 && ec.value() == parser::ERROR_INVALID_SPDY_VERSION, "spdy: unknown version"); pse_assert(!parser::is_spdy_control_frame(g.p), "spdy: unknown version is no control frame"); }
    else { pse_assert(rc == 1, "spdy: accepted"); pse_reach("accepted"); } pse_observe("rc", rc);
}
// args: frame type, name/value lengths.  a header block is decoded exactly
extern "C" void s_headers() {
    int type = pse_arg(0); size_t np = pse_arg(1); std::string blk = be(np, 2); std::vector<std::string> n, v; for (size_t k = 0; k < np; ++k) { n.push_back(pse_string(pse_arg(2 + 2 * k), "n")); v.push_back(pse_string(pse_arg(3 + 2 * k), "v")); blk += be(n[k].size(), 2) + n[k] + be(v[k].size(), 2) + v[k]; }
    if (np == 2) pse_assume(!pse_streq(n[0], n[1])); int dict = pse_choose(2, "dict"); g_leave = !dict && pse_choose(2, "left"); g_rc[0] = dict ? Z_NEED_DICT : Z_OK; g_rc[1] = Z_OK; g_out.push_back(blk); std::string comp = pse_string(3, "c"), sid = pse_string(4, "sid"), fix = type == 1 ? sid + std::string(6, 'q') : sid + "qq", f = std::string("\x80\x02\0", 3) + (char)type + pse_string(1, "fl") + be(fix.size() + comp.size(), 3) + fix + comp;
    Seg g(f); parser p; http_protocol_info i; boost::system::error_code ec; boost::uint32_t left = g.n; decompressor_ptr d(new decompressor); int rc = tri(p.parse(i, ec, d, g.p, left, 0)); if (g_leave) { pse_assert(i.http_headers.empty(), "spdy: a block that does not fit the buffer is not half of its headers"); return; } pse_assert(rc == 1, "spdy: a complete header frame is accepted"); pse_assert(i.http_headers.size() == np, "spdy: as many headers as pairs"); for (size_t k = 0; k < np; ++k) { bool found = false; for (std::map<std::string, std::string>::iterator it = i.http_headers.begin(); it != i.http_headers.end(); ++it) if (pse_streq(it->first, n[k])) { found = true; pse_assert(pse_streq(it->second, v[k]), "spdy: header value"); } pse_assert(found, "spdy: header name"); }
    bool odd = sid[3] & 1; z_streamp want = odd && type == 1 ? g_live[0] : g_live[1]; for (int k = 0; k < g_nused && k < 2; ++k) pse_assert(g_used[k] == want, "spdy: requests and responses have their own compression state"); pse_assert(g_given[0] == 3, "spdy: the compressed block is what follows the fixed fields"); pse_assert(g_nused == 1 + dict, "spdy: inflated once, again after the dictionary"); pse_observe("n", i.http_headers.size());
}
// args: block bytes.  a block that ends early is an error, never more headers than sent
extern "C" void s_block_any() {
    size_t n = pse_arg(0); std::string blk = pse_string(n, "z"); if (pse_arg(1)) { blk[0] = 0; blk[1] = 1; } if (pse_arg(1) > 1) { blk[2] = 0; blk[3] = (char)(pse_arg(1) - 1); } g_out.push_back(blk); std::string f = std::string("\x80\x02\0\x02\0\0\0\x07\0\0\0\x01qqZ", 15); Seg g(f); parser p; http_protocol_info i; boost::system::error_code ec; boost::uint32_t left = 15; decompressor_ptr d(new decompressor); int rc = tri(p.parse(i, ec, d, g.p, left, 0));
    size_t at = 2; bool ok = n >= 2; size_t cnt = ok ? ((uint8_t)blk[0] << 8 | (uint8_t)blk[1]) : 0; for (size_t k = 0; k < cnt && ok; ++k) for (int j = 0; j < 2 && ok; ++j) { if (at + 2 > n) { ok = false; break; } size_t l = ((uint8_t)blk[at] << 8 | (uint8_t)blk[at + 1]); at += 2; if (l > n - at) { ok = false; break; } at += l; }
    pse_assert((rc == 1) == ok, "spdy: a header block is accepted exactly when its pairs fit in it"); if (!ok) pse_assert(rc == 0 && ec.value() == parser::ERROR_MISSING_HEADER_DATA, "spdy: missing header data"); pse_reach(ok ? "fits" : "truncated"); pse_observe("rc", rc);
}
// a packet of three frames, walked the way callers do
extern "C" void s_walk() {
    size_t l[3]; int kind[3]; std::string s; std::vector<std::string> data; std::vector<size_t> at; for (int k = 0; k < 3; ++k) { l[k] = pse_arg(2 * k); kind[k] = pse_arg(2 * k + 1); at.push_back(s.size()); std::string b = pse_string(l[k], "b"); s += kind[k] ? std::string("\x80\x02\0", 3) + (char)kind[k] + std::string(1, '\0') + be(l[k], 3) + b : std::string("\0\0\0", 3) + pse_string(1, "sid") + pse_string(1, "fl") + be(l[k], 3) + b; data.push_back(b); }
    Seg g(s); parser p; decompressor_ptr d(new decompressor); const char *ptr = g.p; boost::uint32_t left = g.n; for (int k = 0; k < 3; ++k) { http_protocol_info i; boost::system::error_code ec; pse_assert(ptr == g.p + at[k], "spdy: each frame is visited once, in order"); int rc = tri(p.parse(i, ec, d, ptr, left, 1)); pse_assert(rc == (k < 2 ? 2 : 1), "spdy: every frame but the last announces more"); pse_assert(i.data_size == l[k], "spdy: frame size"); if (!kind[k]) { const char *c = p.get_spdy_data_content(); pse_assert(c == ptr + 8 && pse_memeq(c, data[k].data(), l[k]), "spdy: frame data"); pse_assert(i.stream_id == (uint8_t)s[at[k] + 3], "spdy: frame stream"); pse_assert(i.last_chunk == ((s[at[k] + 4] & 1) != 0), "spdy: last frame flag"); } if (rc == 2) ptr = p.get_spdy_read_pointer(); }
    pse_observe("left", left);
}
