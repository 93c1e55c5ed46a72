// Codecs of pion::algorithm: base64, URL escaping, XML escaping, big-endian integers.
#include "pse.h"
#include <pion/algorithm.hpp>
using pion::algorithm;
static const char AL[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static int val64(unsigned char c) { // -1: outside the alphabet; branch-free
    int r = -1; r = (c >= 'A') & (c <= 'Z') ? c - 'A' : r; r = (c >= 'a') & (c <= 'z') ? c - 'a' + 26 : r; r = (c >= '0') & (c <= '9') ? c - '0' + 52 : r; r = c == '+' ? 62 : r; r = c == '/' ? 63 : r; return r; }
static unsigned char chr64(unsigned v) { unsigned char r = (unsigned char)('A' + v); r = v >= 26 ? (unsigned char)('a' + v - 26) : r; r = v >= 52 ? (unsigned char)('0' + v - 52) : r; r = v == 62 ? '+' : r; r = v == 63 ? '/' : r; return r; }

// args: n.  encode is RFC 4648 and decode inverts it
extern "C" void b64_roundtrip() {
    size_t n = pse_arg(0); std::string s = pse_string(n, "in"), e = "junk", d = "junk";
    pse_assert(algorithm::base64_encode(s, e), "base64: encode succeeds");
    std::string ref; for (size_t i = 0; i < n; i += 3) { unsigned a = (uint8_t)s[i], b = i + 1 < n ? (uint8_t)s[i + 1] : 0, c = i + 2 < n ? (uint8_t)s[i + 2] : 0; ref += (char)chr64(a >> 2); ref += (char)chr64((a & 3) << 4 | b >> 4); ref += i + 1 < n ? (char)chr64((b & 15) << 2 | c >> 6) : '='; ref += i + 2 < n ? (char)chr64(c & 63) : '='; }
    pse_assert(pse_streq(e, ref), "base64: encoding is RFC 4648");
    pse_assert(algorithm::base64_decode(e, d), "base64: decode accepts encoder output");
    pse_assert(pse_streq(d, s), "base64: decode inverts encode"); pse_observe_str("e", e);
}
// args: n.  n arbitrary bytes fed to the decoder: rejected unless every character before the padding is base64
extern "C" void b64_decode_any() {
    size_t n = pse_arg(0); std::string s = pse_string(n, "in"), d = "junk"; bool ok = algorithm::base64_decode(s, d);
    // reference: walk the groups
    std::string ref; bool good = true; bool padded = false;
    for (size_t i = 0; i < n && good && !padded; i += 4) {
        unsigned char c0 = s[i]; int v0 = val64(c0); if (v0 < 0 || i + 1 >= n) { good = false; break; }
        int v1 = val64((unsigned char)s[i + 1]); if (v1 < 0) { good = false; break; } ref += (char)(v0 << 2 | v1 >> 4);
        if (i + 2 >= n) break; if (s[i + 2] == '=') { padded = true; break; } int v2 = val64((unsigned char)s[i + 2]); if (v2 < 0) { good = false; break; } ref += (char)(v1 << 4 | v2 >> 2);
        if (i + 3 >= n) break; if (s[i + 3] == '=') { padded = true; break; } int v3 = val64((unsigned char)s[i + 3]); if (v3 < 0) { good = false; break; } ref += (char)(v2 << 6 | v3);
    }
    pse_assert(ok == good, "base64: rejects exactly the inputs with a non-base64 character or a dangling digit");
    if (ok) { pse_assert(pse_streq(d, ref), "base64: decoded bytes"); pse_reach("decoded"); pse_observe_str("d", d); } else pse_reach("rejected");
    pse_observe("ok", ok);
}
// args: groups, position.  long valid text with one arbitrary character at a position
extern "C" void b64_decode_at() {
    size_t g = pse_arg(0), pos = pse_arg(1); std::string s(g * 4, 'Q'); unsigned char c = pse_u8("c"); s[pos] = (char)c; std::string d; bool ok = algorithm::base64_decode(s, d); int v = val64(c);
    if (v < 0 && c != '=') pse_assert(!ok, "base64: a non-base64 character is rejected wherever it stands");
    if (v >= 0) { pse_assert(ok, "base64: valid text accepted"); pse_assert(d.size() == g * 3, "base64: decoded length"); std::string e; algorithm::base64_encode(d, e); pse_assert(pse_streq(e, s), "base64: encode inverts decode"); }
    if (c == '=') pse_assert(pos % 4 >= 2 ? ok : !ok, "base64: padding only in the last two places of a group");
    pse_observe("ok", ok);
}
static int hexv(unsigned char c) { int r = -1; r = (c >= '0') & (c <= '9') ? c - '0' : r; r = (c >= 'a') & (c <= 'f') ? c - 'a' + 10 : r; r = (c >= 'A') & (c <= 'F') ? c - 'A' + 10 : r; return r; }
extern "C" void url_roundtrip() {
    size_t n = pse_arg(0); std::string s = pse_string(n, "in"); for (size_t i = 0; i < n; ++i) pse_assume(s[i] != 0);
    std::string e = algorithm::url_encode(s);
    for (size_t i = 0; i < e.size(); ++i) { unsigned char c = e[i]; bool safe = (c > 32) & (c < 127) & (c != '$') & (c != '&') & (c != '+') & (c != ',') & (c != '/') & (c != ':') & (c != ';') & (c != '=') & (c != '?') & (c != '@') & (c != '"') & (c != '<') & (c != '>') & (c != '#') & (c != '{') & (c != '}') & (c != '|') & (c != '\\') & (c != '^') & (c != '~') & (c != '[') & (c != ']') & (c != '`');
        pse_assert(safe, "url: encoded text has only safe characters and escapes");
        if (c == '%') { pse_assert(i + 2 < e.size() && (hexv(e[i + 1]) >= 0) & (hexv(e[i + 2]) >= 0), "url: every % starts a two-digit escape"); i += 2; } }
    pse_assert(pse_streq(algorithm::url_decode(e), s), "url: decode inverts encode"); pse_observe_str("e", e);
}
extern "C" void url_decode_any() {
    size_t n = pse_arg(0); std::string s = pse_string(n, "in"); std::string d = algorithm::url_decode(s), ref;
    for (size_t i = 0; i < n; ++i) { unsigned char c = s[i]; if (c == '+') ref += ' '; else if (c == '%') { bool esc = false; if (i + 2 < n) { int h = hexv((unsigned char)s[i + 1]), l = hexv((unsigned char)s[i + 2]); if ((h >= 0) & (l >= 0) & !((h == 0) & (l == 0))) { ref += (char)(h << 4 | l); i += 2; esc = true; } } if (!esc) ref += '%'; } else ref += (char)c; }
    pse_assert(pse_streq(d, ref), "url: decodes escapes and '+', keeps everything else (malformed escapes included) literally"); pse_observe_str("d", d);
}
// XML: output is well-formed UTF-8 made of XML characters, with no raw markup, and decodes back
static unsigned u8len(const std::string &s, size_t i, unsigned &cp) { // length of the well-formed sequence at i, 0 if none
    unsigned n = s.size() - i, a = (uint8_t)s[i]; if (a < 0x80) { cp = a; return 1; }
    unsigned b = n > 1 ? (uint8_t)s[i + 1] : 0, c = n > 2 ? (uint8_t)s[i + 2] : 0, d = n > 3 ? (uint8_t)s[i + 3] : 0; bool B = (b & 0xC0) == 0x80, C = (c & 0xC0) == 0x80, D = (d & 0xC0) == 0x80;
    if (a >= 0xC2 && a <= 0xDF) { cp = (a & 31) << 6 | (b & 63); return B ? 2 : 0; }
    if (a >= 0xE0 && a <= 0xEF) { cp = (a & 15) << 12 | (b & 63) << 6 | (c & 63); return B & C & (cp >= 0x800) & !((cp >= 0xD800) & (cp <= 0xDFFF)) ? 3 : 0; }
    if (a >= 0xF0 && a <= 0xF4) { cp = (a & 7) << 18 | (b & 63) << 12 | (c & 63) << 6 | (d & 63); return B & C & D & (cp >= 0x10000) & (cp <= 0x10FFFF) ? 4 : 0; }
    return 0; }
static bool xmlchar(unsigned cp) { return (cp == 9) | (cp == 10) | (cp == 13) | ((cp >= 0x20) & (cp != 0xFFFE) & (cp != 0xFFFF)); }
extern "C" void xml_any() {
    size_t n = pse_arg(0); std::string s = pse_string(n, "in"), x = algorithm::xml_encode(s);
    // expected text: valid characters kept (markup escaped), every other byte replaced
    std::string ref; for (size_t i = 0; i < n;) { unsigned cp, l = u8len(s, i, cp); if (l && xmlchar(cp)) { if (cp == '&') ref += "&amp;"; else if (cp == '<') ref += "&lt;"; else if (cp == '>') ref += "&gt;"; else if (cp == '"') ref += "&quot;"; else if (cp == '\'') ref += "&apos;"; else ref.append(s, i, l); i += l; } else { ref += "\xEF\xBF\xBD"; ++i; } }
    pse_assert(pse_streq(x, ref), "xml: well-formed characters kept, markup escaped, every other byte replaced"); pse_observe_str("x", x);
}
// args: pos.  one arbitrary 4-byte group inside valid text
extern "C" void xml_window() {
    size_t k = pse_arg(0); std::string s = "ab<\xC3\xA9>cd"; std::string w = pse_string(k, "w"); std::string t = s + w + s; std::string x = algorithm::xml_encode(t);
    for (size_t i = 0; i < x.size();) { unsigned cp = 0, l = u8len(x, i, cp); pse_assert(l != 0 && xmlchar(cp), "xml: output is well-formed UTF-8 of XML characters"); pse_assert(cp != '<' && cp != '>' && cp != '"' && cp != '\'', "xml: no raw markup in the output"); i += l ? l : 1; }
    std::string tail = algorithm::xml_encode(s); pse_assert(x.size() >= tail.size() && pse_memeq(x.data(), tail.data(), tail.size()), "xml: text before a bad sequence is kept"); pse_observe("n", x.size());
}
extern "C" void ints() {
    unsigned char b[9]; pse_symbolic(b, 8, "b"); b[8] = 0x5A; uint64_t ref = 0; for (int i = 0; i < 8; ++i) ref = ref << 8 | b[i]; char *c = (char *)b;
    pse_assert(algorithm::to_uint8(b) == b[0] && algorithm::to_uint8(c) == b[0], "int: u8"); pse_assert(algorithm::to_int8(b) == (int8_t)b[0] && algorithm::to_int8(c) == (int8_t)b[0], "int: i8");
    pse_assert(algorithm::to_uint16(b) == (uint16_t)(ref >> 48) && algorithm::to_uint16(c) == (uint16_t)(ref >> 48), "int: u16 big-endian"); pse_assert(algorithm::to_int16(b) == (int16_t)(ref >> 48) && algorithm::to_int16(c) == (int16_t)(ref >> 48), "int: i16 big-endian");
    pse_assert(algorithm::to_uint24(b) == (uint32_t)(ref >> 40) && algorithm::to_uint24(c) == (uint32_t)(ref >> 40), "int: u24 big-endian"); 
    pse_assert(algorithm::to_int24(b) == (int32_t)(ref >> 40) && algorithm::to_int24(c) == algorithm::to_int24(b), "int: i24 big-endian, not extended");
    pse_assert(algorithm::to_uint32(b) == (uint32_t)(ref >> 32) && algorithm::to_uint32(c) == (uint32_t)(ref >> 32), "int: u32 big-endian"); pse_assert(algorithm::to_int32(b) == (int32_t)(ref >> 32) && algorithm::to_int32(c) == (int32_t)(ref >> 32), "int: i32 big-endian");
    pse_assert(algorithm::to_uint64(b) == ref && algorithm::to_uint64(c) == ref, "int: u64 big-endian"); pse_assert(algorithm::to_int64(b) == (int64_t)ref && algorithm::to_int64(c) == (int64_t)ref, "int: i64 big-endian");
    pse_observe("u64", algorithm::to_uint64(b));
}
extern "C" void ints_from() {
    uint64_t v = pse_u64("v"); unsigned char b[10]; char d[10]; 
#define FROM(NAME, T, SZ, TO, MASK) { for (int i = 0; i < 10; ++i) { b[i] = 0xA5; d[i] = 0x5A; } algorithm::NAME(b, (T)v); algorithm::NAME(d, (T)v); for (int i = 0; i < SZ; ++i) { pse_assert(b[i] == (uint8_t)((uint64_t)v >> (8 * (SZ - 1 - i))), "int: " #NAME " writes big-endian"); pse_assert((uint8_t)d[i] == b[i], "int: " #NAME " same for char"); } for (int i = SZ; i < 10; ++i) pse_assert(b[i] == 0xA5 && d[i] == 0x5A, "int: " #NAME " writes only its bytes"); pse_assert((algorithm::TO(b) & MASK) == ((T)v & MASK), "int: " #NAME " round trip"); }
    FROM(from_uint8, uint8_t, 1, to_uint8, 0xFF) FROM(from_int8, int8_t, 1, to_int8, 0xFF) FROM(from_uint16, uint16_t, 2, to_uint16, 0xFFFF) FROM(from_int16, int16_t, 2, to_int16, 0xFFFF) FROM(from_uint24, uint32_t, 3, to_uint24, 0xFFFFFF) FROM(from_int24, int32_t, 3, to_int24, 0xFFFFFF)
    FROM(from_uint32, uint32_t, 4, to_uint32, 0xFFFFFFFFu) FROM(from_int32, int32_t, 4, to_int32, -1) FROM(from_uint64, uint64_t, 8, to_uint64, ~0ull) FROM(from_int64, int64_t, 8, to_int64, -1)
    pse_observe("v", v);
}
