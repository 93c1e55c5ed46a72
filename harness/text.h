// Character classes and text helpers shared by the HTTP harnesses.
#pragma once
#include "httpx.h"
static bool special(uint8_t c) { return (c == '(') | (c == ')') | (c == '<') | (c == '>') | (c == '@') | (c == ',') | (c == ';') | (c == ':') | (c == '\\') | (c == '"') | (c == '/') | (c == '[') | (c == ']') | (c == '?') | (c == '=') | (c == '{') | (c == '}') | (c == ' ') | (c == '\t'); }
static bool ctl(uint8_t c) { return (c < 32) | (c == 127); }
static bool tok(uint8_t c) { return (c < 128) & !ctl(c) & !special(c); }
static std::string token(size_t n, const char *name) { std::string s = pse_string(n, name); for (size_t i = 0; i < n; ++i) pse_assume(tok(s[i])); return s; }
static std::string text(size_t n, const char *name) { std::string s = pse_string(n, name); for (size_t i = 0; i < n; ++i) pse_assume(!ctl(s[i])); return s; }
static std::string swapcase(const std::string &s) { std::string r = s; for (size_t i = 0; i < r.size(); ++i) { uint8_t c = r[i]; c = ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) ? c ^ 32 : c; r[i] = (char)c; } return r; }
static uint8_t low(uint8_t c) { return (c >= 'A') & (c <= 'Z') ? c | 32 : c; }
static bool ieq(const std::string &a, const std::string &b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); ++i) r &= low(a[i]) == low(b[i]); return r; }
static const char *EOLS[] = { "\r\n", "\n" };
// all values stored under a name, as a multiset: the value must be there
static bool has_value(ihash_multimap &d, const std::string &k, const std::string &v) { std::pair<ihash_multimap::iterator, ihash_multimap::iterator> r = d.equal_range(k); for (; r.first != r.second; ++r.first) if (pse_streq(r.first->second, v)) return true; return false; }
