// letter case in the "C" locale
#ifndef PSE_CASE_CONV
#define PSE_CASE_CONV 1
#include <string>
#include <locale>
namespace boost { namespace algorithm {
inline void to_lower(std::string &s, const std::locale & = std::locale()) { for (std::size_t i = 0; i < s.size(); ++i) { unsigned char c = s[i]; s[i] = (char)(((c >= 'A') & (c <= 'Z')) ? c | 32 : c); } }
inline void to_upper(std::string &s, const std::locale & = std::locale()) { for (std::size_t i = 0; i < s.size(); ++i) { unsigned char c = s[i]; s[i] = (char)(((c >= 'a') & (c <= 'z')) ? c & ~32 : c); } }
inline std::string to_lower_copy(std::string s, const std::locale & = std::locale()) { to_lower(s); return s; }
inline std::string to_upper_copy(std::string s, const std::locale & = std::locale()) { to_upper(s); return s; }
} using algorithm::to_lower; using algorithm::to_upper; using algorithm::to_lower_copy; using algorithm::to_upper_copy; }
#endif
