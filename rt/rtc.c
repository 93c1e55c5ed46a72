// Symbolic-side libc (IR bodies for functions that live in the shared libc).
#include <stdint.h>
#include <stddef.h>
#include <limits.h>
#define ERANGE 34
size_t strlen(const char *s) { size_t n = 0; while (s[n]) ++n; return n; }
void *memchr(const void *p, int c, size_t n) { const unsigned char *q = (const unsigned char *)p; for (size_t i = 0; i < n; ++i) if (q[i] == (unsigned char)c) return (void *)(q + i); return 0; }
void *memrchr(const void *p, int c, size_t n) { const unsigned char *q = (const unsigned char *)p; for (size_t i = n; i-- > 0;) if (q[i] == (unsigned char)c) return (void *)(q + i); return 0; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { ++a; ++b; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { for (; n; --n, ++a, ++b) { if (*a != *b) return (int)(unsigned char)*a - (int)(unsigned char)*b; if (!*a) return 0; } return 0; }
char *strchr(const char *s, int c) { for (;; ++s) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; ++s) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strstr(const char *h, const char *n) { if (!*n) return (char *)h; size_t l = strlen(n); for (; *h; ++h) if (strncmp(h, n, l) == 0) return (char *)h; return 0; }
#define R(c, lo, hi) ((unsigned)((c) - (lo)) <= (unsigned)((hi) - (lo)))
int tolower(int c) { return c + (R(c, 'A', 'Z') ? 32 : 0); }
int toupper(int c) { return c - (R(c, 'a', 'z') ? 32 : 0); }
int isdigit(int c) { return R(c, '0', '9'); }
int isalpha(int c) { return R(c | 32, 'a', 'z') & ((unsigned)c < 128); }
int isalnum(int c) { return isalpha(c) | isdigit(c); }
int isxdigit(int c) { return isdigit(c) | (R(c | 32, 'a', 'f') & ((unsigned)c < 128)); }
int isspace(int c) { return (c == ' ') | R(c, 9, 13); }
int isupper(int c) { return R(c, 'A', 'Z'); }
int islower(int c) { return R(c, 'a', 'z'); }
int iscntrl(int c) { return ((unsigned)c < 32) | (c == 127); }
int isprint(int c) { return R(c, 32, 126); }
int isgraph(int c) { return R(c, 33, 126); }
int ispunct(int c) { return isgraph(c) & !isalnum(c); }
int isblank(int c) { return (c == ' ') | (c == '\t'); }
int strcasecmp(const char *a, const char *b) { for (;; ++a, ++b) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; } }
int strncasecmp(const char *a, const char *b, size_t n) { for (; n; --n, ++a, ++b) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; } return 0; }
static int pse_errno; int *__errno_location(void) { return &pse_errno; }
static unsigned long pse_strtoul_core(const char *s, char **end, int base, int *neg, int *any, int *over) {
    const char *p = s; while (isspace((unsigned char)*p)) ++p; *neg = 0; *any = 0; *over = 0;
    if (*p == '-') { *neg = 1; ++p; } else if (*p == '+') ++p;
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
    else if (base == 0) base = p[0] == '0' ? 8 : 10;
    unsigned long v = 0;
    for (;; ++p) {
        int c = (unsigned char)*p, isd = isdigit(c), isa = isalpha(c); if (!(isd | isa)) break;
        int d = isd ? c - '0' : (c | 32) - 'a' + 10; if (d >= base) break; *any = 1;
        unsigned long n = v * (unsigned long)base + (unsigned long)d; if (v > ULONG_MAX / (unsigned long)base || n < v * (unsigned long)base) *over = 1; v = n;
    }
    if (end) *end = (char *)(*any ? p : s); return v;
}
unsigned long strtoul(const char *s, char **end, int base) { int neg, any, over; unsigned long v = pse_strtoul_core(s, end, base, &neg, &any, &over); if (over) { pse_errno = ERANGE; return ULONG_MAX; } return neg ? 0 - v : v; }
long strtol(const char *s, char **end, int base) { int neg, any, over; unsigned long v = pse_strtoul_core(s, end, base, &neg, &any, &over); if (over || v > (unsigned long)LONG_MAX + (neg ? 1 : 0)) { pse_errno = ERANGE; return neg ? LONG_MIN : LONG_MAX; } return neg ? (long)(0 - v) : (long)v; }
unsigned long long strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
long long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
long __isoc23_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strtoul(s, e, b); }
long long __isoc23_strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
int atoi(const char *s) { return (int)strtol(s, 0, 10); }
long atol(const char *s) { return strtol(s, 0, 10); }
int pthread_once(int *o, void (*f)(void)) { if (!*o) { *o = 1; f(); } return 0; }
int __pthread_key_create(unsigned *k, void (*f)(void *)) { return 0; }
// ---- condition variables (tickets: a waiter is released by a later notify, never spontaneously)
extern int pse_lock(void *); extern int pse_unlock(void *); extern void pse_wait_until(unsigned long *, unsigned long);
void (*pse_wait_hook)(void) = 0;
struct pse_cv { unsigned long next, released; };
int pse_cond_wait(void *c, void *m) { struct pse_cv *v = (struct pse_cv *)c; unsigned long my = pse_wait_hook ? 0 : ++v->next; pse_unlock(m); if (pse_wait_hook) pse_wait_hook(); else pse_wait_until(&v->released, my); pse_lock(m); return 0; }
void pse_cond_notify(void *c, int all) { struct pse_cv *v = (struct pse_cv *)c; if (all) v->released = v->next; else if (v->released < v->next) ++v->released; }
// ---- clock: set by the harness
long pse_now = 1400000000;
long time(long *t) { if (t) *t = pse_now; return pse_now; }
struct pse_tm { int sec, min, hour, mday, mon, year, wday, yday, isdst; long off; const char *zone; };
struct pse_tm *gmtime_r(const long *tp, struct pse_tm *r) {
    long t = *tp, d = t / 86400, s = t % 86400; if (s < 0) { s += 86400; --d; } r->sec = s % 60; r->min = s / 60 % 60; r->hour = s / 3600; r->wday = (int)(((d + 4) % 7 + 7) % 7);
    long z = d + 719468, era = (z >= 0 ? z : z - 146096) / 146097, doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, y = yoe + era * 400, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153; r->mday = (int)(doy - (153 * mp + 2) / 5 + 1); r->mon = (int)(mp < 10 ? mp + 2 : mp - 10); y += r->mon <= 1; r->year = (int)(y - 1900); r->yday = 0; r->isdst = 0; r->off = 0; r->zone = "GMT"; return r; }
struct pse_tm *gmtime(const long *t) { static struct pse_tm b; return gmtime_r(t, &b); }
struct pse_tm *localtime_r(const long *t, struct pse_tm *r) { return gmtime_r(t, r); }
// the conversions HTTP dates need
size_t strftime(char *b, size_t n, const char *f, const struct pse_tm *t) { static const char *D = "SunMonTueWedThuFriSat", *M = "JanFebMarAprMayJunJulAugSepOctNovDec"; char o[160]; size_t k = 0; for (; *f && k < 140; ++f) { if (*f != '%') { o[k++] = *f; continue; } ++f; int v = -1, w = 2; switch (*f) { case 'a': for (int i = 0; i < 3; ++i) o[k++] = D[t->wday * 3 + i]; break; case 'b': for (int i = 0; i < 3; ++i) o[k++] = M[t->mon * 3 + i]; break; case 'd': v = t->mday; break; case 'm': v = t->mon + 1; break; case 'H': v = t->hour; break; case 'M': v = t->min; break; case 'S': v = t->sec; break; case 'Y': v = t->year + 1900; w = 4; break; case '%': o[k++] = '%'; break; default: return 0; } if (v >= 0) { int q = w == 4 ? 1000 : 10; while (q) { o[k++] = (char)('0' + v / q % 10); q /= 10; } } } if (k + 1 > n) return 0; for (size_t i = 0; i < k; ++i) b[i] = o[i]; b[k] = 0; return k; }
struct pse_tv { long s, us; }; int gettimeofday(struct pse_tv *t, void *z) { t->s = pse_now; t->us = 0; return 0; }
unsigned ntohl(unsigned v) { return __builtin_bswap32(v); } unsigned htonl(unsigned v) { return __builtin_bswap32(v); }
unsigned short ntohs(unsigned short v) { return __builtin_bswap16(v); } unsigned short htons(unsigned short v) { return __builtin_bswap16(v); }
size_t strspn(const char *s, const char *a) { size_t n = 0; while (s[n] && strchr(a, s[n])) ++n; return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) ++n; return n; }
char *strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? (char *)s : 0; }
char *strtok_r(char *s, const char *d, char **sv) { if (!s) s = *sv; if (!s) return 0; s += strspn(s, d); if (!*s) { *sv = 0; return 0; } char *e = s + strcspn(s, d); if (*e) { *e = 0; *sv = e + 1; } else *sv = 0; return s; }
char *strtok(char *s, const char *d) { static char *sv; return strtok_r(s, d, &sv); }
char *strsep(char **p, const char *d) { char *s = *p; if (!s) return 0; char *e = s + strcspn(s, d); if (*e) { *e = 0; *p = e + 1; } else *p = 0; return s; }
extern void *malloc(size_t);
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) ++n; return n; }
char *strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *d = (char *)malloc(n + 1); for (size_t i = 0; i < n; ++i) d[i] = s[i]; d[n] = 0; return d; }
char *strdup(const char *s) { return strndup(s, strlen(s)); }
char *stpcpy(char *d, const char *s) { while ((*d = *s)) { ++d; ++s; } return d; }
char *strncat(char *d, const char *s, size_t n) { char *e = d + strlen(d); for (; n && *s; --n) *e++ = *s++; *e = 0; return d; }
void *memmem(const void *h, size_t hn, const void *p, size_t n) { const unsigned char *a = (const unsigned char *)h, *b = (const unsigned char *)p; for (size_t i = 0; i + n <= hn; ++i) { size_t k = 0; while (k < n && a[i + k] == b[k]) ++k; if (k == n) return (void *)(a + i); } return 0; }
char *strcasestr(const char *h, const char *n) { size_t l = strlen(n); for (;; ++h) { if (strncasecmp(h, n, l) == 0) return (char *)h; if (!*h) return 0; } }
int strcoll(const char *a, const char *b) { return strcmp(a, b); }
void bzero(void *p, size_t n) { for (size_t i = 0; i < n; ++i) ((char *)p)[i] = 0; }
char *strerror(int e) { (void)e; return (char *)"error"; }
// the conversions %d %i %u %x %o %s %c %n and sets; up to eight of them
int __isoc23_sscanf(const char *s, const char *f, void *a1, void *a2, void *a3, void *a4, void *a5, void *a6, void *a7, void *a8) {
    void *A[8] = {a1, a2, a3, a4, a5, a6, a7, a8}; int n = 0, k = 0; const char *b = s;
    for (; *f; ++f) {
        if (isspace((unsigned char)*f)) { while (isspace((unsigned char)*s)) ++s; continue; }
        if (*f != '%') { if (*s != *f) return !*s && !n ? -1 : n; ++s; continue; }
        ++f; if (*f == '%') { while (isspace((unsigned char)*s)) ++s; if (*s++ != '%') return n; continue; }
        int skip = 0, w = 0, sz = 4; if (*f == '*') { skip = 1; ++f; } while (isdigit((unsigned char)*f)) w = w * 10 + *f++ - '0';
        while (*f == 'l' || *f == 'h' || *f == 'z' || *f == 'j' || *f == 't') { sz = *f == 'h' ? sz / 2 : 8; ++f; }
        void *out = skip ? 0 : A[k];
        if (*f == 'n') { *(int *)out = (int)(s - b); ++k; continue; }
        if (*f != 'c' && *f != '[') while (isspace((unsigned char)*s)) ++s;
        if (!*s) return n ? n : -1;
        if (*f == 'c') { if (!w) w = 1; for (int i = 0; i < w; ++i) { if (!s[i]) return n; if (out) ((char *)out)[i] = s[i]; } s += w; }
        else if (*f == 's') { int i = 0; for (; (!w || i < w) && *s && !isspace((unsigned char)*s); ++i, ++s) if (out) ((char *)out)[i] = *s; if (out) ((char *)out)[i] = 0; }
        else if (*f == '[') { ++f; int neg = *f == '^'; if (neg) ++f; const char *set = f; if (*f == ']') ++f; while (*f != ']') ++f; int i = 0;
            for (; (!w || i < w) && *s; ++i, ++s) { int in = 0; for (const char *q = set; q < f; ++q) { if (q + 2 < f && q[1] == '-') { in |= *s >= q[0] && *s <= q[2]; q += 2; } else in |= *s == *q; } if (in == neg) break; if (out) ((char *)out)[i] = *s; }
            if (!i) return n; if (out) ((char *)out)[i] = 0; }
        else { int base = *f == 'x' || *f == 'X' ? 16 : *f == 'o' ? 8 : *f == 'i' ? 0 : 10; char t[40]; int i = 0; for (; i < 39 && (!w || i < w) && s[i]; ++i) t[i] = s[i]; t[i] = 0; char *e; unsigned long v = *f == 'd' || *f == 'i' ? (unsigned long)strtol(t, &e, base) : strtoul(t, &e, base); if (e == t) return n; s += e - t;
            if (out) { if (sz == 8) *(unsigned long *)out = v; else if (sz == 4) *(unsigned *)out = (unsigned)v; else if (sz == 2) *(unsigned short *)out = (unsigned short)v; else *(unsigned char *)out = (unsigned char)v; } }
        if (!skip) { ++n; ++k; }
    }
    return n; }
int sscanf(const char *s, const char *f, void *a1, void *a2, void *a3, void *a4, void *a5, void *a6, void *a7, void *a8) { return __isoc23_sscanf(s, f, a1, a2, a3, a4, a5, a6, a7, a8); }
#include "sys.inc"
char *strerror_r(int e, char *b, size_t n) { (void)e; if (n) b[0] = 0; return (char *)"error"; }
