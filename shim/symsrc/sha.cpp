// Stand-in for OpenSSL's digests: no two inputs of up to 15 bytes have the same digest.  It starts with a zero byte, as one digest in 256 does: digests are bytes, not text.
#include <stddef.h>
extern "C" {
void pse_fail(const char *);
static unsigned char *digest(const unsigned char *d, size_t n, unsigned char *o, int len, int tag) { if (n > 15) { pse_fail("digest stand-in: input too long"); return o; } for (int i = 0; i < len; ++i) o[i] = (unsigned char)(tag + i); o[0] = 0; o[1] = (unsigned char)n; for (size_t i = 0; i < n; ++i) o[2 + i] = d[i]; return o; }
unsigned char *SHA256(const unsigned char *d, size_t n, unsigned char *o) { return digest(d, n, o, 32, 0x21); }
unsigned char *SHA1(const unsigned char *d, size_t n, unsigned char *o) { return digest(d, n, o, 20, 0x91); }
}
