/* Models of C library functions that the engine does not treat natively. Linked behind every job, and only
   the functions the job's code really calls are taken from here. */
#include "xse.h"
#include <stdint.h>
int strcmp(const char *a, const char *b) {
  size_t i;
  for (i = 0;; i++) { unsigned char x = a[i], y = b[i]; if (x != y) return x < y ? -1 : 1; if (!x) return 0; }
}
int strncmp(const char *a, const char *b, size_t n) {
  size_t i;
  for (i = 0; i < n; i++) { unsigned char x = a[i], y = b[i]; if (x != y) return x < y ? -1 : 1; if (!x) return 0; }
  return 0;
}
char *strcpy(char *d, const char *s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
void *memchr(const void *s, int c, size_t n) { const unsigned char *p = s; for (; n; n--, p++) if (*p == (unsigned char)c) return (void *)p; return 0; }
void *mempcpy(void *d, const void *s, size_t n) { memcpy(d, s, n); return (char *)d + n; }
void bcopy(const void *s, void *d, size_t n) { memmove(d, s, n); }
uint32_t htonl(uint32_t x) { return __builtin_bswap32(x); }
uint32_t ntohl(uint32_t x) { return __builtin_bswap32(x); }
uint16_t htons(uint16_t x) { return __builtin_bswap16(x); }
uint16_t ntohs(uint16_t x) { return __builtin_bswap16(x); }
