/* C25: ull_to_bytes / bytes_to_ull are exact big-endian conversions. */
#include "xse.h"
#include "utils.h"
void harness(void) {
  unsigned long n = xse_param("n", 8), i; unsigned char e[80];
  unsigned long v = xse_sym(64, "v");
  unsigned char *b = malloc(n); xse_sym_bytes(b, n, "old");
  ull_to_bytes(b, n, v);
  for (i = 0; i < n; i++) { unsigned long sh = 8 * (n - 1 - i); e[i] = sh >= 64 ? 0 : (unsigned char)(v >> sh); }
  xse_check_eq(b, e, n, "big-endian value modulo 256^len");
  if (n <= 8) {
    unsigned char *c = malloc(n), c0[8]; unsigned long w, x = 0;
    xse_check(bytes_to_ull(b, n) == (n == 8 ? v : (v & ((1UL << (8 * n)) - 1))), "bytes_to_ull inverts ull_to_bytes");
    xse_sym_bytes(c, n, "c"); for (i = 0; i < n; i++) c0[i] = c[i];
    w = bytes_to_ull(c, n); for (i = 0; i < n; i++) x = (x << 8) | c0[i];
    xse_check(w == x, "bytes_to_ull value");
    ull_to_bytes(b, n, w); xse_check_eq(b, c0, n, "ull_to_bytes inverts bytes_to_ull"); xse_check_eq(c, c0, n, "input unchanged");
  }
  free(b); xse_reach("end");
}
