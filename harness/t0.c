#include "xse.h"
#include "../../repo/utils.h"
void harness(void) {
  unsigned long v = xse_sym(64, "v"); unsigned char b[16], e[16]; 
  long n = xse_param("n", 8);
  ull_to_bytes(b, n, v);
  for (int i = 0; i < n; i++) { int sh = 8 * (n - 1 - i); e[i] = sh >= 64 ? 0 : v >> sh; }
  xse_check_eq(b, e, n, "be");
  if (n <= 8) { unsigned long w = bytes_to_ull(b, n); xse_check(w == (n == 8 ? v : v & ((1UL << (8*n)) - 1)), "inv"); }
  xse_reach("end");
}
