/* C08: verification of a byte string of any length is memory-safe, and anything shorter than a signature is rejected. */
#include "rfc.h"
#include "xmss_core.h"
int __override_hash_message(const xmss_params *p, unsigned char *out, const unsigned char *R, const unsigned char *root, unsigned long long idx, unsigned char *mp, unsigned long long mlen) {
  unsigned long pre = p->padding_len + 3 * p->n; unsigned char t; (void)idx;
  xse_range(R, p->n, 0); xse_range(root, p->n, 0); xse_range(mp, pre, 1); xse_range(mp + pre, mlen, 0); t = R[p->n - 1] ^ root[p->n - 1]; (void)t; xse_havoc(out, p->n, "mhash"); return 0; }
#ifdef WIDE
/* lengths far beyond what can be stored: only the range is checked, contents are of no interest here */
void *xs_memcpy(void *d, const void *s, size_t n) { if (xse_is_symbolic(n)) { xse_range(s, n, 0); xse_range(d, n, 1); return d; } return memcpy(d, s, n); }
void *xs_memset(void *d, int c, size_t n) { if (xse_is_symbolic(n)) { xse_range(d, n, 1); return d; } return memset(d, c, n); }
#endif
void harness(void) {
  xmss_params P; unsigned n; int fam = xse_param("mt", 0), r; unsigned long long mlen = 0xDEADBEEFCAFEF00DULL; unsigned long cap = xse_param("cap", 0), smlen = xse_sym(64, "smlen"), max = xse_param("max", 0);
  mkparams(&P); n = P.n; cap += P.sig_bytes; if (!max) max = cap; xse_assume(smlen <= max);
  unsigned char *sm = xse_malloc_sym(cap, smlen, "signed message"), *m = xse_malloc_sym(cap, smlen, "message buffer"), *pk = sym(2 * n, "pk");
  r = fam ? xmssmt_core_sign_open(&P, m, &mlen, sm, smlen, pk) : xmss_core_sign_open(&P, m, &mlen, sm, smlen, pk);
  xse_check(smlen < P.sig_bytes ? r != 0 : 1, "anything shorter than a signature is rejected"); xse_check(r != 0 ? mlen == 0 : mlen == smlen - P.sig_bytes, "message length");
  if (r == 0) xse_reach("accepted"); else if (smlen < P.sig_bytes) xse_reach("short"); else xse_reach("rejected");
}
