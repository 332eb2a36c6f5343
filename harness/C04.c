/* C04: WOTS+ key generation, signing and public key recovery equal RFC 8391 sections 3.1.1-3.1.6.
   F (thash_f) and PRF_keygen are uninterpreted functions of exactly the standard's inputs (decided by C02). */
#include "cut.h"
static unsigned n, w, lg, len1, len2, len;
static unsigned digit(const unsigned char *m, unsigned i) { unsigned bit = i * lg; return (m[bit / 8] >> (8 - lg - bit % 8)) & (w - 1); }
static void sizes(const xmss_params *P) { unsigned m; n = P->n; w = P->wots_w; lg = w == 4 ? 2 : w == 16 ? 4 : 8; len1 = 8 * n / lg; m = len1 * (w - 1); len2 = 1; while (m >= w) { m /= w; len2++; } len = len1 + len2; }
static void digits(unsigned *d, const unsigned char *m) { unsigned i, cs = 0; for (i = 0; i < len1; i++) { d[i] = digit(m, i); cs += w - 1 - d[i]; } for (i = 0; i < len2; i++) d[len1 + i] = (cs >> (lg * (len2 - 1 - i))) & (w - 1); }
static void adr(uint32_t *o, const uint32_t *a, unsigned chain, unsigned hash) { o[0] = a[0]; o[1] = a[1]; o[2] = a[2]; o[3] = a[3]; o[4] = a[4]; o[5] = chain; o[6] = hash; o[7] = 0; }
static void secret(const xmss_params *P, unsigned char *o, const unsigned char *S, const unsigned char *seed, const uint32_t *a, unsigned i) { unsigned char in[96]; uint32_t t[8]; int k; adr(t, a, i, 0); memcpy(in, seed, n); for (k = 0; k < 8; k++) { in[n + 4 * k] = t[k] >> 24; in[n + 4 * k + 1] = t[k] >> 16; in[n + 4 * k + 2] = t[k] >> 8; in[n + 4 * k + 3] = t[k]; } uf_PRFK(P, o, in, S); }
/* RFC 8391 algorithm 2 */
static void chain(const xmss_params *P, unsigned char *x, unsigned start, unsigned steps, const unsigned char *seed, const uint32_t *a, unsigned i) { unsigned k; uint32_t t[8]; for (k = 0; k < steps; k++) { adr(t, a, i, start + k); uf_F(P, x, x, seed, t); } }
static unsigned char *sym(unsigned long l, const char *nm) { unsigned char *p = malloc(l); xse_sym_bytes(p, l, nm); return p; }
static unsigned char *dup(const unsigned char *s, unsigned long l) { unsigned char *p = malloc(l); memcpy(p, s, l); return p; }
static void body(const char *n_, const char *w_) {
  xmss_params P; unsigned i, what = xse_param("what", 0), c; uint32_t a[8], a0[8]; unsigned *d;
  memset(&P, 0, sizeof P); P.func = xse_param("func", 0); P.n = xse_param(n_, 32); P.wots_w = xse_param(w_, 16); P.full_height = 10; P.d = 1; 
  xse_check(xmss_xmssmt_initialize_params(&P) == 0, "parameters accepted"); sizes(&P); d = malloc(len * sizeof *d);
  xse_check(P.wots_len == len && P.wots_len1 == len1 && P.wots_len2 == len2 && P.wots_sig_bytes == len * n, "chain counts");
  { uint32_t t[8] = {0}; unsigned char x[MAXN] = {0}, y[MAXN]; __override_thash_f(&P, y, x, x, t); } /* learns what F leaves in the address */
  for (i = 0; i < 8; i++) a0[i] = a[i] = xse_sym(32, "addr");
  unsigned char *seed = sym(n, "seed"), *seed0 = dup(seed, n), *S = sym(n, "S"), *S0 = dup(S, n), *m = sym(n, "m"), *m0 = dup(m, n), *out = malloc(len * n), *e = malloc(len * n); xse_havoc(out, len * n, "old");
  if (what == 0) { wots_pkgen(&P, out, S, seed, a); for (i = 0; i < len; i++) { secret(&P, e + i * n, S0, seed0, a0, i); chain(&P, e + i * n, 0, w - 1, seed0, a0, i); } xse_check_eq(out, e, len * n, "public key"); }
  else if (what == 1) { wots_sign(&P, out, m, S, seed, a); digits(d, m0); for (i = 0; i < len; i++) { secret(&P, e + i * n, S0, seed0, a0, i); chain(&P, e + i * n, 0, d[i], seed0, a0, i); } xse_check_eq(out, e, len * n, "signature"); }
  else if (what == 2) { unsigned char *sig = sym(len * n, "sig"), *sig0 = dup(sig, len * n); wots_pk_from_sig(&P, out, sig, m, seed, a); digits(d, m0); memcpy(e, sig0, len * n); for (i = 0; i < len; i++) chain(&P, e + i * n, d[i], w - 1 - d[i], seed0, a0, i); xse_check_eq(out, e, len * n, "recovered public key"); xse_check_eq(sig, sig0, len * n, "input unchanged"); }
  xse_check_eq(m, m0, n, "input unchanged"); xse_check_eq(S, S0, n, "input unchanged"); xse_check_eq(seed, seed0, n, "input unchanged");
  for (i = 0; i < 5; i++) xse_check(a[i] == a0[i], "address identity words unchanged"); xse_reach("end");
}
void harness(void) { if (xse_param("twice", 0)) body("n2", "w2"); body("n", "w"); }
