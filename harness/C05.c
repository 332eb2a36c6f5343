/* C05: how far wots_sign reveals each chain, for two arbitrary messages. F is cut and its calls are counted per chain. */
#include "rfc.h"
static unsigned char cnt[2][300]; static int which; static struct left left_F;
int __override_thash_f(const xmss_params *p, unsigned char *out, const unsigned char *in, const unsigned char *seed, uint32_t a[8]) {
  if (!left_F.known) { uint32_t t[8]; unsigned char x[MAXN] = {0}, y[MAXN]; probe_set(t); thash_f(p, y, x, x, t); probe_get(&left_F, t); }
  cnt[which][a[5]]++; xse_check(a[5] < p->wots_len, "chain in range"); memset(out, 0, p->n); leave(&left_F, a); return 0; }
void harness(void) {
  xmss_params P; unsigned n, i, j, per, len1, len2, lg; mkparams(&P); n = P.n; lg = P.wots_w == 4 ? 2 : P.wots_w == 16 ? 4 : 8; per = 8 / lg; len1 = P.wots_len1; len2 = P.wots_len2;
  xse_check(len1 == n * per && P.wots_len == len1 + len2, "one chain per message digit, the rest checksum");
  unsigned char *m[2], *sig = malloc(P.wots_sig_bytes), *seed = zeros(n); unsigned char d[2][300]; int differ = 0, k;
  { uint32_t a[8] = {0}; unsigned char x[MAXN] = {0}, y[MAXN]; __override_thash_f(&P, y, x, seed, a); cnt[0][0] = 0; } /* learns what F leaves in the address */
  for (k = 0; k < 2; k++) { uint32_t a[8] = {0}; m[k] = sym(n, k ? "m2" : "m1"); which = k; wots_sign(&P, sig, m[k], seed, seed, a); }
  for (k = 0; k < 2; k++) { unsigned s = 0, V = 0;
    for (i = 0; i < len1; i++) { d[k][i] = (m[k][i / per] >> (8 - lg - lg * (i % per))) & (P.wots_w - 1); xse_check_eq(&cnt[k][i], &d[k][i], 1, "message digit"); s += P.wots_w - 1 - d[k][i]; }
    for (j = 0; j < len2; j++) { d[k][len1 + j] = (s >> (lg * (len2 - 1 - j))) & (P.wots_w - 1); xse_check_eq(&cnt[k][len1 + j], &d[k][len1 + j], 1, "checksum digit"); } }
  xse_check(len1 * (P.wots_w - 1) < 1u << (lg * len2), "checksum fits its digits");
  xse_reach("digits");
  /* Suppose the first signature is nowhere further than the second. By induction over the message digits the first
     checksum is at least the second, and strictly above it once a digit differs (the induction step is decided for all
     digit values and all partial sums); different messages differ in a digit; so some checksum digit is further. */
  { unsigned s0 = xse_sym(20, "s0"), s1 = xse_sym(20, "s1"), x = xse_sym(8, "x"), y = xse_sym(8, "y"), dif = xse_sym(1, "dif"), t0, t1, dif2;
    xse_assume(s0 < 1u << 19 && s1 < 1u << 19 && x < P.wots_w && y < P.wots_w && x <= y && s0 >= s1 && (!dif || s0 > s1));
    t0 = s0 + P.wots_w - 1 - x; t1 = s1 + P.wots_w - 1 - y; dif2 = dif | (x != y); xse_check(t0 >= t1 && (!dif2 || t0 > t1), "checksum falls as digits grow"); xse_reach("step"); }
  for (i = 0; i < len1; i++) differ |= d[0][i] != d[1][i];
  xse_check(differ || memcmp(m[0], m[1], n) == 0, "different messages differ in a digit");
  { unsigned a = xse_sym(20, "a"), b = xse_sym(20, "b"); int all = 1; xse_assume(b < a && a <= len1 * (P.wots_w - 1)); for (j = 0; j < len2; j++) all &= ((a >> (lg * (len2 - 1 - j))) & (P.wots_w - 1)) <= ((b >> (lg * (len2 - 1 - j))) & (P.wots_w - 1)); xse_check(!all, "a larger checksum has a larger digit"); xse_reach("end"); }
}
