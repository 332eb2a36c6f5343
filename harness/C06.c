/* C06: gen_leaf_wots = ltree(WOTS_genPK(...)), RFC 8391 algorithm 8. */
#include "rfc.h"
static void body(void) {
  xmss_params P; unsigned n, i; uint32_t ots[8], lt[8], ots0[8], lt0[8]; mkparams(&P); n = P.n;
  unsigned char *S = sym(n, "S"), *seed = sym(n, "seed"), *S0 = dup(S, n), *seed0 = dup(seed, n), *leaf = old(n, "old"), *pk = malloc(P.wots_sig_bytes), e[MAXN];
  for (i = 0; i < 8; i++) { ots0[i] = ots[i] = xse_sym(32, "ots"); lt0[i] = lt[i] = xse_sym(32, "lt"); } ots[3] = ots0[3] = 0; lt[3] = lt0[3] = 1; ots[7] = lt[7] = 0;
  gen_leaf_wots(&P, leaf, S, seed, lt, ots);
  uf_WOTSPK(&P, pk, S0, seed0, ots0); rfc_ltree(&P, e, pk, seed0, lt0);
  xse_check_eq(leaf, e, n, "leaf"); xse_check_eq(S, S0, n, "input unchanged"); xse_check_eq(seed, seed0, n, "input unchanged");
  for (i = 0; i < 5; i++) xse_check(ots[i] == ots0[i] && lt[i] == lt0[i], "address identity words unchanged");
  xse_reach("end");
}
void harness(void) { if (xse_param("twice", 0)) body(); body(); }
