/* C07/C09: xmss(mt)_core_sign_open against RFC 8391 algorithms 13, 14, 16, 18 and 19. */
#include "rfc.h"
#include "xmss_core.h"
static void mhash(const xmss_params *P, unsigned char *root, const unsigned char *sm, uint64_t idx, const unsigned char *pk, unsigned long mlen) { uf_HMSG(P, root, sm + P->index_bytes, pk, idx, sm + P->sig_bytes, mlen); }
static void body(void) {
  xmss_params P; unsigned n, i; unsigned long mlen0 = xse_param("mlen", 33), smlen, j; int fam = xse_param("mt", 0), r; unsigned long long mlen = 0xDEADBEEFCAFEF00DULL; uint64_t idx = 0, t; int ok;
  mkparams(&P); n = P.n; smlen = P.sig_bytes + mlen0;
  unsigned char *sm = sym(smlen, "sm"), *sm0 = dup(sm, smlen), *pk = sym(2 * n, "pk"), *pk0 = dup(pk, 2 * n), *m = old(smlen, "old"), *m0 = dup(m, smlen), root[MAXN], leaf[MAXN], *wpk = malloc(P.wots_sig_bytes);
  r = fam ? xmssmt_core_sign_open(&P, m, &mlen, sm, smlen, pk) : xmss_core_sign_open(&P, m, &mlen, sm, smlen, pk);
  for (i = 0; i < P.index_bytes; i++) idx = idx << 8 | sm0[i];
  mhash(&P, root, sm0, idx, pk0, mlen0); const unsigned char *s = sm0 + P.index_bytes + n; t = idx;
  for (i = 0; i < P.d; i++) { uint32_t a[8], l = t & ((1ULL << P.tree_height) - 1); t >>= P.tree_height;
    rfc_adr(a, i, t, 0, l, 0, 0); uf_PKSIG(&P, wpk, s, root, pk0 + n, a); s += P.wots_sig_bytes;
    a[3] = 1; rfc_ltree(&P, leaf, wpk, pk0 + n, a); rfc_path(&P, root, leaf, l, s, pk0 + n, i, t); s += P.tree_height * n; }
  ok = memcmp(root, pk0, n) == 0;
  xse_check(r == 0 ? ok : 1, "accepts only if the recomputed root is the public root");
  if (P.full_height >= 64 || idx < (1ULL << P.full_height)) xse_check(ok ? r == 0 : 1, "accepts whenever the recomputed root is the public root");
  xse_check_eq(sm, sm0, smlen, "input unchanged"); xse_check_eq(pk, pk0, 2 * n, "input unchanged");
  xse_check(mlen == (r == 0 ? mlen0 : 0), "message length");
  { unsigned char *e = malloc(mlen0 + 1); for (j = 0; j < mlen0; j++) e[j] = r == 0 ? sm0[P.sig_bytes + j] : m[j]; xse_check_eq(m, e, mlen0, "message returned"); }
  if (r == 0) xse_reach("accepted"); else xse_reach("rejected");
}
void harness(void) { if (xse_param("twice", 0)) body(); body(); }
/* the real hash_message prepends its input to the message; the marker shows where */
void harness_c09(void) {
  xmss_params P; unsigned n; unsigned long mlen0 = xse_param("mlen", 33), smlen, j, pre; int fam = xse_param("mt", 0), r; unsigned long long mlen = 0xDEADBEEFCAFEF00DULL;
  mkparams(&P); n = P.n; pre = P.padding_len + 3 * n; smlen = P.sig_bytes + mlen0;
  unsigned char *sm = sym(smlen, "sm"), *pk = sym(2 * n, "pk"), *m = malloc(smlen); memset(m, 0x5A, smlen);
  r = fam ? xmssmt_core_sign_open(&P, m, &mlen, sm, smlen, pk) : xmss_core_sign_open(&P, m, &mlen, sm, smlen, pk);
  { unsigned char *e = malloc(smlen); for (j = 0; j < smlen; j++) e[j] = r == 0 ? m[j] : (unsigned char)(m[j] & 0x5A); xse_check_eq(m, e, smlen, "no message byte left"); }
  xse_check(r != 0 ? mlen == 0 : 1, "message length zero"); xse_check_eq(sm, sm, 1, "signature readable");
  if (r == 0) xse_reach("accepted"); else xse_reach("rejected");
}
