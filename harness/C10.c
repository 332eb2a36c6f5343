/* C10: the reference signer outputs exactly the RFC 8391 signature for the key's current index. */
#include "sign.h"
void harness(void) {
  xmss_params P; unsigned n; unsigned long mlen = xse_param("mlen", 33); int mt = xse_param("mt", 0), r; unsigned long long smlen = 1; rfc_key K; uint64_t idx;
  mkparams(&P); n = P.n; xse_check(P.sk_bytes == P.index_bytes + 4 * n, "reference key size");
  unsigned char *sk = malloc(P.sk_bytes), *k0, *m = sym(mlen, "m"), *m0 = dup(m, mlen), *sm = old(P.sig_bytes + mlen, "old"), *e = malloc(P.sig_bytes + mlen);
  if (flat() == 2) idx = (uint64_t)xse_param("idx", 0); else { idx = xse_sym(P.full_height, "idx"); xse_assume(idx <= last_idx(&P)); } put_be(sk, P.index_bytes, idx); xse_sym_bytes(sk + P.index_bytes, 4 * n, "sk"); k0 = dup(sk, P.sk_bytes);
  K.idx = idx; K.sk_seed = k0 + P.index_bytes; K.sk_prf = K.sk_seed + n; K.root = K.sk_prf + n; K.pub_seed = K.root + n;
  r = SIGNF(P, mt)(&P, sk, sm, &smlen, m, mlen);
  xse_check(r == 0, "signing succeeds"); xse_check(smlen == P.sig_bytes + mlen, "smlen");
  rfc_sign(&P, e, &K, m0, mlen); { unsigned o = P.index_bytes + n, i; xse_check_eq(sm, e, o, "index and R"); for (i = 0; i < P.d; i++) { xse_check_eq(sm + o, e + o, P.wots_sig_bytes, "WOTS+ signature"); o += P.wots_sig_bytes; xse_check_eq(sm + o, e + o, P.tree_height * n, "authentication path"); o += P.tree_height * n; } xse_check_eq(sm + o, e + o, mlen, "message"); xse_check(o == P.sig_bytes, "layout"); }
  xse_check_eq(m, m0, mlen, "input unchanged"); xse_reach("signed");
}
