/* C12, C13, C23: the index in the secret key over one or more signing calls, for every value of the index field. */
#include "xse.h"
#include "params.h"
static void on_prf(const xmss_params *p, const unsigned char *in), on_hmsg(const xmss_params *p, uint64_t idx), on_ws(const xmss_params *p, const uint32_t *a), on_leaf(void);
#define ON_PRF(p, in, key) on_prf(p, in)
#define ON_HMSG(p, R, root, idx, m, mlen) on_hmsg(p, idx)
#define ON_WOTSSIG(p, sig, msg, sk_seed, seed, a) on_ws(p, a)
#define ON_LEAF(p, lt, a) on_leaf()
#include "sign.h"
static int armed, c23; static unsigned char *gsk; static uint64_t gidx; static unsigned nprf, nhmsg, nws;
/* random bytes of the key pair */
void randombytes(unsigned char *x, unsigned long long l) { xse_sym_bytes(x, l, "rnd"); }
static void advanced(const xmss_params *p) { if (armed && c23) xse_check(get_be(gsk, p->index_bytes) == gidx + 1, "index already advanced"); }
static void on_prf(const xmss_params *p, const unsigned char *in) { if (!armed) return; advanced(p); nprf++; if (c23) return; xse_check(get_be(in + 24, 8) == gidx, "randomizer of this index"); }
static void on_hmsg(const xmss_params *p, uint64_t idx) { if (!armed) return; advanced(p); nhmsg++; if (!c23) xse_check(idx == gidx, "message hash of this index"); }
static void on_ws(const xmss_params *p, const uint32_t *a) { if (!armed) return; advanced(p); if (c23 || a[0] != 0) return; nws++; xse_check(((uint64_t)a[1] << 32 | a[2]) == gidx >> p->tree_height && a[3] == 0 && a[4] == (gidx & ((1ULL << p->tree_height) - 1)), "only this index's one-time key"); }
static void on_leaf(void) { }
static xmss_params P; static unsigned n, ib; static unsigned char *sk, *k0, *pk; static int mt;
static void mkkey(void) { mt = xse_param("mt", 0); mkparams(&P); n = P.n; ib = P.index_bytes; sk = malloc(P.sk_bytes); pk = malloc(P.pk_bytes); 
  xse_check((mt ? xmssmt_core_keypair : xmss_core_keypair)(&P, pk, sk) == 0, "key generation succeeds"); xse_havoc(sk + ib, 4 * n, "seeds"); gsk = sk; }
static int sign(unsigned char *sm, unsigned long long *smlen, unsigned char *m, unsigned long mlen) { int r; gidx = get_be(sk, ib); armed = 1; r = SIGNF(&P, mt)(&P, sk, sm, smlen, m, mlen); armed = 0; return r; }
static int erased(void) { unsigned long i; for (i = 0; i < P.sk_bytes - ib; i++) if (sk[ib + i]) return 0; return 1; }
void harness(void) { /* C12 */
  unsigned long mlen = xse_param("mlen", 3), i; unsigned long long smlen = 1; uint64_t idx; unsigned char *m, *sm, *sm0, *e; rfc_key K; int r; uint32_t a[8]; unsigned char mh[MAXN], *ws;
  mkkey(); idx = xse_sym(8 * ib, "idx"); put_be(sk, ib, idx); k0 = dup(sk, ib + 4 * n); m = sym(mlen, "m"); sm = old(P.sig_bytes + mlen, "old"); sm0 = dup(sm, P.sig_bytes + mlen); e = dup(sm, P.sig_bytes + mlen); ws = malloc(P.wots_sig_bytes);
  K.idx = idx; K.sk_seed = k0 + ib; K.sk_prf = K.sk_seed + n; K.root = K.sk_prf + n; K.pub_seed = K.root + n;
  r = sign(sm, &smlen, m, mlen);
  xse_check((r == 0) == (idx <= last_idx(&P)), "succeeds exactly for usable indices");
  rfc_head(&P, e, idx, K.sk_prf); uf_HMSG(&P, mh, e + ib, K.root, idx, m, mlen); rfc_adr(a, 0, idx >> P.tree_height, 0, idx & ((1ULL << P.tree_height) - 1), 0, 0); uf_WOTSSIG(&P, ws, mh, K.sk_seed, K.pub_seed, a);
  if (r == 0) {
    xse_check_eq(sm, e, ib + n, "index and randomizer in the signature"); xse_check_eq(sm + ib + n, ws, P.wots_sig_bytes, "one-time signature with this index"); xse_check(nprf == 1 && nhmsg == 1 && nws == 1, "exactly one use of the one-time key");
    if (idx < (1ULL << P.full_height) - 1) { xse_check(get_be(sk, ib) == idx + 1, "index advanced by one"); xse_check_eq(sk + ib, k0 + ib, 4 * n, "seeds and root unchanged"); xse_reach("signed"); }
    else { xse_check(get_be(sk, ib) > idx, "index not lowered"); xse_reach("last"); } }
  else { xse_check_eq(sm, sm0, P.sig_bytes, "no signature"); xse_check(get_be(sk, ib) >= idx, "index not lowered"); xse_check(nprf == 0 && nhmsg == 0 && nws == 0, "one-time key not used"); xse_reach("refused"); }
}
void harness_c13(void) { /* the last index, anything beyond, and every later call */
  unsigned long mlen = xse_param("mlen", 3); unsigned long long smlen = 1; unsigned char *m, *sm, *sm0; int r, k; uint64_t idx;
  mkkey(); idx = xse_sym(8 * ib, "idx"); xse_assume(idx >= (1ULL << P.full_height) - 1); put_be(sk, ib, idx); m = sym(mlen, "m"); sm = old(P.sig_bytes + mlen, "old"); sm0 = dup(sm, P.sig_bytes + mlen);
  r = sign(sm, &smlen, m, mlen);
  if (last_idx(&P) == (1ULL << P.full_height) - 1) xse_check((r == 0) == (idx == last_idx(&P)), "the last one-time key still signs, and nothing beyond");
  else xse_check(r != 0, "withheld: no index value left to mark exhaustion");
  if (r) { xse_check_eq(sm, sm0, P.sig_bytes, "no signature"); xse_reach("refused"); } else xse_reach("last");
  xse_check(get_be(sk, ib) >= (1ULL << P.full_height) - (P.full_height == 8 * ib) && get_be(sk, ib) > last_idx(&P), "key marked as exhausted"); xse_check(erased(), "secret erased");
  for (k = 0; k < 2; k++) { unsigned long long l2 = 1; unsigned char *s2 = old(P.sig_bytes + mlen, "old"), *s0 = dup(s2, P.sig_bytes + mlen); r = sign(s2, &l2, m, mlen); xse_check(r != 0, "exhausted key refuses"); xse_check_eq(s2, s0, P.sig_bytes, "no signature"); xse_check(erased() && get_be(sk, ib) > last_idx(&P), "stays erased"); }
  xse_reach("end");
}
void harness_c23(void) {
  unsigned long mlen = xse_param("mlen", 3); unsigned long long smlen = 1; unsigned char *m, *sm; int r;
  mkkey(); put_be(sk, ib, xse_sym(8 * ib, "idx")); m = sym(mlen, "m"); sm = old(P.sig_bytes + mlen, "old"); c23 = 1; r = sign(sm, &smlen, m, mlen);
  if (r == 0) { xse_check(nprf > 0 && nhmsg > 0, "used"); xse_reach("signed"); } }
