/* C16/C17: key pairs and signatures through the API, with every buffer exactly as large as documented. */
#include "sign.h"
#include "xmss.h"
static unsigned char rnd[3 * MAXN]; static unsigned long long got; static int over;
void randombytes(unsigned char *x, unsigned long long l) { unsigned long long i; for (i = 0; i < l; i++) { if (got + i >= sizeof rnd) { over = 1; x[i] = 0; } else x[i] = rnd[got + i]; } got += l; }
static xmss_params P; static int mt; static uint32_t oid; static unsigned char *pk, *sk;
static void keys(void) {
  mt = xse_param("mt", 0); oid = xse_param("oid", 1); xse_sym_bytes(rnd, sizeof rnd, "rnd"); memset(&P, 0, sizeof P); xse_check((mt ? xmssmt_parse_oid : xmss_parse_oid)(&P, oid) == 0, "known OID");
  pk = malloc(4 + P.pk_bytes); sk = malloc(4 + P.sk_bytes); xse_check((mt ? xmssmt_keypair : xmss_keypair)(pk, sk, oid) == 0, "key generation succeeds"); }
void harness(void) { /* C16 */
  unsigned long mlen = xse_param("mlen", 1), k, steps = xse_param("steps", 1); unsigned long long smlen; unsigned char *m = sym(mlen, "m"); uint64_t from = xse_param("from", 0);
  keys(); xse_check_init(pk, 4 + P.pk_bytes, "public key written completely"); xse_check_init(sk, 4 + P.sk_bytes, "secret key written completely");
  if (from) put_be(sk + 4, P.index_bytes, from);
  for (k = 0; k < steps; k++) { unsigned char *sm = malloc(P.sig_bytes + mlen); smlen = 1; xse_check((mt ? xmssmt_sign : xmss_sign)(sk, sm, &smlen, m, mlen) == 0, "signing succeeds"); xse_check(smlen == P.sig_bytes + mlen, "signed message length"); xse_check_init(sm, P.sig_bytes + mlen, "signed message written completely"); xse_check_init(sk, 4 + P.sk_bytes, "secret key written completely"); free(sm); }
  xse_reach("end"); }
void harness_c17(void) {
  unsigned n, i; keys(); n = P.n; rfc_key K; unsigned char *T, *s = sk + 4 + P.index_bytes;
  xse_check(got == 3 * n && !over, "exactly 3n random bytes");
  for (i = 0; i < 4; i++) xse_check(pk[i] == (unsigned char)(oid >> (24 - 8 * i)) && sk[i] == pk[i], "OID in both keys");
  for (i = 0; i < P.index_bytes; i++) xse_check(sk[4 + i] == 0, "index zero");
  xse_check_eq(s, rnd, n, "secret seed"); xse_check_eq(s + n, rnd + n, n, "PRF key"); xse_check_eq(s + 3 * n, rnd + 2 * n, n, "public seed");
  T = rfc_tree(&P, P.d - 1, 0, rnd, rnd + 2 * n); xse_check_eq(s + 2 * n, tree_root(&P, T), n, "root of the top tree in the secret key"); xse_check_eq(pk + 4, tree_root(&P, T), n, "root of the top tree in the public key"); xse_check_eq(pk + 4 + n, rnd + 2 * n, n, "public seed in the public key");
  xse_check(P.pk_bytes == 2 * n, "public key size");
#ifdef SEEDED
  { unsigned char *p2 = malloc(P.pk_bytes), *s2 = malloc(P.sk_bytes), *sd = dup(rnd, 3 * n); xse_check(xmssmt_core_seed_keypair(&P, p2, s2, sd) == 0, "seeded key generation succeeds"); xse_check_eq(p2, pk + 4, P.pk_bytes, "seeded key pair is the same"); xse_check_eq(s2, sk + 4, P.sk_bytes, "seeded key pair is the same"); xse_check_eq(sd, rnd, 3 * n, "seed unchanged"); xse_check(got == 3 * n, "no further randomness"); }
#endif
  xse_reach("end"); }
#ifdef LEN
/* signing a message of any length */
int __override_hash_message(const xmss_params *p, unsigned char *out, const unsigned char *R, const unsigned char *root, unsigned long long idx, unsigned char *mp, unsigned long long mlen) {
  unsigned long pre = p->padding_len + 3 * p->n; (void)idx; xse_range(R, p->n, 0); xse_range(root, p->n, 0); xse_range(mp, pre, 1); xse_range(mp + pre, mlen, 0); if (!probing) xse_havoc(mp, pre, "hmsg_prefix"); xse_havoc(out, p->n, "mhash"); return 0; }
#ifdef WIDE
void *xs_memcpy(void *d, const void *s, size_t n) { if (xse_is_symbolic(n)) { xse_range(s, n, 0); xse_range(d, n, 1); return d; } return memcpy(d, s, n); }
void *xs_memmove(void *d, const void *s, size_t n) { if (xse_is_symbolic(n)) { xse_range(s, n, 0); xse_range(d, n, 1); return d; } return memmove(d, s, n); }
#endif
void harness_len(void) {
  unsigned long cap = xse_param("cap", 0), mlen = xse_sym(64, "mlen"), max = xse_param("max", 0); unsigned long long smlen = 1; unsigned char *k2; int r;
  mt = xse_param("mt", 0); xse_sym_bytes(rnd, sizeof rnd, "rnd"); mkparams(&P); pk = malloc(P.pk_bytes); sk = malloc(P.sk_bytes); xse_check((mt ? xmssmt_core_keypair : xmss_core_keypair)(&P, pk, sk) == 0, "key generation succeeds");
  if (!max) max = cap; xse_assume(mlen <= max);
  unsigned char *sm = xse_malloc_sym(P.sig_bytes + cap, P.sig_bytes + mlen, "signed message"), *m = xse_malloc_sym(cap, mlen, "message");
  r = SIGNF(&P, mt)(&P, sk, sm, &smlen, m, mlen); xse_check(r == 0, "signing succeeds"); xse_check(smlen == P.sig_bytes + mlen, "signed message length");
  if (cap) { unsigned long i; unsigned char *e = malloc(cap), *g = malloc(cap); for (i = 0; i < cap; i++) { e[i] = i < mlen ? m[i] : 0; g[i] = i < mlen ? sm[P.sig_bytes + i] : 0; } xse_check_eq(g, e, cap, "message copied"); }
  xse_reach("end"); }
#endif
