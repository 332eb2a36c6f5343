/* C11: key generation, signing and verification of the real code, end to end. WOTS+ is ideal: recovering a public key
   from a signature the signer made, with the same message, address and public seed, gives the public key of that
   address (C04 decides that the real WOTS+ does exactly this); anything else gives an unrelated value. */
#define ON_WOTSSIG(p, sig, msg, sk_seed, seed, a) record(p, msg, sk_seed, seed, a)
#include "xse.h"
#include "params.h"
static void record(const xmss_params *p, const unsigned char *msg, const unsigned char *sk_seed, const unsigned char *seed, const uint32_t *a);
#include "sign.h"
#define KEEP 4
static struct rec { int used; uint32_t a[8]; unsigned char msg[MAXN], sk_seed[MAXN], seed[MAXN]; } recs[16][KEEP]; static unsigned nrec[16];
static void record(const xmss_params *p, const unsigned char *msg, const unsigned char *sk_seed, const unsigned char *seed, const uint32_t *a) {
  unsigned i; struct rec *r; uint32_t l = a[0]; xse_check(l < p->d, "layer in range"); r = &recs[l][nrec[l]++ % KEEP]; r->used = 1; for (i = 0; i < 8; i++) r->a[i] = a[i]; memcpy(r->msg, msg, p->n); memcpy(r->sk_seed, sk_seed, p->n); memcpy(r->seed, seed, p->n); }
static struct left left_PS; static unsigned long recovered;
void __override_wots_pk_from_sig(const xmss_params *p, unsigned char *pk, const unsigned char *sig, const unsigned char *msg, const unsigned char *seed, uint32_t a[8]) {
  unsigned i, k; uint32_t l = a[0]; unsigned char *s = malloc(p->wots_sig_bytes); int done = 0;
  if (!left_PS.known) { uint32_t t[8]; unsigned char x[MAXN] = {0}, *y = calloc(p->wots_sig_bytes, 1); probe_set(t); wots_pk_from_sig(p, y, y, x, x, t); probe_get(&left_PS, t); free(y); }
  xse_check(l < p->d, "layer in range");
  for (i = 0; i < KEEP && !done; i++) { struct rec *r = &recs[l][i]; if (!r->used) continue; for (k = 0; k < 5; k++) if (r->a[k] != a[k]) break; if (k < 5) continue;
    if (memcmp(r->msg, msg, p->n) || memcmp(r->seed, seed, p->n)) continue;
    uf_WOTSSIG(p, s, r->msg, r->sk_seed, r->seed, r->a); if (memcmp(s, sig, p->wots_sig_bytes)) continue;
    uf_WOTSPK(p, pk, r->sk_seed, r->seed, r->a); done = 1; recovered++; }
  if (!done) uf_PKSIG(p, pk, sig, msg, seed, a);
  free(s); leave(&left_PS, a); }
void randombytes(unsigned char *x, unsigned long long l) { xse_sym_bytes(x, l, "rnd"); }
void harness(void) {
  xmss_params P; unsigned n, ib; int mt = xse_param("mt", 0), r; unsigned long mlen = xse_param("mlen", 1), q, cnt = xse_param("count", 0); unsigned char *sk, *pk, *m, *sm, *out; unsigned long long smlen, olen; uint64_t idx, from = xse_param("from", 0);
  mkparams(&P); n = P.n; ib = P.index_bytes; sk = malloc(P.sk_bytes); pk = malloc(P.pk_bytes); m = sym(mlen, "m");
  xse_check((mt ? xmssmt_core_keypair : xmss_core_keypair)(&P, pk, sk) == 0, "key generation succeeds");
  sm = malloc(P.sig_bytes + mlen); out = malloc(P.sig_bytes + mlen);
  if (xse_param("symidx", 0)) { from = xse_sym(P.full_height, "idx"); xse_assume(from <= last_idx(&P)); put_be(sk, ib, from); cnt = 1; }
  else { if (from) put_be(sk, ib, from); if (!cnt || cnt > last_idx(&P) + 1 - from) cnt = last_idx(&P) + 1 - from; }
  for (q = 0; q < cnt; q++) { idx = from + q; xse_havoc(sm, P.sig_bytes + mlen, "old"); xse_havoc(out, P.sig_bytes + mlen, "old"); smlen = olen = 77;
    r = SIGNF(&P, mt)(&P, sk, sm, &smlen, m, mlen); xse_check(r == 0, "signing succeeds"); xse_check(smlen == P.sig_bytes + mlen, "signed message length");
    recovered = 0; r = (mt ? xmssmt_core_sign_open : xmss_core_sign_open)(&P, out, &olen, sm, smlen, pk);
    xse_check(recovered == P.d, "every one-time signature is checked under its own address"); xse_check(r == 0, "signature verifies"); xse_check(olen == mlen, "message length returned"); xse_check_eq(out, m, mlen, "message returned"); }
  xse_reach("end"); }
