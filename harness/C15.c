/* C15: signatures depend on the secret key bytes and the message only. */
#include "sign.h"
void randombytes(unsigned char *x, unsigned long long l) { xse_sym_bytes(x, l, "rnd"); }
typedef struct { xmss_params P; int mt; unsigned char *sk, *pk; rfc_key K; unsigned char *k0; } key;
static void shape(xmss_params *P, int h, int d, int n) { memset(P, 0, sizeof *P); P->func = xse_param("func", 0); P->n = n; P->wots_w = xse_param("w", 16); P->full_height = h; P->d = d; P->bds_k = xse_param("k", 0); if (xmss_xmssmt_initialize_params(P)) xse_fail("parameters accepted"); }
static void gen(key *k, int h, int d, int n) { unsigned char *T; shape(&k->P, h, d, n); k->mt = d > 1; k->pk = malloc(k->P.pk_bytes); k->sk = malloc(k->P.sk_bytes); xse_check((k->mt ? xmssmt_core_keypair : xmss_core_keypair)(&k->P, k->pk, k->sk) == 0, "key generation succeeds");
  k->k0 = dup(k->sk + k->P.index_bytes, 4 * n); k->K.sk_seed = k->k0; k->K.sk_prf = k->k0 + n; k->K.root = k->k0 + 2 * n; k->K.pub_seed = k->k0 + 3 * n; k->K.idx = 0;
  T = rfc_tree(&k->P, d - 1, 0, k->K.sk_seed, k->K.pub_seed); xse_check_eq(k->pk, tree_root(&k->P, T), n, "root of this key"); xse_check_eq(k->pk + n, k->K.pub_seed, n, "seed of this key"); free(T); }
/* one signature, compared with the standard's; the message is fresh every time. With share set, every key is
   loaded into one and the same buffer to sign, and stored back afterwards; so are the message and the signature. */
static unsigned char *W, *WS, *WM;
static unsigned char *sign1(key *k, unsigned char *sk0, uint64_t idx, const unsigned char *m0, unsigned long mlen) { unsigned long l = k->P.sig_bytes + mlen; unsigned char *sm = malloc(l), *e = malloc(l), *sk = sk0, *keep = sm; const unsigned char *m = m0; unsigned long long smlen = 1;
  if (W) { memcpy(W, sk0, k->P.sk_bytes); sk = W; memcpy(WM, m0, mlen); m = WM; sm = WS; }
  xse_check(SIGNF(&k->P, k->mt)(&k->P, sk, sm, &smlen, m, mlen) == 0 && smlen == l, "signing succeeds"); if (W) { memcpy(sk0, W, k->P.sk_bytes); memcpy(keep, WS, l); sm = keep; } k->K.idx = idx; rfc_sign(&k->P, e, &k->K, m, mlen); xse_check_eq(sm, e, l, "signature of this key and index"); free(e); return sm; }
static void freekey(key *k) { free(k->sk); free(k->pk); free(k->k0); }
void harness(void) {
  int h = xse_param("h", 4), d = xse_param("d", 1), n = xse_param("n", 24), h2 = xse_param("h2", 4), d2 = xse_param("d2", 2), n2 = xse_param("n2", 32); key A, B, E; uint64_t i, steps, bi = 0; unsigned off = xse_param("off", 0);
  gen(&A, h, d, n); gen(&B, h2, d2, n2); steps = xse_param("steps", 0); if (!steps || steps > last_idx(&A.P) + 1) steps = last_idx(&A.P) + 1;
  if (xse_param("share", 0)) { W = malloc(A.P.sk_bytes > B.P.sk_bytes ? A.P.sk_bytes : B.P.sk_bytes); WS = malloc((A.P.sig_bytes > B.P.sig_bytes ? A.P.sig_bytes : B.P.sig_bytes) + 2); WM = malloc(2); }
  unsigned char *oldest = 0; uint64_t oi = 0;
  for (i = 0; i < steps; i++) { unsigned long len = A.P.sk_bytes, ml = 1 + (i & 1); unsigned char *m = sym(ml, "m"), *copy = dup(A.sk, len), *c2, *s1, *s2; unsigned ev;
    /* something else happens in between */
    ev = (i + off) % 6;
    if (ev == 1 || ev == 5) { unsigned char *mb = sym(2, "mb"), *s = sign1(&B, B.sk, bi, mb, 2); free(s); free(mb); if (++bi > last_idx(&B.P)) { freekey(&B); gen(&B, h2, d2, n2); bi = 0; } }
    if (ev == 2) { gen(&E, h, d, n); unsigned char *s = sign1(&E, E.sk, 0, m, ml); free(s); freekey(&E); }
    if (ev == 3 || ev == 5) { unsigned char *mv = dup(A.sk, len); memset(A.sk, 0xAA, len); free(A.sk); A.sk = mv; } /* the key is moved */
    if (ev == 4) { gen(&E, h2, d2, n2); freekey(&E); }
    if (oldest && ev % 2 == 0) { unsigned char *o2 = dup(oldest, len), *s; s = sign1(&A, o2, oi, m, ml); free(s); free(o2); } /* an older copy of the key still makes the signature of its own index */
    s1 = sign1(&A, A.sk, i, m, ml); c2 = copy; s2 = sign1(&A, c2, i, m, ml);
    xse_check_eq(s1, s2, A.P.sig_bytes + ml, "same signature from a copy"); xse_check_eq(A.sk, c2, len, "same state after signing from a copy"); xse_check_init(A.sk, len, "state bytes are all defined");
    if (oldest && i % 3 == 0) free(oldest), oldest = 0; if (!oldest) { oldest = dup(A.sk, len); oi = i + 1; if (oi > last_idx(&A.P)) { free(oldest); oldest = 0; } }
    free(s1); free(s2); free(c2); free(m); }
  xse_reach("end"); }
