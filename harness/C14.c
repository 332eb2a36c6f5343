/* C14/C24/C11: life of a key of the fast implementation, signature by signature, against RFC 8391 signatures. */
#include "sign.h"
static unsigned long wots_calls;
void randombytes(unsigned char *x, unsigned long long l) { xse_sym_bytes(x, l, "rnd"); }
/* the same 3n bytes as the key generation above drew, in the order SK_SEED, SK_PRF, PUB_SEED */
typedef struct { unsigned char *t; uint64_t tree; int have; } cache;
static cache *C; static unsigned char *top_sig[16]; static uint64_t top_tree[16]; static unsigned top_leaf[16];
static unsigned char *get_tree(const xmss_params *P, unsigned i, uint64_t tree, const rfc_key *K) { if (!C[i].have || C[i].tree != tree) { if (C[i].have) free(C[i].t); C[i].t = rfc_tree(P, i, tree, K->sk_seed, K->pub_seed); C[i].tree = tree; C[i].have = 1; } return C[i].t; }
static const unsigned char *node_of(const xmss_params *P, unsigned i, uint64_t t, unsigned k, uint32_t j, const rfc_key *K) { static unsigned char x[MAXN]; if (flat() != 2) return tree_node(P, get_tree(P, i, t, K), k, j); tag(P, x, k, j, i, t); return x; }
/* rfc_sign with the trees remembered */
static void life_sign(const xmss_params *P, unsigned char *sm, const rfc_key *K, const unsigned char *m, unsigned long mlen) {
  unsigned n = P->n, i, k; unsigned char node[MAXN], *s = sm + P->index_bytes + n; uint64_t t = K->idx;
  rfc_head(P, sm, K->idx, K->sk_prf); uf_HMSG(P, node, sm + P->index_bytes, K->root, K->idx, m, mlen);
  for (i = 0; i < P->d; i++) { uint32_t a[8], l = t & ((1ULL << P->tree_height) - 1); t >>= P->tree_height;
    if (i == 0 || top_leaf[i] != l + 1 || top_tree[i] != t) { rfc_adr(a, i, t, 0, l, 0, 0); uf_WOTSSIG(P, s, node, K->sk_seed, K->pub_seed, a); if (i) { memcpy(top_sig[i], s, P->wots_sig_bytes); top_leaf[i] = l + 1; top_tree[i] = t; } }
    else memcpy(s, top_sig[i], P->wots_sig_bytes); /* signs the root of the same lower tree: same value */
    s += P->wots_sig_bytes; for (k = 0; k < P->tree_height; k++, s += n) memcpy(s, node_of(P, i, t, k, (l >> k) ^ 1, K), n); memcpy(node, node_of(P, i, t, P->tree_height, 0, K), n); }
  if (mlen) memcpy(sm + P->sig_bytes, m, mlen); }
void harness(void) {
  xmss_params P; unsigned n, ib, i; int mt = xse_param("mt", 0), r, prop = xse_param("prop", 14); unsigned long mlen = xse_param("mlen", 1), bound, most = 0; unsigned char *sk, *pk, *k0, *m, *sm, *e; rfc_key K; uint64_t idx, from = xse_param("from", 0), to; unsigned long long smlen;
  mkparams(&P); n = P.n; ib = P.index_bytes; sk = malloc(P.sk_bytes); pk = malloc(P.pk_bytes); C = calloc(P.d, sizeof *C); for (i = 0; i < P.d; i++) top_sig[i] = malloc(P.wots_sig_bytes);
  xse_check((mt ? xmssmt_core_keypair : xmss_core_keypair)(&P, pk, sk) == 0, "key generation succeeds");
  k0 = dup(sk + ib, 4 * n); K.sk_seed = k0; K.sk_prf = k0 + n; K.root = k0 + 2 * n; K.pub_seed = k0 + 3 * n;
  { unsigned char z[8] = {0}; xse_check_eq(sk, z, ib, "index zero"); }
  xse_check_eq(pk, node_of(&P, P.d - 1, 0, P.tree_height, 0, &K), n, "public root"); xse_check_eq(k0 + 2 * n, pk, n, "root in the secret key"); xse_check_eq(pk + n, K.pub_seed, n, "public seed");
  to = xse_param("steps", 0); if (!to || to > last_idx(&P) + 1) to = last_idx(&P) + 1;
  bound = (P.tree_height - P.bds_k) / 2 + 1 + P.d; m = sym(mlen, "m"); e = malloc(P.sig_bytes + mlen); sm = old(P.sig_bytes + mlen, "old");
  for (idx = 0; idx < to; idx++) { K.idx = idx; smlen = 1; leaf_calls = 0;
    r = SIGNF(&P, mt)(&P, sk, sm, &smlen, m, mlen);
    if (prop == 24) { xse_check(leaf_calls <= bound, "leaves per signature"); if (leaf_calls > most) most = leaf_calls; continue; }
    xse_check(r == 0 && smlen == P.sig_bytes + mlen, "signing succeeds");
    life_sign(&P, e, &K, m, mlen); xse_check_eq(sm, e, P.sig_bytes + mlen, "signature equals the reference signature"); }
  if (to == last_idx(&P) + 1) { memset(sm, 0x77, P.sig_bytes + mlen); memset(e, 0x77, P.sig_bytes + mlen); r = SIGNF(&P, mt)(&P, sk, sm, &smlen, m, mlen); xse_check(r != 0, "refused after the last index"); xse_check_eq(sm, e, P.sig_bytes, "no signature after the last index"); xse_reach("exhausted"); }
  if (most > 1) xse_reach("updates happen");
  xse_reach("end");
}
