/* RFC 8391 key generation and signing over uninterpreted leaves, nodes and WOTS+ signatures. */
#ifndef SIGN_H
#define SIGN_H
#include "rfc.h"
#include "xmss_core.h"
typedef struct { uint64_t idx; unsigned char *sk_seed, *sk_prf, *root, *pub_seed; } rfc_key;
/* all nodes of one tree, level by level: level k starts at off[k] */
static unsigned char *rfc_tree(const xmss_params *P, uint32_t layer, uint64_t tree, const unsigned char *sk_seed, const unsigned char *pub_seed) {
  unsigned long n = P->n, L = 1UL << P->tree_height, i, k; unsigned char *t = malloc((2 * L - 1) * n), *c = t, *q; uint32_t a[8], b[8];
  for (i = 0; i < L; i++) { rfc_adr(a, layer, tree, 0, i, 0, 0); rfc_adr(b, layer, tree, 1, i, 0, 0); uf_LEAF(P, t + i * n, sk_seed, pub_seed, b, a); }
  for (k = 0, q = t + L * n; L > 1; k++) { for (i = 0; i < L / 2; i++) { rfc_adr(a, layer, tree, 2, 0, k, i); uf_H(P, q + i * n, c + 2 * i * n, pub_seed, a); } c = q; L /= 2; q += L * n; }
  return t; }
static unsigned char *tree_node(const xmss_params *P, unsigned char *t, unsigned k, unsigned long j) { unsigned long L = 1UL << P->tree_height, o = 0; while (k--) { o += L; L /= 2; } return t + (o + j) * P->n; }
static unsigned char *tree_root(const xmss_params *P, unsigned char *t) { return tree_node(P, t, P->tree_height, 0); }
/* authentication path of a (possibly symbolic) leaf: the sibling on every level */
static void rfc_auth(const xmss_params *P, unsigned char *auth, unsigned char *t, uint32_t leaf) {
  unsigned long n = P->n, k, j; for (k = 0; k < P->tree_height; k++) for (j = 0; j < (1UL << (P->tree_height - k)); j++) if (((leaf >> k) ^ 1) == j) memcpy(auth + k * n, tree_node(P, t, k, j), n); }
/* algorithms 11/16: the signature part of sm */
static void rfc_head(const xmss_params *P, unsigned char *sig, uint64_t idx, const unsigned char *sk_prf) { unsigned i; unsigned char ib[32]; for (i = 0; i < 32; i++) ib[i] = i < 24 ? 0 : idx >> (8 * (31 - i)); for (i = 0; i < P->index_bytes; i++) sig[i] = idx >> (8 * (P->index_bytes - 1 - i)); uf_PRF(P, sig + P->index_bytes, ib, sk_prf); }
static void rfc_sign(const xmss_params *P, unsigned char *sm, const rfc_key *K, const unsigned char *m, unsigned long mlen) {
  unsigned n = P->n, i; unsigned char node[MAXN], *s = sm + P->index_bytes + n; uint64_t t = K->idx;
  rfc_head(P, sm, K->idx, K->sk_prf); uf_HMSG(P, node, sm + P->index_bytes, K->root, K->idx, m, mlen);
  for (i = 0; i < P->d; i++) { uint32_t a[8], l = t & ((1ULL << P->tree_height) - 1); unsigned char *T; t = P->tree_height >= 64 ? 0 : t >> P->tree_height;
    rfc_adr(a, i, t, 0, l, 0, 0); uf_WOTSSIG(P, s, node, K->sk_seed, K->pub_seed, a); s += P->wots_sig_bytes;
    if (flat() == 2) { unsigned k; for (k = 0; k < P->tree_height; k++) tag(P, s + k * n, k, (l >> k) ^ 1, i, t); s += P->tree_height * n; tag(P, node, P->tree_height, 0, i, t); continue; }
    T = rfc_tree(P, i, t, K->sk_seed, K->pub_seed); rfc_auth(P, s, T, l); s += P->tree_height * n; memcpy(node, tree_root(P, T), n); free(T); }
  if (mlen) memcpy(sm + P->sig_bytes, m, mlen); }
static uint64_t get_be(const unsigned char *p, unsigned n) { uint64_t v = 0; unsigned i; for (i = 0; i < n; i++) v = v << 8 | p[i]; return v; }
static void put_be(unsigned char *p, unsigned n, uint64_t v) { unsigned i; for (i = 0; i < n; i++) p[i] = v >> (8 * (n - 1 - i)); }
/* number of usable indices minus one: the last index is withheld if the field has no value left */
static uint64_t last_idx(const xmss_params *P) { uint64_t L = (1ULL << P->full_height) - 1; return P->full_height == 8 * P->index_bytes ? L - 1 : L; }
#define SIGNF(P, mt) ((mt) ? xmssmt_core_sign : xmss_core_sign)
#endif
