/* RFC 8391 in its own terms, over the uninterpreted F/H/PRF/H_msg of cut.h. */
#ifndef RFC_H
#define RFC_H
#include "cut.h"
static unsigned char *sym(unsigned long l, const char *nm) { unsigned char *p = malloc(l); xse_sym_bytes(p, l, nm); return p; }
static unsigned char *dup(const unsigned char *s, unsigned long l) { unsigned char *p = malloc(l); memcpy(p, s, l); return p; }
static unsigned char *old(unsigned long l, const char *nm) { unsigned char *p = malloc(l); xse_havoc(p, l, nm); return p; }
static unsigned char *zeros(unsigned long l) { unsigned char *p = calloc(l, 1); return p; }
static void rfc_adr(uint32_t o[8], uint32_t layer, uint64_t tree, uint32_t type, uint32_t w4, uint32_t w5, uint32_t w6) { o[0] = layer; o[1] = tree >> 32; o[2] = tree; o[3] = type; o[4] = w4; o[5] = w5; o[6] = w6; o[7] = 0; }
/* algorithm 8: ltree; base gives words 0..4 (type 1) */
static void rfc_ltree(const xmss_params *P, unsigned char *leaf, const unsigned char *pk0, const unsigned char *seed, const uint32_t base[8]) {
  unsigned n = P->n, l = P->wots_len, i, h = 0; unsigned char *pk = dup(pk0, l * n), t[2 * MAXN]; uint32_t a[8];
  for (; l > 1; h++) { for (i = 0; i < l / 2; i++) { int k; for (k = 0; k < 5; k++) a[k] = base[k]; a[5] = h; a[6] = i; a[7] = 0; memcpy(t, pk + 2 * i * n, 2 * n); uf_H(P, pk + i * n, t, seed, a); }
    if (l % 2) memmove(pk + (l / 2) * n, pk + (l - 1) * n, n); l = (l + 1) / 2; }
  memcpy(leaf, pk, n); free(pk); }
/* algorithms 13/16: root of one tree from a leaf and its authentication path */
static void rfc_path(const xmss_params *P, unsigned char *root, const unsigned char *leaf, uint32_t idx_leaf, const unsigned char *auth, const unsigned char *seed, uint32_t layer, uint64_t tree) {
  unsigned n = P->n, k; unsigned char t[2 * MAXN], node[MAXN]; uint32_t a[8]; memcpy(node, leaf, n);
  for (k = 0; k < P->tree_height; k++) { unsigned bit = (idx_leaf >> k) & 1, i; rfc_adr(a, layer, tree, 2, 0, k, idx_leaf >> (k + 1));
    for (i = 0; i < n; i++) { t[i] = bit ? auth[k * n + i] : node[i]; t[n + i] = bit ? node[i] : auth[k * n + i]; } uf_H(P, node, t, seed, a); }
  memcpy(root, node, n); }
static void mkparams(xmss_params *P) { memset(P, 0, sizeof *P); P->func = xse_param("func", 0); P->n = xse_param("n", 32); P->padding_len = xse_param("pad", P->n == 24 ? 4 : P->n); P->wots_w = xse_param("w", 16); P->full_height = xse_param("h", 10); P->d = xse_param("d", 1); P->bds_k = xse_param("k", 0);
  xse_check(xmss_xmssmt_initialize_params(P) == 0, "parameters accepted"); }
#endif
