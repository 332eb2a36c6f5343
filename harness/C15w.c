/* C15, white box (skipped if these internals no longer exist): every field of the traversal state survives being written to the key and read back. */
#include "sign.h"
#include "xmss_core_fast.c"
void randombytes(unsigned char *x, unsigned long long l) { xse_sym_bytes(x, l, "rnd"); }
void harness(void) {
  xmss_params P; mkparams(&P); unsigned S = 2 * P.d - 1, N = P.tree_height - P.bds_k, i, j; unsigned char *sk = sym(P.sk_bytes, "sk"), *ws = 0, *ws2 = 0, *sk0 = dup(sk, P.index_bytes + 4 * P.n);
  bds_state *a = calloc(S, sizeof *a), *b = calloc(S, sizeof *b); for (i = 0; i < S; i++) { a[i].treehash = calloc(N, sizeof(treehash_inst)); b[i].treehash = calloc(N, sizeof(treehash_inst)); }
  xmssmt_deserialize_state(&P, a, &ws, sk);
  for (i = 0; i < S; i++) { uint64_t v = xse_sym(32, "stackoffset"); xse_assume(v <= P.tree_height + 1); a[i].stackoffset = v; v = xse_sym(32, "next_leaf"); xse_assume(v <= 1ULL << P.tree_height); a[i].next_leaf = v;
    for (j = 0; j < N; j++) { a[i].treehash[j].h = j; v = xse_sym(64, "next_idx"); xse_assume(v < 2ULL << P.tree_height); a[i].treehash[j].next_idx = v; v = xse_sym(8, "stackusage"); xse_assume(v <= P.tree_height + 1); a[i].treehash[j].stackusage = v; v = xse_sym(8, "completed"); xse_assume(v <= 1); a[i].treehash[j].completed = v; } }
  xmssmt_serialize_state(&P, sk, a); xmssmt_deserialize_state(&P, b, &ws2, sk);
  for (i = 0; i < S; i++) { xse_check(a[i].stackoffset == b[i].stackoffset && a[i].next_leaf == b[i].next_leaf, "stack offset and next leaf survive"); xse_check(a[i].stack == b[i].stack && a[i].stacklevels == b[i].stacklevels && a[i].auth == b[i].auth && a[i].keep == b[i].keep && a[i].retain == b[i].retain, "arrays stay in place");
    for (j = 0; j < N; j++) { treehash_inst *x = &a[i].treehash[j], *y = &b[i].treehash[j]; xse_check(x->h == y->h && x->next_idx == y->next_idx && x->stackusage == y->stackusage && x->completed == y->completed && x->node == y->node, "treehash instance survives"); } }
  xse_check_eq(sk, sk0, P.index_bytes + 4 * P.n, "index, seeds and root untouched"); xse_check(ws == ws2, "arrays stay in place"); xse_reach("end"); }
