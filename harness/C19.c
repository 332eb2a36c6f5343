/* C19: the API wrappers select the parameter set by the OID in the key and hand the rest to that set's algorithm. */
#include "xse.h"
#include "params.h"
#include "xmss.h"
#define KB 40
enum { NONE, X_KEY, X_SIGN, X_OPEN, M_KEY, M_SIGN, M_OPEN };
static int called, calls, ret; static xmss_params got; static const unsigned char *a_pk, *a_sk, *a_sm, *a_m; static unsigned long long *a_len, a_n;
static unsigned char *pk, *sk, *sm, *m, snap[4][KB]; static unsigned long long outlen, outsnap;
static void snapshot(void) { memcpy(snap[0], pk, KB); memcpy(snap[1], sk, KB); memcpy(snap[2], sm, KB); memcpy(snap[3], m, KB); outsnap = outlen; }
static int core(int which, const xmss_params *p) { called = which; calls++; got = *p;
  /* the algorithm may write whatever it likes into its outputs */
  if (which == X_KEY || which == M_KEY) { xse_havoc(pk + 4, KB - 4, "core"); xse_havoc(sk + 4, KB - 4, "core"); } else { xse_havoc(which == X_SIGN || which == M_SIGN ? sm : m, KB, "core"); if (which == X_SIGN || which == M_SIGN) xse_havoc(sk + 4, KB - 4, "core"); outlen = xse_sym(64, "core"); }
  snapshot(); return ret; }
unsigned long long xmss_xmssmt_core_sk_bytes(const xmss_params *p) { return p->n * 4 + p->index_bytes + p->d; }
int xmss_core_keypair(const xmss_params *p, unsigned char *q, unsigned char *s) { a_pk = q; a_sk = s; return core(X_KEY, p); }
int xmssmt_core_keypair(const xmss_params *p, unsigned char *q, unsigned char *s) { a_pk = q; a_sk = s; return core(M_KEY, p); }
int xmss_core_sign(const xmss_params *p, unsigned char *s, unsigned char *o, unsigned long long *l, const unsigned char *x, unsigned long long n) { a_sk = s; a_sm = o; a_len = l; a_m = x; a_n = n; return core(X_SIGN, p); }
int xmssmt_core_sign(const xmss_params *p, unsigned char *s, unsigned char *o, unsigned long long *l, const unsigned char *x, unsigned long long n) { a_sk = s; a_sm = o; a_len = l; a_m = x; a_n = n; return core(M_SIGN, p); }
int xmss_core_sign_open(const xmss_params *p, unsigned char *o, unsigned long long *l, const unsigned char *s, unsigned long long n, const unsigned char *q) { a_m = o; a_len = l; a_sm = s; a_n = n; a_pk = q; return core(X_OPEN, p); }
int xmssmt_core_sign_open(const xmss_params *p, unsigned char *o, unsigned long long *l, const unsigned char *s, unsigned long long n, const unsigned char *q) { a_m = o; a_len = l; a_sm = s; a_n = n; a_pk = q; return core(M_OPEN, p); }
static int same(const xmss_params *a, const xmss_params *b) { return a->func == b->func && a->n == b->n && a->padding_len == b->padding_len && a->wots_w == b->wots_w && a->wots_log_w == b->wots_log_w && a->wots_len1 == b->wots_len1 && a->wots_len2 == b->wots_len2 && a->wots_len == b->wots_len && a->wots_sig_bytes == b->wots_sig_bytes && a->full_height == b->full_height && a->tree_height == b->tree_height && a->d == b->d && a->index_bytes == b->index_bytes && a->sig_bytes == b->sig_bytes && a->pk_bytes == b->pk_bytes && a->sk_bytes == b->sk_bytes && a->bds_k == b->bds_k; }
static unsigned char *buf(const char *nm) { unsigned char *p = malloc(KB); xse_sym_bytes(p, KB, nm); return p; }
static void body(void) {
  int which = xse_param("which", X_KEY), mt = which >= M_KEY, r; xmss_params want; uint32_t oid; unsigned i; unsigned char *key, b[4][KB]; unsigned long long len = xse_sym(64, "len"), out0;
  memset(&want, 0, sizeof want); pk = buf("pk"); sk = buf("sk"); sm = buf("sm"); m = buf("m"); outlen = out0 = xse_sym(64, "outlen"); ret = xse_sym(32, "ret");
  if (which == X_KEY || which == M_KEY) oid = xse_sym(32, "oid"); else { key = which == X_OPEN || which == M_OPEN ? pk : sk; oid = (uint32_t)key[0] << 24 | (uint32_t)key[1] << 16 | (uint32_t)key[2] << 8 | key[3]; }
  memcpy(b[0], pk, KB); memcpy(b[1], sk, KB); memcpy(b[2], sm, KB); memcpy(b[3], m, KB);
  switch (which) { case X_KEY: r = xmss_keypair(pk, sk, oid); break; case M_KEY: r = xmssmt_keypair(pk, sk, oid); break; case X_SIGN: r = xmss_sign(sk, sm, &outlen, m, len); break; case M_SIGN: r = xmssmt_sign(sk, sm, &outlen, m, len); break; case X_OPEN: r = xmss_sign_open(m, &outlen, sm, len, pk); break; default: r = xmssmt_sign_open(m, &outlen, sm, len, pk); }
  if ((mt ? xmssmt_parse_oid : xmss_parse_oid)(&want, oid) == 0) {
    xse_check(calls == 1 && called == which, "the right algorithm runs once"); xse_check(same(&got, &want), "parameters of the key's OID"); xse_check(r == ret, "its result is returned");
    if (which == X_KEY || which == M_KEY) { for (i = 0; i < 4; i++) xse_check(pk[i] == (unsigned char)(oid >> (24 - 8 * i)) && sk[i] == pk[i], "OID in both keys"); xse_check(a_pk == pk + 4 && a_sk == sk + 4, "everything after the OID is handed over"); memcpy(snap[0], pk, 4); memcpy(snap[1], sk, 4); }
    else { xse_check(a_m == m && a_sm == sm && a_len == &outlen && a_n == len, "message and signature handed over"); xse_check(which == X_OPEN || which == M_OPEN ? a_pk == pk + 4 : a_sk == sk + 4, "everything after the OID is handed over");
      xse_check_eq(pk, b[0], which == X_OPEN || which == M_OPEN ? KB : 4, "OID unchanged"); xse_check_eq(sk, b[1], 4, "OID unchanged"); xse_check_eq(which == X_OPEN || which == M_OPEN ? sm : m, which == X_OPEN || which == M_OPEN ? b[2] : b[3], KB, "input unchanged"); }
    xse_check_eq(pk, snap[0], KB, "outputs as the algorithm left them"); xse_check_eq(sk, snap[1], KB, "outputs as the algorithm left them"); xse_check_eq(sm, snap[2], KB, "outputs as the algorithm left them"); xse_check_eq(m, snap[3], KB, "outputs as the algorithm left them"); xse_check(outlen == outsnap, "outputs as the algorithm left them"); xse_reach("known OID"); }
  else { xse_check(r != 0, "unknown OID refused"); xse_check(calls == 0, "no algorithm runs"); xse_check_eq(pk, b[0], KB, "untouched"); xse_check_eq(sk, b[1], KB, "untouched"); xse_check_eq(sm, b[2], KB, "untouched"); xse_check_eq(m, b[3], KB, "untouched"); xse_reach("unknown OID"); }
}
void harness(void) { if (xse_param("twice", 0)) { body(); calls = called = 0; } body(); }
