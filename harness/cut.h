/* Cut points: a repo function with external linkage declared in a header is replaced by an uninterpreted
   function of everything it may depend on (__override_<name>); the specification calls the same
   uninterpreted function (uf_*), so agreement means "calls it with exactly the standard's inputs".
   Each cut function is itself decided against the standard by another property's check. */
#ifndef CUT_H
#define CUT_H
#include "xse.h"
#include "params.h"
#include "hash.h"
#include "wots.h"
#include "xmss_commons.h"
#define MAXN 64
#ifndef HMSG_MARK
#define HMSG_MARK 0 /* 0: arbitrary bytes */
#endif
static void cat(unsigned char *b, unsigned long *o, const void *p, unsigned long n) { memcpy(b + *o, p, n); *o += n; }
static void cat32(unsigned char *b, unsigned long *o, uint32_t v) { b[*o] = v >> 24; b[*o + 1] = v >> 16; b[*o + 2] = v >> 8; b[*o + 3] = v; *o += 4; }
static void cat64(unsigned char *b, unsigned long *o, uint64_t v) { cat32(b, o, v >> 32); cat32(b, o, v); }
/* param flat: 1: leaves and nodes are zero bytes, for runs that only look at control flow and memory;
   2: they are tags that say which node of which tree they are (a node computed from the wrong children or
   with the wrong address gets a tag no correct node has), for trees too high to keep a term per node */
static int flat(void) { static int f = -1; if (f < 0) f = xse_param("flat", 0); return f; }
static void tag(const xmss_params *p, unsigned char *o, unsigned level, uint32_t idx, uint32_t layer, uint64_t tree) { unsigned i; memset(o, 0, p->n); o[0] = level; for (i = 0; i < 4; i++) o[1 + i] = idx >> (8 * i); o[5] = layer; for (i = 0; i < 8; i++) o[6 + i] = tree >> (8 * i); o[14] = 0x7A; }
static void tag_H(const xmss_params *p, unsigned char *out, const unsigned char *in, const uint32_t a[8]) {
  unsigned char l[MAXN], r[MAXN]; unsigned k = in[0], i; uint32_t j = 0; for (i = 0; i < 4; i++) j |= (uint32_t)in[1 + i] << (8 * i);
  tag(p, l, k, j & ~1u, a[0], (uint64_t)a[1] << 32 | a[2]); tag(p, r, k, j | 1, a[0], (uint64_t)a[1] << 32 | a[2]);
  if (!memcmp(in, l, p->n) && !memcmp(in + p->n, r, p->n) && a[3] == 2 && a[4] == 0 && a[5] == k && a[6] == j / 2) tag(p, out, k + 1, j / 2, a[0], (uint64_t)a[1] << 32 | a[2]); else memset(out, 0xEE, p->n); }
/* what a harness wants to observe at a cut */
#ifndef ON_PRF
#define ON_PRF(p, in, key) (void)0
#endif
#ifndef ON_HMSG
#define ON_HMSG(p, R, root, idx, m, mlen) (void)0
#endif
#ifndef ON_WOTSSIG
#define ON_WOTSSIG(p, sig, msg, sk_seed, seed, a) (void)0
#endif
#ifndef ON_LEAF
#define ON_LEAF(p, lt, a) (void)0
#endif
#ifndef ON_H
#define ON_H(p, a) (void)0
#endif
/* which words of the caller's address the real function leaves changed, learnt by running it once */
struct left { int known, chg[8]; uint32_t val[8]; };
static int probing; /* the real function runs only to see what it leaves in the address */
static void probe_set(uint32_t a[8]) { int i; probing = 1; for (i = 0; i < 8; i++) a[i] = 0xC0DE0000u + i * 17; }
static void probe_get(struct left *l, const uint32_t a[8]) { int i; for (i = 0; i < 8; i++) { l->chg[i] = a[i] != 0xC0DE0000u + i * 17; l->val[i] = a[i]; } l->known = 1; probing = 0; }
static void leave(const struct left *l, uint32_t a[8]) { int i; for (i = 0; i < 8; i++) if (l->chg[i]) a[i] = l->val[i]; }

/* what a probed function leaves in the address does not depend on hash values: keep them cheap meanwhile */
#if defined(CUT_LEAF) || defined(CUT_WOTSSIG) || defined(CUT_PKGEN) || defined(CUT_PKSIG)
#include "fips202.h"
void __override_shake128(unsigned char *out, unsigned long long outlen, const unsigned char *in, unsigned long long inlen) { if (probing) memset(out, 0, outlen); else shake128(out, outlen, in, inlen); }
void __override_shake256(unsigned char *out, unsigned long long outlen, const unsigned char *in, unsigned long long inlen) { if (probing) memset(out, 0, outlen); else shake256(out, outlen, in, inlen); }
#endif

static void uf_F(const xmss_params *p, unsigned char *out, const unsigned char *in, const unsigned char *seed, const uint32_t a[8]) {
  unsigned char b[2 * MAXN + 32]; unsigned long o = 0; int i; cat(b, &o, seed, p->n); for (i = 0; i < 7; i++) cat32(b, &o, a[i]); cat(b, &o, in, p->n); xse_uf("F", out, p->n, b, o); }
static void uf_H(const xmss_params *p, unsigned char *out, const unsigned char *in, const unsigned char *seed, const uint32_t a[8]) {
  unsigned char b[3 * MAXN + 32]; unsigned long o = 0; int i; if (flat() == 1) { memset(out, 0, p->n); return; } if (flat() == 2) { tag_H(p, out, in, a); return; } cat(b, &o, seed, p->n); for (i = 0; i < 7; i++) cat32(b, &o, a[i]); cat(b, &o, in, 2 * p->n); xse_uf("H", out, p->n, b, o); }
static void uf_PRF(const xmss_params *p, unsigned char *out, const unsigned char in[32], const unsigned char *key) {
  unsigned char b[MAXN + 32]; unsigned long o = 0; cat(b, &o, key, p->n); cat(b, &o, in, 32); xse_uf("PRF", out, p->n, b, o); }
static void uf_PRFK(const xmss_params *p, unsigned char *out, const unsigned char *in, const unsigned char *key) {
  unsigned char b[2 * MAXN + 32]; unsigned long o = 0; cat(b, &o, key, p->n); cat(b, &o, in, 32 + p->n); xse_uf("PRFK", out, p->n, b, o); }
static void uf_HMSG(const xmss_params *p, unsigned char *out, const unsigned char *R, const unsigned char *root, uint64_t idx, const unsigned char *m, unsigned long mlen) {
  unsigned char *b = malloc(2 * p->n + 8 + mlen); unsigned long o = 0; cat(b, &o, R, p->n); cat(b, &o, root, p->n); cat64(b, &o, idx); if (mlen) cat(b, &o, m, mlen); xse_uf("HMSG", out, p->n, b, o); free(b); }
/* functions of an OTS address: words 0..4 (layer, tree, type, OTS index) */
static void uf_WOTSSIG(const xmss_params *p, unsigned char *sig, const unsigned char *msg, const unsigned char *sk_seed, const unsigned char *seed, const uint32_t a[8]) {
  unsigned char b[3 * MAXN + 32]; unsigned long o = 0; int i; for (i = 0; i < 5; i++) cat32(b, &o, a[i]); cat(b, &o, msg, p->n); cat(b, &o, sk_seed, p->n); cat(b, &o, seed, p->n); xse_uf("WOTSSIG", sig, p->wots_sig_bytes, b, o); }
static void uf_PKSIG(const xmss_params *p, unsigned char *pk, const unsigned char *sig, const unsigned char *msg, const unsigned char *seed, const uint32_t a[8]) {
  unsigned char *b = malloc(2 * p->n + 32 + p->wots_sig_bytes); unsigned long o = 0; int i; for (i = 0; i < 5; i++) cat32(b, &o, a[i]); cat(b, &o, msg, p->n); cat(b, &o, seed, p->n); cat(b, &o, sig, p->wots_sig_bytes); xse_uf("PKSIG", pk, p->wots_sig_bytes, b, o); free(b); }
static void uf_WOTSPK(const xmss_params *p, unsigned char *pk, const unsigned char *sk_seed, const unsigned char *seed, const uint32_t a[8]) {
  unsigned char b[2 * MAXN + 32]; unsigned long o = 0; int i; for (i = 0; i < 5; i++) cat32(b, &o, a[i]); cat(b, &o, sk_seed, p->n); cat(b, &o, seed, p->n); xse_uf("WOTSPK", pk, p->wots_sig_bytes, b, o); }
static void uf_LEAF(const xmss_params *p, unsigned char *leaf, const unsigned char *sk_seed, const unsigned char *seed, const uint32_t lt[8], const uint32_t a[8]) {
  unsigned char b[3 * MAXN + 64]; unsigned long o = 0; int i; if (flat() == 1) { memset(leaf, 0, p->n); return; } if (flat() == 2) { tag(p, leaf, 0, a[4], a[0], (uint64_t)a[1] << 32 | a[2]); if (a[3] != 0 || lt[3] != 1 || lt[0] != a[0] || lt[1] != a[1] || lt[2] != a[2] || lt[4] != a[4]) memset(leaf, 0xEE, p->n); return; } for (i = 0; i < 5; i++) cat32(b, &o, a[i]); for (i = 0; i < 5; i++) cat32(b, &o, lt[i]); cat(b, &o, sk_seed, p->n); cat(b, &o, seed, p->n); xse_uf("LEAF", leaf, p->n, b, o); }

#ifdef CUT_F
static struct left left_F;
int __override_thash_f(const xmss_params *p, unsigned char *out, const unsigned char *in, const unsigned char *seed, uint32_t a[8]) {
  if (!left_F.known) { uint32_t t[8]; unsigned char x[MAXN] = {0}, y[MAXN]; probe_set(t); thash_f(p, y, x, x, t); probe_get(&left_F, t); }
  uf_F(p, out, in, seed, a); leave(&left_F, a); return 0; }
#endif
#ifdef CUT_H_
static struct left left_H;
int __override_thash_h(const xmss_params *p, unsigned char *out, const unsigned char *in, const unsigned char *seed, uint32_t a[8]) {
  if (!left_H.known) { uint32_t t[8]; unsigned char x[2 * MAXN] = {0}, y[MAXN]; probe_set(t); thash_h(p, y, x, x, t); probe_get(&left_H, t); }
  if (!probing) ON_H(p, a); uf_H(p, out, in, seed, a); leave(&left_H, a); return 0; }
#endif
#ifdef CUT_PRF
int __override_prf(const xmss_params *p, unsigned char *out, const unsigned char *in, const unsigned char *key) { if (!probing) ON_PRF(p, in, key); uf_PRF(p, out, in, key); return 0; }
#endif
#ifdef CUT_PRFK
int __override_prf_keygen(const xmss_params *p, unsigned char *out, const unsigned char *in, const unsigned char *key) { uf_PRFK(p, out, in, key); return 0; }
#endif
#ifdef CUT_HMSG
/* the real function writes its prefix in front of the message: model it as arbitrary bytes */
int __override_hash_message(const xmss_params *p, unsigned char *out, const unsigned char *R, const unsigned char *root, unsigned long long idx, unsigned char *mp, unsigned long long mlen) {
  unsigned long pre = p->padding_len + 3 * p->n; unsigned char r[MAXN]; if (!probing) ON_HMSG(p, R, root, idx, mp + pre, mlen); uf_HMSG(p, r, R, root, idx, mp + pre, mlen); if (HMSG_MARK) memset(mp, HMSG_MARK, pre); else xse_havoc(mp, pre, "hmsg_prefix"); memcpy(out, r, p->n); return 0; }
#endif
#ifdef CUT_WOTSSIG
static struct left left_WS;
void __override_wots_sign(const xmss_params *p, unsigned char *sig, const unsigned char *msg, const unsigned char *sk_seed, const unsigned char *seed, uint32_t a[8]) {
  if (!left_WS.known) { uint32_t t[8]; unsigned char x[MAXN] = {0}, *y = malloc(p->wots_sig_bytes); probe_set(t); wots_sign(p, y, x, x, x, t); probe_get(&left_WS, t); free(y); }
  if (!probing) ON_WOTSSIG(p, sig, msg, sk_seed, seed, a); uf_WOTSSIG(p, sig, msg, sk_seed, seed, a); leave(&left_WS, a); }
#endif
#ifdef CUT_PKGEN
static struct left left_PG;
void __override_wots_pkgen(const xmss_params *p, unsigned char *pk, const unsigned char *sk_seed, const unsigned char *seed, uint32_t a[8]) {
  if (!left_PG.known) { uint32_t t[8]; unsigned char x[MAXN] = {0}, *y = malloc(p->wots_sig_bytes); probe_set(t); wots_pkgen(p, y, x, x, t); probe_get(&left_PG, t); free(y); }
  uf_WOTSPK(p, pk, sk_seed, seed, a); leave(&left_PG, a); }
#endif
#ifdef CUT_PKSIG
static struct left left_PS;
void __override_wots_pk_from_sig(const xmss_params *p, unsigned char *pk, const unsigned char *sig, const unsigned char *msg, const unsigned char *seed, uint32_t a[8]) {
  if (!left_PS.known) { uint32_t t[8]; unsigned char x[MAXN] = {0}, *y = calloc(p->wots_sig_bytes, 1); probe_set(t); wots_pk_from_sig(p, y, y, x, x, t); probe_get(&left_PS, t); free(y); }
  uf_PKSIG(p, pk, sig, msg, seed, a); leave(&left_PS, a); }
#endif
#ifdef CUT_LEAF
static struct left left_Ll, left_Lo; 
static unsigned long leaf_calls;
void __override_gen_leaf_wots(const xmss_params *p, unsigned char *leaf, const unsigned char *sk_seed, const unsigned char *seed, uint32_t lt[8], uint32_t a[8]) {
  if (!left_Lo.known) { uint32_t t[8], u[8]; unsigned char x[MAXN] = {0}, y[MAXN]; probe_set(t); probe_set(u); gen_leaf_wots(p, y, x, x, u, t); probe_get(&left_Ll, u); probe_get(&left_Lo, t); }
  leaf_calls++; if (!probing) ON_LEAF(p, lt, a); uf_LEAF(p, leaf, sk_seed, seed, lt, a); leave(&left_Ll, lt); leave(&left_Lo, a); }
#endif
#endif
