/* C02: F, H, PRF, PRF_keygen, H_msg hash exactly the standard's domain-separated input. */
#include "xse.h"
#include "params.h"
#include "hash.h"
/* FIPS 202 functions are decided by C03; here they are uninterpreted (and prefix consistent) */
void shake128(unsigned char *out, unsigned long long outlen, const unsigned char *in, unsigned long long inlen) { xse_uf("SHAKE128", out, outlen, in, inlen); }
void shake256(unsigned char *out, unsigned long long outlen, const unsigned char *in, unsigned long long inlen) { xse_uf("SHAKE256", out, outlen, in, inlen); }
unsigned char *SHA256(const unsigned char *d, size_t n, unsigned char *md);
unsigned char *SHA512(const unsigned char *d, size_t n, unsigned char *md);
static unsigned func, n, pad;
static void HASH(unsigned char *out, const unsigned char *in, unsigned long len) { unsigned char t[64];
  if (func == XMSS_SHAKE128) shake128(t, n, in, len); else if (func == XMSS_SHAKE256) shake256(t, n, in, len); else if (n == 64) SHA512(in, len, t); else SHA256(in, len, t);
  memcpy(out, t, n); }
/* toByte(dom, pad) || a || b, hashed */
static void dom(unsigned char *out, unsigned d, const unsigned char *a, unsigned la, const unsigned char *b, unsigned lb, const unsigned char *c, unsigned long lc) {
  unsigned char *buf = malloc(pad + la + lb + lc); memset(buf, 0, pad); buf[pad - 1] = d; memcpy(buf + pad, a, la); if (lb) memcpy(buf + pad + la, b, lb); if (lc) memcpy(buf + pad + la + lb, c, lc); HASH(out, buf, pad + la + lb + lc); free(buf); }
static void abytes(unsigned char *b, const uint32_t *a, unsigned km) { unsigned i; for (i = 0; i < 8; i++) { uint32_t v = i == 7 ? km : a[i]; b[4 * i] = v >> 24; b[4 * i + 1] = v >> 16; b[4 * i + 2] = v >> 8; b[4 * i + 3] = v; } }
static unsigned char *sym(unsigned long len, const char *nm) { unsigned char *p = malloc(len); xse_sym_words(p, len, nm); return p; }
static unsigned char *dup(const unsigned char *s, unsigned long len) { unsigned char *p = malloc(len); memcpy(p, s, len); return p; }
static void body(const char *f_, const char *n_, const char *p_) {
  xmss_params P; unsigned what = xse_param("what", 0); uint32_t a[8], a0[8]; unsigned char ab[32], e[64], km[64], m1[128], x[128]; unsigned i;
  memset(&P, 0, sizeof P); func = P.func = xse_param(f_, 0); n = P.n = xse_param(n_, 32); pad = P.padding_len = xse_param(p_, 32);
  if (xse_param("bad", 0)) { /* unsupported combination */
    unsigned char *o = malloc(n), *in = sym(2 * n + 32, "in"), *k = sym(n, "k"); unsigned long ml = 5; unsigned char *m = sym(pad + 3 * n + ml, "m"); unsigned f = xse_sym(32, "func"); 
    if (func >= 3) { xse_assume(f > 2); P.func = f; }
    for (i = 0; i < 8; i++) a[i] = xse_sym(32, "a");
    xse_check(prf(&P, o, in, k) != 0, "unsupported combination refused (PRF)"); xse_check(prf_keygen(&P, o, in, k) != 0, "unsupported combination refused (PRF_keygen)");
    xse_check(thash_f(&P, o, in, k, a) != 0, "unsupported combination refused (F)"); xse_check(thash_h(&P, o, in, k, a) != 0, "unsupported combination refused (H)"); xse_check(hash_message(&P, o, k, k, xse_sym(64, "idx"), m, ml) != 0, "unsupported combination refused (H_msg)");
    xse_reach("bad"); return; }
  unsigned char *key = sym(n, "key"), *key0 = dup(key, n), *out = malloc(n); xse_havoc(out, n, "old"); 
  for (i = 0; i < 8; i++) a0[i] = a[i] = xse_sym(32, "addr");
  if (what == 0) { unsigned char *in = sym(32, "in"), *in0 = dup(in, 32); xse_check(prf(&P, out, in, key) == 0, "PRF succeeds"); dom(e, 3, key0, n, in0, 32, 0, 0); xse_check_eq(out, e, n, "PRF"); xse_check_eq(in, in0, 32, "input unchanged"); }
  else if (what == 1) { unsigned char *in = sym(32 + n, "in"), *in0 = dup(in, n + 32); xse_check(prf_keygen(&P, out, in, key) == 0, "PRF_keygen succeeds"); dom(e, 4, key0, n, in0, 32 + n, 0, 0); xse_check_eq(out, e, n, "PRF_keygen"); xse_check_eq(in, in0, 32 + n, "input unchanged"); }
  else if (what == 2 || what == 3) { unsigned bl = what == 2 ? 1 : 2, alias; unsigned char *in = sym(bl * n, "in"), *in0 = dup(in, bl * n), *o; alias = xse_choice("in place", 2); o = alias ? in : out;
    xse_check((what == 2 ? thash_f(&P, o, in, key, a) : thash_h(&P, o, in, key, a)) == 0, "F/H succeeds");
    abytes(ab, a0, 0); dom(km, 3, key0, n, ab, 32, 0, 0); abytes(ab, a0, 1); dom(m1, 3, key0, n, ab, 32, 0, 0); if (bl == 2) { abytes(ab, a0, 2); dom(m1 + n, 3, key0, n, ab, 32, 0, 0); }
    for (i = 0; i < bl * n; i++) x[i] = in0[i] ^ m1[i];
    dom(e, what == 2 ? 0 : 1, km, n, x, bl * n, 0, 0); xse_check_eq(o, e, n, what == 2 ? "F" : "H"); if (!alias) xse_check_eq(in, in0, bl * n, "input unchanged"); else if (bl == 2) xse_check_eq(in + n, in0 + n, n, "only n bytes written");
    for (i = 0; i < 7; i++) xse_check(a[i] == a0[i], "address words other than keyAndMask unchanged"); }
  else { unsigned long mlen = xse_choice("mlen", xse_param("count", 1)) + xse_param("mlen", 0), pre = pad + 3 * n; unsigned char *R = sym(n, "R"), *R0 = dup(R, n), *buf = malloc(pre + mlen), *m0 = malloc(mlen), ib[64]; uint64_t idx = xse_sym(64, "idx");
    xse_havoc(buf, pre, "space"); xse_sym_words(buf + pre, mlen, "m"); memcpy(m0, buf + pre, mlen);
    xse_check(hash_message(&P, out, R, key, idx, buf, mlen) == 0, "H_msg succeeds");
    for (i = 0; i < n; i++) { unsigned sh = 8 * (n - 1 - i); ib[i] = sh >= 64 ? 0 : idx >> sh; }
    unsigned char *kk = malloc(3 * n); memcpy(kk, R0, n); memcpy(kk + n, key0, n); memcpy(kk + 2 * n, ib, n); dom(e, 2, kk, 3 * n, m0, mlen, 0, 0); xse_check_eq(out, e, n, "H_msg"); xse_check_eq(buf + pre, m0, mlen, "message unchanged"); xse_check_eq(R, R0, n, "R unchanged"); }
  xse_check_eq(key, key0, n, "key unchanged"); xse_reach("end");
}
/* C15: with another call of the same function, on unrelated inputs, before it */
void harness(void) { if (xse_param("twice", 0)) body("func2", "n2", "pad2"); body("func", "n", "pad"); }
