/* C20: the signing tool, with every I/O fault; at every output the key file must already hold the new secret key. */
#include "ui_model.h"
static xmss_params P, Q; static uint32_t opk, osk; static unsigned long skoff, klen, mlen; static int signs, sret, unknown; static unsigned char *newsk, *sig; 
static int stub(unsigned char *sk, unsigned char *sm, unsigned long long *smlen, const unsigned char *m, unsigned long long n) {
  unsigned long L = 4 + Q.sk_bytes; signs++; xse_check(signs == 1, "signs once"); xse_check(!failed && !unknown, "signs only when all inputs were read"); xse_range(sk, L, 1); xse_range(sm, Q.sig_bytes + mlen, 1); xse_range(m, mlen, 0);
  xse_check_eq(sk, f1.orig + skoff, L, "signs with the secret key in the file"); xse_check(n == mlen, "signs the whole message"); if (mlen) xse_check_eq(m, f2.orig, mlen, "signs the message in the file");
  xse_sym_words(sk + 4, Q.sk_bytes, "newsk"); newsk = dup(sk, L); xse_sym_words(sm, Q.sig_bytes + mlen, "sig"); sig = dup(sm, Q.sig_bytes + mlen);
  if (quiet) sret = 0; else { sret = -(int)xse_choice("result of signing", 3); } if (sret) { failed = 1; *smlen = xse_choice("length", 2) ? Q.sig_bytes + mlen : 0; } else *smlen = Q.sig_bytes + mlen; return sret; }
static int none(void) { xse_fail("wrong algorithm"); return -1; }
#ifdef XSE_MT
int xmssmt_sign(unsigned char *sk, unsigned char *sm, unsigned long long *smlen, const unsigned char *m, unsigned long long n) { return stub(sk, sm, smlen, m, n); }
int xmss_sign(unsigned char *sk, unsigned char *sm, unsigned long long *smlen, const unsigned char *m, unsigned long long n) { return none(); }
#else
int xmss_sign(unsigned char *sk, unsigned char *sm, unsigned long long *smlen, const unsigned char *m, unsigned long long n) { return stub(sk, sm, smlen, m, n); }
int xmssmt_sign(unsigned char *sk, unsigned char *sm, unsigned long long *smlen, const unsigned char *m, unsigned long long n) { return none(); }
#endif
static void stored(void) { unsigned long L = 4 + Q.sk_bytes; xse_check_eq(f1.data, f1.orig, skoff, "rest of the key file unchanged"); xse_check_eq(f1.data + skoff + L, f1.orig + skoff + L, klen - skoff - L, "rest of the key file unchanged"); xse_check_eq(f1.data + skoff, newsk, L, "updated secret key in the file"); }
static void on_output(const unsigned char *p, unsigned long n) {
  xse_check(signs == 1 && sret == 0, "no output before or without a signature"); xse_check(!failed, "no output after a failure"); xse_check(!f1.dirty && !f1.bad, "updated key is on disk before output"); stored();
  xse_check(outlen + n <= Q.sig_bytes + mlen, "outputs the signed message only"); xse_check_eq(p, sig + outlen, n, "outputs the signed message"); xse_reach("output"); }
static void on_exit_(int code) {
  xse_check(!text, "nothing else on standard output");
  if (failed) { xse_check(!released, "no signature after a failure"); xse_check((code & 0xff) != 0, "failure reported"); xse_reach("failed"); }
  else if (!unknown) { if ((code & 0xff) == 0) { xse_check(signs == 1 && (out_err || outlen == Q.sig_bytes + mlen), "whole signed message was written"); xse_reach("ok"); } if (!out_err) xse_check((code & 0xff) == 0, "a run without faults succeeds"); }
  if (unknown) { xse_check(!released && (code & 0xff) != 0, "unknown parameter set refused"); xse_reach("unknown"); }
  if (!signs) xse_check_eq(f1.data, f1.orig, klen, "key file untouched unless a signature was made");
  else { unsigned long L = 4 + Q.sk_bytes; xse_check_eq(f1.data, f1.orig, skoff, "rest of the key file unchanged"); xse_check_eq(f1.data + skoff + L, f1.orig + skoff + L, klen - skoff - L, "rest of the key file unchanged"); } }
void harness(void) {
  char *argv[5] = {"sign", "k", "m", "x", 0}; int argc = 3; static const int lens[] = {0, 1, 37, 200}; uint32_t o; unknown = xse_param("unknown", 0);
  ui_init(); memset(&P, 0, sizeof P); memset(&Q, 0, sizeof Q); opk = xse_param("oid", 1); osk = xse_param("oid2", opk); parse(&P, opk); parse(&Q, osk); quiet = xse_param("quiet", 0);
  skoff = 4 + P.pk_bytes; klen = skoff + 4 + Q.sk_bytes + xse_param("extra", 0); f1.len = klen; f1.data = sym(klen, "key"); put32(f1.data, opk); put32(f1.data + skoff, osk);
  if (unknown) { xmss_params R; memset(&R, 0, sizeof R); o = xse_sym(32, "oid"); xse_assume(parse(&R, o) != 0); put32(unknown == 1 ? f1.data : f1.data + skoff, o); }
  if (unknown == 3) { argc = xse_choice("argc", 3); if (argc == 2) argc = 4; else argv[argc] = 0; }
  f1.orig = dup(f1.data, klen); mlen = lens[xse_choice("mlen", xse_param("lens", 1))]; f2.len = mlen; f2.data = sym(mlen, "msg"); f2.orig = dup(f2.data, mlen);
  on_exit_(ui_main(argc, argv)); }
