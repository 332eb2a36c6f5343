/* C21: the verification tool exits 0 exactly when both files were read and the bytes in them verify. */
#include "ui_model.h"
static xmss_params P; static unsigned long pklen, klen, smlen; static int opens_, oret, unknown;
static int stub(unsigned char *m, unsigned long long *mlen, const unsigned char *sm, unsigned long long n, const unsigned char *pk) {
  opens_++; xse_check(!unknown, "unknown parameter set refused"); xse_check(!failed, "verifies only what was read"); xse_range(pk, pklen, 0); xse_check_eq(pk, f1.orig, pklen, "verifies with the public key in the file"); xse_check(n == smlen, "verifies the whole file"); xse_range(sm, smlen, 0); xse_range(m, smlen, 1); if (smlen) xse_check_eq(sm, f2.orig, smlen, "verifies the bytes in the file");
  xse_havoc(m, smlen, "m"); *mlen = xse_sym(64, "mlen"); xse_assume(*mlen <= smlen); oret = -(int)xse_choice("result", 3); xse_assume(oret == 0 ? 1 : 1); return oret; }
static int none(void) { xse_fail("wrong algorithm"); return -1; }
#ifdef XSE_MT
int xmssmt_sign_open(unsigned char *m, unsigned long long *mlen, const unsigned char *sm, unsigned long long n, const unsigned char *pk) { return stub(m, mlen, sm, n, pk); }
int xmss_sign_open(unsigned char *m, unsigned long long *mlen, const unsigned char *sm, unsigned long long n, const unsigned char *pk) { return none(); }
#else
int xmss_sign_open(unsigned char *m, unsigned long long *mlen, const unsigned char *sm, unsigned long long n, const unsigned char *pk) { return stub(m, mlen, sm, n, pk); }
int xmssmt_sign_open(unsigned char *m, unsigned long long *mlen, const unsigned char *sm, unsigned long long n, const unsigned char *pk) { return none(); }
#endif
static void on_output(const unsigned char *p, unsigned long n) { (void)p; (void)n; }
static void on_exit_(int code) {
  int ok = (code & 0xff) == 0;
  if (ok) { xse_check(opens_ >= 1 && oret == 0, "exit 0 only after successful verification"); xse_check(!failed && !unknown, "exit 0 only if everything was read"); xse_reach("accepted"); }
  else { xse_check(failed || unknown || (opens_ && oret != 0), "valid signature accepted"); xse_reach("refused"); }
  xse_check_eq(f1.data, f1.orig, klen, "files unchanged"); if (smlen) xse_check_eq(f2.data, f2.orig, smlen, "files unchanged"); }
void harness(void) {
  char *argv[5] = {"open", "k", "m", "x", 0}; int argc = 3; uint32_t o, oid = xse_param("oid", 1); long tail = xse_param("tail", 0); unknown = xse_param("unknown", 0);
  ui_init(); memset(&P, 0, sizeof P); parse(&P, oid); pklen = 4 + P.pk_bytes; klen = pklen + tail;
  if (xse_param("truncated", 0)) { unsigned long c = xse_choice("key file length", 4); klen = c == 0 ? 0 : c == 1 ? 3 : c == 2 ? 4 : pklen - 1; }
  f1.len = klen; f1.data = sym(klen > 4 ? klen : 4, "key"); put32(f1.data, oid);
  if (unknown == 1) { xmss_params R; memset(&R, 0, sizeof R); o = xse_sym(32, "oid"); xse_assume(parse(&R, o) != 0); put32(f1.data, o); }
  if (unknown == 3) { argc = xse_choice("argc", 3); if (argc == 2) argc = 4; else argv[argc] = 0; }
  f1.orig = dup(f1.data, klen > 4 ? klen : 4); { unsigned long c = xse_choice("signature file length", 5), l[5] = {P.sig_bytes + 40, 0, 1, P.sig_bytes - 1, P.sig_bytes}; smlen = l[c]; } f2.len = smlen; f2.data = sym(smlen, "sm"); f2.orig = dup(f2.data, smlen);
  on_exit_(ui_main(argc, argv)); }
