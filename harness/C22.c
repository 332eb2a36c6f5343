/* C22: the key generation tool writes public key and secret key, and exits 0 only if both were written. */
#include "ui_model.h"
static xmss_params P; static uint32_t oid; static int keys, kret, unknown; static unsigned char *want; static unsigned long wlen;
uint32_t __any_oid; 
static int stub(unsigned char *pk, unsigned char *sk, uint32_t o) {
  keys++; xse_check(keys == 1, "one key pair"); xse_check(!unknown, "unknown name refused"); xse_check(o == oid, "the named parameter set"); xse_range(pk, 4 + P.pk_bytes, 1); xse_range(sk, 4 + P.sk_bytes, 1);
  xse_sym_words(pk, 4 + P.pk_bytes, "pk"); xse_sym_words(sk, 4 + P.sk_bytes, "sk"); put32(pk, o); put32(sk, o); wlen = 8 + P.pk_bytes + P.sk_bytes; want = malloc(wlen); memcpy(want, pk, 4 + P.pk_bytes); memcpy(want + 4 + P.pk_bytes, sk, 4 + P.sk_bytes);
  kret = -(int)xse_choice("result of key generation", 2); if (kret) failed = 1; return kret; }
static int none(void) { xse_fail("wrong algorithm"); return -1; }
#ifdef XSE_MT
int xmssmt_keypair(unsigned char *pk, unsigned char *sk, const uint32_t o) { return stub(pk, sk, o); }
int xmss_keypair(unsigned char *pk, unsigned char *sk, const uint32_t o) { return none(); }
#else
int xmss_keypair(unsigned char *pk, unsigned char *sk, const uint32_t o) { return stub(pk, sk, o); }
int xmssmt_keypair(unsigned char *pk, unsigned char *sk, const uint32_t o) { return none(); }
#endif
static void on_output(const unsigned char *p, unsigned long n) { xse_check(!unknown && keys == 1 && !failed, "no output without a key pair"); if (out_err) return; xse_check(outlen + n <= wlen, "nothing but the key pair"); xse_check_eq(p, want + outlen, n, "public key, then secret key"); xse_reach("output"); }
static void on_exit_(int code) {
  int ok = (code & 0xff) == 0; xse_check(!text, "nothing but the key pair");
  if (unknown || failed) { xse_check(!ok, "failure reported"); xse_check(!released, "no key output"); xse_reach("refused"); }
  else if (ok) { if (!out_closed && !out_err && !released) xse_fail("exit 0 without output"); xse_check(outlen == wlen && !out_err, "exit 0 only if everything was written"); xse_check(!out_dirty || out_closed, "exit 0 only if everything was flushed"); xse_reach("ok"); }
  else { xse_check(out_err, "a run without faults succeeds"); xse_reach("write error"); } }
void harness(void) {
  char *argv[5] = {"keypair", 0, "x", "y", 0}; int argc = 2; char *name = calloc(40, 1); unknown = xse_param("unknown", 0); ui_init(); memset(&P, 0, sizeof P); argv[1] = name;
  oid = xse_param("oid", 1); parse(&P, oid);
  { static const char *hf[] = {"SHA2", "SHAKE", "SHAKE256"}; 
    /* the registry's name of this OID, built from its RFC 8391 / SP 800-208 components */
    unsigned hh = xse_param("hash", 0), h = xse_param("h", 10), d = xse_param("d", 1), bits = 8 * xse_param("n", 32), o = 0, v, dv; const char *q = fam() ? "XMSSMT-" : "XMSS-"; while (*q) name[o++] = *q++; q = hf[hh]; while (*q) name[o++] = *q++; name[o++] = '_'; name[o++] = '0' + h / 10; name[o++] = '0' + h % 10; if (fam()) { name[o++] = '/'; if (d >= 10) name[o++] = '0' + d / 10; name[o++] = '0' + d % 10; } name[o++] = '_'; for (v = bits, dv = 100; dv; dv /= 10) name[o++] = '0' + v / dv % 10; name[o] = 0; }
  if (unknown == 1) { uint32_t x = 0; unsigned i, l = xse_param("len", 20); for (i = 0; i < l; i++) { name[i] = xse_sym(8, "c"); } name[l] = 0; xse_assume((fam() ? xmssmt_str_to_oid(&x, name) : xmss_str_to_oid(&x, name)) != 0); }
  if (unknown == 3) { static const int n[] = {0, 1, 3, 4}; argc = n[xse_choice("argc", 4)]; if (argc == 0) argv[0] = 0; if (argc < 2) argv[1] = 0; else argv[argc] = 0; }
  on_exit_(ui_main(argc, argv)); }
