/* C01: parameter registry. The table below is written from RFC 8391 (5.3, 5.4, 8) and SP 800-208 (5, 6). */
#include "xse.h"
#include "params.h"
struct set { uint32_t oid; const char *name; unsigned func, n, pad, h, d; };
static const struct set XMSS[] = {
  {1, "XMSS-SHA2_10_256", XMSS_SHA2, 32, 32, 10, 1}, {2, "XMSS-SHA2_16_256", XMSS_SHA2, 32, 32, 16, 1}, {3, "XMSS-SHA2_20_256", XMSS_SHA2, 32, 32, 20, 1},
  {4, "XMSS-SHA2_10_512", XMSS_SHA2, 64, 64, 10, 1}, {5, "XMSS-SHA2_16_512", XMSS_SHA2, 64, 64, 16, 1}, {6, "XMSS-SHA2_20_512", XMSS_SHA2, 64, 64, 20, 1},
  {7, "XMSS-SHAKE_10_256", XMSS_SHAKE128, 32, 32, 10, 1}, {8, "XMSS-SHAKE_16_256", XMSS_SHAKE128, 32, 32, 16, 1}, {9, "XMSS-SHAKE_20_256", XMSS_SHAKE128, 32, 32, 20, 1},
  {10, "XMSS-SHAKE_10_512", XMSS_SHAKE256, 64, 64, 10, 1}, {11, "XMSS-SHAKE_16_512", XMSS_SHAKE256, 64, 64, 16, 1}, {12, "XMSS-SHAKE_20_512", XMSS_SHAKE256, 64, 64, 20, 1},
  {13, "XMSS-SHA2_10_192", XMSS_SHA2, 24, 4, 10, 1}, {14, "XMSS-SHA2_16_192", XMSS_SHA2, 24, 4, 16, 1}, {15, "XMSS-SHA2_20_192", XMSS_SHA2, 24, 4, 20, 1},
  {16, "XMSS-SHAKE256_10_256", XMSS_SHAKE256, 32, 32, 10, 1}, {17, "XMSS-SHAKE256_16_256", XMSS_SHAKE256, 32, 32, 16, 1}, {18, "XMSS-SHAKE256_20_256", XMSS_SHAKE256, 32, 32, 20, 1},
  {19, "XMSS-SHAKE256_10_192", XMSS_SHAKE256, 24, 4, 10, 1}, {20, "XMSS-SHAKE256_16_192", XMSS_SHAKE256, 24, 4, 16, 1}, {21, "XMSS-SHAKE256_20_192", XMSS_SHAKE256, 24, 4, 20, 1} };
#define FAM(o, pre, suf, func, n, pad) {o, pre "_20/2_" suf, func, n, pad, 20, 2}, {o + 1, pre "_20/4_" suf, func, n, pad, 20, 4}, {o + 2, pre "_40/2_" suf, func, n, pad, 40, 2}, {o + 3, pre "_40/4_" suf, func, n, pad, 40, 4}, \
  {o + 4, pre "_40/8_" suf, func, n, pad, 40, 8}, {o + 5, pre "_60/3_" suf, func, n, pad, 60, 3}, {o + 6, pre "_60/6_" suf, func, n, pad, 60, 6}, {o + 7, pre "_60/12_" suf, func, n, pad, 60, 12}
static const struct set MT[] = { FAM(1, "XMSSMT-SHA2", "256", XMSS_SHA2, 32, 32), FAM(9, "XMSSMT-SHA2", "512", XMSS_SHA2, 64, 64), FAM(17, "XMSSMT-SHAKE", "256", XMSS_SHAKE128, 32, 32), FAM(25, "XMSSMT-SHAKE", "512", XMSS_SHAKE256, 64, 64),
  FAM(33, "XMSSMT-SHA2", "192", XMSS_SHA2, 24, 4), FAM(41, "XMSSMT-SHAKE256", "256", XMSS_SHAKE256, 32, 32), FAM(49, "XMSSMT-SHAKE256", "192", XMSS_SHAKE256, 24, 4) };
static unsigned len2of(unsigned len1, unsigned w) { /* smallest number of base-w digits holding len1*(w-1) */
  unsigned long m = (unsigned long)len1 * (w - 1), p = w; unsigned k = 1; while (p <= m) { p *= w; k++; } return k; }
static void checkset(const xmss_params *p, unsigned func, unsigned n, unsigned pad, unsigned w, unsigned h, unsigned d, int std) {
  unsigned lw = w == 4 ? 2 : w == 16 ? 4 : 8, l1 = 8 * n / lw, l2 = len2of(l1, w), ib = d == 1 ? 4 : (h + 7) / 8;
  if (std) { xse_check(p->func == func, "hash function"); xse_check(p->padding_len == pad, "padding length"); }
  xse_check(p->n == n, "n"); xse_check(p->wots_w == w, "w"); xse_check(p->wots_log_w == lw, "log w"); xse_check(p->wots_len1 == l1, "len1"); xse_check(p->wots_len2 == l2, "len2");
  xse_check(p->wots_len == l1 + l2, "len"); xse_check(p->wots_sig_bytes == (l1 + l2) * n, "WOTS signature bytes"); xse_check(p->full_height == h, "full height"); xse_check(p->d == d, "layers"); xse_check(p->tree_height == h / d, "tree height");
  xse_check(p->index_bytes == ib, "index bytes"); xse_check(p->sig_bytes == ib + n + d * (l1 + l2) * n + h * n, "signature bytes"); xse_check(p->pk_bytes == 2 * n, "public key bytes");
  if (xse_param("ref", 1)) xse_check(p->sk_bytes == ib + 4 * n, "secret key bytes (reference)");
}
void harness(void) {
  int mt = xse_param("mt", 0), mode = xse_param("mode", 0); const struct set *t = mt ? MT : XMSS; unsigned cnt = mt ? 56 : 21, i;
  xmss_params p; memset(&p, 0, sizeof p);
  if (mode == 0) { /* every 32-bit OID: accepted iff registered */
    uint32_t oid = xse_sym(32, "oid"); int known = 0, r;
    for (i = 0; i < cnt; i++) known |= oid == t[i].oid;
    r = mt ? xmssmt_parse_oid(&p, oid) : xmss_parse_oid(&p, oid);
    xse_check((r == 0) == (known != 0), "an OID is accepted exactly when registered"); xse_check(r <= 0, "refusal is negative"); xse_reach("oid");
  } else if (mode == 1) { /* each registered OID: exact parameters, and its name maps to it */
    const struct set *s = &t[xse_choice("set", cnt)]; uint32_t o = 0xdeadbeef; int r; 
    xmss_params q; xse_havoc(&p, sizeof p, "stale params"); xse_havoc(&q, sizeof q, "stale params"); /* the callers pass an uninitialised struct: no field may survive */
    r = mt ? xmssmt_parse_oid(&p, s->oid) : xmss_parse_oid(&p, s->oid);
    xse_check(r == 0, "registered OID accepted"); checkset(&p, s->func, s->n, s->pad, 16, s->h, s->d, 1); xse_check(p.bds_k == 0, "bds_k");
    r = mt ? xmssmt_parse_oid(&q, s->oid) : xmss_parse_oid(&q, s->oid); xse_check(r == 0 && q.sk_bytes == p.sk_bytes && p.sk_bytes >= p.index_bytes + 4 * p.n && p.sk_bytes < (1UL << 24), "secret key size does not depend on stale memory");
    r = mt ? xmssmt_str_to_oid(&o, s->name) : xmss_str_to_oid(&o, s->name); xse_check(r == 0 && o == s->oid, "name maps to its registered OID"); xse_reach("set");
  } else if (mode == 2) { /* every other name is refused: fully symbolic NUL-terminated string */
    char nm[33]; uint32_t o = 0xdeadbeef, want = 0; int r; unsigned j; xse_sym_bytes(nm, 32, "name"); nm[32] = 0;
    for (i = 0; i < cnt; i++) { int eq = 1; for (j = 0; t[i].name[j]; j++) eq &= nm[j] == t[i].name[j]; eq &= nm[j] == 0; want = eq ? t[i].oid : want; }
    r = mt ? xmssmt_str_to_oid(&o, nm) : xmss_str_to_oid(&o, nm);
    xse_check((r == 0) == (want != 0), "a name is accepted exactly when registered"); xse_check(r != 0 || o == want, "accepted name maps to its OID"); xse_check(r <= 0, "refusal is negative"); xse_reach("name");
  } else if (mode == 3) { /* custom parameters */
    unsigned w[] = {4, 16, 256}, ww = w[xse_choice("w", 3)], d = xse_param("d", 1), n = xse_sym(32, "n"), th = xse_sym(32, "tree_height"); int r; static const unsigned ns[] = {24, 32, 64};
    n = ns[xse_choice("n", 3)]; xse_assume(th >= 1 && th * d <= 64 && th <= 64);
    p.n = n; p.wots_w = ww; p.full_height = th * d; p.d = d; p.func = xse_choice("func", 3); p.bds_k = 0;
    r = xmss_xmssmt_initialize_params(&p); xse_check(r == 0, "custom parameters accepted"); checkset(&p, 0, n, 0, ww, th * d, d, 0); xse_reach("custom");
  } else { unsigned ww = xse_sym(32, "w"); xse_assume(ww != 4 && ww != 16 && ww != 256); p.n = 32; p.d = 2; p.full_height = 20; p.wots_w = ww; p.func = 0; xse_check(xmss_xmssmt_initialize_params(&p) < 0, "other Winternitz parameters refused"); xse_reach("badw"); }
}
