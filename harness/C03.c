/* C03: shake128/shake256 are the FIPS 202 functions. The specification below follows FIPS 202 section 3
   (A[x,y] lanes, step mappings theta, rho, pi, chi, iota with offsets and round constants computed
   from their definitions) and section 4 (sponge, pad10*1, suffix 1111). */
#include "xse.h"
#include "fips202.h"
static uint64_t rl(uint64_t v, unsigned s) { s %= 64; return s ? (v << s) | (v >> (64 - s)) : v; }
static unsigned off[5][5]; static uint64_t rc[24];
static void tables(void) {
  unsigned x = 1, y = 0, t, r, j; off[0][0] = 0;
  for (t = 0; t < 24; t++) { unsigned nx = y, ny = (2 * x + 3 * y) % 5; off[x][y] = ((t + 1) * (t + 2) / 2) % 64; x = nx; y = ny; }
  unsigned R = 1; /* LFSR x^8+x^6+x^5+x^4+1 */
  for (r = 0; r < 24; r++) { rc[r] = 0; for (j = 0; j <= 6; j++) { if (R & 1) rc[r] |= 1UL << ((1u << j) - 1); R <<= 1; if (R & 256) R ^= 0x171; } }
}
static void keccakf(uint64_t A[25]) { /* A[x + 5y] */
  unsigned r, x, y;
  for (r = 0; r < 24; r++) {
    uint64_t C[5], D[5], B[25];
    for (x = 0; x < 5; x++) C[x] = A[x] ^ A[x + 5] ^ A[x + 10] ^ A[x + 15] ^ A[x + 20];
    for (x = 0; x < 5; x++) D[x] = C[(x + 4) % 5] ^ rl(C[(x + 1) % 5], 1);
    for (x = 0; x < 5; x++) for (y = 0; y < 5; y++) B[y + 5 * ((2 * x + 3 * y) % 5)] = rl(A[x + 5 * y] ^ D[x], off[x][y]);
    for (x = 0; x < 5; x++) for (y = 0; y < 5; y++) A[x + 5 * y] = B[x + 5 * y] ^ (~B[(x + 1) % 5 + 5 * y] & B[(x + 2) % 5 + 5 * y]);
    A[0] ^= rc[r];
  } }
#ifdef CUT_KECCAK
static void perm(uint64_t *A) { uint64_t o[25]; xse_uf("KeccakF", o, 200, A, 200); memcpy(A, o, 200); }
void __override_KeccakF1600_StatePermute(uint64_t *state) { perm(state); }
#endif
#ifdef PERM
extern void KeccakF1600_StatePermute(uint64_t *state);
void harness_perm(void) { uint64_t a[25], b[25]; tables(); xse_sym_words(a, 200, "state"); memcpy(b, a, 200); 
  KeccakF1600_StatePermute(a); keccakf(b); xse_check_eq(a, b, 200, "permutation equals Keccak-f[1600]"); xse_reach("end"); }
#endif
#ifndef CUT_KECCAK
#define perm keccakf
#endif
static void sponge(unsigned char *out, unsigned long outlen, const unsigned char *in, unsigned long inlen, unsigned rate) {
  uint64_t A[25] = {0}; unsigned long nb = inlen / rate + 1, b, i, o = 0; unsigned char *p = calloc(nb, rate);
  if (inlen) memcpy(p, in, inlen); p[inlen] ^= 0x1f; p[nb * rate - 1] ^= 0x80;
  for (b = 0; b < nb; b++) { for (i = 0; i < rate / 8; i++) { uint64_t v; memcpy(&v, p + b * rate + 8 * i, 8); A[i] ^= v; } perm(A); }
  for (;;) { for (i = 0; i < rate && o < outlen; i++) out[o++] = (unsigned char)(A[i / 8] >> (8 * (i % 8))); if (o >= outlen) break; perm(A); }
  free(p); }
void harness(void) {
  unsigned which = xse_param("which", 128); unsigned long inlen = xse_param("inlen", 0) + xse_choice("inlen", xse_param("incount", 1)), outlen = xse_param("outlen", 32) + xse_choice("outlen", xse_param("outcount", 1));
  unsigned char *in = malloc(inlen), *in0 = malloc(inlen + 1), *out = malloc(outlen), *e = malloc(outlen + 1);
  tables(); xse_sym_words(in, inlen, "in"); memcpy(in0, in, inlen); xse_havoc(out, outlen, "old");
  if (which == 128) shake128(out, outlen, in, inlen); else shake256(out, outlen, in, inlen);
  sponge(e, outlen, in0, inlen, which == 128 ? 168 : 136);
  xse_check_eq(out, e, outlen, "output equals FIPS 202"); xse_check_eq(in, in0, inlen, "input unchanged"); xse_reach("end");
}
