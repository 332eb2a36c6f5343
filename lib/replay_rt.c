/* Concrete runtime for replaying a counterexample: every xse_* call takes its value from the
   model file named by XSE_MODEL; functions left uninterpreted during solving use the model's
   table and otherwise a deterministic pseudo-random function (SHA-2 symbols: the real hash). */
#include "../harness/xse.h"
#include <stdio.h>
#include <openssl/sha.h>
struct nv { char *s; unsigned long v; };
static struct nv params[64], vars[400000], choices[4096]; static int np, nvars, nch, chpos;
struct uf { char *name; unsigned long inlen; unsigned char *in; int cnt; unsigned *idx; unsigned char *val; };
static struct uf ufs[200000]; static int nuf; static int loaded;
static int *vhash; static unsigned vmask;
static unsigned hs(const char *s) { unsigned h = 2166136261u; while (*s) h = (h ^ (unsigned char)*s++) * 16777619u; return h; }
static unsigned hb(const unsigned char *s, unsigned long n) { unsigned h = 2166136261u; while (n--) h = (h ^ *s++) * 16777619u; return h; }
static int uhash[1 << 19];
static void load(void) {
  if (loaded) return; loaded = 1; const char *fn = getenv("XSE_MODEL"); FILE *f = fn ? fopen(fn, "r") : 0; if (!f) { fprintf(stderr, "REPLAY-ERROR no model\n"); exit(4); }
  vmask = (1 << 20) - 1; vhash = calloc(vmask + 1, sizeof(int)); char *line = 0; size_t cap = 0; ssize_t n;
  while ((n = getline(&line, &cap, f)) > 0) { line[n - 1] = 0; char *sp = strchr(line, ' '); if (!sp) continue; *sp++ = 0;
    if (!strcmp(line, "param")) { char *b = strrchr(sp, ' '); *b = 0; params[np].s = strdup(sp); params[np++].v = strtol(b + 1, 0, 10); }
    else if (!strcmp(line, "choice")) { char *b = strrchr(sp, ' '); *b = 0; choices[nch].s = strdup(sp); choices[nch++].v = strtoul(b + 1, 0, 10); }
    else if (!strcmp(line, "var")) { char *b = strrchr(sp, ' '); unsigned long v = strtoul(b + 1, 0, 10); *b = 0; b = strrchr(sp, ' '); *b = 0; vars[nvars].s = strdup(sp); vars[nvars].v = v; unsigned h = hs(sp) & vmask; while (vhash[h]) h = (h + 1) & vmask; vhash[h] = ++nvars; }
    else if (!strcmp(line, "uf")) { struct uf *u = &ufs[nuf]; char *sv; char *t = strtok_r(sp, " ", &sv); u->name = strdup(t); u->inlen = strtoul(strtok_r(0, " ", &sv), 0, 10); t = strtok_r(0, " ", &sv); u->in = malloc(u->inlen + 1); for (unsigned long i = 0; i < u->inlen; i++) { unsigned x; sscanf(t + 2 * i, "%2x", &x); u->in[i] = x; }
      u->cnt = atoi(strtok_r(0, " ", &sv)); u->idx = malloc(4 * u->cnt + 4); u->val = malloc(u->cnt + 1); for (int i = 0; i < u->cnt; i++) { t = strtok_r(0, " ", &sv); unsigned a, b; sscanf(t, "%u:%x", &a, &b); u->idx[i] = a; u->val[i] = b; }
      unsigned h = (hs(u->name) ^ hb(u->in, u->inlen)) & ((1 << 19) - 1); while (uhash[h]) h = (h + 1) & ((1 << 19) - 1); uhash[h] = ++nuf; }
  }
  free(line); fclose(f);
}
static int findvar(const char *s, unsigned long *v) { load(); unsigned h = hs(s) & vmask; while (vhash[h]) { if (!strcmp(vars[vhash[h] - 1].s, s)) { *v = vars[vhash[h] - 1].v; return 1; } h = (h + 1) & vmask; } return 0; }
static struct { char *s; int c; } cnts[4096]; static int ncnt;
static void fullname(char *out, const char *nm, int always) { int i; for (i = 0; i < ncnt; i++) if (!strcmp(cnts[i].s, nm)) break; if (i == ncnt) { cnts[ncnt].s = strdup(nm); cnts[ncnt++].c = 0; } int k = cnts[i].c++; if (k || always) sprintf(out, "%s#%d", nm, k); else strcpy(out, nm); }
static void bytes_of(unsigned char *p, unsigned long n, const char *nm, int always) { char b[300], c[330]; fullname(b, nm, always); for (unsigned long i = 0; i < n; i++) { unsigned long v = 0; sprintf(c, "%s[%lu]", b, i); findvar(c, &v); p[i] = v; } }
void xse_sym_bytes(void *p, unsigned long n, const char *nm) { bytes_of(p, n, nm, 0); }
void xse_havoc(void *p, unsigned long n, const char *nm) { bytes_of(p, n, nm, 1); }
void xse_sym_words(void *p, unsigned long n, const char *nm) { char b[300], c[330]; fullname(b, nm, 0); for (unsigned long i = 0; i < n; i += 8) { unsigned long v = 0; sprintf(c, "%s[%lu]", b, i); findvar(c, &v); for (unsigned long q = 0; q < 8 && i + q < n; q++) ((unsigned char *)p)[i + q] = v >> (8 * q); } }
unsigned long xse_sym(unsigned long w, const char *nm) { char b[300]; unsigned long v = 0; fullname(b, nm, 0); findvar(b, &v); return w >= 64 ? v : v & ((1UL << w) - 1); }
static void done(int rc) { fflush(stdout); fflush(stderr); _Exit(rc); }
void xse_assume(int c) { if (!c) { printf("REPLAY-ASSUMPTION-FALSE\n"); done(3); } }
void xse_check(int c, const char *l) { if (!c) { printf("REPLAY-VIOLATION %s\n", l); done(1); } }
void xse_check_eq(const void *a, const void *b, unsigned long n, const char *l) { const unsigned char *x = a, *y = b; for (unsigned long i = 0; i < n; i++) if (x[i] != y[i]) { printf("REPLAY-VIOLATION %s byte %lu: %02x != %02x\n", l, i, x[i], y[i]); done(1); } }
/* uninitialised-dependence: the program is replayed with two different fill patterns and the dumps compared by the driver */
void xse_check_init(const void *p, unsigned long n, const char *l) { const unsigned char *x = p; printf("INIT %s ", l); for (unsigned long i = 0; i < n; i++) printf("%02x", x[i]); printf("\n"); }
static void prand(const char *fn, unsigned char *out, unsigned long outlen, const unsigned char *in, unsigned long inlen) { unsigned char *b = malloc(inlen + strlen(fn) + 8), md[64]; unsigned long fl = strlen(fn); memcpy(b + 4, fn, fl); if (inlen) memcpy(b + 4 + fl, in, inlen); for (unsigned k = 0; (unsigned long)k * 64 < outlen; k++) { memcpy(b, &k, 4); SHA512(b, inlen + fl + 4, md); unsigned long m = outlen - k * 64; memcpy(out + k * 64, md, m > 64 ? 64 : m); } free(b); }
static void table(const char *fn, unsigned char *out, unsigned long outlen, const unsigned char *in, unsigned long inlen) { load(); unsigned h = (hs(fn) ^ hb(in, inlen)) & ((1 << 19) - 1); for (; uhash[h]; h = (h + 1) & ((1 << 19) - 1)) { struct uf *u = &ufs[uhash[h] - 1]; if (u->inlen != inlen || strcmp(u->name, fn) || memcmp(u->in, in, inlen)) continue; for (int i = 0; i < u->cnt; i++) if (u->idx[i] < outlen) out[u->idx[i]] = u->val[i]; } }
void xse_uf(const char *fn, void *out, unsigned long outlen, const void *in, unsigned long inlen) { unsigned char *ic = malloc(inlen + 1); memcpy(ic, in, inlen); prand(fn, out, outlen, ic, inlen); table(fn, out, outlen, ic, inlen); free(ic); }
unsigned char *xse_native_SHA256(const unsigned char *d, size_t n, unsigned char *md) { unsigned char *c = malloc(n + 1); memcpy(c, d, n); SHA256(c, n, md); table("SHA256", md, 32, c, n); free(c); return md; }
unsigned char *xse_native_SHA512(const unsigned char *d, size_t n, unsigned char *md) { unsigned char *c = malloc(n + 1); memcpy(c, d, n); SHA512(c, n, md); table("SHA512", md, 64, c, n); free(c); return md; }
long xse_param(const char *nm, long dflt) { load(); for (int i = 0; i < np; i++) if (!strcmp(params[i].s, nm)) return params[i].v; return dflt; }
unsigned long xse_choice(const char *l, unsigned long n) { load(); if (chpos >= nch) { printf("REPLAY-CHOICES-EXHAUSTED %s\n", l); return 0; } if (strcmp(choices[chpos].s, l)) { printf("REPLAY-CHOICE-MISMATCH %s %s\n", l, choices[chpos].s); done(5); } return choices[chpos++].v % (n ? n : 1); }
/* a split takes one of the choices only when its value was symbolic while solving */
unsigned long xse_split(unsigned long v, const char *l) { load(); if (chpos < nch && !strcmp(choices[chpos].s, l)) chpos++; return v; }
void xse_reach(const char *l) { (void)l; }
void xse_fail(const char *l) { printf("REPLAY-VIOLATION %s\n", l); done(1); }
void xse_kill(void) { printf("REPLAY-PATH-ENDED\n"); done(0); }
void xse_dump(const void *p, unsigned long n) { (void)p; (void)n; }
void *xse_malloc_sym(unsigned long cap, unsigned long size, const char *nm) { unsigned char *p = malloc(size ? size : 1); char c[330]; unsigned long v; for (unsigned long i = 0; i < cap && i < size; i++) { sprintf(c, "%s[%lu]", nm, i); v = 0; findvar(c, &v); p[i] = v; } if (!size) { extern void __asan_poison_memory_region(void const volatile *, size_t); __asan_poison_memory_region(p, 1); } return p; }
void xse_range(const void *p, unsigned long n, int w) { extern void *__asan_region_is_poisoned(void *, size_t); if (n) { if (__asan_region_is_poisoned((void *)p, n)) { printf("REPLAY-VIOLATION memory:%s range of %lu bytes\n", w ? "write" : "read", n); done(1); } } }
int xse_is_symbolic(unsigned long v) { (void)v; return 0; }
void xse_set_ro(void *p, int f) { (void)p; (void)f; }
#ifndef ENTRY
#define ENTRY harness
#endif
extern void ENTRY(void);
int main(void) { load(); ENTRY(); printf("REPLAY-COMPLETED\n"); done(0); }
