/* A model of the C library as the command line tools see it. Every call that can fail does so in one of the runs.
   A stream's bytes are on disk for certain only after a successful fflush, fclose or fseek (or with _IONBF). */
#ifndef UI_MODEL_H
#define UI_MODEL_H
#include "xse.h"
#include "params.h"
struct xs_file { const char *path; unsigned char *data, *orig; unsigned long len, pos; int open, writable, dirty, unbuf, bad, opened; };
typedef struct xs_file F;
static F f1, f2, fout, ferr, fin; F *xs_stdout = &fout, *xs_stderr = &ferr, *xs_stdin = &fin;
static int failed; /* something the tool must not survive has happened */
static int released; static unsigned long outlen; static int out_err, out_closed, out_dirty; static int quiet; /* no more faults */
static void on_output(const unsigned char *p, unsigned long n), on_exit_(int code);
static int fault(const char *l) { return quiet ? 0 : (int)xse_choice(l, 2); }
static void alive(F *f) { if (!f || !f->open) xse_fail("operation on a stream that is not open"); }
F *xs_fopen(const char *p, const char *mode) { F *f = !strcmp(p, "k") ? &f1 : !strcmp(p, "m") ? &f2 : 0; int i; xse_check(f != 0, "opens only the files it was given"); if (fault("fopen fails")) { failed = 1; return 0; }
  f->open = 1; f->opened = 1; f->pos = 0; f->writable = 0; for (i = 0; mode[i]; i++) { if (mode[i] == '+' || mode[i] == 'a' || mode[i] == 'w') f->writable = 1; if (mode[i] == 'w') { f->len = 0; xse_fail("truncates an existing file"); } if (mode[i] == 'a') f->pos = f->len; } return f; }
static int flush(F *f, const char *l) { if (f == &fout) { if (!out_dirty) return 0; if (out_err || fault(l)) { out_err = 1; return -1; } out_dirty = 0; return 0; }
  if (f == &ferr || !f->dirty) return 0; if (fault(l)) { f->bad = 1; failed = 1; return -1; } f->dirty = 0; return 0; }
int xs_fflush(F *f) { if (!f) { int a = flush(&f1, "fflush fails"), b = flush(&f2, "fflush fails"), c = flush(&fout, "fflush fails"); return a | b | c; } alive(f); return flush(f, "fflush fails"); }
int xs_fclose(F *f) { int r; alive(f); r = flush(f, "fclose fails"); f->open = 0; if (f == &fout) out_closed = 1; return r; }
int xs_fseek(F *f, long o, int w) { long b; alive(f); if (flush(f, "fseek cannot flush")) return -1; if (fault("fseek fails")) { failed = 1; return -1; } b = w == 0 ? 0 : w == 1 ? (long)f->pos : (long)f->len; if (b + o < 0) return -1; f->pos = b + o; return 0; }
long xs_ftell(F *f) { alive(f); if (fault("ftell fails")) { failed = 1; return -1; } return f->pos; }
void xs_rewind(F *f) { alive(f); flush(f, "rewind cannot flush"); f->pos = 0; }
size_t xs_fread(void *p, size_t s, size_t n, F *f) { unsigned long t = s * n, k; alive(f); if (!t) return 0; if (f->dirty) xse_fail("reads after writing without a seek"); xse_range(p, t, 1);
  if (f->pos > f->len || t > f->len - f->pos || fault("fread short")) { failed = 1; k = xse_sym(64, "items read"); xse_assume(k < n); xse_havoc(p, t, "partial read"); return k; }
  memcpy(p, f->data + f->pos, t); f->pos += t; return n; }
static unsigned long put(const void *p, unsigned long t, F *f) {
  if (!t) return 0; alive(f); xse_range(p, t, 0);
  if (f == &ferr) return t;
  if (f == &fout) { on_output(p, t); released = 1; if (fault("write to stdout fails")) { unsigned long k = xse_sym(64, "bytes written"); xse_assume(k < t); out_err = 1; return k; } outlen += t; out_dirty = 1; return t; }
  xse_check(f->writable, "writes only to a stream opened for writing");
  if (f->pos + t > f->len) { xse_fail("file grows"); return 0; }
  if (fault("write to file fails")) { unsigned long k = xse_sym(64, "bytes written"); xse_assume(k < t); failed = 1; f->bad = 1; f->dirty = 1; xse_havoc(f->data + f->pos, 1, "partial write"); return k; }
  memcpy(f->data + f->pos, p, t); f->pos += t; if (!f->unbuf) f->dirty = 1; return t; }
size_t xs_fwrite(const void *p, size_t s, size_t n, F *f) { unsigned long k = put(p, s * n, f); return k == s * n ? n : s == 1 ? k : 0; }
int xs_fputc(int c, F *f) { unsigned char b = c; return put(&b, 1, f) == 1 ? b : -1; }
int xs_fgetc(F *f) { unsigned char b; return xs_fread(&b, 1, 1, f) == 1 ? b : -1; }
int xs_fputs(const char *s, F *f) { unsigned long n = 0; while (s[n]) n++; return put(s, n, f) == n ? 1 : -1; }
static int text; /* formatted output on stdout */
int xs_puts(const char *s) { (void)s; text = 1; return 1; }
int xs_putchar(int c) { return xs_fputc(c, &fout); }
int xs_fprintf(F *f, const char *m, ...) { (void)m; alive(f); if (f == &fout) text = 1; else if (f != &ferr) xse_fail("formatted output to a file"); return 1; }
int xs_printf(const char *m, ...) { (void)m; text = 1; return 1; }
void xs_perror(const char *m) { (void)m; }
int xs_ferror(F *f) { return f == &fout ? out_err : f->bad; }
int xs_feof(F *f) { return f->pos >= f->len; }
int xs_fileno(F *f) { return f == &fin ? 0 : f == &fout ? 1 : f == &ferr ? 2 : f == &f1 ? 3 : 4; }
int xs_fsync(int fd) { (void)fd; return fault("fsync fails") ? (failed = 1, -1) : 0; }
int xs_setvbuf(F *f, char *b, int m, size_t n) { (void)b; (void)n; f->unbuf = m == 2; return 0; }
void xs_setbuf(F *f, char *b) { f->unbuf = !b; }
long xs_write(int fd, const void *p, size_t n) { F *f = fd == 1 ? &fout : fd == 2 ? &ferr : fd == 3 ? &f1 : &f2; long k = put(p, n, f); if (f != &fout) f->dirty = 0; return k; }
void *xs_malloc(size_t n) { if (n == 0) return malloc(1); if (fault("malloc fails")) { failed = 1; return 0; } return malloc(n); }
void *xs_calloc(size_t a, size_t b) { void *p = xs_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void xs_free(void *p) { if (p) free(p); }
void xs_exit(int c) { on_exit_(c); xse_kill(); }
static void ui_init(void) { fout.open = ferr.open = fin.open = 1; fout.writable = ferr.writable = 1; f1.path = "k"; f2.path = "m"; }
static int fam(void) {
#ifdef XSE_MT
  return 1;
#else
  return 0;
#endif
}
static int parse(xmss_params *P, uint32_t oid) { return fam() ? xmssmt_parse_oid(P, oid) : xmss_parse_oid(P, oid); }
static unsigned char *sym(unsigned long l, const char *nm) { unsigned char *p = malloc(l ? l : 1); xse_sym_words(p, l, nm); return p; }
static unsigned char *dup(const unsigned char *s, unsigned long l) { unsigned char *p = malloc(l ? l : 1); if (l) memcpy(p, s, l); return p; }
static void put32(unsigned char *p, uint32_t v) { p[0] = v >> 24; p[1] = v >> 16; p[2] = v >> 8; p[3] = v; }
int ui_main(int argc, char **argv);
#endif
