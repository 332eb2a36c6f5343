/* Interface between a harness and the symbolic executor (engine/xse) or, on replay, the
   concrete runtime (lib/replay_rt.c). */
#ifndef XSE_H
#define XSE_H
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
void xse_sym_bytes(void *p, unsigned long n, const char *name);   /* fresh byte variables */
void xse_sym_words(void *p, unsigned long n, const char *name);   /* fresh 64-bit variables, little endian */
unsigned long xse_sym(unsigned long width, const char *name);     /* fresh width-bit value */
void xse_assume(int c);
void xse_check(int c, const char *label);
void xse_check_eq(const void *a, const void *b, unsigned long n, const char *label);
void xse_check_init(const void *p, unsigned long n, const char *label);
void xse_uf(const char *fn, void *out, unsigned long outlen, const void *in, unsigned long inlen); /* uninterpreted function */
long xse_param(const char *name, long dflt);
unsigned long xse_choice(const char *label, unsigned long n);     /* all alternatives, one run each */
unsigned long xse_split(unsigned long v, const char *label);      /* one run per feasible value */
void xse_reach(const char *label);                                /* vacuity witness */
void xse_fail(const char *label);
void xse_kill(void) __attribute__((noreturn));                    /* end of this path */
void xse_dump(const void *p, unsigned long n);
void *xse_malloc_sym(unsigned long cap, unsigned long size, const char *name);
void xse_range(const void *p, unsigned long n, int write);          /* the whole range lies inside one live object */
int xse_is_symbolic(unsigned long v);
void xse_havoc(void *p, unsigned long n, const char *name);
void xse_set_ro(void *p, int flag);
#endif
