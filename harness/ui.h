/* Force-included in front of /repo/ui/*.c: the C library's files, memory and process exit become the model in ui_model.h. */
#ifndef UI_H
#define UI_H
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
typedef struct xs_file xs_file;
#undef stdin
#undef stdout
#undef stderr
#undef putc
#undef putchar
#define FILE xs_file
extern xs_file *xs_stdout, *xs_stderr, *xs_stdin;
#define stdout xs_stdout
#define stderr xs_stderr
#define stdin xs_stdin
xs_file *xs_fopen(const char *, const char *); int xs_fclose(xs_file *); int xs_fflush(xs_file *); int xs_fseek(xs_file *, long, int); long xs_ftell(xs_file *); void xs_rewind(xs_file *);
size_t xs_fread(void *, size_t, size_t, xs_file *); size_t xs_fwrite(const void *, size_t, size_t, xs_file *); int xs_fputc(int, xs_file *); int xs_fgetc(xs_file *); int xs_fputs(const char *, xs_file *); int xs_puts(const char *); int xs_putchar(int);
int xs_fprintf(xs_file *, const char *, ...); int xs_printf(const char *, ...); void xs_perror(const char *); int xs_ferror(xs_file *); int xs_feof(xs_file *); int xs_fileno(xs_file *); int xs_fsync(int); int xs_setvbuf(xs_file *, char *, int, size_t); void xs_setbuf(xs_file *, char *); long xs_write(int, const void *, size_t);
void *xs_malloc(size_t); void *xs_calloc(size_t, size_t); void xs_free(void *); void xs_exit(int) __attribute__((noreturn));
#define fopen xs_fopen
#define fclose xs_fclose
#define fflush xs_fflush
#define fseek xs_fseek
#define fseeko xs_fseek
#define ftell xs_ftell
#define ftello xs_ftell
#define rewind xs_rewind
#define fread xs_fread
#define fwrite xs_fwrite
#define fputc xs_fputc
#define putc xs_fputc
#define fgetc xs_fgetc
#define getc xs_fgetc
#define fputs xs_fputs
#define puts xs_puts
#define putchar xs_putchar
#define fprintf xs_fprintf
#define printf xs_printf
#define perror xs_perror
#define ferror xs_ferror
#define feof xs_feof
#define fileno xs_fileno
#define fsync xs_fsync
#define fdatasync xs_fsync
#define setvbuf xs_setvbuf
#define setbuf xs_setbuf
#define write xs_write
#define malloc xs_malloc
#define calloc xs_calloc
#define free xs_free
#define exit xs_exit
#define main ui_main
#endif
