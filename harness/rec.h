/* rec.h: common part of the drivers.  One case per input line; each case runs
   in a forked child, so a crash, a hang or an exit is one record. */
#ifndef REC_H
#define REC_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdbool.h>
#include <math.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/resource.h>

#ifdef __cplusplus
extern "C" {
#endif

/* ---- output buffer (never through the wrapped allocator) ---- */
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);

extern void out(const char *fmt, ...);
extern void out_bytes(const unsigned char *p, size_t n);   /* [1,2,3] */
extern void out_str(const char *s);                        /* JSON string */

/* ---- allocation accounting ---- */
extern void mem_start(void);
extern long mem_live(void);            /* live blocks allocated since mem_start */
extern long mem_badfree(void);
extern void mem_stop(void);
extern int mem_fill;                   /* value new memory is filled with, or -1 */
extern long mem_total(void);

/* ---- tokens ---- */
extern char *tok(char **p);
extern long tokl(char **p);
extern double tokd(char **p);
extern unsigned char *tokhex(char **p, size_t *n);

/* a driver implements this */
extern void run_case(char *line);
extern int rec_main(int argc, char **argv);
#ifdef __cplusplus
}
#endif
#endif
