/* Force-included (-include) into every file of the code under test: routes its allocations and
   file opens through the monitor, without touching /repo. */
#ifndef VFHOOK_H
#define VFHOOK_H
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#ifdef __cplusplus
extern "C" {
#endif
void *vf_malloc(size_t);
void *vf_calloc(size_t, size_t);
void *vf_realloc(void *, size_t);
void vf_free(void *);
char *vf_strdup(const char *);
FILE *vf_fopen(const char *, const char *);
int vf_fclose(FILE *);
/* control */
extern long vf_alloc_count;    /* requests seen since vf_reset */
extern long vf_fail_at;        /* fail the n-th request (1-based); 0 = never */
extern int vf_fail_forever;    /* and every later one */
extern long vf_failed;         /* requests refused */
extern size_t vf_max_request;  /* larger requests are refused (0 = no limit) */
extern int vf_fill;             /* >= 0: fresh malloc blocks are filled with this byte */
void vf_reset(void);           /* counters only */
long vf_live_blocks(void);
size_t vf_live_bytes(void);
long vf_open_files(void);
void vf_forget_all(void);      /* drop tracking (after a leak was reported) */
int vf_is_live(const void *);
extern long vf_io_limit;        /* >= 0: bytes past this offset of files opened from now on are refused */
extern long vf_io_faults;       /* transfers and closes refused */
extern int vf_io_once;          /* only the first refused transfer fails */
extern int vf_io_close;         /* closing reports an error */
#ifdef __cplusplus
}
#endif
#ifndef VF_NO_REDEFINE
#define malloc vf_malloc
#define calloc vf_calloc
#define realloc vf_realloc
#define free vf_free
#undef strdup
#define strdup vf_strdup
#define fopen vf_fopen
#define fclose vf_fclose
#ifdef VF_COUNT
extern unsigned long vf_work;
#undef memset
#undef memcpy
#undef memmove
#define memset(a, b, n) (vf_work += (unsigned long)(n) / 8, memset((a), (b), (n)))
#define memcpy(a, b, n) (vf_work += (unsigned long)(n) / 8, memcpy((a), (b), (n)))
#define memmove(a, b, n) (vf_work += (unsigned long)(n) / 8, memmove((a), (b), (n)))
#endif
#endif
#endif
