#define _GNU_SOURCE
#define VF_NO_REDEFINE
#include "vfhook.h"
#include <stdint.h>
long vf_alloc_count, vf_fail_at, vf_failed;
int vf_fail_forever;
size_t vf_max_request;
int vf_fill = -1;
unsigned long vf_work;   /* control-flow edges executed and words moved by the code under test (C10) */
typedef struct { void *p; size_t n; } ent;
static ent *tab; static size_t cap, cnt, tomb; static size_t bytes;
#define TOMB ((void *)1)
static size_t h(void *p) { uint64_t x = (uint64_t)(uintptr_t)p; x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 29; return (size_t)x; }
static void put(void *p, size_t n);
static void grow(void) {
    size_t oc = cap, i; ent *o = tab;
    cap = (cnt * 4 < 1024) ? 1024 : 1; while (cap < cnt * 4) cap <<= 1;
    tab = (ent *)calloc(cap, sizeof(ent)); if (!tab) abort();
    cnt = 0; tomb = 0; bytes = 0;
    for (i = 0; i < oc; i++) if (o[i].p && o[i].p != TOMB) put(o[i].p, o[i].n);
    free(o);
}
static void put(void *p, size_t n) {
    size_t i; if (!p) return;
    if ((cnt + tomb + 1) * 2 > cap) grow();
    for (i = h(p) & (cap - 1); tab[i].p && tab[i].p != TOMB; i = (i + 1) & (cap - 1)) ;
    if (tab[i].p == TOMB) tomb--;
    tab[i].p = p; tab[i].n = n; cnt++; bytes += n;
}
static ent *find(const void *p) {
    size_t i; if (!cap) return 0;
    for (i = h((void *)p) & (cap - 1); tab[i].p; i = (i + 1) & (cap - 1)) if (tab[i].p == p) return &tab[i];
    return 0;
}
static void del(void *p) {
    ent *e = find(p); if (!e) return;
    bytes -= e->n; e->p = TOMB; cnt--; tomb++;
}
static int refuse(size_t n) {
    vf_alloc_count++;
    if ((vf_max_request && n > vf_max_request) ||
        (vf_fail_at && (vf_alloc_count == vf_fail_at || (vf_fail_forever && vf_alloc_count > vf_fail_at)))) { vf_failed++; return 1; }
    return 0;
}
void *vf_malloc(size_t n) { void *p; if (refuse(n)) return 0; p = malloc(n); if (p && vf_fill >= 0) memset(p, vf_fill, n); put(p, n); return p; }
void *vf_calloc(size_t a, size_t b) { void *p; size_t n; if (__builtin_mul_overflow(a, b, &n)) { vf_failed++; return 0; } if (refuse(n)) return 0; p = calloc(a, b); put(p, n); return p; }
void *vf_realloc(void *q, size_t n) {
    void *p; ent *e;
    if (refuse(n)) return 0;
    e = q ? find(q) : 0; (void)e;
    p = realloc(q, n);
    if (p || n == 0) { if (q) del(q); put(p, n); }
    return p;
}
void vf_free(void *p) { if (p) del(p); free(p); }
char *vf_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)vf_malloc(n); if (p) memcpy(p, s, n); return p; }
static FILE *files[256]; static int nfiles;
/* faulty files: while vf_io_limit >= 0, the bytes of a file opened from now on can be transferred only up to that offset */
#include <unistd.h>
#include <errno.h>
long vf_io_limit = -1, vf_io_faults; int vf_io_once, vf_io_close;
typedef struct { int fd; long pos, limit; int once; } iof;
static ssize_t ioRead(void *c, char *b, size_t n) { iof *x = (iof *)c; ssize_t k; if (x->limit >= 0 && x->pos + (long)n > x->limit) { if (x->pos >= x->limit) { vf_io_faults++; if (x->once) x->limit = -1; errno = EIO; return -1; } n = (size_t)(x->limit - x->pos); } k = read(x->fd, b, n); if (k > 0) x->pos += k; return k; }
static ssize_t ioWrite(void *c, const char *b, size_t n) { iof *x = (iof *)c; ssize_t k; if (x->limit >= 0 && x->pos + (long)n > x->limit) { if (x->pos >= x->limit || n == 0) { vf_io_faults++; if (x->once) x->limit = -1; errno = ENOSPC; return 0; } n = (size_t)(x->limit - x->pos); vf_io_faults++; } k = write(x->fd, b, n); if (k > 0) x->pos += k; return k < 0 ? 0 : k; }
static int ioSeek(void *c, off64_t *o, int w) { iof *x = (iof *)c; off64_t r = lseek(x->fd, *o, w); if (r < 0) return -1; x->pos = (long)r; *o = r; return 0; }
static int ioClose(void *c) { iof *x = (iof *)c; int r = close(x->fd); free(x); if (vf_io_close) { vf_io_faults++; errno = EIO; return -1; } return r; }
static FILE *open1(const char *n, const char *m) {
    cookie_io_functions_t f = {ioRead, ioWrite, ioSeek, ioClose}; iof *x; FILE *p = fopen(n, m); if (!p || (vf_io_limit < 0 && !vf_io_close)) return p;
    x = (iof *)calloc(1, sizeof *x); if (!x) abort(); x->fd = dup(fileno(p)); x->limit = vf_io_limit; x->once = vf_io_once; fclose(p); return fopencookie(x, m, f); }
FILE *vf_fopen(const char *n, const char *m) { FILE *f = open1(n, m); if (f && nfiles < 256) files[nfiles++] = f; return f; }
int vf_fclose(FILE *f) { int i; for (i = 0; i < nfiles; i++) if (files[i] == f) { files[i] = files[--nfiles]; break; } return fclose(f); }
void vf_reset(void) { vf_alloc_count = 0; vf_fail_at = 0; vf_fail_forever = 0; vf_failed = 0; }
long vf_live_blocks(void) { return (long)cnt; }
size_t vf_live_bytes(void) { return bytes; }
long vf_open_files(void) { return nfiles; }
void vf_forget_all(void) { free(tab); tab = 0; cap = cnt = tomb = 0; bytes = 0; nfiles = 0; }
int vf_is_live(const void *p) { return p && find(p) != 0; }
