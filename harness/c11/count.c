/* Counts calls of the malloc family on their way to the preloaded allocator. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static long n_alloc, n_free, n_re, n_al;
static void *(*r_malloc)(size_t), *(*r_calloc)(size_t, size_t), *(*r_realloc)(void *, size_t), *(*r_aa)(size_t, size_t), *(*r_ma)(size_t, size_t);
static int (*r_pm)(void **, size_t, size_t);
static void (*r_free)(void *);
#define R(f, n) (f ? f : (f = dlsym(RTLD_NEXT, n)))
#define INC(c) __atomic_add_fetch(&c, 1, __ATOMIC_RELAXED)
void *malloc(size_t n) { INC(n_alloc); return R(r_malloc, "malloc")(n); }
void *calloc(size_t a, size_t b) { INC(n_alloc); return R(r_calloc, "calloc")(a, b); }
void *realloc(void *p, size_t n) { INC(n_re); return R(r_realloc, "realloc")(p, n); }
void free(void *p) { INC(n_free); R(r_free, "free")(p); }
void *aligned_alloc(size_t a, size_t b) { INC(n_al); return R(r_aa, "aligned_alloc")(a, b); }
void *memalign(size_t a, size_t b) { INC(n_al); return R(r_ma, "memalign")(a, b); }
int posix_memalign(void **p, size_t a, size_t b) { INC(n_al); return R(r_pm, "posix_memalign")(p, a, b); }
__attribute__((destructor)) static void out(void) {
    const char *f = getenv("VH_COUNT");
    if(!f) return;
    char b[400];
    Dl_info d = {0};
    void *m = dlsym(RTLD_NEXT, "malloc");
    dladdr(m, &d);
    const char *lib = d.dli_fname ? strrchr(d.dli_fname, '/') : NULL;
    int n = snprintf(b, sizeof b, "%ld %ld %ld %ld %s\n", n_alloc, n_free, n_re, n_al, lib ? lib + 1 : "?");
    int fd = open(f, O_WRONLY | O_APPEND | O_CREAT, 0666);
    if(fd >= 0) { if(write(fd, b, n) < 0) {} close(fd); }
}
