/* Thread churn: keys with destructors, blocks crossing threads, exits with threads running, early and late code. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static char *early;
static void bad(const char *w) { printf("WRONG %s\n", w); fflush(stdout); _exit(9); }
__attribute__((constructor(101))) static void c0(void) { early = strdup("allocated by a constructor"); char *x = calloc(100, 100); early = realloc(early, 70000); free(x); }
__attribute__((destructor(101))) static void d0(void) { printf("destructor: %s\n", early); char *p = malloc(5000); memset(p, '-', 60); p[60] = 0; printf("%s\n", p); free(p); free(early); }
static void a0(void) { printf("atexit %s\n", early); early = realloc(early, 90); }
static pthread_key_t key;
static void kd(void *p) { uint64_t *q = p; if(q[0] != q[99]) bad("key"); free(q); }
enum { Q = 256 };
static struct { char *volatile p; size_t n; } q[Q];
static pthread_mutex_t mu[Q];
static uint64_t total[64];
static void *worker(void *a) {
    long id = (long) a;
    uint64_t x = id * 7919 + 13, h = 0;
    uint64_t *k = malloc(800);
    k[0] = k[99] = x;
    pthread_setspecific(key, k);
    for(int i = 0; i < 4000; i++) {
        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
        size_t n = x % 16 ? x >> 8 & 2047 : x >> 8 & 262143;
        char *p = x & 1 ? malloc(n + 16) : calloc(n + 16, 1);
        memset(p, n, n + 16);
        h += (uint8_t) p[n];
        int s = x >> 40 & (Q - 1);
        pthread_mutex_lock(&mu[s]);
        char *o = q[s].p;
        size_t on = q[s].n;
        q[s].p = p;
        q[s].n = n;
        pthread_mutex_unlock(&mu[s]);
        if(o) { if(o[0] != (char) on || o[on + 15] != (char) on) bad("block of another thread"); free(o); }
    }
    total[id % 64] += h;
    return strdup("result");
}
static void *forever(void *a) { for(;;) { char *p = malloc(100 + (uintptr_t) a); p = realloc(p, 3000); memset(p, 1, 3000); free(p); } return NULL; }
int main(int argc, char **argv) {
    int rounds = atoi(argv[1]), mode = atoi(argv[2]);
    atexit(a0);
    pthread_key_create(&key, kd);
    for(int i = 0; i < Q; i++) pthread_mutex_init(&mu[i], NULL);
    for(int r = 0; r < rounds; r++) {
        pthread_t t[10];
        for(long i = 0; i < 10; i++) if(pthread_create(&t[i], NULL, worker, (void *) (i + r))) bad("create");
        for(int i = 0; i < 10; i++) { void *x; pthread_join(t[i], &x); if(strcmp(x, "result")) bad("result"); free(x); }
    }
    uint64_t h = 0;
    for(int i = 0; i < 64; i++) h = h * 31 + total[i];
    printf("total %016lx\n", h);
    for(int i = 0; i < 10; i++) { void *l = dlopen("libm.so.6", RTLD_NOW); if(!l) bad("dlopen"); dlclose(l); l = dlopen("/nonexistent.so", RTLD_NOW); if(l || !dlerror()) bad("dlerror"); }
    if(mode & 1) { pthread_t t; for(long i = 0; i < 3; i++) { pthread_create(&t, NULL, forever, (void *) i); pthread_detach(t); } usleep(20000); }
    if(mode & 2) { fflush(stdout); exit(5); }
    if(mode & 4) { printf("left by _exit\n"); fflush(stdout); _exit(6); }
    return 11;
}
