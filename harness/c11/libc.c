/* Every libc entry point that hands out or takes heap memory; prints what it computed. */
#define _GNU_SOURCE
#include <ctype.h>
#include <dirent.h>
#include <errno.h>
#include <ftw.h>
#include <glob.h>
#include <iconv.h>
#include <locale.h>
#include <malloc.h>
#include <netdb.h>
#include <pwd.h>
#include <regex.h>
#include <search.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
#include <wchar.h>
#include <wordexp.h>
static uint64_t s, h = 1469598103934665603ull;
static uint64_t rnd(void) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
static void mixb(const void *p, size_t n) { for(size_t i = 0; i < n; i++) h = (h ^ ((const uint8_t *) p)[i]) * 1099511628211ull; }
static void bad(const char *w) { printf("WRONG %s\n", w); fflush(stdout); _exit(9); }
static int cmp(const void *a, const void *b) { return strcmp(*(char **) a, *(char **) b); }
static int icmp(const void *a, const void *b) { uint64_t x = *(uint64_t *) a, y = *(uint64_t *) b; return x < y ? -1 : x > y; }
static void walk(const void *n, VISIT v, int d) { if(v == postorder || v == leaf) mixb(*(char **) n, strlen(*(char **) n)); }
static int onftw(const char *p, const struct stat *st, int t, struct FTW *f) { h += strlen(p) + t; return 0; }
static size_t pick(void) {
    switch(rnd() % 8) {
    case 0: return 0;
    case 1: return rnd() % 100000;
    case 2: return ((size_t) 16 << rnd() % 14) + rnd() % 3 - 1;
    case 3: return rnd() % 1000000;
    default: return rnd() % 2000;
    }
}
static void Free(void *p) { int e = 1 + rnd() % 100; errno = e; free(p); if(errno != e) bad("errno after free"); }
/* requests no allocator can serve: NULL, the reason in errno, and the old block as it was */
static void unservable(void) {
    volatile size_t all = SIZE_MAX, h = (size_t) 1 << (44 + rnd() % 18);
    int want = ENOMEM;
    void *p = &p, *old = NULL;
    size_t z = 1 + rnd() % 3000;
    errno = 0;
    switch(rnd() % 9) {
    case 0: p = malloc(h); break;
    case 1: p = malloc(all - rnd() % 100000); break;
    case 2: p = calloc(h, 1 + rnd() % 100); break;
    case 3: p = calloc(1 + rnd() % 100, h); break;
    case 4: old = memset(malloc(z), 'o', z); errno = 0; p = realloc(old, h); break;
    case 5: old = memset(malloc(z), 'o', z); errno = 0; p = reallocarray(old, h, 1 + rnd() % 1000); break;
    case 6: p = aligned_alloc(8 << rnd() % 10, h); break;
    case 7: p = rnd() % 2 ? valloc(h) : memalign(16, h); break;
    default: { void *q; int e = posix_memalign(&q, 64, h); if(e != ENOMEM) bad("posix_memalign result"); p = NULL; want = 0; }
    }
    int e = errno;
    if(p) bad("unservable");
    if(want && e != want) bad("errno after a failed allocation");
    if(old) { for(size_t i = 0; i < z; i++) if(((char *) old)[i] != 'o') bad("old block"); Free(old); }
}
int main(int argc, char **argv) {
    s = strtoull(argv[1], NULL, 10) * 2654435761u + 88172645463325252ull;
    long n = atol(argv[2]);
    enum { M = 600 };
    static struct { uint8_t *p; size_t n; uint8_t c; } a[M];
    for(long i = 0; i < n; i++) {
        int k = rnd() % M;
        size_t z = pick();
        uint8_t *p = NULL;
        if(i % 50 == 0) unservable();
        if(a[k].p) for(size_t o = 0; o < a[k].n; o += o < 64 || o + 64 > a[k].n ? 1 : 37) if(a[k].p[o] != a[k].c) bad("contents");
        switch(rnd() % 14) {
        case 0: case 1: p = malloc(z); break;
        case 2: p = calloc(1, z); for(size_t o = 0; o < z; o++) if(p[o]) bad("calloc"); break;
        case 3: p = calloc(z / 8, 8); z = z / 8 * 8; for(size_t o = 0; o < z; o++) if(p[o]) bad("calloc"); break;
        case 4: case 5:
            if(z == 0) z = 1;
            p = realloc(a[k].p, z);
            for(size_t o = 0; o < z && o < a[k].n; o++) if(a[k].p && p[o] != a[k].c) bad("realloc");
            a[k].p = NULL;
            break;
        case 6: if(z == 0) z = 1; p = reallocarray(a[k].p, z, 1); for(size_t o = 0; o < z && o < a[k].n; o++) if(a[k].p && p[o] != a[k].c) bad("reallocarray"); a[k].p = NULL; break;
        case 7: if(posix_memalign((void **) &p, 8 << rnd() % 10, z)) bad("posix_memalign"); break;
        case 8: { size_t al = 16 << rnd() % 9; p = aligned_alloc(al, z = (z + al) / al * al); if((uintptr_t) p % al) bad("aligned_alloc"); break; }
        case 9: { size_t al = 1 << rnd() % 13; p = memalign(al, z); if((uintptr_t) p % al) bad("memalign"); break; }
        case 10: p = rnd() % 2 ? valloc(z) : pvalloc(z); if((uintptr_t) p % 4096) bad("valloc"); break;
        case 11: { char *t = malloc(z + 1); memset(t, 'q', z); t[z] = 0; p = (uint8_t *) strdup(t); if(strlen((char *) p) != z) bad("strdup"); free(t); break; }
        case 12: { char *t = malloc(z + 1); memset(t, 'q', z); t[z] = 0; p = (uint8_t *) strndup(t, z / 2); z /= 2; if(strlen((char *) p) != z) bad("strndup"); free(t); break; }
        default: Free(a[k].p); a[k].p = NULL;
        }
        if(p) {
            if(a[k].p) Free(a[k].p);
            if(z && malloc_usable_size(p) < z) bad("usable size");
            if((uintptr_t) p % 8) bad("alignment");
            a[k].p = p;
            a[k].n = z;
            a[k].c = rnd();
            memset(p, a[k].c, z);
            mixb(&z, sizeof z);
        } else if(z && !a[k].p) a[k].n = 0;
    }
    for(int k = 0; k < M; k++) free(a[k].p);
    printf("blocks %016lx\n", h);
    char *l = NULL, *o = NULL;
    size_t cap = 0, len = 0, lines = 0;
    FILE *f = fopen(argv[3], "r");
    if(!f) bad("input");
    char **v = NULL;
    while(getline(&l, &cap, f) > 0) {
        v = reallocarray(v, ++lines, sizeof *v);
        if(asprintf(&v[lines - 1], "%zu:%s", strlen(l) * 7919 % 1000, l) < 0) bad("asprintf");
        mixb(l, strlen(l));
    }
    fclose(f);
    free(l);
    qsort(v, lines, sizeof *v, cmp);
    f = open_memstream(&o, &len);
    for(size_t i = 0; i < lines; i++) fputs(v[i], f);
    fclose(f);
    mixb(o, len);
    free(o);
    void *root = NULL;
    for(size_t i = 0; i < lines; i++) if(!tsearch(v[i], &root, (int (*)(const void *, const void *)) strcmp)) bad("tsearch");
    twalk(root, walk);
    tdestroy(root, free);
    free(v);
    printf("lines %zu %016lx\n", lines, h);
    size_t big = 200000;
    uint64_t *q = malloc(big * 8);
    for(size_t i = 0; i < big; i++) q[i] = rnd();
    qsort(q, big, 8, icmp);
    for(size_t i = 1; i < big; i++) if(q[i - 1] > q[i]) bad("qsort");
    mixb(q, 800);
    free(q);
    regex_t re;
    regmatch_t m[5];
    if(regcomp(&re, "([a-z]+)-([0-9]+)(x|y)*", REG_EXTENDED)) bad("regcomp");
    for(int i = 0; i < 300; i++) { char b[64]; snprintf(b, sizeof b, "..%c%c-%dxyx", 'a' + i % 26, 'a' + i % 7, i * 31); if(regexec(&re, b, 5, m, 0)) bad("regexec"); h += m[2].rm_eo; }
    regfree(&re);
    char *cwd = getcwd(NULL, 0), *rp = realpath(".", NULL);
    if(strcmp(cwd, rp)) bad("realpath");
    free(cwd);
    free(rp);
    glob_t g;
    if(glob("/usr/include/*.h", 0, NULL, &g)) bad("glob");
    h += g.gl_pathc;
    globfree(&g);
    struct dirent **d;
    int nd = scandir("/usr/include", &d, NULL, alphasort);
    for(int i = 0; i < nd; i++) { mixb(d[i]->d_name, strlen(d[i]->d_name)); free(d[i]); }
    free(d);
    nftw("/etc", onftw, 20, FTW_PHYS);
    wordexp_t we;
    if(wordexp("a b ${HOME:+c} \"d e\"", &we, WRDE_NOCMD)) bad("wordexp");
    h += we.we_wordc;
    wordfree(&we);
    iconv_t ic = iconv_open("UTF-16LE", "UTF-8");
    if(ic != (iconv_t) -1) { char in[] = "h\xc3\xa9llo", out[64]; char *ip = in, *op = out; size_t il = strlen(in), ol = sizeof out; iconv(ic, &ip, &il, &op, &ol); mixb(out, sizeof out - ol); iconv_close(ic); }
    setlocale(LC_ALL, "C.UTF-8");
    setlocale(LC_ALL, "C");
    hcreate(500);
    for(int i = 0; i < 400; i++) { char *key; if(asprintf(&key, "k%d", i) < 0) bad("asprintf"); ENTRY e = {key, (void *) (intptr_t) i}; if(!hsearch(e, ENTER)) bad("hsearch"); }
    hdestroy();
    struct passwd *pw = getpwnam("root");
    if(pw) mixb(pw->pw_name, strlen(pw->pw_name));
    setenv("VH_A", "b", 1);
    for(int i = 0; i < 300; i++) { char k2[16], v2[600]; snprintf(k2, 16, "VH_%d", i % 50); memset(v2, 'z', rnd() % 599); v2[599] = 0; for(int j = 0; j < 600; j++) if(v2[j] != 'z') { v2[j] = 0; break; } setenv(k2, v2, 1); if(strcmp(getenv(k2), v2)) bad("getenv"); }
    wchar_t *ws = wcsdup(L"wide string");
    h += wcslen(ws);
    free(ws);
    f = popen("echo from the shell", "r");
    char buf[64] = "";
    if(!fgets(buf, sizeof buf, f)) bad("popen");
    pclose(f);
    printf("%send %016lx\n", buf, h);
    for(int i = 0; i < 2000; i++) printf("%016lx%c", rnd(), i % 4 == 3 ? '\n' : ' ');
    if(argc > 4) return rnd() % 100; /* left to the exit handlers to flush */
    return 0;
}
