/* Zero-size requests: one shared inaccessible address, free is a no-op. */
#include "heap.h"
using namespace vh;
static void *early_a, *early_b, *early_c;
static int early_done;
static void early(int, char **, char **envp) {
    for(char **e = envp; e && *e; e++)
        if(!strncmp(*e, "VH_EARLY=", 9)) {
            int m = (*e)[9] - '0';
            if(m == 1) early_a = iso_alloc(0);
            if(m == 2) early_a = iso_calloc(0, 10);
            if(m == 3) { early_c = iso_alloc(100); memset(early_c, 1, 100); early_a = iso_alloc(0); }
            early_b = iso_alloc(0);
            early_done = m;
        }
}
__attribute__((section(".preinit_array"), used)) static void (*pre)(int, char **, char **) = early;
static void *Z;
static void *req(int k, Rng &r) {
    switch(k) {
    case 0: return iso_alloc(0);
    case 1: return iso_calloc(0, r.next() >> r.below(64));
    case 2: return iso_calloc(r.next() >> r.below(64), 0);
    case 3: return iso_calloc(0, 0);
    default: return iso_alloc(0);
    }
}
int main(int argc, char **argv) {
    init(argc, argv);
    Rng r(g_seed);
    Heap h(g_seed ^ 7);
    h.strong = VH_CFG_STRONG_SIZE_ISOLATION;
    h.max_live = 16u << 20;
    if(early_done) {
        tally("early_requests");
        if(!early_a || early_a != early_b) vio("shared", "zero-size requests before the constructor: %p and %p", early_a, early_b);
        Z = early_a;
    } else
        Z = iso_alloc(0);
    if(!Z) { vio("null", "zero-size request returned NULL"); finish(); }
    long rounds = argi(argc, argv, "--rounds", 60);
    for(long i = 0; i < rounds && !S.viols; i++) {
        phase("round %ld", i);
        h.run(r.range(1, 3000));
        for(int j = 0; j < 20; j++) {
            int k = r.below(5);
            void *p = req(k, r);
            if(p != Z) vio("shared", "zero-size request kind %d returned %p, earlier %p", k, p, Z);
            if(iso_chunksz(p) != 0) vio("size", "zero-size block reports size %zu", iso_chunksz(p));
            int times = r.range(0, 4), how = r.below(4);
            for(int t = 0; t < times; t++) switch(how) {
                case 0: iso_free(p); break;
                case 1: iso_free_size(p, 0); break;
                case 2: iso_free_permanently(p); break;
                default: r.chance(1, 2) ? iso_free(p) : iso_free_size(p, 0);
            }
            if(r.chance(1, 4)) iso_flush_caches();
            eval(mix(mix(k, times), how));
            tally("zero_requests");
        }
        for(size_t off : {(size_t) 0, (size_t) 1, (size_t) 7, (size_t) r.below(4096), (size_t) 4095}) {
            for(int w = 0; w < 2; w++) {
                if(!faults((uint8_t *) Z + off, w)) vio("accessible", "%s at offset %zu of the zero-size address succeeds", w ? "store" : "load", off);
                tally("fault_probes");
            }
        }
        if(i % 4 == 0) for(size_t n : {(size_t) 1, (size_t) 32, (size_t) r.range(1, 1 << 20), (size_t) SIZE_MAX, (size_t) 1ull << 32}) {
            Res c = child([&] { iso_free_size(Z, n); iso_flush_caches(); });
            if(!c.aborted()) vio("sized-free", "sized free of the zero-size address with size %zu: %s", n, c.str().c_str());
            tally("sized_free_probes");
            eval(mix(99, szclass(n)));
        }
        if(i % 5 == 1) {
            Res c = child([&] { void *q = iso_realloc(iso_alloc(0), 100); if(!q) _exit(3); memset(q, 1, 100); iso_free(q); iso_flush_caches(); iso_verify_zones(); if(iso_alloc(0) != Z) _exit(4); }, 60, true);
            if(!c.ok()) vio("resize", "resizing a zero-size block to 100 bytes: %s", c.str().c_str());
        }
    }
    h.end();
    if(iso_alloc(0) != Z) vio("shared", "the zero-size address changed");
    sample("%ld rounds, address %p%s", rounds, Z, early_done ? ", first requested before constructors" : "");
    finish();
}
