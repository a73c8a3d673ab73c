/* Zero-initialised allocation over memory that was dirtied and released by every
 * route; the requested extent must read zero and be writable. Products that cannot
 * be represented or served must give NULL. */
#include "heap.h"
using namespace vh;
static void sfree(void *p) { size_t s = iso_chunksz(p); iso_free_size(p, s > 65536 ? s : 1); }
static void dirty_round(Rng &r, Heap &h, size_t n) {
    std::vector<void *> v;
    size_t k = std::min<size_t>(r.range(3, 200), (16u << 20) / n + 2);
    for(size_t i = 0; i < k; i++) {
        size_t m = r.chance(3, 4) ? n : r.range(1, n);
        void *p = iso_alloc(m);
        if(!p) { vio("unserved", "iso_alloc(%zu) NULL", m); return; }
        memset(p, 0xff, m); v.push_back(p);
    }
    int route = r.below(5);
    for(size_t i = 0; i < v.size(); i++) {
        size_t j = r.below(v.size()); std::swap(v[i], v[j]);
    }
    for(void *p : v) switch(route) {
        case 0: iso_free(p); break;
        case 1: sfree(p); break;
        case 2: r.chance(1, 2) ? iso_free(p) : iso_free_size(p, iso_chunksz(p)); break;
        case 3: { void *q = iso_realloc(p, n); if(q) { memset(q, 0xee, n); iso_free(q); } break; }
        default: r.chance(1, 20) ? iso_free_permanently(p) : iso_free(p);
    }
    if(r.chance(3, 4)) iso_flush_caches();
    v.clear();
    for(size_t i = 0; i < k; i++) {
        size_t m, e;
        switch(r.below(5)) {
        case 0: m = 1, e = n; break;
        case 1: m = n, e = 1; break;
        case 2: e = r.range(1, n), m = n / e; break;
        case 3: m = r.range(1, std::min<size_t>(n, 16)), e = n / m; break;
        default: e = r.range(1, std::min<size_t>(n, 100)), m = n / e;
        }
        size_t want = m * e;
        uint8_t *p = (uint8_t *) iso_calloc(m, e);
        if(!p) { vio("unserved", "iso_calloc(%zu, %zu) NULL", m, e); continue; }
        size_t bad = want, nz = 0;
        for(size_t x = 0; x < want; x++) if(p[x]) { if(bad == want) bad = x; nz++; }
        if(bad != want) vio("not-zero", "iso_calloc(%zu, %zu): byte %zu is 0x%x, %zu bytes not zero (release route %d)", m, e, bad, p[bad], nz, route);
        if(iso_chunksz(p) < want) vio("short", "iso_calloc(%zu, %zu) returned a block of %zu bytes", m, e, iso_chunksz(p));
        memset(p, 0xdd, want);
        v.push_back(p);
        eval(mix(mix(szclass(want), route), mix(szclass(e), i == 0)));
        tally("zeroed_blocks");
    }
    for(void *p : v) r.chance(1, 2) ? iso_free(p) : sfree(p);
}
static void overflow(size_t m, size_t e) {
    phase("iso_calloc(%zu, %zu)", m, e);
    unsigned __int128 t = (unsigned __int128) m * e;
    if(t <= (1ull << 32)) return;
    eval(mix(63 - (m ? __builtin_clzll(m) : 0), mix(e ? 63 - __builtin_clzll(e) : 0, m * e < (1u << 20))));
    tally("overflow_pairs");
#if VH_CFG_ABORT_ON_NULL
    Res c = child([&] { void *p = iso_calloc(m, e); if(p) _exit(9); });
    if(c.aborted() || c.ok()) return;
    vio("overflow", "iso_calloc(%zu, %zu) ended with %s", m, e, c.str().c_str());
#else
    void *p = iso_calloc(m, e);
    if(p) vio("overflow", "iso_calloc(%zu, %zu) returned %p of size %zu for a product above 4 GB", m, e, p, iso_chunksz(p));
#endif
}
int main(int argc, char **argv) {
    init(argc, argv);
    Rng r(g_seed);
    Heap h(g_seed ^ 99);
    h.strong = VH_CFG_STRONG_SIZE_ISOLATION;
    long rounds = argi(argc, argv, "--rounds", 500);
    for(long i = 0; i < rounds; i++) {
        size_t n;
        switch(r.below(6)) {
        case 0: n = 32 * r.range(1, 300); break;
        case 1: n = r.range(60000, 200000); break;
        case 2: n = r.range(200000, 5 << 20); break;
        default: n = pick_size(r, 70000);
        }
        phase("round %ld size %zu seed %llu", i, n, (unsigned long long) g_seed);
        dirty_round(r, h, n);
        if(i % 16 == 0) h.run(300);
        if(S.viols) break;
    }
    for(int a = 0; a < 64; a++) for(int b = 0; b < 64; b++) {
        if(VH_CFG_ABORT_ON_NULL && (a + b) % 7) continue;
        size_t m = 1ull << a, e = 1ull << b;
        overflow(m + (b & 1), e + (a & 1));
        if(b) overflow(m, (~(size_t) 0) / m + b);        /* just past the top */
        if(a > 1) overflow(m - 1, e);
    }
    for(int i = 0; i < (VH_CFG_ABORT_ON_NULL ? 100 : 4000); i++) {
        size_t e = r.next() >> r.below(64), want = r.below(4096);
        if(!e) continue;
        /* wraps to a small product if possible */
        unsigned __int128 k = (((unsigned __int128) 1 << 64) * r.range(1, 3) + want + e - 1) / e;
        if(k >> 64) continue;
        overflow((size_t) k, e);
    }
    h.run(2000);
    sample("%ld rounds of dirtying and zero-allocating, then overflow pairs", rounds);
    h.end();
    finish();
}
