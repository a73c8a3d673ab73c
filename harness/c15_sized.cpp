/* Sized free: sizes above the block abort at once, sizes from the request or the size
 * query succeed and release the block at once. */
#include "heap.h"
using namespace vh;
int main(int argc, char **argv) {
    init(argc, argv);
    Rng r(g_seed);
    Heap h(g_seed ^ 29);
    h.strong = VH_CFG_STRONG_SIZE_ISOLATION;
    h.max_live = 8u << 20;
    h.w[O_BURST] = h.w[O_CHURN] = h.w[O_DRAIN] = 0;
    h.w[O_FREE_SIZE] = 400;
    h.run(3000);
    long rounds = argi(argc, argv, "--rounds", 300);
    for(long i = 0; i < rounds && !S.viols; i++) {
        if(i % 10 == 0) h.run(100);
        int kind = r.below(6);
        size_t n = r.chance(1, 3) ? r.range(65537, 3 << 20) : pick_size(r, 65536);
        if(r.chance(1, 4)) n = 32 * r.range(1, 300);
        void *z = NULL, *p;
        if(kind == 5 && i % 4) kind = 4;
        if(kind == 5) {
            if(n > 20000) n = 1 + n % 20000;
            if(!(z = iso_alloc_new_zone(n))) { vio("zone", "no zone"); break; }
        }
        switch(kind) {
        case 0: case 1: p = iso_alloc(n); break;
        case 2: p = iso_calloc(1, n); break;
        case 3: p = iso_realloc(iso_alloc(10), n); break;
        case 4: { std::string s(n - 1, 'x'); p = iso_strdup(s.c_str()); break; }
        default: p = iso_alloc_from_zone(z);
        }
        if(!p) { vio("unserved", "kind %d of %zu", kind, n); break; }
        size_t c = iso_chunksz(p);
        /* too large: must abort inside the call */
        for(int t = 0; t < 6; t++) {
            size_t s;
            switch(r.below(9)) {
            case 0: case 1: s = c + 1; break;
            case 2: s = SIZE_MAX - r.below(64); break;
            case 3: s = (1ull << 32) + (r.chance(1, 2) ? n : r.below(c) + 1); break;
            case 4: s = c + r.range(1, 4096); break;
            case 5: s = 65537 + r.below(10); break;
            case 6: s = (size_t) 1 << r.range(33, 63); break;
            case 7: s = c * 2 + r.below(3); break;
            default: s = c + (r.next() >> r.range(1, 60)); break;
            }
            if(s <= c) continue;
            bool quar = r.chance(1, 6);
            phase("sized free of a block of %zu (request %zu) with %zu, round %ld seed %llu", c, n, s, i, (unsigned long long) g_seed);
            Res x = child([&] { if(quar) iso_flush_caches(); iso_free_size(p, s); _exit(9); });
            tally("oversize");
            eval(mix(mix(szclass(c), kind), mix(szclass(s), s - c == 1)));
            if(!x.aborted()) vio("accepted", "sized free of a block of %zu bytes (request %zu, kind %d) with size %zu: %s", c, n, kind, s, x.str().c_str());
        }
        /* valid sizes, and the block is gone at once: freeing it again aborts without a flush */
        size_t s = r.chance(1, 2) ? n : c;
        phase("valid sized free of %zu with %zu (block %zu)", n, s, c);
        bool second = r.chance(1, 3);
        int k2 = r.below(2);
        if(second) {
            Res x = child([&] { iso_free_size(p, s); if(k2) iso_free_size(p, s); else iso_free_permanently(p); _exit(9); });
            tally("immediate");
            if(!x.aborted()) vio("delayed", "after a sized free of %zu bytes (block %zu) an immediate second release: %s", s, c, x.str().c_str());
        }
#if VH_CFG_LEAK_DETECTOR
        iso_flush_caches();
        uint64_t b = iso_alloc_detect_leaks();
        iso_free_size(p, s);
        uint64_t a = iso_alloc_detect_leaks();
        if(b - a != (c > 65536 ? c : 1)) vio("not-released", "sized free of %zu (block %zu) changed the leak report by %lld", s, c, (long long) (b - a));
        tally("leak_checks");
#else
        iso_free_size(p, s);
#endif
        tally("valid_sized_frees");
        if(z) { /* immediate reuse in an exhausted zone */
            std::vector<void *> v; void *q;
            while((q = iso_alloc_from_zone(z))) v.push_back(q);
            if(v.size()) {
                void *x = v[r.below(v.size())];
                iso_free_size(x, r.chance(1, 2) ? n : c);
                q = iso_alloc_from_zone(z);
                if(q != x) vio("not-released", "after a sized free in an exhausted private zone the next allocation gave %p, not the block just released %p", q, x);
                tally("reuse_checks");
            }
            iso_alloc_destroy_zone(z);
        }
    }
    sample("%ld rounds; last block sizes up to 3 MB", rounds);
    h.end();
    finish();
}
