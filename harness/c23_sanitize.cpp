/* Chunk sanitising: what a released block holds once it has left quarantine. */
#include "heap.h"
using namespace vh;
static const uint64_t MARK = 0xFACEFEED5511AA77ull;
static int poison = -1;
int main(int argc, char **argv) {
    init(argc, argv);
    Rng r(g_seed);
    Heap h(g_seed ^ 61);
    h.strong = VH_CFG_STRONG_SIZE_ISOLATION;
    h.max_live = 8u << 20;
    h.w[O_BURST] = h.w[O_CHURN] = 0;
    h.run(1000);
    long rounds = argi(argc, argv, "--rounds", 6000);
    for(long i = 0; i < rounds && !S.viols; i++) {
        if(i % 100 == 0) h.run(100);
        size_t n = r.chance(1, 2) ? 32 * r.range(1, 2048) : pick_size(r, 65536);
        bool zn = r.chance(1, 40);
        void *z = zn ? iso_alloc_new_zone(n) : NULL;
        char *p;
        std::string s;
        switch(z ? 9 : r.below(5)) {
        case 9: p = (char *) iso_alloc_from_zone(z); break;
        case 1: p = (char *) iso_calloc(1, n); break;
        case 2: p = (char *) iso_realloc(iso_alloc(r.range(1, 500)), n); break;
        case 3: s.assign(n - 1, 'q'); p = (char *) iso_strdup(s.c_str()); break;
        default: p = (char *) iso_alloc(n);
        }
        if(!p) { vio("unserved", "NULL for %zu", n); break; }
        size_t c = iso_chunksz(p);
        size_t use = r.chance(1, 2) ? c : n;
        for(size_t o = 0; o + 8 <= use; o += 8) { uint64_t w = MARK + o; memcpy(p + o, &w, 8); }
        for(size_t o = use & ~7ull; o < use; o++) p[o] = 0x77;
        int how = r.below(z ? 5 : 4);
        phase("release %d of %zu (block %zu), round %ld seed %llu", how, n, c, i, (unsigned long long) g_seed);
        switch(how) {
        case 0: iso_free(p); iso_flush_caches(); break;
        case 1: iso_free_size(p, n); break;
        case 2: if(i % 10 == 0) { iso_free_permanently(p); break; } /* fall through */
        case 3: { if(z) { iso_free(p); iso_flush_caches(); break; } void *q = iso_realloc(p, r.range(1, 3000)); if(q) { memset(q, 0, 1); iso_free(q); } iso_flush_caches(); break; }
        default: iso_free_from_zone(p, z);
        }
        tally("released");
        eval(mix(mix(szclass(c), how), mix(z != NULL, use == c)));
        /* nothing allocated since can have taken it: check the bytes at rest */
        if(!readable(p)) { tally("zone_retired"); continue; }
        uint8_t *b = (uint8_t *) p;
        if(poison < 0 && c > 64) poison = b[16];
        for(size_t o = 8; o + 8 < c; o++)
            if(poison >= 0 && b[o] != poison) { vio("not-erased", "block of %zu bytes (requested %zu) released by route %d: byte %zu is 0x%02x, not the poison value 0x%02x", c, n, how, o, b[o], poison); break; }
        uint64_t w1, w2;
        memcpy(&w1, b, 8);
        memcpy(&w2, b + c - 8, 8);
        if(w1 == MARK || w2 == MARK + c - 8) vio("not-erased", "block of %zu bytes keeps its %s word", c, w1 == MARK ? "first" : "last");
        tally("bytes_checked", c);
        if(z) { iso_alloc_destroy_zone(z); }
        if(i % 3 == 0) { /* reuse shows nothing of it */
            std::vector<char *> v;
            for(int k = 0; k < 20; k++) {
                char *q = (char *) iso_alloc(n);
                if(!q) break;
                for(size_t o = 0; o + 8 <= n; o += 8) { uint64_t w; memcpy(&w, q + o, 8); if(w == MARK + o) { vio("exposed", "a new block of %zu bytes shows previous contents at %zu", n, o); break; } }
                v.push_back(q);
            }
            for(char *q : v) { memset(q, 0x55, n); iso_free_size(q, n); }
            tally("reuse_checks");
        }
    }
    sample("%ld releases; poison value 0x%02x", rounds, poison);
    h.end();
    finish();
}
