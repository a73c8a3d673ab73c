/* String duplication: contents, termination, bounded reading of the source. The
 * destination memory is dirtied first; sources end right at an inaccessible page. */
#include "heap.h"
using namespace vh;
static uint8_t *arena; /* ends at a PROT_NONE page */
static const size_t AR = 1 << 20;
static void dirty(size_t n) {
    void *v[48];
    int k = n > 65536 ? 2 : 48;
    for(int i = 0; i < k; i++) { v[i] = iso_alloc(n); if(v[i]) memset(v[i], 0xff, n); }
    for(int i = 0; i < k; i++) iso_free_size(v[i], n);
}
int main(int argc, char **argv) {
    init(argc, argv);
    Rng r(g_seed);
    arena = (uint8_t *) mmap(NULL, AR + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(arena + AR, 4096, PROT_NONE);
    Shadow sh;
    long rounds = argi(argc, argv, "--rounds", 6000);
    size_t zs[6] = {32, 64, 96, 544, 4096, 20000};
    iso_alloc_zone_handle *z[6];
    for(int i = 0; i < 6; i++) {
        z[i] = iso_alloc_new_zone(zs[i]);
        /* every block of the zone starts out dirty */
        std::vector<void *> v; void *p;
        while(v.size() < 600 && (p = iso_alloc_from_zone(z[i]))) { memset(p, 0xff, zs[i]); v.push_back(p); }
        for(void *q : v) iso_free_from_zone(q, z[i]);
    }
    for(long i = 0; i < rounds && !S.viols; i++) {
        int zi = r.chance(1, 3) ? (int) r.below(6) : -1;
        size_t len;
        switch(r.below(6)) {
        case 0: len = r.below(4); break;
        case 1: len = 32 * r.range(1, 40) - r.below(3); break;
        case 2: len = r.range(60000, 70000); break;
        case 3: len = r.below(300); break;
        case 4: len = ((size_t) 1 << r.range(4, 16)) - r.below(3); break;
        default: len = r.below(9000);
        }
        bool lim = r.chance(1, 2);
        if(zi >= 0) len = r.chance(1, 3) ? zs[zi] - 1 - r.below(3) : r.below(zs[zi]);
        /* with a limit, the source may have no terminator at all within the limit */
        bool unterminated = lim && r.chance(1, 2);
        size_t n;
        char *src;
        if(unterminated) {
            n = len; /* exactly as many bytes as are readable */
            src = (char *) arena + AR - len;
        } else {
            src = (char *) arena + AR - len - 1;
            src[len] = 0;
            switch(r.below(5)) { case 0: n = len; break; case 1: n = len + 1; break; case 2: n = SIZE_MAX; break; case 3: n = r.below(len + 1); break; default: n = len + r.below(100); }
        }
        for(size_t k = 0; k < len; k++) src[k] = (char) (1 + (mix(i, k) % 255));
        bool inner = !unterminated && r.chance(1, 8) && len > 2; /* an early terminator */
        size_t elen = len;
        if(inner) { elen = r.below(len); src[elen] = 0; }
        size_t want = lim ? std::min(n, elen) : elen;
        if(zi < 0 && r.chance(1, 3)) dirty(want + 1);
        if(VH_CFG_STRONG_SIZE_ISOLATION && zi >= 0 && ((want + 1 + 31) / 32 * 32 != zs[zi])) continue;
        if(zi >= 0 && want + 1 > 1024 && zs[zi] * 2 >= (want + 1) * 8) continue; /* too small for such blocks: refused by design */
        phase("%s%s of length %zu limit %zu %s seed %llu", lim ? "strndup" : "strdup", zi >= 0 ? " from zone" : "", elen, n, unterminated ? "unterminated" : "", (unsigned long long) g_seed);
        char *p;
        if(zi < 0) p = lim ? iso_strndup(src, n) : iso_strdup(src);
        else p = lim ? iso_strndup_from_zone(z[zi], src, n) : iso_strdup_from_zone(z[zi], src);
        tally(lim ? "strndups" : "strdups");
        eval(mix(mix(szclass(want + 1), lim), mix(zi + 1, (unterminated ? 4 : 0) + (inner ? 2 : 0) + (n == want))));
        if(!p) {
            if(zi >= 0 && i > 0) { /* possibly exhausted by quarantine: flush and retry */ iso_flush_caches(); p = lim ? iso_strndup_from_zone(z[zi], src, n) : iso_strdup_from_zone(z[zi], src); }
            if(!p && zi >= 0) {
                size_t lv = 0;
                for(auto &b : sh.live) lv += b.second.zone == z[zi];
                if(lv >= iso_zone_chunk_count(z[zi])) { tally("exhausted"); continue; }
                vio("unserved", "duplicate is NULL with %zu of %zu blocks of the zone live", lv, (size_t) iso_zone_chunk_count(z[zi]));
                continue;
            }
            if(!p) { vio("unserved", "duplicate is NULL"); continue; }
        }
        if(memcmp(p, src, want)) vio("content", "copy differs (length %zu limit %zu)", elen, n);
        if(p[want] != 0) vio("terminator", "copy of %zu bytes is not terminated: byte is 0x%x (source length %zu, limit %zu)", want, (uint8_t) p[want], elen, n);
        if(iso_chunksz(p) < want + 1) vio("short", "block of %zu for a string of %zu", iso_chunksz(p), want);
        if((char *) src <= p && p < (char *) src + len + 1) vio("alias", "copy aliases its source");
        /* private: changing the copy leaves the source alone, and vice versa */
        sh.add("strdup", p, want + 1, zi + 1, zi >= 0 ? z[zi] : NULL);
        if(zi >= 0) tally("zone_copies");
        while(sh.live.size() > 200) {
            uintptr_t q = sh.pick(r);
            sh.check(q, "before free");
            void *zz = sh.live[q].zone; size_t qs = sh.live[q].size;
            memset((void *) q, 0xff, iso_chunksz((void *) q));
            sh.del(q);
            if(zz && r.chance(1, 2)) iso_free_from_zone((void *) q, zz);
            else if(r.chance(1, 2)) iso_free_size((void *) q, qs);
            else iso_free((void *) q);
        }
        sh.compact();
    }
    /* empty forms */
    for(int k = 0; k < 3; k++) {
        char *p = k == 0 ? iso_strdup("") : k == 1 ? iso_strndup("abc", 0) : iso_strndup("", 10);
        if(!p || *p) vio("empty", "empty duplicate form %d is wrong", k);
        if(p) iso_free(p);
    }
    if(iso_strdup(NULL) || iso_strndup(NULL, 3)) vio("null", "duplicate of NULL is not NULL");
    sh.check_all("at the end");
    iso_flush_caches();
    iso_verify_zones();
    sample("%ld duplications, sources ending at an inaccessible page", rounds);
    finish();
}
