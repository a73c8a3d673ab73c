/* ABORT_ON_NULL: unservable requests abort; everything servable is served. */
#include "heap.h"
using namespace vh;
int main(int argc, char **argv) {
    init(argc, argv);
    Rng r(g_seed);
    long rounds = argi(argc, argv, "--rounds", 150), live = argi(argc, argv, "--live", 150000);
    { Heap h(g_seed); h.strong = VH_CFG_STRONG_SIZE_ISOLATION; h.run(live); h.end(); }
    tally("served", live);
    static const char *names[] = {"iso_alloc", "iso_calloc", "iso_realloc of a block", "iso_realloc of NULL", "iso_reallocarray", "exhausted zone", "exhausted zone, strdup", "exhausted zone, strndup", "exhausted zone, tagged", "string too long for a zone", "permanently exhausted zone", "refilled zone (control)"};
    for(long i = 0; i < rounds && S.viols < 3; i++) {
        int k = r.below(12);
        if(k == 8 && !VH_CFG_MEMORY_TAGGING) k = 5;
        size_t huge;
        switch(r.below(5)) {
        case 0: huge = SIZE_MAX - r.below(1 << 20); break;
        case 1: huge = (4ull << 30) + 1 + r.below(1ull << 32); break;
        case 2: huge = (size_t) 1 << r.range(33, 63); break;
        case 3: huge = SIZE_MAX - r.below(64); break;
        default: huge = r.next() | 1ull << 40;
        }
        size_t zs = r.chance(1, 2) ? r.range(1, 5000) : r.range(1, 65536);
        uint64_t cs = r.next();
        phase("%s, size %zx, zone of %zu, seed %llu", names[k], huge, zs, (unsigned long long) cs);
        Res c = child([&] {
            Rng q(cs);
            { Heap h(cs); h.strong = VH_CFG_STRONG_SIZE_ISOLATION; h.max_live = 2u << 20; h.run(100); }
            void *p = NULL;
            iso_alloc_zone_handle *z = NULL;
            auto exhaust = [&](size_t n, bool perm) { /* all but a few hundred blocks the advertised count promises */
                z = iso_alloc_new_zone(n);
                size_t adv = iso_zone_chunk_count(z);
                std::vector<void *> v;
                for(size_t j = 0; j < adv; j++) { void *b = iso_alloc_from_zone(z); if(!b) { printf("NULL for block %zu of %zu", j, adv); fflush(stdout); _exit(8); } v.push_back(b); }
                if(perm) for(auto b : v) iso_free_from_zone_permanently(b, z);
                return v;
            };
            switch(k) {
            case 0: p = iso_alloc(huge); break;
            case 1: p = iso_calloc(1, huge); if(!p) _exit(0); break; /* products of 2^32 and more are refused with NULL */
            case 2: { void *b = iso_alloc(q.range(1, 100000)); p = iso_realloc(b, huge); break; }
            case 3: p = iso_realloc(NULL, huge); break;
            case 4: p = iso_reallocarray(NULL, 1, (4ull << 30) - q.below(4096)); if(p) _exit(0); break; /* served or aborted */
            case 11: { auto v = exhaust(zs, false); for(auto b : v) iso_free_from_zone(b, z); iso_flush_caches(); for(size_t j = 0; j + 1 < v.size(); j++) if(!iso_alloc_from_zone(z)) _exit(7); _exit(0); }
            default: {
                exhaust(zs, k == 10);
                iso_flush_caches();
                printf("FULL\n"), fflush(stdout);
                std::string s(k == 9 ? zs + 40 + q.below(3000) : zs / 2, 's');
                /* more blocks than advertised may be there; then comes the abort */
                for(size_t j = 0; j < 200000; j++) {
                    switch(k) {
                    case 6: case 9: p = iso_strdup_from_zone(z, s.c_str()); break;
                    case 7: p = iso_strndup_from_zone(z, s.c_str(), zs / 3); break;
#if VH_CFG_MEMORY_TAGGING
                    case 8: p = iso_alloc_from_zone_tagged(z); break;
#endif
                    default: p = iso_alloc_from_zone(z);
                    }
                    if(!p) break;
                }
            }
            }
            if(!p) { printf("returned NULL"); fflush(stdout); _exit(9); }
            printf("returned %p", p);
            fflush(stdout);
            _exit(10);
        }, 60);
        if(k == 11) { if(!c.ok()) vio("control", "released blocks of a zone of %zu: %s", zs, c.str().c_str()); tally("controls"); }
        else if(k == 4 || k == 1) { if(!c.ok() && !c.aborted()) vio("not-aborted", "%s: %s", names[k], c.str().c_str()); }
        else {
            if(!c.aborted()) vio("not-aborted", "%s with size %zx, zone of %zu: %s", names[k], huge, zs, c.str().c_str());
            if(k >= 5 && k != 9 && c.out.find("FULL") == std::string::npos) vio("early", "the zone of %zu aborted before it was full: %s", zs, c.str().c_str());
            tally(k < 5 ? "huge_aborts" : "zone_aborts");
        }
        eval(mix(k, mix(szclass(zs), 64 - __builtin_clzll(huge))));
    }
    sample("%lld oversized and %lld exhausted requests aborted, %lld controls", (long long) S.stats["huge_aborts"], (long long) S.stats["zone_aborts"], (long long) S.stats["controls"]);
    finish();
}
