/* Double frees: every pair of release calls, with traffic in between, in forked
 * children. A child that survives the next flush has gone undetected. A block that the
 * traffic got reissued makes the case void. */
#include "heap.h"
using namespace vh;
static const char *kn[] = {"free", "sized free", "permanent free", "zone free", "permanent zone free", "realloc to 0", "realloc away"};
static void rel(int k, void *p, size_t n, void *z) {
    switch(k) {
    case 0: iso_free(p); break;
    case 1: iso_free_size(p, n); break;
    case 2: iso_free_permanently(p); break;
    case 3: iso_free_from_zone(p, z); break;
    case 4: iso_free_from_zone_permanently(p, z); break;
    case 5: { void *q = iso_realloc(p, 0); (void) q; break; }
    default: { void *q = iso_realloc(p, n + 500); (void) q; }
    }
}
int main(int argc, char **argv) {
    init(argc, argv);
    Rng r(g_seed);
    Heap h(g_seed ^ 17);
    h.strong = VH_CFG_STRONG_SIZE_ISOLATION;
    h.max_live = 8u << 20;
    h.w[O_BURST] = h.w[O_CHURN] = h.w[O_DRAIN] = 0;
    h.run(500);
    long rounds = argi(argc, argv, "--rounds", 200);
    for(long i = 0; i < rounds && !S.viols; i++) {
        if(i % 10 == 0) h.run(40);
        int what = r.below(3); /* general small, private zone, large */
        size_t n = what == 2 ? r.range(65537, 1 << 20) : r.chance(1, 3) ? r.range(1, 64) : pick_size(r, 65536);
        if(what == 1 && n > 30000) n = 1 + n % 30000;
        int a = r.below(what == 1 ? 7 : 6), b = r.below(what == 1 ? 5 : 3);
        if(what != 1 && (a == 3 || a == 4)) a += 2;
        if(what == 1 && a == 6 && n + 500 > 65536) a = 0;
        int traffic = r.below(6);
        bool flush1 = r.chance(1, 3);
        size_t extra = r.below(1000);
        unsigned nt = r.range(1, 60);
        uint64_t cs = r.next();
        phase("%s then %s of %zu bytes (%s), traffic %d flush %d, round %ld seed %llu", kn[a], kn[b], n, what == 0 ? "general" : what == 1 ? "private" : "large", traffic, flush1, i, (unsigned long long) g_seed);
        Res c = child([&] {
            Rng q(cs);
            void *z = what == 1 ? iso_alloc_new_zone(n) : NULL;
            std::vector<std::pair<void *, size_t>> pre;
            for(unsigned k = 0; k < nt; k++) { void *x = z && q.chance(1, 2) ? iso_alloc_from_zone(z) : iso_alloc(n); if(x) pre.push_back({x, n}); }
            char *p = (char *) (z ? iso_alloc_from_zone(z) : iso_alloc(n));
            if(!p) _exit(6);
            memset(p, 0x41, n);
            for(unsigned k = 0; k < nt / 2; k++) { void *x = z && q.chance(1, 2) ? iso_alloc_from_zone(z) : iso_alloc(n); if(x) pre.push_back({x, n}); }
            rel(a, p, n, z);
            if(flush1) iso_flush_caches();
            auto got = [&](void *x, size_t s) { if(x && (char *) x < p + std::max<size_t>(n, 32) && (char *) x + s > p) _exit(5); };
            switch(traffic) {
            case 0: break;
            case 1: for(unsigned k = 0; k < nt; k++) { size_t s = 1 + q.below(4000); void *x = iso_alloc(s); got(x, s); } break;
            case 2: for(auto &x : pre) if(q.chance(1, 2)) { iso_free(x.first); x.first = NULL; } break;
            case 3: for(auto &x : pre) { if(z && q.chance(1, 2)) iso_free(x.first); else iso_free_size(x.first, n); } break;
            case 4: for(unsigned k = 0; k < 4; k++) { void *x = z ? iso_alloc_from_zone(z) : iso_alloc(n); got(x, n); if(x) iso_free(x); } break;
            default: for(unsigned k = 0; k < 40; k++) { size_t s = 65537 + q.below(300000); void *x = iso_alloc(s); got(x, s); if(q.chance(1, 2)) iso_free(x); }
            }
            if(extra % 3 == 0) { iso_verify_zones(); }
            rel(b, p, n, z);
            iso_flush_caches();
            _exit(0);
        });
        eval(mix(mix(a, b), mix(what * 8 + traffic * 2 + flush1, szclass(n))));
        if(c.code == 5) { tally("reissued"); continue; }
        if(c.code == 6) continue;
        tally("double_frees");
        tally(what == 0 ? "general" : what == 1 ? "private" : "large");
        if(!c.aborted()) vio("undetected", "%s then %s of a %s block of %zu bytes (traffic %d, flush between %d): %s", kn[a], kn[b], what == 0 ? "general" : what == 1 ? "private" : "large", n, traffic, flush1, c.str().c_str());
        else if(S.samples < 3) sample("%s then %s of %zu bytes: %s", kn[a], kn[b], n, c.str().substr(0, 120).c_str());
    }
    h.end();
    finish();
}
