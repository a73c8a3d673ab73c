/* Chains of reallocations: contents, distinctness, release of the old block exactly
 * once (leak report and double-free probe), failure atomicity. */
#include "heap.h"
using namespace vh;
static uint64_t expected(std::map<void *, size_t> &live) {
    uint64_t t = 0;
    for(auto &k : live) t += k.second > 65536 ? iso_chunksz(k.first) : 1;
    return t;
}
int main(int argc, char **argv) {
    init(argc, argv);
    Rng r(g_seed);
    long rounds = argi(argc, argv, "--rounds", 400);
    std::map<void *, size_t> live; std::map<void *, uint64_t> pat;
    uint64_t ctr = 1;
    size_t bytes = 0;
    auto put = [&](void *p, size_t n) { live[p] = n; pat[p] = ++ctr * 977; fill(p, n, pat[p]); bytes += n; };
    auto ok = [&](void *p, const char *when) { ssize_t d = differs(p, live[p], pat[p]); if(d >= 0) vio("content", "block of %zu bytes differs at %zd %s", live[p], d, when); };
    auto out = [&](void *p) { bytes -= live[p]; live.erase(p); pat.erase(p); };
    auto size = [&]() -> size_t {
        switch(r.below(7)) {
        case 0: return r.range(65500, 65600);
        case 1: return r.range(65537, 3 << 20);
        case 2: return 32 * r.range(1, 100) + r.below(3) - 1;
        default: return pick_size(r, 66000);
        }
    };
    for(long i = 0; i < rounds && !S.viols; i++) {
        /* keep a population of neighbours */
        while(live.size() < 60) { size_t n = size(); void *p = iso_alloc(n); if(!p) { vio("unserved", "alloc %zu", n); break; } put(p, n); }
        while(bytes > (64u << 20)) { void *p = live.begin()->first; ok(p, "before free"); out(p); iso_free(p); }
        void *p = NULL;
        if(r.chance(1, 3)) { p = std::next(live.begin(), r.below(live.size()))->first; }
        int chain = r.range(1, 12);
        size_t prev = 0;
        for(int c = 0; c < chain; c++) {
            size_t n = size();
            if(p && r.chance(1, 4)) n = live[p] + r.range(0, 40);
            if(p && r.chance(1, 4)) n = r.range(1, live[p]);
            phase("reallocation %zu -> %zu, round %ld seed %llu", p ? live[p] : 0, n, i, (unsigned long long) g_seed);
            /* failures leave the block alone */
            if(p && r.chance(1, 3)) {
                void *q = NULL; const char *w;
                switch(r.below(5)) {
                case 0: w = "reallocarray overflow"; q = iso_reallocarray(p, SIZE_MAX / 2 + r.below(9), 2 + r.below(5)); break;
                case 1: { w = "reallocarray wrapping to a small product"; size_t e = 3 + 2 * r.below(1000); q = iso_reallocarray(p, (size_t) ((((unsigned __int128) 1 << 64) + e * 10) / e) + 1, e); break; }
                case 2: w = "realloc above the cap"; q = VH_CFG_ABORT_ON_NULL ? NULL : iso_realloc(p, (4ull << 30) + 1 + (r.next() >> r.range(2, 33))); break;
                case 3: w = "realloc near the top of the size range"; q = VH_CFG_ABORT_ON_NULL ? NULL : iso_realloc(p, SIZE_MAX - r.below(5000)); break;
                default: w = "reallocarray above the cap"; q = iso_reallocarray(p, (1ull << 33) + r.below(9), r.range(1, 7)); break;
                }
                if(q) vio("fail-served", "%s returned %p (size %zu)", w, q, iso_chunksz(q));
                ok(p, w);
                if(iso_chunksz(p) < live[p]) vio("fail-lost", "after a failed %s the old block reports size %zu < %zu", w, iso_chunksz(p), live[p]);
                tally("failed_reallocs");
            }
            void *q; size_t m = 1;
            if(r.chance(1, 3)) { m = r.range(1, 9); n = (n + m - 1) / m * m; q = iso_reallocarray(p, m, n / m); }
            else q = iso_realloc(p, n);
            if(!q) { vio("unserved", "realloc to %zu returned NULL", n); break; }
            size_t on = p ? live[p] : 0;
            if(q == p) vio("same", "realloc(%p, %zu -> %zu) returned the old block", p, on, n);
            if(live.count(q)) vio("overlap", "realloc returned live block %p", q);
            auto nx = live.upper_bound(q);
            if(nx != live.end() && (char *) nx->first < (char *) q + n) vio("overlap", "realloc returned %p size %zu overlapping live %p", q, n, nx->first);
            if(nx != live.begin()) { --nx; if(nx->first != p && (char *) nx->first + nx->second > (char *) q) vio("overlap", "realloc returned %p inside live %p", q, nx->first); }
            if(iso_chunksz(q) < n) vio("short", "realloc to %zu returned a block of %zu bytes", n, iso_chunksz(q));
            if(p) {
                ssize_t d = differs(q, std::min(n, on), pat[p], on);
                if(d >= 0) vio("realloc-content", "realloc %zu -> %zu lost contents at offset %zd", on, n, d);
                out(p);
                if(r.chance(1, 25)) { /* released: freeing it again is a double free */
                    void *old = p;
                    Res c = child([&] { iso_free(old); iso_flush_caches(); });
                    if(!c.aborted()) vio("old-not-released", "freeing the old block (%zu bytes) after realloc to %zu: %s", on, n, c.str().c_str());
                    tally("double_free_probes");
                }
            }
            put(q, n);
            eval(mix(mix(szclass(on + 1), szclass(n)), m > 1));
            tally("reallocations");
            p = q; prev = on;
        }
        if(p && r.chance(1, 4)) { /* size zero frees */
            size_t n = live[p];
            ok(p, "before realloc to zero");
            out(p);
            void *q = iso_realloc(p, 0);
            if(q) vio("zero", "realloc(p, 0) returned %p", q);
            if(r.chance(1, 5)) {
                Res c = child([&] { iso_flush_caches(); iso_free(p); iso_flush_caches(); });
                if(!c.aborted()) vio("zero-not-released", "freeing a block (%zu bytes) after realloc to 0: %s", n, c.str().c_str());
            }
            tally("realloc_zero");
        }
        if(r.chance(1, 6)) { /* no old block: as iso_alloc(0) */
            void *z = iso_alloc(0), *q = r.chance(1, 2) ? iso_realloc(NULL, 0) : r.chance(1, 2) ? iso_reallocarray(NULL, 0, r.below(100)) : iso_reallocarray(NULL, r.below(100), 0);
            if((q == NULL) != (z == NULL)) vio("null-zero", "reallocating NULL to zero bytes gives %p, allocating zero bytes %p", q, z);
            if(q && iso_chunksz(q)) vio("null-zero", "a zero byte block has size %zu", iso_chunksz(q));
            size_t n = size();
            void *p2 = iso_realloc(q, n); /* and such a block can grow */
            if(!p2 || iso_chunksz(p2) < n) vio("null-zero", "reallocating a zero byte block to %zu gives %p", n, p2);
            memset(p2, 1, n);
            iso_free(p2);
            iso_free(z);
            tally("null_zero");
        }
#if VH_CFG_LEAK_DETECTOR
        if(i % 8 == 0) {
            iso_flush_caches();
            uint64_t l = iso_alloc_detect_leaks(), e = expected(live);
            if(l != e) vio("release-count", "leak report %llu, but %zu live blocks make %llu: a reallocation kept or over-released a block", (unsigned long long) l, live.size(), (unsigned long long) e);
            tally("leak_checks");
        }
#endif
        if(i % 10 == 0) for(auto &k : live) ok(k.first, "in the periodic scan");
    }
    sample("%ld chains; %zu blocks live at the end", rounds, live.size());
    iso_flush_caches();
    iso_verify_zones();
    finish();
}
