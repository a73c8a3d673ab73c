/* The quarantine: what the plain free call released stays out of circulation until 64
 * later entries or a flush, and a flush brings all of it back. */
#include "heap.h"
using namespace vh;
int main(int argc, char **argv) {
    init(argc, argv);
    Rng r(g_seed);
    Heap h(g_seed ^ 43);
    h.strong = VH_CFG_STRONG_SIZE_ISOLATION;
    h.max_live = 8u << 20;
    h.run(2000);
    long rounds = argi(argc, argv, "--rounds", 100);
    for(long i = 0; i < rounds && !S.viols; i++) {
        if(i % 10 == 0) h.run(200);
        size_t n = r.chance(1, 2) ? 32 * r.range(8, 400) : r.range(300, 60000);
        phase("exhausted private zone of %zu, round %ld seed %llu", n, i, (unsigned long long) g_seed);
        void *z = iso_alloc_new_zone(n);
        std::vector<void *> v, freed;
        void *p;
        while((p = iso_alloc_from_zone(z))) v.push_back(p);
        for(size_t k = v.size(); k > 1; k--) std::swap(v[k - 1], v[r.below(k)]);
        iso_flush_caches();
        /* some of the 64 places go to other blocks: small, large, of other sizes */
        unsigned others = r.chance(1, 2) ? 0 : r.below(40);
        std::vector<std::pair<char *, size_t>> gone;
        unsigned entries = 0, target = std::min<size_t>(r.chance(1, 2) ? 64 : r.range(1, 64), v.size() + others);
        std::vector<std::pair<char *, size_t>> o;
        for(unsigned k = 0; k < others; k++) {
            size_t s = r.chance(1, 4) ? r.range(65537, 400000) : pick_size(r, 9000);
            char *x = (char *) iso_alloc(s);
            if(x) o.push_back({x, iso_chunksz(x)});
        }
        iso_flush_caches();
        std::vector<void *> extra;
        while(entries < target) {
            if(!o.empty() && (v.empty() || r.chance(o.size(), o.size() + v.size()))) {
                auto x = o.back();
                o.pop_back();
                iso_free(x.first);
                gone.push_back(x);
            } else if(!v.empty()) {
                p = v.back();
                v.pop_back();
                iso_free(p);
                freed.push_back(p);
            } else break;
            entries++;
            if(r.chance(1, 4) || entries == target) {
                void *q = iso_alloc_from_zone(z);
                if(q) { vio("reissued", "private zone of %zu: a block came back with %u entries in quarantine (%zu of the zone)", n, entries, freed.size()); extra.push_back(q); }
                tally("exhausted_probes");
            }
            if(r.chance(1, 3)) { /* general allocations must avoid all of it */
                size_t s = gone.empty() || r.chance(1, 3) ? pick_size(r, 70000) : gone[r.below(gone.size())].second - r.below(20);
                char *q = (char *) iso_alloc(s);
                for(auto &g : gone) if(q < g.first + g.second && q + s > g.first) vio("reissued", "iso_alloc(%zu) returned %p, in quarantine as entry of size %zu with %u entries since the flush", s, q, g.second, entries);
                tally("general_probes");
                if(q) iso_free_size(q, iso_chunksz(q));
                iso_free(NULL);
                iso_free(iso_alloc(0));
            }
            eval(mix(mix(szclass(n), entries), mix(others, gone.size())));
        }
        tally("quarantined", entries);
        tally_max("max_entries", entries);
        if(r.chance(1, 3) && entries == 64 && !v.empty()) { /* the 65th entry makes room */
            p = v.back();
            v.pop_back();
            iso_free(p);
            freed.push_back(p);
            size_t back = 0;
            std::unordered_set<void *> s(freed.begin(), freed.end() - 1);
            while((p = iso_alloc_from_zone(z))) {
                if(!s.count(p)) { vio("reissued", "after the 65th entry %p was handed out although it is not among the first 64", p); break; }
                v.push_back(p);
                back++;
            }
            if(back != freed.size() - 1) vio("lost", "after the 65th entry %zu of %zu blocks of the exhausted zone came back", back, freed.size() - 1);
            freed.erase(freed.begin(), freed.end() - 1);
            tally("overflows");
        }
        iso_flush_caches();
        /* all of it is available again, exactly once */
        std::unordered_set<void *> s(freed.begin(), freed.end());
        size_t back = 0;
        while((p = iso_alloc_from_zone(z))) {
            if(!s.erase(p)) { vio("wrong", "after a flush %p came back which was not freed", p); break; }
            back++;
            v.push_back(p);
        }
        if(!s.empty() && extra.empty()) vio("lost", "after a flush %zu of %zu freed blocks of %zu bytes did not come back", s.size(), freed.size(), n);
        tally("returned", back);
        tally("flush_checks");
        for(auto &x : o) iso_free(x.first);
        for(void *x : v) { iso_free_from_zone(x, z); }
        iso_alloc_destroy_zone(z);
    }
    /* general zones: nothing in quarantine is overlapped by anything */
    long gr = rounds * 40;
    std::vector<std::pair<char *, size_t>> live;
    for(long i = 0; i < gr && !S.viols; i++) {
        iso_flush_caches();
        std::vector<std::pair<char *, size_t>> q;
        unsigned lim = r.range(1, 64);
        size_t base = pick_size(r, 70000);
        phase("general round %ld size %zu seed %llu", i, base, (unsigned long long) g_seed);
        while(q.size() < lim) {
            size_t s = r.chance(1, 2) ? base : r.chance(1, 8) ? r.range(65537, 300000) : pick_size(r, 20000);
            char *x = (char *) (r.chance(1, 8) ? iso_calloc(1, s) : iso_alloc(s));
            if(!x) { vio("unserved", "NULL for %zu", s); break; }
            for(auto &g : q) if(x < g.first + g.second && x + s > g.first) { vio("reissued", "allocation of %zu bytes returned %p which is in quarantine (%zu entries since the flush)", s, x, q.size()); break; }
            if(q.size() < lim && r.chance(1, 2)) { size_t c = iso_chunksz(x); iso_free(x); q.push_back({x, c}); }
            else live.push_back({x, s});
            if(live.size() > 300) { auto k = r.below(live.size()); iso_free_size(live[k].first, live[k].second); live[k] = live.back(); live.pop_back(); }
            tally("general_probes");
        }
        eval(mix(szclass(base), lim));
    }
    sample("%ld exhausted zones and %ld general rounds", rounds, gr);
    for(auto &x : live) iso_free(x.first);
    h.end();
    finish();
}
