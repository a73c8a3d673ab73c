/* Leak and usage reports against the true state; reporting changes nothing. */
#include "heap.h"
#include "sys.h"
using namespace vh;
static const uint64_t MB = 1 << 20;
static size_t zones_mapped(uint64_t *bytes) {
    size_t k = 0;
    *bytes = 0;
    for(int i = 0; i < sysi::nregs; i++)
        if(sysi::regs[i].len >= 4 * MB && sysi::regs[i].len <= 4 * MB + (256 << 10)) { k++; *bytes += sysi::regs[i].len; }
    return k;
}
int main(int argc, char **argv) {
    init(argc, argv);
    Rng r(g_seed);
    /* the large blocks of this monitor, on top of the engine's small ones */
    struct B { size_t n, size; };
    std::map<uintptr_t, B> big, heldb;
    Heap h(g_seed ^ 101);
    h.strong = VH_CFG_STRONG_SIZE_ISOLATION;
    h.max_size = 60000;
    h.max_live = 24u << 20;
    h.w[O_BIG] = 0;
    h.w[O_ZERO] = 3;
    h.w[O_DRAIN] = 3;
    h.w[O_REPORT] = 0;
    h.max_zones = 14;
    uint64_t zb;
    const bool LEAK = VH_CFG_LEAK_DETECTOR || VH_CFG_HEAP_PROFILER;
    /* zones that existed before the mapping calls were watched or that came in other forms */
    long base = -1;
    auto expect = [&](const char *when) {
        iso_flush_caches();
        uint64_t bb = 0;
        for(auto &k : big) bb += k.second.size;
        if(LEAK) {
            uint64_t want = h.sh.live.size() + bb, got = iso_alloc_detect_leaks();
            if(got != want) vio("leaks", "the leak report says %llu, but %zu small blocks and %llu bytes of large blocks are live (%s)", (unsigned long long) got, h.sh.live.size(), (unsigned long long) bb, when);
            tally("global_reports");
            if(want == 0) tally("empty_reports");
            for(auto &z : h.zones) {
                size_t truth = 0;
                for(auto &k : h.sh.live) truth += k.second.zone == z.h;
                uint64_t g = iso_alloc_detect_zone_leaks(z.h);
                if(g != truth) vio("zone-leaks", "the leak report of a zone of %zu byte blocks says %llu, %zu are live (%s)", z.size, (unsigned long long) g, truth, when);
                tally("zone_reports");
                if(truth) tally("zone_reports_nonzero");
            }
        }
        uint64_t u = iso_alloc_mem_usage();
        size_t nz = zones_mapped(&zb);
        uint64_t heldbytes = 0;
        /* what the allocator keeps of large blocks is read off its mappings */
        for(auto &k : heldb) if(sysi::mine(k.first)) heldbytes += k.second.size;
        size_t nb = big.size() + heldb.size();
        uint64_t lo = (nz * 4 * MB + bb + heldbytes) / MB, hi = (nz * (4 * MB + (64 << 10)) + bb + heldbytes + nb * 8 * 4096) / MB;
        lo = lo > 2 ? lo - 2 : 0;
        hi += 1;
        if(u < lo || u > hi) vio("usage", "the usage report says %llu MB: %zu zones and %.1f + %.1f MB of live and kept large blocks make %llu to %llu MB (%s)", (unsigned long long) u, nz, bb / 1048576.0, heldbytes / 1048576.0, (unsigned long long) lo, (unsigned long long) hi, when);
        (void) base;
        tally("usage_reports");
        tally_max("max_usage", u);
        for(auto &z : h.zones) { uint64_t m = iso_alloc_zone_mem_usage(z.h); if(m != 4) vio("zone-usage", "the usage report of a zone of %zu byte blocks says %llu MB instead of 4", z.size, (unsigned long long) m); }
        eval(mix(mix(h.sh.live.size() / 16, big.size()), mix(nz, h.zones.size())));
    };
    auto bigfree = [&](uintptr_t p) {
        B b = big[p];
        big.erase(p);
        heldb[p] = b;
        if(r.chance(1, 2)) iso_free((void *) p);
        else iso_free_size((void *) p, b.n);
        for(auto it = heldb.begin(); it != heldb.end();) if(!sysi::mine(it->first)) it = heldb.erase(it); else ++it;
    };
    auto bigstep = [&] {
        if(big.size() < 40 && r.chance(1, 2)) {
            size_t n = r.chance(1, 2) ? r.range(65537, 400000) : r.range(1 << 20, 3 << 20);
            uintptr_t p = (uintptr_t) (r.chance(1, 4) ? iso_calloc(1, n) : iso_alloc(n));
            if(!p) { vio("unserved", "large request failed"); return; }
            auto it = heldb.find(p);
            if(it != heldb.end()) heldb.erase(it);
            ((uint8_t *) p)[0] = ((uint8_t *) p)[n - 1] = 1;
            big[p] = {n, iso_chunksz((void *) p)};
            tally("big_allocations");
        } else if(!big.empty()) {
            auto it = big.begin();
            std::advance(it, r.below(big.size()));
            bigfree(it->first);
        }
    };
    uint64_t rounds = argi(argc, argv, "--rounds", 150);
    for(uint64_t i = 0; i < rounds && !S.viols; i++) {
        phase("round %llu seed %llu", (unsigned long long) i, (unsigned long long) g_seed);
        int k = r.range(1, 12);
        for(int j = 0; j < k; j++) { h.run(r.range(1, 120)); if(r.chance(2, 3)) bigstep(); }
        expect("after a burst of operations");
        if(i % 8 == 3) { /* nothing live: zero */
            std::vector<uintptr_t> v;
            for(auto &q : h.sh.live) v.push_back(q.first);
            for(auto p : v) h.release(p, r.below(4));
            while(!big.empty()) bigfree(big.begin()->first);
            expect("with nothing live");
        }
        if(i % 4 == 1 && !h.zones.empty()) { /* one zone: exact through allocation and release */
            Zone &z = h.zones[r.below(h.zones.size())];
            iso_flush_caches();
            uint64_t b0 = LEAK ? iso_alloc_detect_zone_leaks(z.h) : 0;
            std::vector<void *> v;
            int n = r.range(1, 200);
            for(int j = 0; j < n; j++) { void *p = iso_alloc_from_zone(z.h); if(!p) break; v.push_back(p); }
            if(LEAK && iso_alloc_detect_zone_leaks(z.h) != b0 + v.size()) vio("zone-leaks", "%zu more blocks live in a zone: its report went from %llu to %llu", v.size(), (unsigned long long) b0, (unsigned long long) iso_alloc_detect_zone_leaks(z.h));
            size_t half = v.size() / 2;
            for(size_t j = 0; j < half; j++) { if(j & 1) iso_free_from_zone(v[j], z.h); else iso_free(v[j]); }
            iso_flush_caches();
            if(LEAK && iso_alloc_detect_zone_leaks(z.h) != b0 + v.size() - half) vio("zone-leaks", "%zu of %zu blocks released in a zone: its report is %llu over the start", half, v.size(), (unsigned long long) (iso_alloc_detect_zone_leaks(z.h) - b0));
            for(size_t j = half; j < v.size(); j++) iso_free_from_zone(v[j], z.h);
        }
        if(LEAK && i % 25 == 9) { /* a zone with very many blocks */
            size_t n = r.chance(2, 3) ? 32 : r.range(33, 200);
            auto z = iso_alloc_new_zone(n);
            size_t adv = iso_zone_chunk_count(z), want = r.chance(1, 2) ? adv : r.range(adv / 2, adv);
            uint64_t g0 = iso_alloc_detect_leaks();
            std::vector<void *> v;
            for(size_t j = 0; j < want; j++) { void *p = iso_alloc_from_zone(z); if(!p) break; v.push_back(p); }
            if(iso_alloc_detect_zone_leaks(z) != v.size()) vio("zone-leaks", "%zu blocks live in a zone of %zu bytes, its report is %llu", v.size(), n, (unsigned long long) iso_alloc_detect_zone_leaks(z));
            if(iso_alloc_detect_leaks() - g0 != v.size()) vio("leaks", "%zu more blocks live, the leak report grew by %llu", v.size(), (unsigned long long) (iso_alloc_detect_leaks() - g0));
            size_t cut = r.below(v.size());
            for(size_t j = 0; j < cut; j++) iso_free_from_zone(v[j], z);
            if(iso_alloc_detect_zone_leaks(z) != v.size() - cut) vio("zone-leaks", "%zu of %zu blocks live in a zone of %zu bytes, its report is %llu", v.size() - cut, v.size(), n, (unsigned long long) iso_alloc_detect_zone_leaks(z));
            for(size_t j = cut; j < v.size(); j++) iso_free_from_zone(v[j], z);
            iso_alloc_destroy_zone(z);
            tally("huge_zone_reports");
        }
        if(i % 6 == 5) { /* the same future with and without reports in it */
            uint64_t *sh = (uint64_t *) syscall(SYS_mmap, 0, 1 << 20, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            uint64_t s2 = r.next();
            const int N = 1500;
            for(int with = 0; with < 2; with++) {
                uint64_t *o = sh + with * 60000;
                Res c = child([&] {
                    Rng q(s2);
                    std::vector<std::pair<uintptr_t, size_t>> v;
                    for(int j = 0; j < N; j++) {
                        size_t n = q.chance(1, 20) ? q.range(65537, 200000) : pick_size(q, 9000);
                        if(v.size() > 30 && q.chance(1, 2)) { size_t x = q.below(v.size()); auto e = v[x]; v[x] = v.back(); v.pop_back(); if(q.chance(1, 2)) iso_free((void *) e.first); else iso_free_size((void *) e.first, e.second); }
                        else { void *p = iso_alloc(n); o[j] = (uintptr_t) p; if(n) v.push_back({(uintptr_t) p, n}); }
                        bool rep = q.chance(1, 12);
                        size_t zi = h.zones.empty() ? 0 : q.below(h.zones.size());
                        if(rep && with) {
                            if(LEAK) (void) iso_alloc_detect_leaks();
                            (void) iso_alloc_mem_usage();
                            if(!h.zones.empty()) { (void) iso_alloc_detect_zone_leaks(h.zones[zi].h); (void) iso_alloc_zone_mem_usage(h.zones[zi].h); }
                        }
                    }
                });
                if(!c.ok()) vio("report-crash", "a run %s reports ended with %s", with ? "with" : "without", c.str().c_str());
            }
            if(getenv("VH_RAND")) {
                int k;
                for(k = 0; k < N && sh[k] == sh[60000 + k]; k++);
                if(k < N) vio("perturbed", "with reports interleaved, allocation %d gives %llx instead of %llx", k, (unsigned long long) sh[60000 + k], (unsigned long long) sh[k]);
                tally("differential");
            }
            syscall(SYS_munmap, sh, 1 << 20);
        }
    }
    sample("%llu rounds: up to %lld MB reported, %lld zone reports", (unsigned long long) rounds, (long long) S.stats["max_usage"], (long long) S.stats["zone_reports"]);
    while(!big.empty()) bigfree(big.begin()->first);
    h.end();
    if(LEAK && iso_alloc_detect_leaks()) vio("leaks", "everything released, leak report is %llu", (unsigned long long) iso_alloc_detect_leaks());
    finish();
}
