/* Permanently freed blocks: erased, never overlapped again while their zone exists. */
#include "heap.h"
#include "sys.h"
using namespace vh;
static std::map<uintptr_t, size_t> dead;
static void unmapped(uintptr_t a, size_t len) {
    auto it = dead.lower_bound(a);
    while(it != dead.end() && it->first < a + len) it = dead.erase(it);
}
static void hit(const char *who, void *vp, size_t n) {
    uintptr_t p = (uintptr_t) vp;
    auto it = dead.lower_bound(p + std::max<size_t>(n, 1));
    if(it == dead.begin()) return;
    --it;
    if(it->first + it->second > p) vio("reissued", "%s(%zu) returned %p overlapping the permanently freed block %p of %zu bytes", who, n, vp, (void *) it->first, it->second);
}
int main(int argc, char **argv) {
    init(argc, argv);
    Rng r(g_seed);
    sysi::on_unmap = unmapped;
    Heap h(g_seed ^ 47);
    h.strong = VH_CFG_STRONG_SIZE_ISOLATION;
    h.max_live = 24u << 20;
    long ops = argi(argc, argv, "--ops", 200000);
    long big_left = argi(argc, argv, "--big", 400);
    struct B { char *p; size_t n; void *z; };
    std::vector<B> live;
    std::vector<std::pair<void *, size_t>> zones;
    size_t bytes = 0;
    const uint64_t MARK = 0xC0FFEE1234ABCDEFull;
    auto erased = [&](char *p, size_t n, size_t chunk, int route) {
        if(!readable(p)) { tally("zone_retired"); return; }
        for(size_t o = 0; o + 8 <= n; o += 8) {
            uint64_t w;
            memcpy(&w, p + o, 8);
            if(w == (MARK ^ o)) { vio("contents", "block of %zu bytes released permanently by route %d still holds its contents at offset %zu of %zu", chunk, route, o, n); return; }
        }
        tally("erased");
    };
    size_t cls[6];
    for(auto &c : cls) c = 32 * r.range(1, 300);
    for(long i = 0; i < ops && !S.viols; i++) {
        if(i % 4000 == 0) {
            h.run(60);
            if(zones.size() < 4) { size_t s = r.chance(1, 2) ? cls[r.below(6)] : 32 * r.range(1, 100); zones.push_back({iso_alloc_new_zone(s), s}); }
            else if(r.chance(1, 2)) { /* a destroyed zone may be mapped again */
                size_t k = r.below(zones.size());
                for(size_t j = 0; j < live.size();) if(live[j].z == zones[k].first) { bytes -= live[j].n; live[j] = live.back(); live.pop_back(); } else j++;
                iso_alloc_destroy_zone(zones[k].first);
                zones.erase(zones.begin() + k);
            }
            if(r.chance(1, 3)) cls[r.below(6)] = 32 * r.range(1, 500);
        }
        phase("step %ld seed %llu", i, (unsigned long long) g_seed);
        /* allocate */
        B b = {NULL, 0, NULL};
        const char *who = "iso_alloc";
        b.n = r.chance(3, 4) ? cls[r.below(6)] - r.below(31) : pick_size(r, r.chance(1, 20) ? 300000 : 9000);
        switch(r.below(8)) {
        case 0: who = "iso_calloc"; b.p = (char *) iso_calloc(1, b.n); break;
        case 1: case 2: if(!zones.empty()) { auto &z = zones[r.below(zones.size())]; who = "iso_alloc_from_zone"; b.n = z.second; b.z = z.first; b.p = (char *) iso_alloc_from_zone(z.first); break; } /* fall through */
        case 3: if(!live.empty() && r.chance(1, 2)) {
            size_t k = r.below(live.size());
            if(live[k].z) break;
            B old = live[k];
            size_t oc = iso_chunksz(old.p);
            who = "iso_realloc";
            b.p = (char *) iso_realloc(old.p, b.n);
            if(b.p == NULL) break;
            bytes -= old.n;
            live[k] = live.back();
            live.pop_back();
            if(VH_CFG_PERM_FREE_REALLOC) { /* these releases are permanent */
                if(oc <= 65536) { hit(who, b.p, b.n); erased(old.p, old.n, oc, 4); dead[(uintptr_t) old.p] = oc; tally("realloc_perm"); }
                else if(!faults((uint8_t *) old.p, false)) vio("big", "large block of %zu bytes released by realloc in the permanent build stays readable", oc);
            }
            break;
        } /* fall through */
        default: b.p = (char *) iso_alloc(b.n);
        }
        if(b.p) {
            hit(who, b.p, b.n);
            for(size_t o = 0; o + 8 <= b.n; o += 8) { uint64_t w = MARK ^ o; memcpy(b.p + o, &w, 8); }
            bytes += b.n;
            live.push_back(b);
            tally("allocations");
        }
        /* release */
        while(live.size() > 1500 || bytes > (12u << 20) || r.chance(1, 3)) {
            if(live.empty()) break;
            size_t k = r.below(live.size());
            b = live[k];
            live[k] = live.back();
            live.pop_back();
            bytes -= b.n;
            size_t c = iso_chunksz(b.p);
            if(r.chance(1, 12)) {
                if(c > 65536) {
                    if(big_left-- <= 0) { iso_free(b.p); continue; }
                    iso_free_permanently(b.p);
                    bool rd = false;
                    for(size_t o = 0; o < c; o += 4096) if(readable(b.p + o)) rd = true;
                    if(rd || !faults((uint8_t *) b.p, true) || !faults((uint8_t *) b.p + c - 1, false)) vio("big", "permanently freed large block %p of %zu bytes stays accessible", b.p, c);
                    dead[(uintptr_t) b.p] = c;
                    tally("big_perm");
                    continue;
                }
                int route = b.z ? r.below(2) : 0;
                if(route) iso_free_from_zone_permanently(b.p, b.z);
                else iso_free_permanently(b.p);
                erased(b.p, b.n, c, route);
                dead[(uintptr_t) b.p] = c;
                tally("perm");
                eval(mix(mix(szclass(c), route), mix(b.z != NULL, dead.size() / 256)));
            } else if(r.chance(1, 2)) iso_free(b.p);
            else iso_free_size(b.p, b.n);
        }
        if(r.chance(1, 400)) iso_flush_caches();
        if(r.chance(1, 3000)) iso_verify_zones();
        if(r.chance(1, 2000)) { /* churn and fill, which search the whole zone for free blocks */
            size_t n = cls[r.below(6)];
            std::vector<void *> v;
            for(size_t k = 0; k < std::min<size_t>(8000, (5u << 20) / n); k++) { void *p = iso_alloc(n); hit("iso_alloc", p, n); v.push_back(p); }
            if(!zones.empty()) { auto &z = zones[r.below(zones.size())]; void *p; while((p = iso_alloc_from_zone(z.first))) { hit("iso_alloc_from_zone", p, z.second); v.push_back(p); } tally("zones_exhausted"); }
            for(void *p : v) iso_free(p);
            tally("fills");
        }
        if(r.chance(1, 20000)) { size_t n = cls[r.below(6)]; for(int k = 0; k < 40000; k++) { void *p = iso_alloc(n); hit("iso_alloc", p, n); iso_free_size(p, n); } tally("churns"); }
    }
    tally_max("max_dead", dead.size());
    sample("%ld steps, %zu permanently freed blocks at the end", ops, dead.size());
    iso_flush_caches();
    iso_verify_zones();
    finish();
}
