/* Correct histories dense in integrity checks: every verification, flush, adjacent-block
 * check and the one at exit must pass. Blocks keep whatever contents they came with in
 * part, and some are filled with copies of guard values. */
#include "heap.h"
using namespace vh;
static uint8_t *hoard; /* copies of words found in fresh blocks */
static size_t hoarded;
static void raw_round(Rng &r, long i) {
    /* private and general zones of one size class, block contents chosen to provoke */
    size_t n;
    switch(r.below(4)) {
    case 0: n = 32 * r.range(1, 2048); break;
    case 1: n = 32 * r.range(1, 64); break;
    case 2: n = (size_t) 32 << r.below(12); break;
    default: n = r.range(1, 65536);
    }
    if(n > 65536) n = 65536;
    void *z = r.chance(1, 3) ? iso_alloc_new_zone(n) : NULL;
    std::vector<uint8_t *> v;
    auto chk = [&] {
        switch(r.below(z ? 4 : 3)) {
        case 0: iso_verify_zones(); break;
        case 1: iso_flush_caches(); break;
        case 2: iso_verify_zones(); iso_flush_caches(); iso_verify_zones(); break;
        default: iso_verify_zone(z);
        }
        tally("verifications");
    };
    size_t count = std::min<size_t>(r.range(20, 3000), (6u << 20) / n);
    bool toend = z && r.chance(1, 3);
    if(toend) count = 200000;
    for(int pass = 0; pass < 3; pass++) {
        while(v.size() < count) {
            uint8_t *p = (uint8_t *) (z ? iso_alloc_from_zone(z) : r.chance(1, 10) ? iso_calloc(1, n) : iso_alloc(n));
            if(!p) { if(!z) vio("unserved", "iso_alloc(%zu) NULL", n); break; }
            size_t full = iso_chunksz(p);
            switch(r.below(6)) {
            case 0: break; /* left as it came */
            case 1: memset(p, r.next(), full); break;
            case 2: memset(p, 0, full); break;
            case 3: if(hoarded) { for(size_t o = 0; o + 8 <= full; o += 8) memcpy(p + o, hoard + 8 * r.below(hoarded), 8); } break;
            case 4: { uintptr_t a = (uintptr_t) (v.empty() ? p : v[r.below(v.size())]); for(size_t o = 0; o + 8 <= full && o < 256; o += 8) memcpy(p + o, &a, 8); break; }
            default: for(size_t o = 0; o < full; o += 61) p[o] = r.next();
            }
            if(hoarded < 4096) memcpy(hoard + 8 * hoarded++, p + (r.chance(1, 2) ? 0 : full - 8), 8);
            else memcpy(hoard + 8 * r.below(4096), p, 8);
            v.push_back(p);
            tally("raw_blocks");
            if(r.chance(1, 2000)) chk();
        }
        chk();
        /* release in an order: forwards, backwards, random, every other */
        int order = r.below(4);
        if(order == 0) std::sort(v.begin(), v.end());
        if(order == 1) std::sort(v.begin(), v.end(), std::greater<uint8_t *>());
        if(order >= 2) for(size_t k = v.size(); k > 1; k--) std::swap(v[k - 1], v[r.below(k)]);
        size_t keep = r.chance(1, 2) ? 0 : v.size() / r.range(1, 5);
        int route = r.below(z ? 4 : 3);
        while(v.size() > keep) {
            uint8_t *p = v.back();
            v.pop_back();
            switch(route == 2 ? r.below(z ? 3 : 2) : route) {
            case 0: iso_free(p); break;
            case 1: iso_free_size(p, n); break;
            default: z ? iso_free_from_zone(p, z) : iso_free(p);
            }
            if(r.chance(1, 3000)) chk();
        }
        chk();
        eval(mix(mix(szclass(n), order), mix(route, (z != NULL) * 2 + (keep != 0))));
    }
    for(auto p : v) iso_free(p);
    if(z) { chk(); iso_alloc_destroy_zone(z); chk(); }
}
/* Many private zones of one size at once, in use side by side, destroyed in any order. */
static void many_zones(Rng &r) {
    static const size_t bits[] = {16, 64, 96, 128, 200, 256, 512, 1000, 1024, 2000, 4096, 8192};
    size_t n = r.chance(2, 3) ? (4u << 20) / bits[r.below(12)] : r.range(1, 65536), nz = r.range(2, 70);
    if(n > 65536) n = 65536;
    struct Z { void *h; std::vector<std::pair<uint8_t *, uint8_t>> v; };
    std::vector<Z> zs;
    size_t budget = 48u << 20;
    for(size_t i = 0; i < nz; i++) {
        Z z = {iso_alloc_new_zone(r.chance(1, 12) ? n / 2 + 1 : n), {}};
        if(!z.h) { vio("unserved", "zone %zu of %zu byte blocks refused", i, n); break; }
        zs.push_back(z);
    }
    auto drop = [&](Z &z, size_t k) {
        auto b = z.v[k];
        z.v[k] = z.v.back();
        z.v.pop_back();
        size_t full = iso_chunksz(b.first);
        if(b.first[0] != b.second || b.first[full - 1] != b.second || b.first[full / 2] != b.second) vio("content", "a block of %zu in one of %zu zones changed", n, zs.size());
        switch(r.below(3)) {
        case 0: iso_free(b.first); break;
        case 1: iso_free_from_zone(b.first, z.h); break;
        default: iso_free_size(b.first, full);
        }
        tally("zone_blocks");
    };
    long steps = 200 + r.below(2500);
    for(long s = 0; s < steps && !zs.empty() && !S.viols; s++) {
        size_t zi = r.below(zs.size());
        Z &z = zs[zi];
        switch(r.below(10)) {
        case 0: case 1: case 2: case 3: case 4:
            for(int k = r.range(1, 12); k > 0 && budget > n; k--) {
                uint8_t *p = (uint8_t *) iso_alloc_from_zone(z.h), c = r.next();
                if(!p) break;
                size_t full = iso_chunksz(p);
                memset(p, c, full);
                budget -= std::min(budget, full);
                z.v.push_back({p, c});
            }
            break;
        case 5: case 6: case 7:
            for(int k = r.range(1, 12); k > 0 && !z.v.empty(); k--) { budget += n; drop(z, r.below(z.v.size())); }
            break;
        case 8:
            if(r.chance(1, 8)) { if(r.chance(1, 2)) iso_verify_zones(); else iso_verify_zone(z.h); if(r.chance(1, 2)) iso_flush_caches(); tally("verifications"); }
            break;
        default:
            if(!r.chance(1, 12)) break;
            if(r.chance(2, 3)) while(!z.v.empty()) drop(z, z.v.size() - 1);
            iso_alloc_destroy_zone(z.h);
            zs[zi] = zs.back();
            zs.pop_back();
            if(r.chance(1, 2)) { Z nzz = {iso_alloc_new_zone(n), {}}; if(nzz.h) zs.push_back(nzz); }
        }
    }
    iso_verify_zones();
    while(!zs.empty()) {
        size_t zi = r.below(zs.size());
        Z &z = zs[zi];
        while(!z.v.empty()) drop(z, r.below(z.v.size()));
        iso_alloc_destroy_zone(z.h);
        zs[zi] = zs.back();
        zs.pop_back();
    }
    iso_flush_caches();
    iso_verify_zones();
    eval(mix(mix(szclass(n), 7), mix(nz / 8, 99)));
    tally("zone_groups");
}
/* A zone destroyed with k of its blocks still quarantined, in a chosen state of the quarantine. */
static void parting(Rng &r) {
    size_t n = r.chance(1, 4) ? (size_t) 32 << r.below(12) : r.range(1, 9000);
    if(r.chance(3, 4)) iso_flush_caches();
    int before = r.chance(1, 2) ? 0 : r.below(70), own = r.below(3) ? r.range(0, 4) : r.range(0, 70);
    for(int k = 0; k < before; k++) { void *p = iso_alloc(1 + r.below(5000)); if(p) iso_free(p); }
    void *z = iso_alloc_new_zone(n);
    if(!z) return;
    std::vector<void *> v;
    for(int k = 0; k < own + (int) r.below(3); k++) { void *p = iso_alloc_from_zone(z); if(p) v.push_back(p); }
    for(int k = 0; k < own && !v.empty(); k++) { void *p = v.back(); v.pop_back(); if(r.chance(3, 4)) iso_free(p); else if(r.chance(1, 2)) iso_free_size(p, n); else iso_free_from_zone(p, z); }
    iso_alloc_destroy_zone(z);
    if(r.chance(1, 2)) { z = iso_alloc_new_zone(r.chance(1, 2) ? n : n + 64); if(z) { void *p = iso_alloc_from_zone(z); if(p && r.chance(1, 2)) iso_free(p); } } else z = NULL;
    int after = r.chance(1, 2) ? 0 : r.below(70);
    for(int k = 0; k < after; k++) { void *p = iso_alloc(1 + r.below(5000)); if(p) iso_free(p); }
    if(r.chance(3, 4)) iso_flush_caches();
    if(r.chance(1, 6)) iso_verify_zones();
    if(z) iso_alloc_destroy_zone(z);
    eval(mix(mix(szclass(n), own), mix(before, 77)));
    tally("partings");
}
int main(int argc, char **argv) {
    init(argc, argv);
    Rng r(g_seed);
    hoard = (uint8_t *) mmap(NULL, 32768, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    Heap h(g_seed ^ 37);
    h.strong = VH_CFG_STRONG_SIZE_ISOLATION;
    h.max_live = 16u << 20;
    h.zones_left = 2000;
    h.w[O_VERIFY] = 6;
    h.w[O_VERIFY_ZONE] = 20;
    h.w[O_FLUSH] = 25;
    h.w[O_NEW_ZONE] = 3;
    h.w[O_DEL_ZONE] = 4;
    long rounds = argi(argc, argv, "--rounds", 12), ops = argi(argc, argv, "--ops", 4000);
    for(long i = 0; i < rounds && !S.viols; i++) {
        h.run(ops);
        for(int k = 0; k < 6; k++) {
            phase("raw round %ld.%d seed %llu", i, k, (unsigned long long) g_seed);
            raw_round(r, i);
        }
        for(int k = 0; k < 4; k++) {
            phase("zone group in round %ld.%d seed %llu", i, k, (unsigned long long) g_seed);
            many_zones(r);
        }
        for(int k = 0; k < 60; k++) {
            phase("parting %ld.%d seed %llu", i, k, (unsigned long long) g_seed);
            parting(r);
        }
        /* the same state, left through exit */
        uint64_t cs = r.next();
        phase("exit in round %ld seed %llu", i, (unsigned long long) g_seed);
        Res c = child([&] {
            h.r = Rng(cs);
            h.run(300 + cs % 900);
            Rng q(cs);
            raw_round(q, 0);
        }, 120, true);
        if(!c.ok()) vio("exit", "a correct program ended with %s", c.str().c_str());
        tally("exits");
    }
    sample("%ld rounds with %lld verifications", rounds, (long long) S.stats["verifications"]);
    h.end();
    finish();
}
