/* Reserved canary blocks: the complement of an exhausted private zone. */
#include "heap.h"
using namespace vh;
int main(int argc, char **argv) {
    init(argc, argv);
    Rng r(g_seed);
    Heap h(g_seed ^ 59);
    h.strong = VH_CFG_STRONG_SIZE_ISOLATION;
    h.max_live = 6u << 20;
    h.run(500);
    long rounds = argi(argc, argv, "--rounds", 30), kids = argi(argc, argv, "--kids", 12);
    for(long i = 0; i < rounds && !S.viols; i++) {
        size_t n;
        switch(r.below(4)) {
        case 0: n = 32 * r.range(1, 256); break;
        case 1: n = (size_t) 16 << r.below(10); break;
        case 2: n = 8192; break;
        default: n = r.range(100, 8192);
        }
        phase("private zone of %zu, round %ld seed %llu", n, i, (unsigned long long) g_seed);
        void *z = iso_alloc_new_zone(n), *p;
        size_t adv = iso_zone_chunk_count(z);
        std::unordered_set<uintptr_t> out;
        std::vector<void *> v;
        while((p = iso_alloc_from_zone(z))) { if(!out.insert((uintptr_t) p).second) { vio("twice", "block handed out twice"); break; } memset(p, 0x44, n); v.push_back(p); }
        if(v.empty()) { vio("empty", "zone gave nothing"); break; }
        size_t chunk = iso_chunksz(v[0]);
        std::vector<Map> m = maps();
        uintptr_t lo = (uintptr_t) *std::min_element(v.begin(), v.end()), hi = (uintptr_t) *std::max_element(v.begin(), v.end()) + chunk;
        const Map *mp = find_map(m, lo);
        /* block positions of the mapping that were never handed out */
        std::vector<char *> res;
        uintptr_t a = lo;
        while(a >= mp->start + chunk) a -= chunk;
        size_t total = 0;
        bool merged = mp->end - mp->start > (4u << 20) + 8192;
        if(merged) { a = lo; }
        size_t bits = 0;
        for(; a + chunk <= (merged ? hi : mp->end); a += chunk) {
            total++;
            if(!out.count(a)) res.push_back((char *) a);
        }
        /* the mapping may hold a few more blocks than the zone has bits for; only reserved
         * blocks carry a guard value at rest, others were never touched */
        std::vector<char *> can;
        for(char *c : res) { uint64_t w; memcpy(&w, c, 8); if(w) can.push_back(c); }
        tally("canaries", can.size());
        tally("zones");
        eval(mix(mix(szclass(n), can.size()), (uintptr_t) (can.empty() ? 0 : (can[0] - (char *) lo))));
        size_t expect = (4u << 20) / chunk;
        if(expect >= 300 && can.empty()) vio("none", "zone of %zu byte blocks (%zu handed out, %zu positions) has no reserved blocks", n, v.size(), total);
        if(v.size() < adv) vio("capacity", "zone of %zu byte blocks advertises %zu, delivered %zu, %zu reserved", n, adv, v.size(), can.size());
        for(char *c : can) { /* guard values in place, beginning with a zero byte */
            uint64_t w1, w2;
            memcpy(&w1, c, 8);
            memcpy(&w2, c + chunk - 8, 8);
            if((w1 & 0xff) || w1 != w2) { vio("value", "reserved block of %zu bytes carries %llx and %llx", chunk, (unsigned long long) w1, (unsigned long long) w2); break; }
        }
        if(can.empty()) { iso_alloc_destroy_zone(z); continue; }
        /* and after releases and a second exhaustion they are still reserved */
        size_t k = r.below(v.size());
        for(size_t x = 0; x < k; x++) { iso_free_from_zone(v.back(), z); v.pop_back(); }
        while((p = iso_alloc_from_zone(z))) { if(!out.count((uintptr_t) p)) { vio("issued", "a reserved block of %zu bytes was handed out on reuse", chunk); break; } v.push_back(p); }
        for(long t = 0; t < kids; t++) {
            char *c = can[r.below(can.size())];
            int how = r.below(6), byte = r.range(1, 7);
            bool last = r.chance(1, 2), all = r.chance(1, 2), some = r.chance(1, 2);
            uint8_t flip = r.range(1, 255);
            phase("reserved block of %zu, case %d, byte %d, round %ld seed %llu", chunk, how, byte, i, (unsigned long long) g_seed);
            Res x = child([&] {
                if(some) { for(size_t q = 0; q < v.size(); q += 3) iso_free_size(v[q], n); }
                switch(how) {
                case 0: iso_free(c); iso_flush_caches(); break;
                case 1: iso_free_size(c, n); break;
                case 2: iso_free_permanently(c); break;
                case 3: iso_free_from_zone(c, z); break;
                default:
                    c[last ? chunk - 8 + byte : byte] ^= flip;
                    if(how == 4) { if(all) iso_verify_zones(); else iso_verify_zone(z); }
                    else exit(9);
                }
                _exit(9);
            });
            tally(how < 4 ? "canary_frees" : "canary_corruptions");
            eval(mix(mix(how, byte * 2 + last), szclass(n)));
            if(!x.aborted()) {
                if(how < 4) vio("free", "freeing a reserved block of %zu bytes (call %d): %s", chunk, how, x.str().c_str());
                else vio("corruption", "byte %d of the %s word of a reserved block of %zu bytes changed by 0x%x, not detected at %s: %s", byte, last ? "last" : "first", chunk, flip, how == 4 ? (all ? "verification of all zones" : "verification of the zone") : "exit", x.str().c_str());
            }
        }
        if(S.samples < 3) sample("zone of %zu: %zu blocks handed out, %zu reserved, %zu advertised", n, v.size(), can.size(), adv);
        iso_alloc_destroy_zone(z);
        if(i % 8 == 0) h.run(200);
    }
    h.end();
    finish();
}
