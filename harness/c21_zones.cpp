/* Private zones: separation, advertised capacity, reuse, refusals, destruction. */
#include "heap.h"
#include "sys.h"
using namespace vh;
struct PZ { void *h; size_t n, chunk, cap, adv; uintptr_t lo, hi; std::vector<void *> v; };
static uintptr_t newmaps[4096][2];
static int nnew;
static void mapped(uintptr_t a, size_t n) { if(nnew < 4096) { newmaps[nnew][0] = a; newmaps[nnew++][1] = a + n; } }
int main(int argc, char **argv) {
    init(argc, argv);
    Rng r(g_seed);
    sysi::on_map = mapped;
    Heap h(g_seed ^ 53);
    h.strong = VH_CFG_STRONG_SIZE_ISOLATION;
    h.max_live = 12u << 20;
    h.w[O_NEW_ZONE] = h.w[O_DEL_ZONE] = h.w[O_ZONE_ALLOC] = h.w[O_ZONE_STRDUP] = h.w[O_ZONE_FREE] = 0;
    h.w[O_DRAIN] = 0;
    h.run(1000);
    std::vector<PZ> zs;
    auto owner = [&](uintptr_t a, size_t n) -> PZ * { for(auto &z : zs) if(a < z.hi && a + n > z.lo) return &z; return NULL; };
    long rounds = argi(argc, argv, "--rounds", 60);
    auto general = [&](int ops) { /* general traffic, none of it inside a private zone */
        for(int k = 0; k < ops; k++) {
            size_t n = r.chance(1, 10) ? r.range(65537, 500000) : r.chance(1, 2) && !zs.empty() ? std::min<size_t>(zs[r.below(zs.size())].n, 65536) - r.below(8) : pick_size(r, 65536);
            if(!n) n = 1;
            h.make_room(n);
            void *p = r.chance(1, 6) ? iso_calloc(1, n) : iso_alloc(n);
            if(PZ *z = owner((uintptr_t) p, n)) vio("intruder", "general allocation of %zu bytes returned %p inside the private zone of %zu byte blocks", n, p, z->n);
            h.got("iso_alloc", p, n);
            tally("general");
            if(r.chance(1, 2)) { uintptr_t u = h.pick(); if(u) h.release(u, r.below(2)); }
        }
    };
    for(long i = 0; i < rounds && !S.viols; i++) {
        if(zs.size() < 5) {
            PZ z = {};
            switch(r.below(5)) {
            case 0: z.n = 32 * r.range(1, 40); break;
            case 1: z.n = 32 * r.range(1, 2048); break;
            case 2: z.n = r.range(1, 65536); break;
            case 3: z.n = 65536 - r.below(3); break;
            default: z.n = (size_t) 16 << r.below(13);
            }
            phase("new private zone of %zu, round %ld seed %llu", z.n, i, (unsigned long long) g_seed);
            z.h = iso_alloc_new_zone(z.n);
            if(!z.h) { vio("refused", "private zone of %zu byte blocks could not be created", z.n); break; }
            z.adv = iso_zone_chunk_count(z.h);
            void *p = iso_alloc_from_zone(z.h);
            if(!p) { vio("capacity", "fresh private zone of %zu byte blocks (advertised %zu) gave nothing", z.n, z.adv); break; }
            z.chunk = iso_chunksz(p);
            std::vector<Map> m = maps();
            const Map *mp = find_map(m, (uintptr_t) p);
            z.lo = mp->start;
            z.hi = mp->end;
            /* neighbouring mappings may be merged: a zone is never larger than 4 MB */
            if(PZ *o = owner((uintptr_t) p, z.n)) vio("shared", "a block of the new private zone of %zu lies inside the zone of %zu", z.n, o->n);
            memset(p, 0x33, z.n);
            z.v.push_back(p);
            zs.push_back(z);
            tally("zones");
        }
        PZ &z = zs[r.below(zs.size())];
        phase("filling private zone of %zu, round %ld seed %llu", z.n, i, (unsigned long long) g_seed);
        /* drive to exhaustion, with traffic elsewhere */
        std::unordered_set<void *> seen(z.v.begin(), z.v.end());
        void *p;
        iso_flush_caches();
        while((p = iso_alloc_from_zone(z.h))) {
            uintptr_t a = (uintptr_t) p;
            if(a < z.lo || a + z.n > z.hi) { vio("outside", "private zone of %zu: block %p lies outside the mapping %lx-%lx of its other blocks", z.n, p, z.lo, z.hi); break; }
            if((a > (uintptr_t) z.v[0] ? a - (uintptr_t) z.v[0] : (uintptr_t) z.v[0] - a) % z.chunk) vio("overlap", "private zone of %zu: block %p is not a multiple of %zu away from %p", z.n, p, z.chunk, z.v[0]);
            if(!seen.insert(p).second) { vio("overlap", "private zone of %zu handed out %p twice", z.n, p); break; }
            if(z.chunk != iso_chunksz(p) || z.chunk < z.n) vio("size", "block of the zone of %zu reports %zu", z.n, iso_chunksz(p));
            memset(p, 0x33, z.n);
            z.v.push_back(p);
            if(r.chance(1, 4000)) general(3);
        }
        if(z.v.size() < z.adv) vio("capacity", "private zone of %zu byte blocks delivered %zu of the %zu blocks it advertises", z.n, z.v.size(), z.adv);
        if(z.cap && z.cap != z.v.size()) vio("capacity", "private zone of %zu byte blocks delivered %zu blocks once and %zu later", z.n, z.cap, z.v.size());
        z.cap = z.v.size();
        if(iso_zone_chunk_count(z.h) != z.adv) vio("advertised", "the advertised count of a zone changed");
        for(int k = 0; k < 3; k++) if(iso_alloc_from_zone(z.h)) vio("capacity", "exhausted zone serves again without a free");
        tally("exhaustions");
        eval(mix(szclass(z.n), mix(z.cap, i % 5)));
        general(20);
        /* partial release by a mix of routes, then all of it is available again */
        for(size_t k = z.v.size(); k > 1; k--) std::swap(z.v[k - 1], z.v[r.below(k)]);
        size_t keep = r.below(z.v.size() + 1);
        if(keep == 0) keep = 1;
        int route = r.below(4);
        while(z.v.size() > keep) {
            p = z.v.back();
            z.v.pop_back();
            switch(route == 3 ? r.below(3) : route) {
            case 0: iso_free(p); break;
            case 1: iso_free_size(p, z.n); break;
            default: iso_free_from_zone(p, z.h);
            }
        }
        if(r.chance(1, 3)) { /* refusals */
            phase("refusals");
            void *x = iso_alloc_new_zone(65537 + (r.next() >> r.range(0, 60)));
            if(x) vio("oversize-zone", "a private zone for blocks above 64 KB was created");
            if(iso_alloc_from_zone(NULL) || iso_alloc_new_zone(SIZE_MAX)) vio("oversize-zone", "NULL or impossible zone accepted");
            std::string s(z.chunk + r.below(2000), 'x');
            iso_flush_caches();
            Res c = child([&] { char *q = iso_strdup_from_zone(z.h, s.c_str()); if(q) _exit(9); });
            if(c.code == 9 || !(c.ok() || c.aborted())) vio("oversize", "a string of %zu bytes was placed in a zone of %zu byte blocks (%s)", s.size() + 1, z.chunk, c.str().c_str());
            c = child([&] { char *q = iso_strndup_from_zone(z.h, s.c_str(), z.chunk + r.below(4)); if(q) _exit(9); });
            if(c.code == 9 || !(c.ok() || c.aborted())) vio("oversize", "a limited string too long for a zone of %zu byte blocks was served (%s)", z.chunk, c.str().c_str());
            tally("refusals");
        }
        if(r.chance(1, 3) || zs.size() >= 5) { /* destroy one; everything else stays */
            size_t k = r.below(zs.size());
            PZ d = zs[k];
            zs.erase(zs.begin() + k);
            if(r.chance(1, 2)) for(void *q : d.v) if(r.chance(1, 2)) iso_free(q);
            phase("destroying private zone of %zu, round %ld seed %llu", d.n, i, (unsigned long long) g_seed);
            nnew = 0;
            iso_alloc_destroy_zone(d.h);
            for(int t = 0; t < 8; t++) {
                uint8_t *q = (uint8_t *) d.v[r.below(d.v.size())] + r.below(d.n);
                bool again = false;
                for(int x = 0; x < nnew; x++) if((uintptr_t) q >= newmaps[x][0] && (uintptr_t) q < newmaps[x][1]) again = true;
                if(again) { tally("mapped_again"); continue; }
                if(!faults(q, t & 1)) vio("accessible", "block %p of a destroyed private zone of %zu is still accessible", q, d.n);
                tally("destroyed_probes");
            }
            h.sh.check_all("after the destruction of a private zone");
            for(auto &y : zs) for(void *q : y.v) { if(iso_chunksz(q) != y.chunk) { vio("collateral", "after destroying another zone a live block reports size %zu, not %zu", iso_chunksz(q), y.chunk); break; } }
            for(auto &y : zs) for(void *q : y.v) if(((uint8_t *) q)[y.n - 1] != 0x33) { vio("collateral", "contents of another private zone changed"); break; }
            iso_flush_caches();
            iso_verify_zones();
            general(40);
            tally("destroyed");
        }
        if(i % 10 == 9) h.run(500);
    }
    sample("%ld rounds, %lld zones", rounds, (long long) S.stats["zones"]);
    h.end();
    finish();
}
