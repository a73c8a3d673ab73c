/* Search for dangling references: natural odds, millions of releases. */
#include "heap.h"
using namespace vh;
struct Hold { uint8_t *p; size_t n; uint64_t pat; size_t off; uint64_t keep; };
static void put(void *a, uint64_t v) { memcpy(a, &v, 8); }
static uint64_t get(const void *a) { uint64_t v; memcpy(&v, a, 8); return v; }
int main(int argc, char **argv) {
    struct sigaction lib;
    sigaction(SIGSEGV, NULL, &lib);
    init(argc, argv);
    Rng r(g_seed);
    int mode = argi(argc, argv, "--mode", 0);
    long N = argi(argc, argv, "--frees", 14000000);
    Heap h(g_seed ^ 83);
    h.max_live = 3u << 20;
    h.strong = VH_CFG_STRONG_SIZE_ISOLATION;
    h.w[O_BURST] = h.w[O_CHURN] = 0;
    h.run(400);
    std::vector<Hold> H;
    void *hz = NULL;
    std::vector<uint8_t *> zb;
    auto add = [&](uint8_t *p, size_t n) { Hold o = {p, n, r.next(), 0, 0}; fill(p, n, o.pat); H.push_back(o); };
    if(mode == 2 || mode == 3) {
        size_t n = mode == 2 ? 65536 : 32 * r.range(1, 300);
        hz = iso_alloc_new_zone(n);
        uint8_t *p;
        while((p = (uint8_t *) iso_alloc_from_zone(hz))) zb.push_back(p);
        std::sort(zb.begin(), zb.end());
        add(zb.back(), n);
        add(zb.front(), n);
        if(mode == 3) add(zb[zb.size() / 2], n);
        /* what stays of the zone must not hold addresses */
        for(uint8_t *q : zb) if(q != zb.back() && q != zb.front()) memset(q, 0, n < 4096 ? n : 4096), q[0] = 1;
        if(mode == 3) fill(H[2].p, H[2].n, H[2].pat);
    } else
        for(int k = 0; k < 4; k++) { size_t n = k < 2 ? 512 : 24 + r.below(3000); if(n < 32) n = 32; add((uint8_t *) iso_alloc(n), n); }
    auto samezone = [&](uint8_t *a, uint8_t *b) { /* same mapping of user pages */
        std::vector<Map> m = maps();
        const Map *x = find_map(m, (uintptr_t) a);
        return x && (uintptr_t) b >= x->start && (uintptr_t) b < x->end && x->end - x->start <= (4u << 20);
    };
    uint64_t page = 0;
    long hits = 0, frees = 0;
    std::vector<uint8_t *> ps;
    while(frees < N && !S.viols) {
        size_t n = mode == 4 ? 32 * r.range(1, 20) : r.chance(1, 2) ? 32 * r.range(1, 60) : pick_size(r, 4000);
        /* new places for the stale references */
        for(auto &o : H) {
            size_t lim = o.n - 8;
            o.off = mode == 2 ? (&o == &H[0] ? lim : 0) : mode == 1 ? (r.below(lim / 8 + 1) * 8 + r.range(1, 7)) % (lim + 1) : r.chance(1, 3) ? (r.chance(1, 2) ? 0 : lim) : r.below(lim + 1);
            if(mode == 1 && o.off % 8 == 0) o.off = 1;
            o.keep = get(o.p + o.off);
        }
        phase("searching, mode %d, after %ld releases, %ld hits, seed %llu", mode, frees, hits, (unsigned long long) g_seed);
        auto judge = [&](uint8_t *p) {
            int changed = 0;
            Hold *hit = NULL;
            for(auto &o : H) { uint64_t v = get(o.p + o.off); if(v != (uint64_t) p) { changed++; hit = &o; } }
            if(!changed) return;
            hits++;
            uint64_t v = get(hit->p + hit->off);
            if(changed > 1) vio("many", "%d references to the released %p were changed by one release", changed, p);
            if(!page) {
                page = v;
                std::vector<Map> m = maps();
                const Map *x = find_map(m, page);
                if(!x || !x->none()) vio("page", "the reference to %p was replaced by %lx, which is %s", p, page, x ? x->perm : "not mapped");
            } else if(v != page) vio("page", "the reference to %p was replaced by %lx, an earlier one by %lx", p, v, page);
            if(!faults((uint8_t *) v, false) || !faults((uint8_t *) v + 4000, true)) vio("page", "the replacement %lx is accessible", v);
            for(auto &o : H) if(&o != hit && o.p + o.off < hit->p + hit->off && samezone(hit->p, o.p)) vio("first", "reference at %p was replaced although %p lies before it in the same zone", hit->p + hit->off, o.p + o.off);
            tally(hit->off % 8 ? "unaligned_hits" : "aligned_hits");
            eval(mix(hits, mix(mode, hit->off)));
            if(hits <= 3 || hits % 10 == 0) {
                for(int k = 0; k < 3; k++) {
                    uint64_t off = k == 0 ? 0 : r.below(4096);
                    Res c = child([&] {
                        sigaction(SIGSEGV, &lib, NULL);
                        uint8_t *d = (uint8_t *) get(hit->p + hit->off);
                        if(k == 2) d[off] = 1; else { volatile uint8_t x = d[off]; (void) x; }
                    });
                    if(VH_CFG_SIGNAL_HANDLER ? !c.aborted() || c.out.find("se after free") == std::string::npos : c.sig != SIGSEGV) vio("report", "use of the replaced reference (offset %llu): %s", (unsigned long long) off, c.str().c_str());
                    tally("uses");
                }
            }
            put(hit->p + hit->off, (uint64_t) p);
        };
        if(mode == 4) {
            iso_flush_caches();
            for(int rep = 0; rep < 16; rep++) {
                ps.clear();
                for(int k = 0; k < 64; k++) ps.push_back((uint8_t *) iso_alloc(n));
                /* one reference per block, in one holder big enough */
                Hold &o = H[0];
                for(int k = 0; k < 64; k++) put(o.p + 8 * k, (uint64_t) ps[k]);
                for(uint8_t *p : ps) iso_free(p);
                for(int k = 0; k < 64; k++) if(get(o.p + 8 * k) != (uint64_t) ps[k] && get(o.p + 8 * k) != page && page) vio("early", "a reference changed while the block is in quarantine");
                iso_flush_caches();
                frees += 64;
                for(int k = 0; k < 64; k++) {
                    uint64_t v = get(o.p + 8 * k);
                    if(v == (uint64_t) ps[k]) continue;
                    hits++;
                    if(!page) page = v;
                    if(v != page || !faults((uint8_t *) v, false)) vio("page", "the reference to %p was replaced by %lx", ps[k], v);
                    eval(mix(hits, k));
                }
                fill(o.p, o.n, o.pat);
            }
        } else {
            void *pz = mode == 3 && r.chance(1, 2) ? iso_alloc_new_zone(n) : NULL;
            long batch = pz ? 60000 : 20000;
            for(long k = 0; k < batch; k++) {
                uint8_t *p = (uint8_t *) (pz ? iso_alloc_from_zone(pz) : iso_alloc(n));
                if(!p) { vio("unserved", "NULL for %zu", n); break; }
                for(auto &o : H) put(o.p + o.off, (uint64_t) p);
                if(pz && (k & 1)) iso_free_from_zone(p, pz);
                else iso_free_size(p, n);
                frees++;
                for(auto &o : H) if(get(o.p + o.off) != (uint64_t) p) { judge(p); break; }
            }
            for(auto &o : H) put(o.p + o.off, o.keep);
            if(pz) iso_alloc_destroy_zone(pz);
        }
        for(auto &o : H) { ssize_t d = differs(o.p, o.n, o.pat); if(d >= 0) { vio("altered", "live block of %zu changed at %zd (references at %zu)", o.n, d, o.off); break; } }
        tally("scans");
    }
    h.sh.check_all("after the searches");
    tally("frees", frees);
    tally("hits", hits);
    if(!S.viols && frees >= 14000000 && hits == 0) vio("never", "none of %ld releases with a reference left behind replaced it (mode %d)", frees, mode);
    if(hits > frees / 1000000 * 4 + 30) vio("too-often", "%ld of %ld releases searched", hits, frees);
    sample("mode %d: %ld releases, %ld of them replaced one reference by %lx", mode, frees, hits, page);
    h.end();
    finish();
}
