/* Guard pages, read off /proc/self/maps: the pages next to every accessible run the
 * allocator mapped must be its own inaccessible pages. */
#include "heap.h"
#include "sys.h"
using namespace vh;
static bool big_guarded = VH_CFG_BIG_ZONE_GUARD && VH_CFG_BIG_ZONE_META_DATA_GUARD;
static long checks;
static void scan(Heap &h, Rng &r, const char *when) {
    std::vector<Map> m = maps();
    /* merge neighbouring accessible mappings into runs */
    struct Run { uintptr_t s, e; bool lo, hi; };
    std::vector<Run> runs;
    for(size_t i = 0; i < m.size(); i++) {
        if(m[i].none()) continue;
        if(!runs.empty() && runs.back().e == m[i].start) { runs.back().e = m[i].end; }
        else runs.push_back({m[i].start, m[i].end, i > 0 && m[i - 1].none() && m[i - 1].end == m[i].start, false});
        runs.back().hi = i + 1 < m.size() && m[i + 1].none() && m[i + 1].start == m[i].end;
    }
    std::sort(sysi::regs, sysi::regs + sysi::nregs, [](const sysi::Reg &a, const sysi::Reg &b) { return a.a < b.a; });
    size_t k = 0;
    long mine = 0;
    for(auto &u : runs) {
        while(k < (size_t) sysi::nregs && sysi::regs[k].a + sysi::regs[k].len <= u.s) k++;
        if(k >= (size_t) sysi::nregs || sysi::regs[k].a >= u.e) continue;
        /* an accessible run the allocator mapped */
        mine++;
        auto b = h.sh.live.lower_bound(u.s);
        bool has = b != h.sh.live.end() && b->first < u.e;
        if(!u.lo || !sysi::mine(u.s - 1)) vio("below", "%s: the page below accessible allocator memory %lx-%lx (%s) is not an inaccessible page of the allocator", when, u.s, u.e, has ? "holds blocks" : "holds none");
        if(!u.hi || !sysi::mine(u.e)) vio("above", "%s: the page above accessible allocator memory %lx-%lx (%s) is not an inaccessible page of the allocator", when, u.s, u.e, has ? "holds blocks" : "holds none");
        if(has) {
            /* only blocks of one zone: same kind, and nothing bigger than a zone unless it is one large block */
            void *z = b->second.zone;
            bool big = b->second.size > 65536;
            size_t cnt = 0;
            uint64_t hsize = iso_chunksz((void *) b->first);
            for(auto it = b; it != h.sh.live.end() && it->first < u.e; ++it) {
                cnt++;
                bool big2 = it->second.size > 65536;
                if(it->second.zone != z || (big && cnt > 1) || big2 != big || (!big && iso_chunksz((void *) it->first) != hsize)) {
                    vio("shared", "%s: no inaccessible page between blocks of different zones: %p (size %zu) and %p (size %zu)", when, (void *) b->first, b->second.size, (void *) it->first, it->second.size);
                    break;
                }
            }
            if(!big && u.e - u.s > (4u << 20)) vio("long", "%s: accessible run %lx-%lx with small blocks is longer than a zone", when, u.s, u.e);
            tally("block_runs");
        }
        if(r.chance(1, 40)) {
            if(!faults((uint8_t *) u.e, false) || !faults((uint8_t *) u.e + 4095, true) || !faults((uint8_t *) u.s - 1, true) || !faults((uint8_t *) u.s - 4096, false)) vio("accessible", "%s: a guard page of %lx-%lx can be accessed", when, u.s, u.e);
            tally("fault_probes", 4);
        }
        tally("runs");
        checks++;
        eval(mix(mix((u.e - u.s) / 4096, has), mix(checks % 97, runs.size())));
    }
    tally_max("max_runs_at_once", mine);
    tally("scans");
}
int main(int argc, char **argv) {
    init(argc, argv);
    Rng r(g_seed);
    Heap h(g_seed ^ 41);
    h.strong = VH_CFG_STRONG_SIZE_ISOLATION;
    if(!big_guarded) { h.max_size = 65536; h.w[O_BIG] = 0; }
    h.zones_left = 4000;
    h.w[O_NEW_ZONE] = 8;
    h.w[O_DEL_ZONE] = 7;
    h.w[O_CHURN] = 6;
    h.max_live = 32u << 20;
    phase("start");
    scan(h, r, "at start-up");
    long scans = argi(argc, argv, "--scans", 40), ops = argi(argc, argv, "--ops", 12000);
    for(long i = 0; i < scans && !S.viols; i++) {
        h.run(ops);
        char w[60];
        snprintf(w, sizeof w, "after %llu operations", (unsigned long long) h.ops);
        phase("scan %ld seed %llu", i, (unsigned long long) g_seed);
        scan(h, r, w);
        if(i % 8 == 3) { /* wear a class out so that its zone is replaced */
            size_t n = r.range(1500, 9000);
            h.sh.check_all("before wearing out");
            for(int k = 0; k < 60000; k++) { void *p = iso_alloc(n); if(!p) break; iso_free_size(p, n); }
            scan(h, r, "after wearing a zone out");
        }
    }
    sample("%ld scans, up to %lld accessible runs at once", scans, (long long) S.stats["max_runs_at_once"]);
    h.end();
    finish();
}
