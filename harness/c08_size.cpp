/* Size queries: accuracy, stability, full usability, and no effect on later calls
 * (two children run the same history from the same state, one with queries). */
#include "heap.h"
using namespace vh;
struct Trace { uint64_t h = 0; long n = 0; uint64_t at[64]; };
static uint64_t scenario(Rng r, Rng q, bool query, int steps, bool bigs, std::vector<uint64_t> *log) {
    std::vector<std::pair<void *, size_t>> v;
    uint64_t hash = 1;
    iso_alloc_zone_handle *z = iso_alloc_new_zone(32 * r.range(1, 40));
    auto note = [&](uint64_t x) { hash = mix(hash, x); log->push_back(x); };
    for(int i = 0; i < steps; i++) {
        int op = r.below(10);
        if(op < 4 || v.size() < 2) {
            size_t n = bigs && r.chance(1, 2) ? r.range(65537, 600000) : pick_size(r, 9000);
            void *p = iso_alloc(n);
            note((uintptr_t) p);
            v.push_back({p, n});
        } else if(op < 8) {
            size_t k = r.below(v.size());
            int how = r.below(3);
            if(how == 0) iso_free(v[k].first);
            else if(how == 1) iso_free_size(v[k].first, v[k].second);
            else { void *p = iso_realloc(v[k].first, v[k].second + 100); note((uintptr_t) p); iso_free(p); }
            v[k] = v.back(); v.pop_back();
        } else if(op == 8) { void *p = iso_alloc_from_zone(z); note((uintptr_t) p); if(p) v.push_back({p, 1}); }
        else if(r.chance(1, 10)) iso_flush_caches();
        int nq = q.below(4);
        if(query) for(int j = 0; j < nq && !v.empty(); j++) { volatile size_t s = iso_chunksz(v[q.below(v.size())].first); (void) s; if(q.chance(1, 5)) (void) iso_chunksz(NULL); }
    }
    for(auto &b : v) note(iso_chunksz(b.first));
    for(auto &b : v) iso_free(b.first);
    iso_flush_caches();
    iso_verify_zones();
    return hash;
}
int main(int argc, char **argv) {
    init(argc, argv);
    Rng r(g_seed);
    Heap h(g_seed ^ 3);
    h.strong = VH_CFG_STRONG_SIZE_ISOLATION;
    h.w[O_CHUNKSZ] = 700;
    h.w[O_BIG] = 60;
    h.max_size = 3 << 20;
    long ops = argi(argc, argv, "--ops", 200000);
    h.run(ops);
    /* every live block, twice, in address and random order */
    std::vector<uintptr_t> all;
    for(auto &k : h.sh.live) all.push_back(k.first);
    for(int pass = 0; pass < 3; pass++) {
        for(size_t i = all.size(); i > 1; i--) std::swap(all[i - 1], all[r.below(i)]);
        for(auto p : all) { h.usable(p); tally("queries"); eval(mix(pass, szclass(h.sh.live[p].size))); }
    }
    h.sh.check_all("after querying everything");
    /* queries of one large block among many must leave every one freeable and findable */
    for(int round = 0; round < 30 && !S.viols; round++) {
        std::vector<uintptr_t> b;
        int n = r.range(1, 20);
        for(int i = 0; i < n; i++) { size_t s = r.range(65537, 900000); void *p = iso_alloc(s); if(!p) { vio("unserved", "%zu", s); continue; } h.got("iso_alloc", p, s); b.push_back((uintptr_t) p); }
        for(int i = 0; i < 3 * n; i++) { h.usable(b[r.below(b.size())]); tally("big_queries"); }
        for(auto p : b) if(h.sh.has(p)) { h.sh.check(p, "after queries"); if(iso_chunksz((void *) p) < h.sh.live[p].size) vio("chunksz-small", "large block"); }
        for(auto p : b) if(h.sh.has(p) && r.chance(4, 5)) h.release(p, r.below(2));
        eval(mix(1234, n));
    }
    if(iso_chunksz(NULL) != 0) vio("null", "size query of NULL is %zu", iso_chunksz(NULL));
    if(argi(argc, argv, "--diff", 1)) {
        long diffs = argi(argc, argv, "--diffs", 12);
        for(long i = 0; i < diffs && !S.viols; i++) {
            uint64_t s = r.next();
            bool bigs = i & 1;
            size_t cap = 1 << 18;
            uint64_t *out[2];
            for(int k = 0; k < 2; k++) out[k] = (uint64_t *) mmap(NULL, cap * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            for(int k = 0; k < 2; k++) {
                Res c = child([&] { std::vector<uint64_t> log; scenario(Rng(s), Rng(s ^ 77), k, 1500, bigs, &log); out[k][0] = log.size(); for(size_t j = 0; j < log.size() && j + 1 < cap; j++) out[k][j + 1] = log[j]; });
                if(!c.ok()) vio("diff-crash", "history %s queries ended with %s", k ? "with" : "without", c.str().c_str());
            }
            size_t n = out[0][0];
            if(!S.viols && n != out[1][0]) vio("diff", "with queries the history returns %llu addresses, without %zu", (unsigned long long) out[1][0], n);
            for(size_t j = 1; j <= n && !S.viols; j++) if(out[0][j] != out[1][j]) { vio("diff", "result %zu of %zu of the same history is 0x%llx without and 0x%llx with size queries in between", j, n, (unsigned long long) out[0][j], (unsigned long long) out[1][j]); }
            for(int k = 0; k < 2; k++) munmap(out[k], cap * 8);
            tally("differential_histories"); tally("compared_results", n);
            eval(mix(4321, s));
        }
    }
    sample("%ld operations, then %zu live blocks queried 3 times each", ops, all.size());
    h.end();
    finish();
}
