/* Many threads over the whole interface. Each block carries a pattern unique to
 * its owner that is checked in full before release; live blocks are checked for
 * disjointness whenever all threads have stopped; at the end nothing may be lost. */
#include "sys.h"
using namespace vh;
struct Blk { void *p; size_t n; uint64_t pat; iso_alloc_zone_handle *z; };
static pthread_mutex_t pool_mu = PTHREAD_MUTEX_INITIALIZER;
static std::vector<Blk> pool;          /* blocks handed from thread to thread */
static pthread_mutex_t z_mu[4] = {PTHREAD_MUTEX_INITIALIZER, PTHREAD_MUTEX_INITIALIZER, PTHREAD_MUTEX_INITIALIZER, PTHREAD_MUTEX_INITIALIZER};
static iso_alloc_zone_handle *shared_z[4];
static size_t shared_sz[4] = {64, 160, 1056, 8192};
static std::atomic<uint64_t> ids{1};
static std::atomic<long> n_alloc, n_cross, n_big, n_zone, n_flush, n_realloc, n_threads, n_perm, n_rep;
static std::atomic<int> zones_left;
static int rounds_ops;
static std::atomic<int> bad{0};
static pthread_mutex_t vmu = PTHREAD_MUTEX_INITIALIZER;
static void tvio(const char *k, const char *m, void *p, size_t n, long off) {
    pthread_mutex_lock(&vmu);
    vio(k, "%s: block %p size %zu offset %ld", m, p, n, off);
    pthread_mutex_unlock(&vmu);
    bad++;
}
static bool check(const Blk &b, const char *when) {
    ssize_t d = differs(b.p, b.n, b.pat);
    if(d >= 0) tvio("content", when, b.p, b.n, d);
    return d < 0;
}
static bool mk(Blk &b, void *p, size_t n, iso_alloc_zone_handle *z = NULL) {
    if(!p) return false;
    if((uintptr_t) p & 15) tvio("misaligned", "misaligned", p, n, 0);
    b = {p, n, ids++ * 0x9E3779B97F4A7C15ull, z};
    fill(p, n, b.pat);
    n_alloc++;
    return true;
}
static size_t tsize(Rng &r) {
    if(r.chance(1, 25)) { n_big++; return r.range(65537, 300000); }
    return pick_size(r, 20000);
}
static void release(Rng &r, Blk b) {
    check(b, "changed before its release");
    switch(r.below(8)) {
    case 0: case 1: iso_free_size(b.p, b.n); break;
    case 3: if(!b.z && b.n < 4000 && r.chance(1, 30)) { iso_free_permanently(b.p); n_perm++; break; } iso_free(b.p); break;
    case 2: if(b.z) { iso_free_from_zone(b.p, b.z); break; } /* fall through */
    default: iso_free(b.p);
    }
}
struct Arg { uint64_t seed; int ops; std::vector<Blk> mine; uint64_t sig; std::vector<uint64_t> sigs; };
static void *worker(void *v) {
    Arg *a = (Arg *) v;
    Rng r(a->seed);
    n_threads++;
    std::vector<Blk> &mine = a->mine;
    iso_alloc_zone_handle *own = NULL;
    uint64_t last = 0;
    for(int i = 0; i < a->ops && !bad; i++) {
        int op = r.below(100);
        Blk b;
        if(op < 34 || mine.size() < 3) {
            size_t n = tsize(r);
            void *p;
            switch(r.below(5)) {
            case 0: p = iso_calloc(1, n);
                if(p) for(size_t k = 0; k < n; k += 1 + n / 64) if(((uint8_t *) p)[k]) { tvio("not-zero", "calloc", p, n, k); break; }
                break;
            case 1: p = iso_realloc(NULL, n); break;
            default: p = iso_alloc(n);
            }
            if(!mk(b, p, n)) tvio("unserved", "allocation returned NULL", NULL, n, 0);
            else mine.push_back(b);
        } else if(op < 60) {
            size_t k = r.below(mine.size());
            b = mine[k]; mine[k] = mine.back(); mine.pop_back();
            release(r, b);
        } else if(op < 68) { /* hand one over, take one */
            size_t k = r.below(mine.size());
            pthread_mutex_lock(&pool_mu);
            pool.push_back(mine[k]);
            size_t j = r.below(pool.size());
            b = pool[j]; pool[j] = pool.back(); pool.pop_back();
            pthread_mutex_unlock(&pool_mu);
            mine[k] = mine.back(); mine.pop_back();
            n_cross++;
            release(r, b);
        } else if(op < 76) {
            size_t k = r.below(mine.size());
            b = mine[k];
            size_t n = tsize(r);
            check(b, "changed before realloc");
            if(b.z) continue;
            void *q = iso_realloc(b.p, n);
            if(!q) { tvio("unserved", "realloc returned NULL", b.p, n, 0); continue; }
            ssize_t d = differs(q, std::min(n, b.n), b.pat, b.n);
            if(d >= 0) tvio("realloc-content", "realloc lost contents", q, n, d);
            mk(mine[k], q, n);
            n_realloc++;
        } else if(op < 82) {
            size_t k = r.below(mine.size());
            size_t s = iso_chunksz(mine[k].p);
            if(s < mine[k].n) tvio("chunksz-small", "size query too small", mine[k].p, mine[k].n, s);
        } else if(op < 92) {
            int zi = r.below(4);
            void *p = iso_alloc_from_zone(shared_z[zi]);
            if(p && mk(b, p, shared_sz[zi], shared_z[zi])) { mine.push_back(b); n_zone++; }
        } else if(op < 94) { iso_flush_caches(); n_flush++;
        } else if(op < 95) { if(r.chance(1, 4)) iso_verify_zones();
        } else if(op < 96) {
            n_rep++;
            switch(r.below(7)) {
            case 0: (void) iso_alloc_mem_usage(); break;
            case 1: (void) iso_alloc_zone_mem_usage(shared_z[r.below(4)]); break;
            case 2: (void) iso_alloc_detect_zone_leaks(shared_z[r.below(4)]); break;
            case 3: if(r.chance(1, 6)) (void) iso_alloc_detect_leaks(); break;
            case 4: (void) iso_alloc_name_zone(shared_z[r.below(4)], (char *) "shared"); break;
            case 5: {
#if HEAP_PROFILER
                static thread_local iso_alloc_traces_t at[128]; static thread_local iso_free_traces_t ft[128];
                (void) iso_get_alloc_traces(at); (void) iso_get_free_traces(ft);
                if(r.chance(1, 5)) iso_alloc_reset_traces();
#endif
                break;
            }
            default: (void) iso_zone_chunk_count(shared_z[r.below(4)]);
            }
        } else if(op < 97) {
            if(!own && zones_left-- > 0) own = iso_alloc_new_zone(32 * r.range(1, 40));
            else if(own) { void *p = iso_alloc_from_zone(own); if(p) { memset(p, 1, 32); if(r.chance(1, 2)) iso_free(p); }
                if(r.chance(1, 3)) { iso_alloc_destroy_zone(own); own = NULL; } }
        } else if(op < 98) iso_verify_zone(shared_z[r.below(4)]);
        else if(op < 99 && VH_CFG_MEMORY_TAGGING && r.chance(1, 2)) {
            void *p = iso_alloc_from_zone_tagged(shared_z[0]);
            if(((uintptr_t) p << 8) != 0) {
                void *q = iso_alloc_untag_ptr(p, shared_z[0]);
                iso_alloc_verify_ptr_tag(p, shared_z[0]);
                if((uint8_t) ((uintptr_t) p >> 56) != iso_alloc_get_mem_tag(q, shared_z[0])) tvio("tag", "pointer tag differs from the reported tag", q, 0, 0);
                iso_free_from_zone(q, shared_z[0]);
            }
        } else if(op < 99) { void *z = iso_alloc(0); if(!z) tvio("zero", "zero size", z, 0, 0); iso_free(z); }
        else { char *s = iso_strdup("the quick brown fox"); if(!s || strcmp(s, "the quick brown fox")) tvio("strdup", "wrong copy", s, 0, 0); iso_free(s); }
        if(mine.size() > 250) for(int t = 0; t < 100; t++) {
            b = mine.back(); mine.pop_back(); release(r, b);
        }
        uint64_t sg = mix(op, last); last = ((last << 3) ^ op) & 0xffff;
        if(i % 4 == 0) a->sigs.push_back(sg);
    }
    if(own) iso_alloc_destroy_zone(own);
    return NULL;
}
int main(int argc, char **argv) {
    init(argc, argv);
    int nt = argi(argc, argv, "--threads", 6), rounds = argi(argc, argv, "--rounds", 6), ops = argi(argc, argv, "--ops", 4000);
    int yield = argi(argc, argv, "--yield", 0);
    zones_left = argi(argc, argv, "--zones", 120);
    sysi::yield_den = yield;
    for(int i = 0; i < 4; i++) shared_z[i] = iso_alloc_new_zone(shared_sz[i]);
    Rng r(g_seed);
    std::vector<Arg> args(nt);
    for(int rd = 0; rd < rounds && !bad; rd++) {
        phase("round %d of seed %llu", rd, (unsigned long long) g_seed);
        std::vector<pthread_t> t(nt);
        for(int i = 0; i < nt; i++) { args[i].seed = r.next(); args[i].ops = ops; pthread_create(&t[i], NULL, worker, &args[i]); }
        for(int i = 0; i < nt; i++) pthread_join(t[i], NULL);
        if(bad) break;
        /* everything has stopped: offline disjointness and contents */
        std::vector<Blk> all(pool);
        for(auto &a : args) { all.insert(all.end(), a.mine.begin(), a.mine.end()); for(uint64_t s : a.sigs) eval(s); a.sigs.clear(); }
        std::sort(all.begin(), all.end(), [](const Blk &x, const Blk &y) { return x.p < y.p; });
        for(size_t i = 0; i < all.size(); i++) {
            if(i + 1 < all.size() && (uintptr_t) all[i].p + all[i].n > (uintptr_t) all[i + 1].p)
                vio("overlap", "live blocks %p size %zu and %p size %zu overlap", all[i].p, all[i].n, all[i + 1].p, all[i + 1].n);
            check(all[i], "changed by the end of a round");
        }
        tally("live_checked", all.size());
        /* swap owners between rounds */
        for(int i = 0; i + 1 < nt; i++) args[i].mine.swap(args[i + 1].mine);
    }
    phase("final accounting");
    for(auto &a : args) { for(auto &b : a.mine) iso_free(b.p); a.mine.clear(); }
    for(auto &b : pool) iso_free(b.p);
    iso_flush_caches();
    iso_verify_zones();
#if VH_CFG_LEAK_DETECTOR
    for(int i = 0; i < 4; i++) { uint64_t l = iso_alloc_detect_zone_leaks(shared_z[i]); if(l) vio("lost", "%llu blocks of a shared zone are not free after everything was freed", (unsigned long long) l); }
    uint64_t l = iso_alloc_detect_leaks();
    if(l) vio("lost", "leak report says %llu after everything was freed", (unsigned long long) l);
    tally("leak_accountings");
#endif
#if !VH_CFG_CPU_PIN /* a pinned zone serves only the core it was created on */
    /* the shared zones must still deliver their full capacity */
    for(int i = 0; i < 4; i++) {
        size_t want = iso_zone_chunk_count(shared_z[i]), n = 0;
        while(n < want && iso_alloc_from_zone(shared_z[i])) n++;
        if(n < want) vio("lost", "shared zone of %zu byte blocks delivers only %zu of %zu blocks after the run", shared_sz[i], n, want);
        tally("capacity_checks");
    }
#endif
    tally("allocations", n_alloc); tally("cross_thread_frees", n_cross); tally("big", n_big); tally("zone_allocs", n_zone);
    tally("flushes", n_flush); tally("reallocs", n_realloc); tally("threads", n_threads); tally("permanent_frees", n_perm); tally("reports", n_rep);
    sample("%d threads x %d rounds x %d operations: %ld allocations, %ld freed by another thread", nt, rounds, ops, (long) n_alloc, (long) n_cross);
    finish();
}
