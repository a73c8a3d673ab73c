/* Every small block ever handed out is remembered until its mapping goes away: a later
 * block overlapping it must be the same block. */
#include "heap.h"
#include "sys.h"
#include <mutex>
#include <thread>
using namespace vh;
namespace {
struct Ever { uint32_t size; };
std::map<uintptr_t, uint32_t> ever;
std::mutex mu;
/* unmapped ranges are queued: the hook runs inside the library */
struct Rg { uintptr_t a; size_t len; };
Rg gone[4096];
std::atomic<int> ngone;
std::atomic<bool> lost;
std::atomic_flag gl = ATOMIC_FLAG_INIT;
void on_unmap(uintptr_t a, size_t len) {
    while(gl.test_and_set()) ;
    int i = ngone;
    if(i < 4096) { gone[i] = {a, len}; ngone = i + 1; } else lost = true;
    gl.clear();
}
void settle() { /* with mu held */
    while(gl.test_and_set()) ;
    for(int i = 0; i < ngone; i++) ever.erase(ever.lower_bound(gone[i].a), ever.lower_bound(gone[i].a + gone[i].len));
    if(lost) ever.clear(), lost = false;
    ngone = 0;
    gl.clear();
}
size_t up(size_t n) { n = (n + 31) / 32 * 32; return n < 32 ? 32 : n; }
/* a block was just handed out for a request of n bytes; zone: from a private zone of blocks of zn */
void judge(const char *who, void *vp, size_t n, size_t zn = 0) {
    uintptr_t p = (uintptr_t) vp;
    size_t c = iso_chunksz(vp);
    std::lock_guard<std::mutex> g(mu);
    settle();
    if(n > 65536) { /* large blocks have mappings of their own */
        auto it = ever.lower_bound(p);
        if(it != ever.end() && it->first < p + c) vio("large", "%s(%zu) returned %p, memory of small blocks of %u", who, n, vp, it->second);
        tally("large");
        return;
    }
    auto it = ever.upper_bound(p);
    if(it != ever.end() && it->first < p + c) vio("recut", "%s(%zu) returned a block %p of %zu reaching into an earlier block %p of %u", who, n, vp, c, (void *) it->first, it->second);
    if(it != ever.begin()) {
        auto q = std::prev(it);
        if(q->first == p) {
            if(q->second != c) vio("resized", "%s(%zu) returned %p as a block of %zu, earlier it was one of %u", who, n, vp, c, q->second);
            tally("reused");
        } else if(q->first + q->second > p) vio("recut", "%s(%zu) returned %p inside an earlier block %p of %u", who, n, vp, (void *) q->first, q->second);
    }
    if(!VH_CFG_ALLOC_SANITY) {
        if(zn) { if(c != up(zn)) vio("zone-size", "a private zone for %zu returned a block of %zu", zn, c); }
        else {
            if(n > 1024 && c >= up(n) * 8) vio("waste", "%s(%zu) was placed in a block of %zu", who, n, c);
            if(VH_CFG_STRONG_SIZE_ISOLATION && c != up(n)) vio("strong", "%s(%zu) was placed in a block of %zu", who, n, c);
        }
    }
    ever[p] = c;
    tally("judged");
    eval(mix(mix(up(n), c), zn));
}
} // namespace
int main(int argc, char **argv) {
    init(argc, argv);
    sysi::on_unmap = on_unmap;
    Rng r(g_seed);
    long ops = argi(argc, argv, "--ops", 300000), thr = argi(argc, argv, "--threads", 3);
    struct L { void *p; size_t n; int z; };
    std::vector<L> live;
    struct Z { iso_alloc_zone_handle *h; size_t n; };
    std::vector<Z> zs;
    long made = 0;
    auto get = [&](size_t n) {
        void *p;
        const char *w;
        switch(r.below(4)) {
        case 0: p = iso_calloc(1, n); w = "iso_calloc"; break;
        case 1: p = iso_realloc(NULL, n); w = "iso_realloc"; break;
        default: p = iso_alloc(n); w = "iso_alloc";
        }
        if(!p) { vio("unserved", "%s(%zu) gave NULL", w, n); return; }
        judge(w, p, n);
        memset(p, 1, std::min<size_t>(n, 64));
        live.push_back({p, n, -1});
    };
    auto drop = [&](size_t i) {
        L l = live[i];
        live[i] = live.back();
        live.pop_back();
        if(l.z >= 0 && r.chance(1, 2)) iso_free_from_zone(l.p, zs[l.z].h);
        else if(r.chance(1, 2)) iso_free_size(l.p, l.n);
        else iso_free(l.p);
    };
    size_t target = 2000;
    for(long i = 0; i < ops && S.viols < 3; i++) {
        phase("operation %ld of seed %llu", i, (unsigned long long) g_seed);
        if(i % 5000 == 0) target = r.chance(1, 4) ? r.below(50) : r.below(9000); /* filling and draining phases */
        size_t n = pick_size(r, 65536);
        if(r.chance(1, 300)) n = r.range(65537, 2000000);
        int k = r.below(100);
        if(live.size() > target || k < 30) { if(!live.empty()) drop(r.below(live.size())); continue; }
        if(k < 33 && !live.empty()) {
            size_t j = r.below(live.size());
            L l = live[j];
            void *q = iso_realloc(l.p, n);
            if(!q) { vio("unserved", "iso_realloc(%zu) gave NULL", n); continue; }
            live[j] = {q, n, -1};
            judge("iso_realloc", q, n);
            continue;
        }
        if(k == 33) { char b[3000]; size_t l = r.below(2999); memset(b, 'k', l); b[l] = 0; void *p = iso_strdup(b); judge("iso_strdup", p, l + 1); live.push_back({p, l + 1, -1}); continue; }
        if(k == 34 && r.chance(1, 12) && made < 200) { size_t z = r.chance(1, 2) ? r.range(1, 3000) : r.range(1, 65536); auto h = iso_alloc_new_zone(z); if(h) { zs.push_back({h, z}); made++; } continue; }
        if(k < 42 && !zs.empty()) { int z = r.below(zs.size()); void *p = iso_alloc_from_zone(zs[z].h); if(p) { judge("iso_alloc_from_zone", p, zs[z].n, zs[z].n); live.push_back({p, zs[z].n, z}); } continue; }
        if(k == 42 && zs.size() > 3 && r.chance(1, 12)) {
            int z = zs.size() - 1;
            for(size_t j = 0; j < live.size();) if(live[j].z == z) { live[j] = live.back(); live.pop_back(); } else j++;
            iso_alloc_destroy_zone(zs[z].h);
            zs.pop_back();
            tally("destroyed");
            continue;
        }
        if(k == 43 && r.chance(1, 40)) { iso_flush_caches(); continue; }
        if(k == 44 && r.chance(1, 30)) { /* churn one class: retirement */
            size_t z = r.range(1100, 9000);
            for(int j = 0; j < 6000; j++) { void *p = iso_alloc(z); if(j % 16 == 0) judge("iso_alloc", p, z); iso_free_size(p, z); }
            tally("churns");
            continue;
        }
        get(n);
    }
    while(!live.empty()) drop(live.size() - 1);
    if(VH_CFG_THREAD_SUPPORT && thr && !S.viols) {
        phase("threads, seed %llu", (unsigned long long) g_seed);
        std::vector<std::thread> t;
        for(long i = 0; i < thr; i++) t.emplace_back([&, i] {
            Rng q(g_seed * 31 + i);
            std::vector<std::pair<void *, size_t>> v;
            for(long k = 0; k < ops / 20; k++) {
                if(v.size() > 300 || (!v.empty() && q.chance(2, 5))) { size_t j = q.below(v.size()); if(q.chance(1, 2)) iso_free(v[j].first); else iso_free_size(v[j].first, v[j].second); v[j] = v.back(); v.pop_back(); }
                else { size_t n = pick_size(q, 20000); void *p = iso_alloc(n); judge("iso_alloc", p, n); v.push_back({p, n}); }
            }
            for(auto &x : v) iso_free(x.first);
        });
        for(auto &x : t) x.join();
        tally("thread_ops", thr * (ops / 20));
    }
    sample("%lld allocations judged, %lld of them reused an earlier block, %zu blocks remembered", (long long) S.stats["judged"], (long long) S.stats["reused"], ever.size());
    finish();
}
