/* CPU pinning with an interposed sched_getcpu: each zone belongs to the core that was
 * current when its memory was mapped. */
#include "vh.h"
#include "sys.h"
#include <thread>
#include <mutex>
using namespace vh;
namespace {
thread_local int t_core;
std::atomic<int> g_core{0};
bool by_thread;
volatile bool jump; /* the core changes from call to call */
std::atomic<long> asked;
std::atomic<uint64_t> jrng{1};
int core_now() { return by_thread ? t_core : g_core.load(); }
struct M { uintptr_t a; size_t len; int core; bool jumped; };
M ms[1 << 15];
int nm;
std::atomic_flag ml = ATOMIC_FLAG_INIT;
struct L { L() { while(ml.test_and_set(std::memory_order_acquire)) sched_yield(); } ~L() { ml.clear(std::memory_order_release); } };
void on_map(uintptr_t a, size_t len) { L g; if(nm < (1 << 15)) ms[nm++] = {a, len, core_now(), (bool) jump}; }
void on_unmap(uintptr_t a, size_t len) { L g; for(int i = 0; i < nm; i++) if(ms[i].a < a + len && a < ms[i].a + ms[i].len) ms[i--] = ms[--nm]; }
void judge(const char *w, void *p, size_t n) {
    int c = core_now();
    L g;
    for(int i = 0; i < nm; i++) if((uintptr_t) p >= ms[i].a && (uintptr_t) p < ms[i].a + ms[i].len) {
        if(!ms[i].jumped && ms[i].core != c) vio("foreign-core", "%s(%zu) made on core %d was placed in a zone created on core %d", w, n, c, ms[i].core);
        return;
    }
    vio("unknown", "%s(%zu) returned %p outside all mappings", w, n, p);
}
void pre(int, char **, char **) { sysi::on_map = on_map; sysi::on_unmap = on_unmap; }
__attribute__((section(".preinit_array"), used)) void (*const preinit_)(int, char **, char **) = pre;
const int cores[] = {0, 1, 2, 3, 5, 64, 127, 128, 255, 256, 257, 300, 511, 1000, 4096};
struct B { uint8_t *p; size_t n; uint8_t k; };
} // namespace
extern "C" __attribute__((visibility("default"))) int sched_getcpu(void) {
    asked++;
    if(jump) { uint64_t x = jrng.fetch_add(0x9E3779B97F4A7C15ull); return cores[(x >> 33) % 15]; }
    return core_now();
}
int main(int argc, char **argv) {
    init(argc, argv);
    Rng r(g_seed);
    long ops = argi(argc, argv, "--ops", 60000), thr = argi(argc, argv, "--threads", 4);
    std::vector<B> v;
    auto put = [&](const char *w, void *p, size_t n, bool j) {
        if(!p) { vio("unserved", "%s(%zu) on core %d gave NULL", w, n, core_now()); return; }
        if(j && n <= 65536) judge(w, p, n);
        B b = {(uint8_t *) p, n, (uint8_t) r.next()};
        memset(p, b.k, n);
        v.push_back(b);
    };
    auto drop = [&] {
        size_t i = r.below(v.size());
        B b = v[i];
        v[i] = v.back();
        v.pop_back();
        for(size_t o = 0; o < b.n; o += 1 + b.n / 64) if(b.p[o] != b.k) { vio("content", "a live block of %zu changed", b.n); break; }
        if(r.chance(1, 2)) iso_free_size(b.p, b.n); else iso_free(b.p);
    };
    int used = argi(argc, argv, "--cores", 6);
    std::vector<int> mine;
    mine.push_back(0);
    for(int i = 1; i < used; i++) mine.push_back(cores[r.below(15)]);
    long mig = 0;
    for(long i = 0; i < ops && S.viols < 3; i++) {
        if(r.chance(1, 20)) { g_core = mine[r.below(mine.size())]; mig++; }
        phase("operation %ld on core %d, seed %llu", i, (int) g_core, (unsigned long long) g_seed);
        size_t n = pick_size(r, 40000);
        if(v.size() > 3000 || (!v.empty() && r.chance(45, 100))) { drop(); continue; }
        long a0 = asked;
        switch(r.below(8)) {
        case 0: put("iso_calloc", iso_calloc(1, n), n, true); break;
        case 1: put("iso_realloc", iso_realloc(NULL, n), n, true); break;
        case 2: if(r.chance(1, 20)) { n = r.range(65537, 500000); put("iso_alloc", iso_alloc(n), n, true); break; } /* fall through */
        case 3: if(r.chance(1, 40)) { for(int k = 0; k < 500; k++) put("iso_alloc", iso_alloc(n), n, true); break; } /* fall through */
        default: put("iso_alloc", iso_alloc(n), n, true);
        }
        tally(asked > a0 ? "core_checks" : "unasked");
        tally("judged");
        eval(mix(szclass(n), g_core));
    }
    tally("migrations", mig);
    tally_max("mappings", nm);
    if(sysi::nregs > 6000) vio("growth", "%d mappings for %zu live blocks on %d cores", sysi::nregs, v.size(), used);
    /* the core changes while calls run */
    long before = sysi::calls[sysi::K_MMAP];
    jump = true;
    for(long i = 0; i < ops / 8 && S.viols < 3; i++) {
        phase("operation %ld with a core that changes all the time, seed %llu", i, (unsigned long long) g_seed);
        size_t n = r.range(1, 20) * 500;
        if(v.size() > 1500 || (!v.empty() && r.chance(45, 100))) drop();
        else put("iso_alloc", iso_alloc(n), n, false);
        if(sysi::calls[sysi::K_MMAP] - before > 6000) break; /* zones are used up quickly here by design */
        tally("jumping");
    }
    jump = false;
    while(!v.empty()) drop();
    /* threads that live on different cores and free each other's blocks */
    if(VH_CFG_THREAD_SUPPORT && !S.viols) {
        by_thread = true;
        phase("threads, seed %llu", (unsigned long long) g_seed);
        static std::mutex mu;
        static std::vector<B> pool;
        std::atomic<bool> bad{false};
        std::vector<std::thread> t;
        for(long k = 0; k < thr; k++) t.emplace_back([&, k] {
            Rng q(g_seed * 77 + k);
            t_core = mine[k % mine.size()];
            for(long i = 0; i < ops / 3 && !bad; i++) {
                if(q.chance(1, 300)) t_core = mine[q.below(mine.size())];
                size_t n = 1 + q.below(6000);
                uint8_t *p = (uint8_t *) iso_alloc(n);
                if(!p) { bad = true; break; }
                { std::lock_guard<std::mutex> g(mu); judge("iso_alloc", p, n); tally("thread_judged"); }
                p[0] = p[n - 1] = (uint8_t) n;
                B o = {};
                {
                    std::lock_guard<std::mutex> g(mu);
                    pool.push_back({p, n, (uint8_t) n});
                    if(pool.size() > 400) { size_t j = q.below(pool.size()); o = pool[j]; pool[j] = pool.back(); pool.pop_back(); }
                }
                if(o.p) { if(o.p[0] != o.k || o.p[o.n - 1] != o.k) bad = true; iso_free_size(o.p, o.n); }
            }
        });
        for(auto &x : t) x.join();
        if(bad) vio("threads", "an allocation failed or a live block changed");
        for(auto &b : pool) iso_free(b.p);
        by_thread = false;
    }
    iso_flush_caches();
    iso_verify_zones();
    sample("%lld judged allocations on %d cores with %ld migrations, %lld in threads", (long long) S.stats["judged"], used, mig, (long long) S.stats["thread_judged"]);
    finish();
}
