/* Retirement of heavily used zones: only when empty, old memory gone, everything else unaffected. */
#include "heap.h"
#include "sys.h"
#include <pthread.h>
using namespace vh;
static std::map<uintptr_t, Block> *g_live;
struct Ev { uintptr_t a; size_t n; bool map; };
static Ev evs[1 << 16];
static std::atomic<int> nev;
static bool g_threads;
static uintptr_t *g_busy;
static void mapped(uintptr_t a, size_t n) { int k = nev++; if(k < (1 << 16)) evs[k] = {a, n, true}; }
static void unmapped(uintptr_t a, size_t n) {
    int k = nev++;
    if(k < (1 << 16)) evs[k] = {a, n, false};
    if(!g_threads && g_live && !g_live->empty()) { /* nothing live may be inside */
        auto it = g_live->lower_bound(a);
        if(it != g_live->end() && it->first == *g_busy) ++it;
        if(it != g_live->end() && it->first < a + n) vio("live-discarded", "memory of the live block %p (%zu bytes) was returned to the system", (void *) it->first, it->second.size);
    }
}
static sysi::Reg region(uintptr_t p) {
    sysi::Reg z = {0, 0};
    for(int i = 0; i < sysi::nregs; i++) if(p >= sysi::regs[i].a && p < sysi::regs[i].a + sysi::regs[i].len) z = sysi::regs[i];
    return z;
}
struct T { pthread_t t; uint64_t seed; size_t n; std::atomic<bool> *stop; long ops = 0, bad = 0; };
static void *churner(void *a) {
    T *t = (T *) a;
    Rng q(t->seed);
    uint64_t *own[3] = {};
    while(!*t->stop) {
        int i = q.below(3);
        if(own[i]) {
            for(size_t o = 0; o < t->n / 8; o += 16) if(own[i][o] != (t->seed ^ (uintptr_t) own[i] ^ o)) t->bad++;
            if(q.chance(1, 2)) iso_free_size(own[i], t->n); else iso_free(own[i]);
            own[i] = NULL;
        } else if(q.chance(1, 2)) {
            own[i] = (uint64_t *) iso_alloc(t->n);
            if(!own[i]) { t->bad++; break; }
            for(size_t o = 0; o < t->n / 8; o += 16) own[i][o] = t->seed ^ (uintptr_t) own[i] ^ o;
        }
        t->ops++;
        if(q.chance(1, 64)) { for(auto &p : own) if(p) { iso_free_size(p, t->n); p = NULL; } }
    }
    for(auto &p : own) if(p) iso_free_size(p, t->n);
    return NULL;
}
int main(int argc, char **argv) {
    init(argc, argv);
    Rng r(g_seed);
    Heap h(g_seed ^ 103);
    h.strong = VH_CFG_STRONG_SIZE_ISOLATION;
    h.max_live = 12u << 20;
    h.w[O_FREE_PERM] = 1;
    h.w[O_CHURN] = 0;
    g_live = &h.sh.live;
    g_busy = &h.busy;
    sysi::on_map = mapped;
    sysi::on_unmap = unmapped;
    long rounds = argi(argc, argv, "--rounds", 40);
    size_t smallest = argi(argc, argv, "--smallest", 64);
    std::vector<uintptr_t> stale;
    h.run(3000);
    for(long i = 0; i < rounds && !S.viols; i++) {
        static const size_t CL[] = {32, 64, 96, 128, 256, 480, 512, 1024, 1504, 2048, 3008, 4096, 6016, 8192, 9984, 12000, 16352};
        size_t n = CL[r.below(17)];
        if(n < 256 && r.chance(2, 3)) n = CL[4 + r.below(13)];
        if(n < smallest) n = 2048;
        iso_flush_caches();
        nev = 0;
        void *p = iso_alloc(n);
        if(!p) { vio("unserved", "request of %zu gave NULL", n); break; }
        size_t cs = iso_chunksz(p);
        sysi::Reg g = region((uintptr_t) p);
        iso_free_size(p, n);
        if(g.len < (4u << 20) || g.len > (4u << 20) + (256 << 10)) continue; /* a sampled or other block */
        if(region((uintptr_t) p).a != g.a) continue;
        /* make the zone empty (or, sometimes, keep one block live) */
        bool keep = r.chance(1, 5);
        std::vector<uintptr_t> in;
        for(auto it = h.sh.live.lower_bound(g.a); it != h.sh.live.end() && it->first < g.a + g.len; ++it) in.push_back(it->first);
        if(keep && in.empty()) { void *q = iso_alloc(n); if(region((uintptr_t) q).a == g.a) { h.got("iso_alloc", q, n); in.push_back((uintptr_t) q); } else iso_free_size(q, n); }
        if(in.empty()) keep = false;
        for(size_t k = keep ? 1 : 0; k < in.size(); k++) h.release(in[k], r.below(2));
        iso_flush_caches();
        long cap = (4l << 20) / cs, lim = cap * 34 + 2000, served = 0, other = 0;
        bool retired = false;
        phase("round %ld: churn of %zu (blocks of %zu), %s, seed %llu", i, n, cs, keep ? "one block kept" : "empty", (unsigned long long) g_seed);
        nev = 0;
        for(long k = 0; k < lim + other && other < 4 * lim && !retired; k++) {
            void *q = iso_alloc(n);
            if(!q) { vio("unserved", "request of %zu gave NULL after %ld rounds", n, k); break; }
            *(uint64_t *) q = k;
            if((uintptr_t) q >= g.a && (uintptr_t) q < g.a + g.len && !retired) served++;
            else other++;
            if(k % 512 == 7) iso_free(q), iso_flush_caches();
            else iso_free_size(q, n);
            for(int e = 0; e < nev; e++) if(!evs[e].map && evs[e].a < g.a + g.len && g.a < evs[e].a + evs[e].n) retired = true;
            if(!retired) { if(nev) nev = 0; }
        }
        if(keep && retired) vio("live-retired", "a zone of %zu byte blocks was retired with a live block in it", cs);
        if(!keep && !retired && cs < 16384 && served >= lim) vio("not-retired", "an empty zone of %zu byte blocks served %ld allocations of a capacity of %ld and was not retired", cs, served, cap);
        if(cs >= 16384 && retired) vio("retired-large", "a zone of %zu byte blocks was retired", cs);
        if(retired) {
            tally("retired");
            if(served < cap) tally("early");
            /* all of the old zone is gone, unless something new has been mapped there */
            std::vector<Map> m = maps();
            for(int k = 0; k < 12; k++) {
                uintptr_t a = g.a + r.below(g.len);
                if(k == 0) a = g.a + 4096;
                if(k == 1) a = g.a + g.len - 4097;
                bool again = false;
                for(int e = 0; e < nev; e++) if(evs[e].map && a >= evs[e].a && a < evs[e].a + evs[e].n) again = true;
                const Map *x = find_map(m, a);
                if(!again && sysi::mine(a) && x && !x->none()) vio("old-accessible", "memory of a retired zone of %zu byte blocks is still accessible", cs);
            }
            /* the replacement serves */
            std::vector<void *> v;
            long want = std::min<long>(cap + 5, 3000);
            for(long k = 0; k < want; k++) {
                void *q = iso_alloc(n);
                if(!q) { vio("unserved", "request %ld of %zu after retirement gave NULL", k, n); break; }
                if(iso_chunksz(q) < n) vio("size", "a block after retirement has size %zu for %zu", iso_chunksz(q), n);
                v.push_back(q);
            }
            for(void *q : v) h.sh.add("iso_alloc after retirement", q, n, 9);
            for(size_t k = v.size(); k-- > 0;) { h.sh.check((uintptr_t) v[k], "after retirement"); h.sh.del((uintptr_t) v[k]); if(k & 1) iso_free_size(v[k], n); else iso_free(v[k]); }
            tally("replacement_blocks", v.size());
            stale.push_back((uintptr_t) p);
        } else if(keep) tally("kept_alive");
        eval(mix(mix(szclass(cs), retired * 2 + keep), std::min<uint64_t>(stale.size(), 60)));
        iso_verify_zones();
        h.sh.check_all("after retirement");
        h.run(r.range(50, 2500)); /* further traffic and new zones of all kinds */
#if VH_CFG_LEAK_DETECTOR
        iso_flush_caches();
        uint64_t live = 0;
        for(auto &k : h.sh.live) live += k.second.size > 65536 ? iso_chunksz((void *) k.first) : 1;
        uint64_t got = iso_alloc_detect_leaks();
        if(got != live) vio("leaks", "after %zu retirements the leak report is %llu instead of %llu", stale.size(), (unsigned long long) got, (unsigned long long) live);
        tally("leak_checks");
#endif
        if(!stale.empty() && r.chance(1, 3)) { /* a pointer into a retired zone is no block, as long as nothing live is there */
            uintptr_t s = stale[r.below(stale.size())];
            auto it = h.sh.live.upper_bound(s);
            bool clash = it != h.sh.live.end() && it->first == s;
            if(it != h.sh.live.begin()) { --it; if(it->first + it->second.size > s) clash = true; }
            if(!clash && !sysi::mine(s)) {
                Res c = child([&] { iso_free((void *) s); iso_flush_caches(); });
                if(!c.aborted()) vio("stale-free", "freeing a block of a retired zone: %s", c.str().c_str());
                tally("stale_frees");
            }
        }
    }
    /* several threads use the zones while they are retired */
    if(VH_CFG_THREAD_SUPPORT && !S.viols) {
        { std::vector<uintptr_t> v; for(auto &k : h.sh.live) if(!k.second.zone && k.second.size < 20000) v.push_back(k.first); for(auto p : v) h.release(p, r.below(2)); iso_flush_caches(); }
        g_threads = true;
        for(long k = 0; k < (rounds + 4) / 5 && !S.viols; k++) {
            static const size_t CL[] = {2048, 4096, 8192, 1024, 12000};
            std::atomic<bool> stop{false};
            std::vector<T> ts(r.range(2, 5));
            size_t n = CL[r.below(5)];
            nev = 0;
            phase("threads churn %zu", n);
            for(auto &t : ts) { t.seed = r.next(); t.n = r.chance(1, 4) ? CL[r.below(5)] : n; t.stop = &stop; pthread_create(&t.t, NULL, churner, &t); }
            for(int q = 0; q < 40; q++) { usleep(5000); if(q % 8 == 3) iso_verify_zones(); }
            stop = true;
            for(auto &t : ts) { pthread_join(t.t, NULL); if(t.bad) vio("thread-content", "%ld words of live blocks changed while zones were retired", t.bad); tally("thread_ops", t.ops); }
            for(int e = 0; e < nev; e++) if(!evs[e].map && evs[e].n >= (4u << 20)) tally("thread_retirements");
            h.sh.check_all("after threads");
        }
        g_threads = false;
    }
    sample("%ld rounds: %lld zones retired, %lld with a live block kept, %lld retired under threads", rounds, (long long) S.stats["retired"], (long long) S.stats["kept_alive"], (long long) S.stats["thread_retirements"]);
    h.end();
    finish();
}
