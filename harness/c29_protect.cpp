/* Protecting the root: inaccessible, allocations of other threads suspended, state kept. */
#include "heap.h"
#include "sys.h"
using namespace vh;
static uintptr_t g_root;
static size_t g_rlen;
static int g_prot = -1, g_nprot;
static thread_local bool t_main;
static void protected_(uintptr_t a, size_t n, int prot) {
    if(!t_main) return;
    g_root = a; g_rlen = n; g_prot = prot; g_nprot++; }
/* The whole root: the mapping the allocator made that holds the protected range,
 * less its guard pages (those stay inaccessible and need no probe). */
static uintptr_t g_lo, g_hi;
static void whole() {
    sysi::G g;
    for(int i = 0; i < sysi::nregs; i++)
        if(g_root >= sysi::regs[i].a && g_root < sysi::regs[i].a + sysi::regs[i].len) { g_lo = sysi::regs[i].a; g_hi = g_lo + sysi::regs[i].len; }
}
enum { IDLE, GO, RUN, QUIT };
struct W {
    pthread_t t;
    std::atomic<int> cmd{IDLE};
    std::atomic<long> started{0}, completed{0};
    uint64_t seed;
    std::vector<std::pair<void *, size_t>> got;
    std::vector<void *> zones;
    int want;
};
/* Probes by the kernel: a handler would also catch the other threads. */
static int g_pipe[2];
static bool inaccessible(uint8_t *p, bool wr) {
    char c = 0;
    if(wr) {
        if(write(g_pipe[1], &c, 1) != 1) return false;
        if(read(g_pipe[0], p, 1) == 1) return false;
        return read(g_pipe[0], &c, 1) == 1;
    }
    if(write(g_pipe[1], p, 1) == 1) { (void) !read(g_pipe[0], &c, 1); return false; }
    return true;
}
/* While running only small general requests are made: large ones and zone
 * handles look at the root after giving up its lock, by design. */
static void one(W *w, Rng &r, bool running) {
    size_t n = !running && r.chance(1, 8) ? r.range(65537, 300000) : pick_size(r, 9000);
    if(n == 0) n = 1;
    void *p = NULL;
    w->started++;
    switch(r.below(7)) {
    case 0: p = iso_calloc(1, n); break;
    case 1: p = iso_realloc(NULL, n); break;
    case 2: { char s[64]; memset(s, 'a', 63); s[n % 63] = 0; n = n % 63 + 1; p = iso_strdup(s); break; }
    case 3: if(!running && w->zones.size() < 2) { void *z = iso_alloc_new_zone(n > 65536 ? 65536 : n); w->zones.push_back(z); n = 0; break; } /* fall through */
    default: p = iso_alloc(n);
    }
    w->completed++;
    if(n) w->got.push_back({p, n});
}
static void *worker(void *a) {
    W *w = (W *) a;
    Rng r(w->seed);
    for(;;) {
        int c = w->cmd;
        if(c == QUIT) return NULL;
        if(c == IDLE) { usleep(50); continue; }
        if(c == GO) {
            for(int k = 0; k < w->want; k++) one(w, r, false);
            int x = GO;
            w->cmd.compare_exchange_strong(x, IDLE);
        } else { if(w->got.size() < 3000) one(w, r, true); else usleep(20); }
    }
}
int main(int argc, char **argv) {
    init(argc, argv);
    if(pipe(g_pipe)) abort();
    t_main = true;
    sysi::on_protect = NULL;
    Rng r(g_seed);
    Heap h(g_seed ^ 97);
    h.max_live = 8u << 20;
    h.strong = VH_CFG_STRONG_SIZE_ISOLATION;
    h.run(2000);
    int nt = argi(argc, argv, "--threads", 5);
    std::vector<W> ws(nt);
    for(auto &w : ws) { w.seed = r.next(); pthread_create(&w.t, NULL, worker, &w); }
    long rounds = argi(argc, argv, "--rounds", 100);
    std::vector<uint8_t> s0, s1;
    auto protect = [&] {
        g_nprot = 0;
        sysi::on_protect = protected_;
        iso_alloc_protect_root();
        sysi::on_protect = NULL;
        if(g_nprot == 1 && g_prot == PROT_NONE && !g_lo) whole();
        if(g_nprot != 1 || g_prot != PROT_NONE) { vio("not-protected", "protecting the root made %d protection changes, the last to %d", g_nprot, g_prot); return false; }
        for(int k = 0; k < 3; k++) if(!inaccessible((uint8_t *) g_root + r.below(g_rlen), k & 1)) vio("accessible", "the protected root is accessible");
        if(g_lo) for(uintptr_t p = g_lo; p < g_hi; p += 4096) {
            tally("pages_probed");
            if(!inaccessible((uint8_t *) p + r.below(4096), r.chance(1, 2))) { vio("accessible", "page %zu of %zu of the root is accessible while it is protected", (p - g_lo) / 4096, (g_hi - g_lo) / 4096); break; }
        }
        return true;
    };
    auto unprotect = [&] {
        iso_alloc_unprotect_root();
        std::vector<Map> m = maps();
        const Map *x = find_map(m, g_root), *y = find_map(m, g_root + g_rlen - 1);
        if(g_lo) g_rlen = std::max(g_rlen, g_hi - g_root - 4096);
        if(!x || !x->w() || !y || !y->w()) vio("not-restored", "the unprotected root is %s", x ? x->perm : "unmapped");
    };
    for(long i = 0; i < rounds && !S.viols; i++) {
        phase("round %ld seed %llu", i, (unsigned long long) g_seed);
        /* 1: nothing in between: everything is as before */
        if(i == 0) { protect(); unprotect(); }
        s0.assign((uint8_t *) g_root, (uint8_t *) g_root + g_rlen);
        uint64_t mem = iso_alloc_mem_usage(), leaks = VH_CFG_LEAK_DETECTOR ? iso_alloc_detect_leaks() : 0;
        s0.assign((uint8_t *) g_root, (uint8_t *) g_root + g_rlen);
        if(!protect()) break;
        if(r.chance(1, 3)) usleep(r.below(500));
        unprotect();
        if(memcmp(s0.data(), (void *) g_root, g_rlen)) vio("changed", "the root differs after protecting and unprotecting it");
        if(mem != iso_alloc_mem_usage() || (VH_CFG_LEAK_DETECTOR && leaks != iso_alloc_detect_leaks())) vio("changed", "a statistic changed across protecting the root");
        tally("quiet_cycles");
        /* 2: calls begun while protected do not complete until it is undone */
        std::vector<long> c0;
        for(auto &w : ws) { w.want = r.range(1, 12); c0.push_back(w.completed); }
        if(!protect()) break;
        for(auto &w : ws) w.cmd = GO;
        for(int k = 0; k < 200; k++) { bool all = true; for(auto &w : ws) all &= w.started > w.completed; if(all) break; usleep(100); }
        usleep(r.range(200, 2500));
        int waiting = 0;
        for(size_t k = 0; k < ws.size(); k++) { if(ws[k].completed != c0[k]) vio("completed", "an allocation of another thread completed while the root is protected"); waiting += ws[k].started > ws[k].completed; }
        unprotect();
        tally("suspended", waiting);
        for(auto &w : ws) for(long k = 0; w.cmd != IDLE; k++) { usleep(100); if(k > 300000) { vio("stuck", "an allocation never completed after unprotecting the root"); finish(); } }
        for(size_t k = 0; k < ws.size(); k++) if(ws[k].completed != c0[k] + ws[k].want) vio("stuck", "%ld of %d suspended calls completed", ws[k].completed - c0[k], ws[k].want);
        /* 3: protect at a random moment of running allocations */
        if(i % 2 == 0) {
            for(auto &w : ws) w.cmd = RUN;
            usleep(r.below(600));
            for(int rep = 0; rep < 3; rep++) {
                if(!protect()) break;
                for(size_t k = 0; k < ws.size(); k++) c0[k] = ws[k].completed;
                usleep(r.range(100, 1200));
                for(size_t k = 0; k < ws.size(); k++) if(ws[k].completed > c0[k] + 1) vio("completed", "%ld allocations of another thread completed while the root is protected", ws[k].completed - c0[k]);
                unprotect();
                usleep(r.below(200));
                tally("running_cycles");
            }
            for(auto &w : ws) w.cmd = IDLE;
            for(auto &w : ws) for(long k = 0; w.started != w.completed; k++) { usleep(50); if(k > 600000) { vio("stuck", "an allocation never completed after unprotecting the root"); finish(); } }
            usleep(300);
        }
        /* 4: what the threads got is good memory, older blocks are intact */
        for(auto &w : ws) {
            for(auto &g : w.got) {
                if(!g.first) { vio("unserved", "a suspended allocation of %zu bytes gave NULL", g.second); continue; }
                if(iso_chunksz(g.first) < g.second) vio("size", "a suspended allocation of %zu has size %zu", g.second, iso_chunksz(g.first));
                h.sh.add("suspended call", g.first, g.second, 9);
            }
        }
        for(auto &w : ws) {
            for(auto &g : w.got) if(g.first && h.sh.has((uintptr_t) g.first)) { h.sh.check((uintptr_t) g.first, "after a suspended call"); h.sh.del((uintptr_t) g.first); if(r.chance(1, 2)) iso_free(g.first); else iso_free_size(g.first, g.second); tally("blocks"); }
            w.got.clear();
            for(void *z : w.zones) { if(!z) vio("unserved", "zone creation gave NULL"); iso_alloc_destroy_zone(z); }
            w.zones.clear();
        }
        h.sh.check_all("after protecting the root");
        if(i % 4 == 0) iso_verify_zones();
        h.run(r.below(60));
        eval(mix(waiting, mix(i % 2, ws[0].want)));
    }
    for(auto &w : ws) { w.cmd = QUIT; }
    for(auto &w : ws) pthread_join(w.t, NULL);
    sample("%ld rounds with %d threads: %lld suspended calls", rounds, nt, (long long) S.stats["suspended"]);
    h.end();
    finish();
}
