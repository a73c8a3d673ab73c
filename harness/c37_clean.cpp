/* The allocator under address sanitizer, undefined behaviour sanitizer and memcheck.
 * Live blocks are hidden (made inaccessible to the tool) whenever the library runs, so
 * that a library access to a block it was not given is a report too. */
#include "heap.h"
#include <thread>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/asan_interface.h>
#define HAVE_ASAN 1
#endif
#endif
#if __has_include(<valgrind/memcheck.h>) && !HAVE_ASAN
#include <valgrind/memcheck.h>
#define HAVE_VG 1
#endif
using namespace vh;
namespace {
bool under_vg;
void hide(void *p, size_t n) {
#if HAVE_ASAN
    ASAN_POISON_MEMORY_REGION(p, n & ~(size_t) 7);
#elif HAVE_VG
    if(under_vg) (void) VALGRIND_MAKE_MEM_NOACCESS(p, n);
#endif
}
void show(void *p, size_t n) {
#if HAVE_ASAN
    ASAN_UNPOISON_MEMORY_REGION(p, n);
#elif HAVE_VG
    if(under_vg) (void) VALGRIND_MAKE_MEM_DEFINED(p, n);
#endif
}
struct B { uint8_t *p; size_t n; uint64_t pat; void *z; };
struct Mini {
    Rng r;
    std::vector<B> v;
    std::vector<iso_alloc_zone_handle *> zs;
    std::vector<size_t> zn;
    bool threads = false;
    long calls = 0;
    explicit Mini(uint64_t s) : r(s) {}
    void put(void *p, size_t n, void *z) {
        if(!p) { if(!z) vio("unserved", "an allocation of %zu gave NULL", n); return; }
        B b = {(uint8_t *) p, n, r.next(), z};
        fill(p, n, b.pat);
        hide(p, n);
        v.push_back(b);
    }
    B take(size_t i) {
        B b = v[i];
        v[i] = v.back();
        v.pop_back();
        show(b.p, b.n);
        if(differs(b.p, b.n, b.pat) >= 0) vio("content", "a live block of %zu changed", b.n);
        return b;
    }
    void step() {
        size_t n = pick_size(r, 8192);
        if(r.chance(1, 60)) n = r.range(65537, 300000);
        if(v.size() > 700) { B b = take(r.below(v.size())); iso_free(b.p); }
        calls++;
        switch(r.below(26)) {
        case 0: case 1: case 2: case 3: put(iso_alloc(n), n, NULL); break;
        case 4: case 5: put(iso_calloc(1, n), n, NULL); break;
        case 6: { std::string s(r.below(300), 'a'); put(iso_strdup(s.c_str()), s.size() + 1, NULL); put(iso_strndup(s.c_str(), s.size() / 2), s.size() / 2 + 1, NULL); break; }
        case 7: case 8: if(!v.empty()) { B b = take(r.below(v.size())); void *q = iso_realloc(b.p, n); if(q && !b.z && differs(q, std::min(n, b.n), b.pat, b.n) >= 0) vio("content", "realloc lost contents"); put(q, n, NULL); } break;
        case 9: put(iso_reallocarray(NULL, 1, n), n, NULL); break;
        case 10: case 11: case 12: case 13: if(!v.empty()) { B b = take(r.below(v.size())); iso_free(b.p); } break;
        case 14: case 15: if(!v.empty()) { B b = take(r.below(v.size())); iso_free_size(b.p, b.n); } break;
        case 16: if(!v.empty() && r.chance(1, 8)) { B b = take(r.below(v.size())); iso_free_permanently(b.p); } break;
        case 17: if(!v.empty()) { B &b = v[r.below(v.size())]; if(iso_chunksz(b.p) < b.n) vio("size", "size query too small"); } break;
        case 18: if(r.chance(1, 30)) iso_flush_caches(); break;
        case 19: if(r.chance(1, 40)) iso_verify_zones(); break;
        case 20: if(zs.size() < 6 && r.chance(1, 10) && !threads) { size_t z = r.range(1, 3000); auto h = iso_alloc_new_zone(z); if(h) zs.push_back(h), zn.push_back(z); } break;
        case 21: case 22: if(!zs.empty()) { size_t i = r.below(zs.size()); put(iso_alloc_from_zone(zs[i]), zn[i], zs[i]); } break;
        case 23: if(!zs.empty() && r.chance(1, 60)) {
            size_t i = r.below(zs.size());
            for(size_t k = 0; k < v.size();) if(v[k].z == zs[i]) take(k); else k++;
            iso_alloc_destroy_zone(zs[i]);
            zs.erase(zs.begin() + i), zn.erase(zn.begin() + i);
            tally("zones_destroyed");
            break;
        } break;
        case 24: if(!threads && r.chance(1, 20)) {
            (void) iso_alloc_mem_usage();
            (void) iso_alloc_detect_leaks();
            if(!zs.empty()) { size_t i = r.below(zs.size()); (void) iso_alloc_zone_mem_usage(zs[i]); (void) iso_alloc_detect_zone_leaks(zs[i]); iso_verify_zone(zs[i]); (void) iso_zone_chunk_count(zs[i]); }
            iso_alloc_protect_root(), iso_alloc_unprotect_root();
        } break;
        default:
            if(!v.empty() && v.back().z && r.chance(1, 2)) { B b = take(v.size() - 1); iso_free_from_zone(b.p, b.z); break; }
            void *p = iso_alloc(0);
            iso_free(p);
            iso_free(NULL);
        }
        if(!threads) eval(mix(mix(szclass(n), v.size() / 16), calls));
    }
    void end() {
        while(!v.empty()) { B b = take(v.size() - 1); iso_free(b.p); }
        while(!zs.empty()) { iso_alloc_destroy_zone(zs.back()); zs.pop_back(); }
        iso_flush_caches();
        iso_verify_zones();
    }
};
#if HAVE_ASAN
volatile uint8_t sink;
NOINLINE void touch(uint8_t *p, int how) {
    OPAQUE(p);
    switch(how) {
    case 0: sink = *p; break;
    case 1: *p = 5; break;
    case 2: { char b[8]; memcpy(b, p, 1); sink = b[0]; break; }
    default: memset(p, 3, 1);
    }
}
void probes(Rng &r, long n) {
    static const char *names[] = {"released small block", "released zone block", "block of a zone never handed out", "byte behind a block into its unused neighbour", "byte before a block into its unused neighbour", "released large block", "block released by sized free", "permanently released block", "(control: live block)"};
    for(long i = 0; i < n && S.viols < 4; i++) {
        int what = r.below(9), how = r.below(4);
        size_t sz = what == 5 ? r.range(70000, 500000) : what == 8 && r.chance(1, 5) ? r.range(70000, 200000) : pick_size(r, 16000);
        uint64_t cs = r.next();
        phase("probe: %s of %zu, access %d", names[what], sz, how);
        Res c = child([&] {
            S.fd = -1;
            Mini m(cs);
            for(int k = 0; k < 400; k++) m.step();
            Rng q(cs);
            iso_alloc_zone_handle *z = what == 1 || (what >= 2 && what <= 4) ? iso_alloc_new_zone(sz) : NULL;
            uint8_t *p = (uint8_t *) (z ? iso_alloc_from_zone(z) : iso_alloc(sz)), *t = p;
            size_t chunk = iso_chunksz(p);
            memset(p, 1, sz);
            switch(what) {
            case 0: iso_free(p); iso_flush_caches(); t = p + q.below(chunk); break;
            case 1: iso_free_from_zone(p, z); iso_flush_caches(); t = p + q.below(chunk); break;
            case 2: { uint8_t *p2 = (uint8_t *) iso_alloc_from_zone(z); uint8_t *o = p + chunk; for(int k = 0; k < 3 && (o == p2 || !readable(o)); k++) o += chunk; t = o + q.below(chunk); if(!readable(t)) _exit(50); break; }
            case 3: t = p + chunk; if(!readable(t)) _exit(50); break;
            case 4: t = p - 1; if(!readable(t)) _exit(50); break;
            case 5: iso_free(p); iso_flush_caches(); t = p + q.below(sz); break;
            case 6: iso_free_size(p, sz); t = p + q.below(chunk); break;
            case 7: iso_free_permanently(p); iso_flush_caches(); t = p + q.below(chunk); break;
            case 8: t = p + q.below(sz); break;
            }
            touch(t, how);
            _exit(S.viols ? 9 : 0);
        }, 60);
        if(c.code == 50) { tally("unreadable"); continue; }
        bool rep = c.out.find("AddressSanitizer") != std::string::npos;
        if(what == 8) { if(!c.ok()) vio("false-report", "access %d to a live block of %zu: %s", how, sz, c.str().c_str()); tally("controls"); }
        else { if(!rep && !(what == 5 && c.sig == SIGSEGV) /* its mapping is gone */) vio("unreported", "access %d to a %s of %zu: %s", how, names[what], sz, c.str().c_str()); tally("probes"); char b[32]; snprintf(b, sizeof b, "probe_%d", what); tally(b); }
        eval(mix(mix(what, how), szclass(sz)));
    }
}
#endif
} // namespace
int main(int argc, char **argv) {
    init(argc, argv);
#if HAVE_VG
    under_vg = RUNNING_ON_VALGRIND;
    if(under_vg) tally("memcheck_runs");
#endif
    long steps = argi(argc, argv, "--steps", 20000), np = argi(argc, argv, "--probes", 40), thr = argi(argc, argv, "--threads", 0), live = argi(argc, argv, "--live", 20000);
    Rng r(g_seed);
    if(!under_vg) { Heap h(g_seed); h.strong = VH_CFG_STRONG_SIZE_ISOLATION; h.max_live = 8u << 20; h.run(live); h.end(); }
    Mini m(g_seed ^ 5);
    for(long i = 0; i < steps && S.viols < 3; i++) { phase("hidden call %ld of seed %llu", i, (unsigned long long) g_seed); m.step(); }
    m.end();
    tally("hidden_calls", steps);
    if(thr) {
        std::vector<std::thread> t;
        std::vector<Mini *> ms;
        for(long i = 0; i < thr; i++) { ms.push_back(new Mini(g_seed * 100 + i)); ms.back()->threads = true; }
        phase("threads");
        for(long i = 0; i < thr; i++) t.emplace_back([&, i] { for(long k = 0; k < steps / 4; k++) ms[i]->step(); });
        for(auto &x : t) x.join();
        for(auto x : ms) x->end();
        tally("thread_calls", thr * (steps / 4));
    }
#if HAVE_ASAN
    probes(r, np);
    tally("asan_runs");
#endif
    (void) np;
    tally("tool_runs");
    sample("%ld calls with all live blocks hidden, %lld thread calls, %lld probes", steps, (long long) S.stats["thread_calls"], (long long) S.stats["probes"]);
    finish();
}
