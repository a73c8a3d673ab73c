/* Repeated bounded cycles: mappings, bytes and zones reach a plateau. */
#include "vh.h"
#include "sys.h"
#include <pthread.h>
using namespace vh;
static long g_prof_guard;
struct Snap { long regs, bytes, zones; };
static Snap snap() {
    Snap s = {sysi::nregs, (long) sysi::total_bytes(), 0};
    for(int i = 0; i < sysi::nregs; i++) s.zones += sysi::regs[i].len >= (4u << 20) && sysi::regs[i].len <= (4u << 20) + (256 << 10);
    return s;
}
static void touch(void *p, size_t n) { if(!p) { vio("unserved", "request of %zu gave NULL", n); finish(); } ((volatile uint8_t *) p)[0] = 1; if(n) ((volatile uint8_t *) p)[n - 1] = 1; }
static void rel(Rng &q, void *p, size_t n) { if(q.chance(1, 2)) iso_free(p); else iso_free_size(p, n); }
struct P { void *p; size_t n; };
static void drop_all(Rng &q, std::vector<P> &v) {
    for(size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[q.below(i)]);
    for(auto &e : v) rel(q, e.p, e.n);
    v.clear();
}
static void *thr(void *a) {
    Rng q((uintptr_t) a);
    std::vector<P> v;
    for(int i = 0; i < 60; i++) { size_t n = 1 + (q.chance(1, 12) ? q.below(200000) : q.below(4000)); void *p = iso_alloc(n); touch(p, n); v.push_back({p, n}); }
    if(q.chance(1, 2)) iso_flush_caches();
    drop_all(q, v);
    return NULL;
}
static std::vector<P> g_hand;
static void *freer(void *) { Rng q(5); drop_all(q, g_hand); return NULL; }
static const char *KIND[] = {"small blocks", "large blocks", "reallocation chains", "strings and arrays", "a kept private zone", "churn until retirement", "short-lived threads", "frees by another thread", "mixed", "refusals and zero sizes"};
static iso_alloc_zone_handle *kept;
static void cycle(int kind, uint64_t seed, long i) {
    Rng q(seed); /* every cycle asks for the same */
    std::vector<P> v;
    switch(kind) {
    case 0: for(int k = 0; k < 700; k++) { size_t n = 1 + q.below(q.chance(1, 8) ? 65536 : 3000); void *p = iso_alloc(n); touch(p, n); v.push_back({p, n}); } break;
    case 1: for(int k = 0; k < 45; k++) { size_t n = 65537 + q.below(q.chance(1, 5) ? 3000000 : 300000); void *p = q.chance(1, 6) ? iso_calloc(1, n) : iso_alloc(n); touch(p, n); v.push_back({p, n}); if(v.size() > 12 && q.chance(1, 2)) { rel(q, v[0].p, v[0].n); v.erase(v.begin()); } } break;
    case 2: for(int c = 0; c < 6; c++) { size_t n = 1 + q.below(200); void *p = iso_realloc(NULL, n); while(n < 900000) { size_t m = n * (2 + q.below(3)) + q.below(9); p = iso_realloc(p, m); touch(p, m); n = m; if(q.chance(1, 6)) { m = n / 3 + 1; p = iso_realloc(p, m); n = m; } } v.push_back({p, n}); } break;
    case 3: for(int k = 0; k < 250; k++) { char b[400]; size_t n = q.below(399); memset(b, 'x', n); b[n] = 0; void *p; switch(q.below(4)) { case 0: p = iso_strdup(b); n++; break; case 1: p = iso_strndup(b, n / 2); n = n / 2 + 1; break; case 2: p = iso_reallocarray(NULL, 3, n + 1); n = 3 * n + 3; break; default: p = iso_calloc(n + 1, 7); n = n * 7 + 7; } touch(p, n); v.push_back({p, n}); } break;
    case 4: for(int k = 0; k < 300; k++) { void *p = iso_alloc_from_zone(kept); if(!p) break; touch(p, 700); v.push_back({p, 0}); }
            for(auto &e : v) if(q.chance(1, 2)) iso_free_from_zone(e.p, kept); else iso_free(e.p);
            v.clear();
            break;
    case 5: { size_t n = 4096 << (i % 2); for(int k = 0; k < 6000; k++) { void *p = iso_alloc(n); touch(p, n); iso_free_size(p, n); } break; }
    case 6: { pthread_t t[4]; for(int k = 0; k < 4; k++) pthread_create(&t[k], NULL, thr, (void *) (uintptr_t) q.next()); for(auto &x : t) pthread_join(x, NULL); break; }
    case 7: { for(int k = 0; k < 200; k++) { size_t n = 1 + q.below(q.chance(1, 15) ? 150000 : 2000); void *p = iso_alloc(n); touch(p, n); g_hand.push_back({p, n}); } pthread_t t; pthread_create(&t, NULL, freer, NULL); pthread_join(t, NULL); break; }
    case 8: for(int k = 0; k < 500; k++) { size_t n = 1 + q.below(q.chance(1, 10) ? 250000 : 5000); if(v.size() > 100) { size_t x = q.below(v.size()); rel(q, v[x].p, v[x].n); v[x] = v.back(); v.pop_back(); } void *p = q.chance(1, 5) ? iso_calloc(1, n) : iso_alloc(n); if(q.chance(1, 4)) { size_t m = 1 + q.below(90000); p = iso_realloc(p, m); n = m; } touch(p, n); v.push_back({p, n}); } break;
    case 9: for(int k = 0; k < 200; k++) { void *p = iso_alloc(0); iso_free(p); p = iso_calloc(0, 5); iso_free_size(p, 0);
#if !VH_CFG_ABORT_ON_NULL
            p = iso_alloc((5ull << 30) + q.below(1 << 20)); if(p) vio("served", "5 GB were served");
            p = iso_calloc(1ull << 40, 1ull << 40); if(p) vio("served", "an overflowing product was served");
            p = iso_realloc(NULL, ~0ull - q.below(5000)); if(p) vio("served", "a wrapped size was served");
#endif
            iso_free(NULL); if(k % 20 == 0) iso_verify_zones(); }
            break;
    }
    drop_all(q, v);
}
int main(int argc, char **argv) {
    init(argc, argv);
    Rng r(g_seed);
    long cycles = argi(argc, argv, "--cycles", 240);
    kept = iso_alloc_new_zone(700);
    for(int kind = 0; kind < 10 && !S.viols; kind++) {
        if(!VH_CFG_THREAD_SUPPORT && (kind == 6 || kind == 7)) continue;
        phase("kind %d (%s) seed %llu", kind, KIND[kind], (unsigned long long) g_seed);
        uint64_t seed = r.next();
        long n = kind == 5 ? cycles / 2 : cycles;
        std::vector<Snap> s;
        for(long i = 0; i < n; i++) {
            cycle(kind, seed, i);
            iso_flush_caches();
            s.push_back(snap());
            tally("cycles");
        }
        Snap hi = {0, 0, 0}, lo = {1 << 30, 1l << 60, 1 << 30};
        for(long i = n / 4; i < n / 2; i++) { hi.regs = std::max(hi.regs, s[i].regs); hi.bytes = std::max(hi.bytes, s[i].bytes); hi.zones = std::max(hi.zones, s[i].zones); }
        for(long i = 3 * n / 4; i < n; i++) { lo.regs = std::min(lo.regs, s[i].regs); lo.bytes = std::min(lo.bytes, s[i].bytes); lo.zones = std::min(lo.zones, s[i].zones); }
        long slack = 4 + n / 80;
        if(lo.regs > hi.regs + slack) vio("grows", "cycle of %s: mappings grow from %ld to %ld between cycles %ld and %ld", KIND[kind], hi.regs, lo.regs, n / 2, 3 * n / 4);
        if(lo.zones > hi.zones + slack) vio("grows-zones", "cycle of %s: zones grow from %ld to %ld", KIND[kind], hi.zones, lo.zones);
        if(lo.bytes > hi.bytes + (48l << 20)) vio("grows-bytes", "cycle of %s: address space grows from %ld to %ld KB", KIND[kind], hi.bytes >> 10, lo.bytes >> 10);
        sample("%s: %ld cycles, %ld -> %ld mappings, %ld -> %ld zones, %ld -> %ld KB", KIND[kind], n, s[n / 4].regs, s.back().regs, s[n / 4].zones, s.back().zones, s[n / 4].bytes >> 10, s.back().bytes >> 10);
        tally("kinds");
        eval(mix(kind, mix(s.back().regs, s.back().bytes)));
        if(sysi::failed) vio("model", "?");
    }
    /* private zones: destroying one gives back as much as creating its replacement takes */
    Snap a = snap();
    long made = argi(argc, argv, "--zones", 60);
    for(long i = 0; i < made && !S.viols; i++) {
        size_t sz = i < 20 ? 700 : r.range(1, 65536);
        phase("private zone of %zu, number %ld", sz, i);
        Snap b = snap();
        iso_alloc_zone_handle *z = iso_alloc_new_zone(sz);
        Snap c = snap();
        if(c.bytes - b.bytes > (long) ((4u << 20) + (512 << 10)) || c.regs - b.regs > 6 || c.zones - b.zones > 1) vio("zone-cost", "creating a private zone of %zu byte blocks took %ld mappings and %ld KB", sz, c.regs - b.regs, (c.bytes - b.bytes) >> 10);
        int k = r.below(300);
        std::vector<void *> v;
        for(int j = 0; j < k; j++) { void *p = iso_alloc_from_zone(z); if(!p) break; v.push_back(p); }
        if(i & 1) for(void *p : v) iso_free_from_zone(p, z);
        else if(i & 2) { for(void *p : v) iso_free(p); iso_flush_caches(); }
        c = snap();
        iso_alloc_destroy_zone(z);
        Snap d = snap();
        if(d.bytes > c.bytes || d.regs > c.regs || d.zones > c.zones) vio("destroy-leaks", "destroying a private zone of %zu byte blocks left %ld mappings and %ld KB more than before", sz, d.regs - c.regs, (d.bytes - c.bytes) >> 10);
        tally("private_zones");
        eval(mix(szclass(sz), mix(c.regs - b.regs, k)));
    }
    Snap e = snap();
    if(e.zones - a.zones > made) vio("private-zone-excess", "%ld created and destroyed private zones left %ld zones", made, e.zones - a.zones);
    else if(e.zones - a.zones > made / 2) vio("private-zone-growth", "creating and destroying private zones leaves one zone behind each time: %ld cycles, %ld zones", made, e.zones - a.zones);
    finish();
}
