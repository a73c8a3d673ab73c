/* Boundary and impossible sizes through every allocating entry point. */
#include "heap.h"
#if VH_CFG_MALLOC_HOOK
#include <malloc.h>
#endif
#include <new>
using namespace vh;
static const size_t CAP = 4294967296ull;
static Rng *R;
static const char *names[] = {"iso_alloc", "iso_calloc(1,n)", "iso_calloc(n,1)", "iso_realloc(NULL,n)", "iso_realloc(p,n)", "iso_reallocarray(NULL,n,1)", "iso_reallocarray(NULL,1,n)",
                              "malloc", "posix_memalign", "aligned_alloc", "memalign", "operator new", "operator new nothrow", "operator new[]", "aligned new"};
static void *call(int e, size_t n) {
    void *p = NULL;
    switch(e) {
    case 0: return iso_alloc(n);
    case 1: return iso_calloc(1, n);
    case 2: return iso_calloc(n, 1);
    case 3: return iso_realloc(NULL, n);
    case 4: { void *q = iso_alloc(40); p = iso_realloc(q, n); if(!p) iso_free(q); return p; }
    case 5: return iso_reallocarray(NULL, n, 1);
    case 6: return iso_reallocarray(NULL, 1, n);
#if VH_CFG_MALLOC_HOOK
    case 7: return malloc(n);
    case 8: return posix_memalign(&p, 64, n) == 0 ? p : NULL;
    case 9: return aligned_alloc(256, n);
    case 10: return memalign(32, n);
#ifdef VH_CPP
    case 11: try { return ::operator new(n); } catch(std::bad_alloc &) { return NULL; }
    case 12: return ::operator new(n, std::nothrow);
    case 13: try { return ::operator new[](n); } catch(std::bad_alloc &) { return NULL; }
    case 14: try { return ::operator new(n, std::align_val_t(128)); } catch(std::bad_alloc &) { return NULL; }
#endif
#endif
    }
    return NULL;
}
static bool supported(int e) {
#if VH_CFG_MALLOC_HOOK
#ifdef VH_CPP
    return true;
#endif
    return e <= 10;
#endif
    return e <= 6;
}
static void one(int e, size_t n) {
    phase("%s of %zu", names[e], n);
    if((e == 1 || e == 2) && n > (64u << 20) && n <= CAP) return; /* would touch gigabytes */
    uint8_t *p = (uint8_t *) call(e, n);
    tally(p ? "served" : "refused");
    eval(mix(e, mix(szclass(n), n % 4096 < 40 ? n % 4096 : n % 4096 > 4056 ? 100 + (4096 - n % 4096) : 77)));
    if(!p) {
        if(n <= (1u << 30) && n > 0) vio("refused", "%s of %zu bytes was refused", names[e], n);
        return;
    }
    size_t s = iso_chunksz(p);
    if(n > CAP) vio("over-cap", "%s of %zu bytes (above 4 GB) returned %p of size %zu", names[e], n, p, s);
    if(s < n) vio("shrunk", "%s of %zu bytes returned a block of %zu", names[e], n, s);
    else {
        p[0] = 1; p[n - 1] = 2; p[n / 2] = 3;
        if(s <= (1u << 20)) memset(p, 7, s);
    }
    iso_free(p);
    if(R->chance(1, 3)) iso_flush_caches();
}
int main(int argc, char **argv) {
    init(argc, argv);
    Rng r(g_seed);
    R = &r;
    Heap h(g_seed ^ 5);
    h.strong = VH_CFG_STRONG_SIZE_ISOLATION;
    h.max_live = 8u << 20;
    h.run(2000);
    std::vector<size_t> sizes;
    static const size_t bases[] = {16, 32, 64, 128, 512, 1024, 4096, 8192, 16384, 32768, 65536, 131072, 1u << 20, 2u << 20, 4u << 20, 8u << 20, 6u << 20, 1u << 24};
    for(size_t b : bases) for(long d = -34; d <= 34; d++) if((long) b + d > 0) sizes.push_back(b + d);
    for(size_t b : {(size_t) 4096 * 16, (size_t) 4096 * 17, (size_t) 4096 * 511, (size_t) 4096 * 513}) for(long d = -3; d <= 3; d++) sizes.push_back(b + d);
    std::vector<size_t> imposs;
    for(long d = 1; d <= 40; d++) imposs.push_back(CAP + d);
    for(long d = 4090; d <= 4100; d++) imposs.push_back(CAP + d);
    for(int s = 33; s < 64; s++) for(long d = -2; d <= 33; d += (d < 2 ? 1 : 7)) if((1ull << s) + d > CAP) imposs.push_back((1ull << s) + d);
    for(size_t d = 0; d < 80; d++) imposs.push_back(SIZE_MAX - d);
    for(size_t d = 4000; d < 8300; d += 31) imposs.push_back(SIZE_MAX - d);
    for(int i = 0; i < 300; i++) imposs.push_back(SIZE_MAX - (r.next() >> r.range(1, 60)));
    for(int i = 0; i < 300; i++) { size_t x = (1ull << 32) * r.range(1, 1u << 31) + r.below(1 << 17); if(x > CAP) imposs.push_back(x); }
    for(int i = 0; i < 400; i++) sizes.push_back(r.range(1, 3u << 20));
    for(int e = 0; e < 15; e++) {
        if(!supported(e)) continue;
        std::vector<size_t> v = sizes;
        for(size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]);
        for(size_t n : v) one(e, n);
        for(size_t n : imposs) {
#if VH_CFG_ABORT_ON_NULL
            if(!r.chance(1, 30)) continue;
            Res c = child([&] { void *p = call(e, n); if(p) _exit(9); });
            eval(mix(e, n)); tally("abort_children");
            if(!c.aborted() && !c.ok()) vio("over-cap", "%s of %zu bytes: %s", names[e], n, c.str().c_str());
#else
            one(e, n);
#endif
            if(r.chance(1, 200)) h.run(30);
        }
        h.run(500);
    }
    for(size_t n : {CAP - 4096 * 3, CAP / 2, CAP / 2 + 1, CAP - 1, CAP}) /* at the cap: serve fully or refuse */
        for(int e : {0, 3}) {
#if VH_CFG_ABORT_ON_NULL
            continue;
#endif
            phase("%s of %zu", names[e], n);
            uint8_t *p = (uint8_t *) call(e, n);
            if(p) { if(iso_chunksz(p) < n) vio("shrunk", "%s of %zu returned %zu", names[e], n, iso_chunksz(p)); p[0] = 1; p[n - 1] = 1; iso_free_permanently(p); }
            tally("near_cap");
        }
    h.run(2000);
    sample("%zu boundary sizes and %zu impossible sizes per entry point", sizes.size(), imposs.size());
    h.end();
    finish();
}
