/* Aligned allocation through every interface that takes an alignment. */
#include "heap.h"
#include <malloc.h>
#include <new>
#include <memory>
using namespace vh;
enum { PM, AA, MA, NEWA, NEWAN, NEWAA, NEWAAN, NK };
static const char *nm[] = {"posix_memalign", "aligned_alloc", "memalign", "aligned new", "aligned nothrow new", "aligned new[]", "aligned nothrow new[]"};
static int last_rc;
static void *call(int k, size_t a, size_t n) {
    void *p = (void *) 0x1234;
    last_rc = 0;
    switch(k) {
    case PM: last_rc = posix_memalign(&p, a, n); return last_rc ? NULL : p;
    case AA: errno = 0; p = aligned_alloc(a, n); last_rc = errno; return p;
    case MA: errno = 0; p = memalign(a, n); last_rc = errno; return p;
#ifdef VH_CPP
    case NEWA: try { return ::operator new(n, std::align_val_t(a)); } catch(std::bad_alloc &) { return NULL; }
    case NEWAN: return ::operator new(n, std::align_val_t(a), std::nothrow);
    case NEWAA: try { return ::operator new[](n, std::align_val_t(a)); } catch(std::bad_alloc &) { return NULL; }
    case NEWAAN: return ::operator new[](n, std::align_val_t(a), std::nothrow);
#endif
    }
    return NULL;
}
static void drop(Rng &r, int k, void *p, size_t n, size_t a) {
    switch(k) {
#ifdef VH_CPP
    case NEWA: case NEWAN:
        switch(r.below(3)) { case 0: ::operator delete(p, std::align_val_t(a)); break; case 1: ::operator delete(p, n, std::align_val_t(a)); break; default: ::operator delete(p, std::align_val_t(a), std::nothrow); }
        return;
    case NEWAA: case NEWAAN:
        switch(r.below(3)) { case 0: ::operator delete[](p, std::align_val_t(a)); break; case 1: ::operator delete[](p, n, std::align_val_t(a)); break; default: ::operator delete[](p, std::align_val_t(a), std::nothrow); }
        return;
#endif
    default: r.chance(1, 2) ? free(p) : iso_free(p);
    }
}
int main(int argc, char **argv) {
    init(argc, argv);
    Rng r(g_seed);
    Heap h(g_seed ^ 11);
    h.strong = VH_CFG_STRONG_SIZE_ISOLATION;
    h.max_live = 24u << 20;
    int nk = MA + 1;
#ifdef VH_CPP
    nk = NK;
#endif
    Shadow sh;
    std::map<uintptr_t, size_t> al;
    long rounds = argi(argc, argv, "--rounds", 8);
    auto trim = [&](size_t keep) {
        while(sh.live.size() > keep) {
            uintptr_t q = sh.pick(r);
            Block b = sh.live[q];
            sh.check(q, "before free");
            sh.del(q);
            size_t a = al[q];
            al.erase(q);
            if(r.chance(1, 6)) { /* realloc of an aligned block keeps its bytes */
                size_t n2 = r.range(1, b.size + 100);
                void *x = realloc((void *) q, n2);
                if(!x || differs(x, std::min(n2, b.size), b.pat, b.size) >= 0) vio("realloc", "realloc of a block aligned to %zu from %zu to %zu lost data", a, b.size, n2);
                free(x);
            } else
                drop(r, b.kind, (void *) q, b.size, a);
        }
    };
    for(long i = 0; i < rounds && !S.viols; i++) {
        /* zones of awkward chunk sizes before and between */
        void *odd[40];
        size_t on = 0;
        for(int k = 0; k < 40; k++) { size_t n = 8193 + 32 * r.below(1700); odd[on++] = iso_alloc(n); }
        h.run(400);
        for(int k = 0; k < nk; k++)
            for(int lg = 0; lg <= 20; lg++) {
                size_t a = (size_t) 1 << lg;
                for(int t = 0; t < 24; t++) {
                    size_t n;
                    switch(r.below(8)) {
                    case 0: n = a; break;
                    case 1: n = a + r.range(0, 2) - 1; break;
                    case 2: n = r.range(1, 64); break;
                    case 3: n = 32 * r.range(1, 300); break;
                    case 4: n = r.range(60000, 140000); break;
                    case 5: n = a * r.range(1, 5); break;
                    default: n = pick_size(r, 70000);
                    }
                    if(n == 0) n = 1;
                    if(n > (2u << 20)) n = 2u << 20;
                    if(r.chance(1, 30)) h.run(5);
                    if(r.chance(1, 12)) { /* the zone cache: recently used classes */
                        void *x = iso_alloc(r.range(1, 1024) * 32);
                        iso_free(x);
                    }
                    phase("%s(align %zu, size %zu) round %ld seed %llu", nm[k], a, n, i, (unsigned long long) g_seed);
                    void *p = call(k, a, n);
                    eval(mix(mix(k, lg), mix(szclass(n), n % a == 0)));
                    if(k == PM && a < sizeof(void *)) {
                        if(last_rc != EINVAL) vio("einval", "posix_memalign with alignment %zu returned %d", a, last_rc);
                        if(p) free(p);
                        continue;
                    }
                    if(!p) {
                        if(a <= 4096) vio("refused", "%s of %zu bytes aligned to %zu failed (%d)", nm[k], n, a, last_rc);
                        tally("refused_large_alignment");
                        continue;
                    }
                    if((uintptr_t) p % a) { vio("misaligned", "%s of %zu bytes aligned to %zu returned %p", nm[k], n, a, p); continue; }
                    if(iso_chunksz(p) < n || malloc_usable_size(p) < n) vio("short", "%s of %zu bytes aligned to %zu returned a block of %zu", nm[k], n, a, iso_chunksz(p));
                    if(sh.add(nm[k], p, n, k)) al[(uintptr_t) p] = a;
                    for(size_t o = 0; o < on; o++)
                        if(odd[o] && (char *) p < (char *) odd[o] + 8193 && (char *) p + n > (char *) odd[o]) vio("overlap", "%s returned %p overlapping a live block", nm[k], p);
                    tally("aligned_blocks");
                }
                trim(300);
            }
        /* alignments that are not powers of two */
        for(int t = 0; t < 60; t++) {
            size_t a;
            switch(r.below(4)) { case 0: a = 0; break; case 1: a = 3 + 2 * r.below(1000); break; case 2: a = 8 * (3 + 2 * r.below(500)); break; default: a = SIZE_MAX - r.below(20); }
            size_t n = r.range(1, 5000);
            phase("alignment %zu", a);
            void *q = (void *) 0x10;
            int rc = posix_memalign(&q, a, n);
            if(rc != EINVAL) vio("einval", "posix_memalign with alignment %zu returned %d", a, rc);
            for(int k = AA; k <= MA; k++) {
                void *p = call(k, a, n);
                if(p && (a == 0 || (uintptr_t) p % a)) vio("misaligned", "%s with alignment %zu returned %p", nm[k], a, p);
                if(p) free(p);
            }
            tally("bad_alignments");
            eval(mix(77, a));
        }
        /* sizes that wrap when rounded to the alignment */
        for(int lg = 4; lg < 64; lg += 3)
            for(size_t d : {(size_t) 0, (size_t) 1, (size_t) 31, (size_t) 4095, (size_t) 70000}) {
                size_t a = (size_t) 1 << lg;
                for(int k = 0; k < nk; k++) {
                    phase("%s huge align 2^%d", nm[k], lg);
                    void *p = call(k, a, SIZE_MAX - d);
                    if(p) vio("huge", "%s of %zu bytes aligned to %zu returned %p (size %zu)", nm[k], SIZE_MAX - d, a, p, iso_chunksz(p));
                    if(lg > 24) {
                        p = call(k, a, 100);
                        if(p) { if((uintptr_t) p % a) vio("misaligned", "%s with alignment 2^%d returned %p", nm[k], lg, p); free(p); }
                    }
                    tally("huge_requests");
                }
            }
        for(size_t o = 0; o < on; o++) iso_free(odd[o]);
        sh.check_all("end of round");
        trim(r.below(200));
    }
    trim(0);
    sample("%ld rounds over alignments 1 to 1 MB", rounds);
    h.end();
    finish();
}
