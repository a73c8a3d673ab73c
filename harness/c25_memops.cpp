/* Hooked memcpy/memmove/memset: exact effect of in-bounds calls, abort of overflowing ones. */
#include "heap.h"
using namespace vh;
static void *(*volatile mc)(void *, const void *, size_t) = memcpy;
static void *(*volatile mm)(void *, const void *, size_t) = memmove;
static void *(*volatile ms)(void *, int, size_t) = memset;
static uint8_t g_glob[1 << 18];
static const uint8_t *g_w0;
static uint8_t g_copy[300000];
static size_t g_wn;
/* byte loops the compiler cannot turn into library calls */
static NOINLINE void bcopy_(volatile uint8_t *d, const volatile uint8_t *s, size_t n) { for(size_t i = 0; i < n; i++) d[i] = s[i]; }
static NOINLINE ssize_t bcmp_(const volatile uint8_t *a, const volatile uint8_t *b, size_t n) { for(size_t i = 0; i < n; i++) if(a[i] != b[i]) return i; return -1; }
static void on_abort(int) { _exit(bcmp_(g_w0, g_copy, g_wn) < 0 ? 40 : 41); }
static void on_segv(int) { _exit(43); }
struct Area { uint8_t *p; size_t n; int kind; };
static const char *KN[] = {"zone block", "small block", "large block", "stack", "global", "system heap", "mapping end"};
int main(int argc, char **argv) {
    init(argc, argv);
    Rng r(g_seed);
    Heap h(g_seed ^ 73);
    h.max_live = 6u << 20;
    h.strong = VH_CFG_STRONG_SIZE_ISOLATION;
    h.run(1000);
    const bool MC = VH_CFG_MEMCPY_SANITY, MS = VH_CFG_MEMSET_SANITY;
    uint8_t stackbuf[70000];
    uint8_t *ends = (uint8_t *) syscall(SYS_mmap, NULL, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    syscall(SYS_mprotect, ends + (1 << 19), 1 << 19, PROT_NONE);
    static uint8_t model[400000], before[400000];
    long rounds = argi(argc, argv, "--rounds", 3000);
    auto area = [&](int k) -> Area {
        size_t n;
        switch(k) {
        case 1: n = pick_size(r, 65536); return {(uint8_t *) iso_alloc(n), n, k};
        case 2: n = r.range(65537, 200000); return {(uint8_t *) iso_alloc(n), n, k};
        case 3: return {stackbuf, sizeof stackbuf, k};
        case 4: return {g_glob, 200000, k};
        case 5: n = r.range(40, 9000); return {(uint8_t *) malloc(n), n, k};
        case 6: n = r.range(40, 200000); return {ends + (1 << 19) - n, n, k};
        }
        return {NULL, 0, 0};
    };
    auto done = [&](Area &a) { if(a.kind == 1 || a.kind == 2) { if(r.chance(1, 2)) iso_free(a.p); else iso_free_size(a.p, a.n); } else if(a.kind == 5) free(a.p); };
    for(long i = 0; i < rounds && !S.viols; i++) {
        size_t zn = r.chance(1, 2) ? 32 * r.range(1, 300) : pick_size(r, 65536);
        void *z = i % 12 == 0 ? iso_alloc_new_zone(zn) : NULL;
        /* in-bounds calls */
        int reps = z ? 6 : 3;
        for(int k = 0; k < reps; k++) {
            Area d, s;
            if(z && r.chance(1, 2)) d = {(uint8_t *) iso_alloc_from_zone(z), zn, 0}; else d = area(r.range(1, 6));
            if(z && r.chance(1, 2)) s = {(uint8_t *) iso_alloc_from_zone(z), zn, 0}; else s = area(r.range(1, 6));
            if(s.kind == d.kind && (s.kind == 3 || s.kind == 4 || s.kind == 6)) s = d;
            if(!d.p || !s.p) { vio("unserved", "NULL"); break; }
            if(d.kind == 0 || d.kind == 1) d.n = iso_chunksz(d.p);
            if(s.kind == 0 || s.kind == 1) s.n = iso_chunksz(s.p);
            if(d.kind == 1 && (VH_CFG_ALLOC_SANITY)) d.n = std::min<size_t>(d.n, 1);
            int what = r.below(3);
            bool same = what == 1 && r.chance(1, 2); /* overlapping move inside one area */
            for(size_t j = 0; j < d.n; j++) ((volatile uint8_t *) d.p)[j] = (uint8_t) (j * 7 + i);
            if(s.p != d.p) for(size_t j = 0; j < s.n; j++) ((volatile uint8_t *) s.p)[j] = (uint8_t) (j * 13 + 3 * i + 1);
            size_t doff = r.chance(1, 3) ? 0 : r.below(d.n), lim = d.n - doff, soff = 0;
            uint8_t *sp = s.p;
            size_t sn = s.n;
            if(same || s.p == d.p) {
                sp = d.p;
                sn = d.n;
                if(what == 0) what = 1;
                soff = r.chance(1, 2) ? (doff + r.below(65) - std::min<size_t>(doff, 32)) % sn : r.below(sn);
            } else
                soff = r.chance(1, 3) ? 0 : r.below(sn);
            size_t n = what == 2 ? lim : std::min(lim, sn - soff);
            if(r.chance(1, 2)) n = r.below(n + 1);
            int val = r.chance(1, 4) ? (int) r.next() : (int) r.below(256);
            bcopy_(before, d.p, d.n);
            bcopy_(model, d.p, d.n);
            if(what == 2) for(size_t j = 0; j < n; j++) model[doff + j] = (uint8_t) val;
            else if(sp == d.p) for(size_t j = 0; j < n; j++) model[doff + j] = before[soff + j];
            else for(size_t j = 0; j < n; j++) model[doff + j] = ((volatile uint8_t *) sp)[soff + j];
            phase("%s of %zu bytes to %s+%zu of %zu from %s+%zu, round %ld seed %llu", what == 0 ? "memcpy" : what == 1 ? "memmove" : "memset", n, KN[d.kind], doff, d.n, sp == d.p ? "the same" : KN[s.kind], soff, i, (unsigned long long) g_seed);
            void *ret = what == 0 ? mc(d.p + doff, sp + soff, n) : what == 1 ? mm(d.p + doff, sp + soff, n) : ms(d.p + doff, val, n);
            if(ret != d.p + doff) vio("return", "%s returned %p, not its destination %p", what == 2 ? "memset" : what ? "memmove" : "memcpy", ret, d.p + doff);
            ssize_t x = bcmp_(d.p, model, d.n);
            if(x >= 0) vio("effect", "byte %zd of the destination area is %02x, expected %02x (%s)", x, d.p[x], model[x], S.phase);
            if(sp == d.p && what == 1) tally("overlapping_moves");
            tally("calls");
            eval(mix(mix(what, d.kind * 8 + s.kind), mix(szclass(n ? n : 1), (doff & 7) * 8 + (soff & 7))));
            done(s);
            done(d);
        }
        if(!z) continue;
        /* overflowing calls: fresh zone, so the fast lookup knows it */
        void *z2 = iso_alloc_new_zone(zn);
        if(!z2) { vio("unserved", "no zone"); break; }
        std::vector<uint8_t *> v;
        for(int k = 0; k < 6; k++) { uint8_t *p = (uint8_t *) iso_alloc_from_zone(z2); if(p) v.push_back(p); }
        size_t c = iso_chunksz(v[0]);
        /* the lookup has one entry per 4 GB: leave out a zone that straddles two */
        if(((uintptr_t) v[0] >> 32) != (((uintptr_t) v[0] - (5 << 20)) >> 32) || ((uintptr_t) v[0] >> 32) != (((uintptr_t) v[0] + (5 << 20)) >> 32)) { tally("straddling"); continue; }
        static uint8_t big[300000];
        for(int k = 0; k < 10; k++) {
            uint8_t *p = v[r.below(v.size())];
            size_t off = r.chance(1, 2) ? 0 : r.below(c), left = c - off;
            size_t n = left + (r.chance(1, 2) ? 1 : r.range(1, 200));
            if(n <= 32) n = 33 + r.below(100);
            bool huge = r.chance(1, 8);
            if(huge) n = r.chance(1, 2) ? SIZE_MAX - r.below(1 << 20) : (size_t) 1 << r.range(23, 63);
            int what = r.below(MC && MS ? 5 : MC ? 4 : 1);
            if(!MC || (MS && what == 4)) what = 4;
            bool write = what != 1 && what != 3;
            for(uint8_t *q : v) for(size_t j = 0; j < c; j++) ((volatile uint8_t *) q)[j] = (uint8_t) (j + (uintptr_t) q);
            static const char *W[] = {"memcpy to", "memcpy from", "memmove to", "memmove from", "memset of"};
            phase("overflowing %s a block of %zu at offset %zu, length %zu, round %ld seed %llu", W[what], c, off, n, i, (unsigned long long) g_seed);
            Res res = child([&] {
                /* what must not be touched: the block, or the target of a bad read */
                g_w0 = write ? p : big;
                g_wn = write ? c : sizeof big;
                bcopy_(g_copy, g_w0, g_wn);
                signal(SIGABRT, on_abort);
                signal(SIGSEGV, on_segv);
                switch(what) {
                case 0: mc(p + off, big, n); break;
                case 1: mc(big, p + off, n); break;
                case 2: mm(p + off, big, n); break;
                case 3: mm(big, p + off, n); break;
                default: ms(p + off, 0x7e, n);
                }
                _exit(42);
            });
            if(res.code != 40) vio(res.code == 41 ? "touched" : "missed", "%s a block of %zu bytes at offset %zu, length %zu: %s", W[what], c, off, n, res.code == 41 ? "memory was touched before the abort" : res.code == 42 ? "call went through" : res.code == 43 ? "faulted instead of aborting" : res.str().c_str());
            tally("overflows");
            tally((std::string("overflow_") + std::to_string(what)).c_str());
            eval(mix(mix(what + 50, szclass(c)), mix(off == 0, n == left + 1)));
            /* the exact remaining length is fine */
            if(!huge) {
                phase("exact length %zu at offset %zu of a block of %zu", left, off, c);
                switch(what) {
                case 0: mc(p + off, big, left); break;
                case 1: mc(big, p + off, left); break;
                case 2: mm(p + off, big, left); break;
                case 3: mm(big, p + off, left); break;
                default: ms(p + off, 0x7e, left);
                }
                tally("exact");
            }
        }
        iso_alloc_destroy_zone(z2);
        iso_alloc_destroy_zone(z);
        if(i % 48 == 0) { h.run(60); }
        /* a general zone block, found or not: an overflow never goes undetected silently if the lookup knows the zone; measured only */
    }
    sample("%ld rounds: %lld in-bounds calls, %lld overflowing calls aborted", rounds, (long long) S.stats["calls"], (long long) S.stats["overflows"]);
    h.end();
    finish();
}
