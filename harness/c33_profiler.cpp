/* The heap profiler: exact counts, faithful traces, the profile file. */
#include "vh.h"
#include <pthread.h>
#include <cmath>
#include <utility>
#include <array>
using namespace vh;
#ifndef BACKTRACE_DEPTH
#define BACKTRACE_DEPTH 8
#endif
static const double ODDS = 10000;
static long g_allocs, g_frees; /* calls made in this process */
enum { NP = 12 };
struct PathS { long calls = 0, frees = 0; size_t lo = ~0ul, hi = 0; uintptr_t ra = 0, fra = 0; };
static PathS P[NP];
static inline size_t up(size_t n) { return n < 32 ? 32 : n > 65536 ? n : (n + 31) & ~31ul; }
/* each path calls the allocator from its own function, called at its own place */
template<int K> static NOINLINE void *path(size_t n) {
    P[K].ra = (uintptr_t) __builtin_return_address(0);
    void *p = K % 3 == 1 ? iso_calloc(1, n) : iso_alloc(n);
    OPAQUE(p);
    P[K].calls++;
    g_allocs++;
    P[K].lo = std::min(P[K].lo, n);
    P[K].hi = std::max(P[K].hi, n);
    return p;
}
template<int K> static NOINLINE void fpath(void *p) {
    P[K].fra = (uintptr_t) __builtin_return_address(0);
    OPAQUE(p);
    iso_free(p);
    OPAQUE(p);
    P[K].frees++;
    g_frees++;
}
static NOINLINE void *call(int k, size_t n) {
    void *p;
    switch(k) {
#define C(i) case i: p = path<i>(n); break;
        C(0) C(1) C(2) C(3) C(4) C(5) C(6) C(7) C(8) C(9) C(10) C(11)
#undef C
    }
    OPAQUE(p);
    return p;
}
static NOINLINE void fcall(int k, void *p) {
    switch(k) {
#define C(i) case i: fpath<i>(p); break;
        C(0) C(1) C(2) C(3) C(4) C(5) C(6) C(7) C(8) C(9) C(10) C(11)
#undef C
    }
    OPAQUE(p);
}
/* many paths */
static NOINLINE void *leaf() { void *p = iso_alloc(64); OPAQUE(p); return p; }
template<int I> static NOINLINE void *outer() { void *p = leaf(); OPAQUE(p); return p; }
typedef void *(*OF)();
template<size_t... I> static const OF *table(std::index_sequence<I...>) { static const OF t[] = {outer<(int) I>...}; return t; }
static const OF *OUT = table(std::make_index_sequence<243>());
static long sum_a(std::vector<iso_alloc_traces_t> &t) { long s = 0; for(auto &x : t) s += x.call_count; return s; }
static std::vector<iso_alloc_traces_t> atraces() { std::vector<iso_alloc_traces_t> t(4096); size_t n = iso_get_alloc_traces(t.data()); if(n > 4096) n = 4096; t.resize(n); return t; }
static std::vector<iso_free_traces_t> ftraces() { std::vector<iso_free_traces_t> t(4096); size_t n = iso_get_free_traces(t.data()); if(n > 4096) n = 4096; t.resize(n); return t; }
static bool plausible(double got, double calls, double slack = 6) { double e = calls / ODDS, s = sqrt(e); return fabs(got - e) <= slack * s + slack; }
struct Prof { long long allocated = -1, sampled = -1, freed = -1, fsampled = -1; struct T { unsigned hash; long calls, lo, hi; }; std::vector<T> a, f; std::map<long, std::pair<long, long>> zones; std::string text; };
static Prof parse(const char *file) {
    Prof p;
    FILE *f = fopen(file, "r");
    if(!f) return p;
    char l[4096];
    while(fgets(l, sizeof l, f)) {
        long long v;
        unsigned h;
        long i, c, lo, hi;
        p.text += l;
        if(sscanf(l, "allocated=%lld", &v) == 1) p.allocated = v;
        else if(sscanf(l, "alloc_sampled=%lld", &v) == 1) p.sampled = v;
        else if(sscanf(l, "freed=%lld", &v) == 1) p.freed = v;
        else if(sscanf(l, "free_sampled=%lld", &v) == 1) p.fsampled = v;
        else if(sscanf(l, "alloc_backtrace=%ld,backtrace_hash=0x%x,calls=%ld,lower_bound_size=%ld,upper_bound_size=%ld", &i, &h, &c, &lo, &hi) == 5) p.a.push_back({h, c, lo, hi});
        else if(sscanf(l, "free_backtrace=%ld,backtrace_hash=0x%x,calls=%ld", &i, &h, &c) == 3) p.f.push_back({h, c, 0, 0});
        else if(sscanf(l, "%ld,%ld,%ld", &i, &lo, &hi) == 3) p.zones[i] = {lo, hi};
    }
    fclose(f);
    return p;
}
struct TA { uint64_t seed; long n; };
static void *thr(void *a) {
    TA *t = (TA *) a;
    Rng q(t->seed);
    for(long i = 0; i < t->n; i++) { void *p = iso_alloc(1 + q.below(300)); OPAQUE(p); iso_free(p); }
    return NULL;
}
int main(int argc, char **argv) {
    init(argc, argv);
    const char *file = getenv("ISO_ALLOC_PROFILER_FILE_PATH");
    Rng r(g_seed);
    long N = argi(argc, argv, "--calls", 3000000);
    int mode = argi(argc, argv, "--mode", 0);
    int pfd = -1; /* the allocator's descriptor: children share its offset */
    for(int i = 0; i < 64; i++) { char l[64], b[4096]; snprintf(l, sizeof l, "/proc/self/fd/%d", i); ssize_t n = readlink(l, b, sizeof b - 1); if(n > 0) { b[n] = 0; const char *x = strrchr(file, '/'); if(strstr(b, x ? x : file)) pfd = i; } }
    if(pfd < 0) vio("no-file", "the profile file is not open");
    auto churn = [&](long n) {
        std::vector<std::pair<void *, int>> v;
        for(long i = 0; i < n; i++) {
            int k = r.below(NP);
            if(k == 7 && r.chance(3, 4)) k = 2; /* paths of different weight */
            size_t sz = k < 6 ? 1 + r.below(32 << k) : k == 6 ? 16000 + r.below(4000) : k == 7 ? 65537 + r.below(30000) : k == 8 ? r.below(3) + 30 : 1 + r.below(900);
            void *p = call(k, sz);
            if(!p) { vio("unserved", "request of %zu gave NULL", sz); return; }
            ((volatile char *) p)[sz - 1] = 1;
            v.push_back({p, r.below(NP)});
            if(v.size() > 40) { int x = r.below(v.size()); fcall(v[x].second, v[x].first); v[x] = v.back(); v.pop_back(); }
        }
        for(auto &e : v) fcall(e.second, e.first);
    };
    if(mode == 0) {
        long prev_a = 0, prev_f = 0; /* counted before the last reset */
        for(int round = 0; round < 3 && !S.viols; round++) {
            phase("round %d seed %llu", round, (unsigned long long) g_seed);
            for(auto &p : P) p = PathS();
            long a0 = g_allocs, f0 = g_frees;
            churn(N);
            auto t = atraces();
            auto f = ftraces();
            long sa = sum_a(t), sf = 0;
            for(auto &x : f) sf += x.call_count;
            if(!plausible(sa, g_allocs - a0)) vio("odds", "%ld of %ld allocations were sampled", sa, g_allocs - a0);
            if(!plausible(sf, g_frees - f0)) vio("odds", "%ld of %ld frees were sampled", sf, g_frees - f0);
            double per[NP] = {}, fper[NP] = {};
            int missing = 0;
            for(auto &x : t) {
                int who = -1, n = 0;
                uint64_t hh = 0;
                for(int j = 0; j < BACKTRACE_DEPTH; j++) { hh ^= x.callers[j]; for(int k = 0; k < NP; k++) if(x.callers[j] == P[k].ra) { who = k; n++; } }
                if((uint16_t) hh != x.backtrace_hash) vio("hash", "a trace carries hash %x, its callers give %x", x.backtrace_hash, (unsigned) (hh & 0xffff));
                if(n != 1) { if(n > 1) vio("trace", "a trace names %d call paths", n); tally("foreign_traces"); continue; }
                per[who] += x.call_count;
                if(x.lower_bound_size > x.upper_bound_size || x.lower_bound_size < std::min(P[who].lo, up(P[who].lo)) || x.upper_bound_size > up(P[who].hi))
                    vio("bounds", "call path %d asked for %zu to %zu bytes, its trace says %zu to %zu", who, P[who].lo, P[who].hi, x.lower_bound_size, x.upper_bound_size);
                if(x.call_count >= 14 && P[who].hi > P[who].lo + 200) { /* the bounds are near the extremes of what was asked */
                    double span = P[who].hi - P[who].lo;
                    if(x.upper_bound_size < P[who].lo + span / 4 || x.lower_bound_size > P[who].hi - span / 4 + 32) vio("bounds", "call path %d asked for %zu to %zu bytes, after %zu samples its trace says %zu to %zu", who, P[who].lo, P[who].hi, x.call_count, x.lower_bound_size, x.upper_bound_size);
                    tally("bounds_near");
                }
                tally("alloc_traces");
            }
            for(auto &x : f) {
                int who = -1, n = 0;
                for(int j = 0; j < BACKTRACE_DEPTH; j++) for(int k = 0; k < NP; k++) if(x.callers[j] == P[k].fra) { who = k; n++; }
                if(n == 1) { fper[who] += x.call_count; tally("free_traces"); } else tally("foreign_traces");
            }
            int off = 0;
            for(int k = 0; k < NP; k++) {
                if(!plausible(per[k], P[k].calls) || !plausible(fper[k], P[k].frees)) { off++; sample("path %d: %ld calls, %g samples; %ld frees, %g samples", k, P[k].calls, per[k], P[k].frees, fper[k]); }
                eval(mix(k, mix(round, (uint64_t) per[k])));
            }
            if(off > 4) vio("paths", "%d of %d call paths have implausible sample counts", off, NP); /* a few could share a 16 bit hash */
            /* reading the traces changes nothing */
            auto t2 = atraces();
            if(t2.size() != t.size() || memcmp(t2.data(), t.data(), t.size() * sizeof t[0])) vio("unstable", "reading the traces twice gives different results");
            /* the profile file of a process that exits now */
            auto file_check = [&](const char *when, long more_a, long more_f, const std::function<void()> &fn) {
                if(truncate(file, 0)) {}
                Res c = child([&] { fn(); lseek(pfd, 0, SEEK_SET); }, 60, true);
                if(!c.ok()) { vio("exit", "exit of a profiled process: %s", c.str().c_str()); return; }
                Prof p = parse(file);
                if(p.allocated != g_allocs + more_a || p.freed != g_frees + more_f) vio("count", "the profile says %lld allocations and %lld frees, %ld and %ld were made (%s)", p.allocated, p.freed, g_allocs + more_a, g_frees + more_f, when);
                if(p.sampled != sa + prev_a && !more_a) vio("sampled", "the profile says %lld sampled allocations, the traces have %ld and %ld before a reset", p.sampled, sa, prev_a);
                if(p.fsampled != sf + prev_f && !more_f) vio("sampled", "the profile says %lld sampled frees, the traces have %ld and %ld before a reset", p.fsampled, sf, prev_f);
                if(!more_a) {
                    if(p.a.size() != t.size() || p.f.size() != f.size()) vio("file", "the profile lists %zu and %zu traces instead of %zu and %zu", p.a.size(), p.f.size(), t.size(), f.size());
                    else for(size_t i = 0; i < t.size(); i++) if(p.a[i].hash != t[i].backtrace_hash || p.a[i].calls != (long) t[i].call_count || p.a[i].lo != (long) t[i].lower_bound_size || p.a[i].hi != (long) t[i].upper_bound_size) { vio("file", "trace %zu of the profile differs from the one read", i); break; }
                }
                tally("profiles");
            };
            file_check("at once", 0, 0, [] {});
            long ma = r.below(5000), mf = ma / 2;
            file_check("after more calls", ma, mf, [&] { for(long i = 0; i < ma; i++) { void *p = iso_alloc(1 + i % 5000); if(i < mf) iso_free(p); } });
            if(VH_CFG_THREAD_SUPPORT) {
                long n = 20000 + r.below(20000);
                file_check("after threads", 4 * n, 4 * n, [&] {
                    pthread_t q[4];
                    TA a[4];
                    for(int i = 0; i < 4; i++) { a[i] = {g_seed * 7 + i, n}; pthread_create(&q[i], NULL, thr, &a[i]); }
                    for(auto x : q) pthread_join(x, NULL);
                });
            }
            prev_a += sa;
            prev_f += sf;
            iso_alloc_reset_traces();
            if(!atraces().empty() || !ftraces().empty()) vio("reset", "traces remain after a reset");
        }
    } else if(mode == 1) { /* zones over three quarters full are counted at every sample, whatever their block size */
        static const size_t SZ[] = {65536, 65504, 60000, 50016, 33000, 40960};
        size_t sz = SZ[g_seed % 6];
        iso_alloc_zone_handle *z = iso_alloc_new_zone(sz);
        size_t cap = iso_zone_chunk_count(z), n = cap * 8 / 10 + 1;
        std::vector<void *> v;
        for(size_t i = 0; i < n; i++) { void *p = iso_alloc_from_zone(z); if(!p) { vio("unserved", "zone exhausted at %zu of %zu", i, cap); break; } v.push_back(p); g_allocs++; }
        size_t cs = v.empty() ? 0 : iso_chunksz(v[0]);
        iso_alloc_reset_traces();
        for(int round = 0; round < 3 && !S.viols; round++) {
            for(long i = 0; i < N / 2; i++) { void *p = iso_alloc(1 + i % 3000); OPAQUE(p); iso_free_size(p, 1 + i % 3000); g_allocs++; }
            auto t = atraces();
            long sa = sum_a(t);
            if(truncate(file, 0)) {}
            Res c = child([&] { lseek(pfd, 0, SEEK_SET); }, 60, true);
            if(!c.ok()) { vio("exit", "exit of a profiled process: %s", c.str().c_str()); break; }
            Prof p = parse(file);
            if(p.allocated != g_allocs) vio("count", "the profile says %lld allocations, %ld were made", p.allocated, g_allocs);
            auto it = p.zones.find(cs);
            if(sa && (it == p.zones.end() || it->second.second != sa)) vio("full-zones", "a zone of %zu byte blocks is full at all %ld samples, the profile says %ld", cs, sa, it == p.zones.end() ? 0 : it->second.second);
            if(it != p.zones.end() && it->second.first < 1) vio("full-zones", "the profile lists %ld zones of %zu byte blocks", it->second.first, cs);
            tally("profiles");
            tally("zone_samples", sa);
            eval(mix(cs, sa));
        }
    } else { /* more call paths than the table holds: those in it are still counted */
        std::vector<iso_alloc_traces_t> last;
        for(int round = 0; round < 6 && !S.viols; round++) {
            for(long i = 0; i < N; i++) { void *p = OUT[i % 243](); iso_free_size(p, 64); g_allocs++; }
            auto t = atraces();
            if(t.size() > 128) vio("table", "%zu traces", t.size());
            tally_max("max_traces", t.size());
            for(size_t i = 0; i < last.size() && i < t.size(); i++) {
                if(t[i].backtrace_hash != last[i].backtrace_hash || memcmp(t[i].callers, last[i].callers, sizeof t[i].callers)) { vio("trace", "trace %zu changed its identity", i); break; }
                if(t[i].call_count < last[i].call_count) { vio("trace", "trace %zu lost calls", i); break; }
            }
            if(last.size() >= 128) {
                long d = 0;
                for(size_t i = 0; i < 128; i++) d += t[i].call_count - last[i].call_count;
                if(d < N / ODDS / 4) vio("full-table", "the 128 traces of a full table gained %ld samples in %ld allocations over 243 paths", d, N);
                tally("full_table_rounds");
            }
            for(auto &x : t) if(x.lower_bound_size != 64 || x.upper_bound_size != 64) vio("bounds", "a path asking for 64 bytes has bounds %zu to %zu", x.lower_bound_size, x.upper_bound_size);
            last = t;
            eval(mix(round, t.size()));
        }
    }
    sample("mode %d: %ld allocations, %lld traces, %lld profiles", mode, g_allocs, (long long) S.stats["alloc_traces"], (long long) S.stats["profiles"]);
    tally("allocations", g_allocs);
    finish();
}
