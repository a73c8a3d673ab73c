/* Placement and secrets: statistics over many fresh zones and processes, and differential
 * runs that see different entropy from one point on. */
#include "vh.h"
#include "sys.h"
#include <math.h>
using namespace vh;
namespace {
uint64_t guard_secret(void *p, bool &ok) { /* of a freed block: its guard value without its address */
    uint64_t w;
    memcpy(&w, p, 8);
    ok = (w & 0xff) == 0;
    return (w ^ (uint64_t) (uintptr_t) p) >> 8;
}
struct ZoneView {
    uint64_t base = 0, secret = 0, handle = 0, tags = 0, order = 0, first = 0;
    std::vector<uint32_t> idx; /* in the order handed out */
    size_t cap = 0;
};
ZoneView look(size_t n, size_t want, bool secret) {
    ZoneView v;
    iso_alloc_zone_handle *z = iso_alloc_new_zone(n);
    if(!z) { vio("zone", "no zone of %zu", n); return v; }
    v.handle = (uint64_t) (uintptr_t) z;
    size_t cs = (n + 31) / 32 * 32;
    v.cap = iso_zone_chunk_count(z);
    std::vector<uint8_t *> p;
    uint8_t *q;
    while(p.size() < want && (q = (uint8_t *) iso_alloc_from_zone(z))) p.push_back(q);
    if(p.empty()) { vio("zone", "zone of %zu gave nothing", n); return v; }
    /* the zone's mapping */
    uintptr_t lo = 0;
    for(int i = 0; i < sysi::nregs; i++) if((uintptr_t) p[0] >= sysi::regs[i].a && (uintptr_t) p[0] < sysi::regs[i].a + sysi::regs[i].len) lo = sysi::regs[i].a;
    v.base = lo;
    for(auto x : p) { v.idx.push_back(((uintptr_t) x - lo) / cs); v.order = mix(v.order, v.idx.back()); }
    v.first = v.idx[0];
#if VH_CFG_MEMORY_TAGGING
    for(size_t i = 0; i < 8 && i < p.size(); i++) v.tags = v.tags << 8 | iso_alloc_get_mem_tag(p[i], z);
#endif
    if(secret && !VH_CFG_DISABLE_CANARY) {
        iso_free_from_zone(p[0], z);
        iso_flush_caches();
        bool ok;
        v.secret = guard_secret(p[0], ok);
        if(!ok) vio("guard", "the guard value of a freed block does not begin with a zero byte");
        p.erase(p.begin());
    }
    for(auto x : p) iso_free_from_zone(x, z);
    iso_alloc_destroy_zone(z);
    return v;
}
/* one value per item, from many independent instances: bits must vary, values must differ */
struct Col {
    std::vector<uint64_t> v;
    void bits(const char *what, int lo, int hi) {
        size_t n = v.size();
        if(n < 40) return;
        /* fewer than a tenth with either value is as likely as 1 in 10^11 for n = 64 */
        for(int b = lo; b < hi; b++) {
            size_t k = 0;
            for(auto x : v) k += (x >> b) & 1;
            if(k * 10 < n || (n - k) * 10 < n) { vio("bits", "bit %d of the %s of %zu instances is set %zu times", b, what, n, k); return; }
        }
        tally("bit_columns", hi - lo);
    }
    void distinct(const char *what, size_t allow = 0) {
        std::unordered_set<uint64_t> s(v.begin(), v.end());
        if(s.size() + allow < v.size()) vio("repeat", "the %s of %zu instances has only %zu values", what, v.size(), s.size());
        tally("distinct_columns");
    }
    void deltas(const char *what, int shift) { /* consecutive ones are not related by a constant */
        std::unordered_map<uint64_t, int> x, d;
        for(size_t i = 1; i < v.size(); i++) { x[(v[i] ^ v[i - 1]) >> shift]++; d[(v[i] - v[i - 1]) >> shift]++; }
        for(auto &k : x) if(k.second > 2) vio("related", "the %s of consecutive instances often (%d of %zu) differ by the xor %llx", what, k.second, v.size(), (unsigned long long) k.first);
        for(auto &k : d) if(k.second > 2) vio("related", "the %s of consecutive instances often (%d of %zu) differ by the distance %llx", what, k.second, v.size(), (unsigned long long) k.first);
        tally("delta_columns");
    }
};
void report_one() { /* run in a fresh process */
    std::string o;
    auto put = [&](uint64_t x) { char b[32]; snprintf(b, sizeof b, "%llx ", (unsigned long long) x); o += b; };
    /* general blocks: the first ones of every size class and a large one, by address */
    for(size_t n : {32, 64, 128, 256, 512, 1024, 2048, 4096, 8192}) put((uint64_t) (uintptr_t) iso_alloc(n));
    put((uint64_t) (uintptr_t) iso_alloc(200000));
    for(size_t n : {48, 256, 1000}) { ZoneView v = look(n, 40, true); put(v.base); put(v.secret); put(v.handle); put(v.order); put(v.tags); }
    put(sysi::nregs ? sysi::regs[0].a : 0); /* metadata */
    (void) !write(1, o.data(), o.size());
    _exit(S.viols ? 9 : 0);
}
} // namespace
int main(int argc, char **argv) {
    if(getenv("VH_ONE")) report_one();
    init(argc, argv);
    Rng r(g_seed);
    long procs = argi(argc, argv, "--procs", 64), zones = argi(argc, argv, "--zones", 300), forks = argi(argc, argv, "--forks", 6);
    /* ---- across processes */
    {
        std::vector<Col> cols;
        std::string last;
        for(long i = 0; i < procs && !S.viols; i++) {
            Res c = child([&] { setenv("VH_ONE", "1", 1); execl("/proc/self/exe", "self", (char *) NULL); _exit(99); }, 60);
            if(!c.ok()) { vio("run", "fresh process: %s", c.str().c_str()); break; }
            std::vector<uint64_t> v;
            const char *s = c.out.c_str();
            for(;;) { char *e; uint64_t x = strtoull(s, &e, 16); if(e == s) break; v.push_back(x); s = e; }
            if(v.size() != 26) { vio("run", "transcript of %zu values: %s", v.size(), c.out.c_str()); break; }
            if(cols.empty()) cols.resize(v.size());
            for(size_t k = 0; k < v.size(); k++) cols[k].v.push_back(v[k]);
            tally("processes");
            eval(mix(v[10], v[11]));
        }
        if(!S.viols && cols.size() == 26) {
            for(int k = 0; k < 9; k++) { char b[80]; snprintf(b, sizeof b, "address of the first block of %d bytes", 32 << k); cols[k].bits(b, 24, 46); cols[k].distinct(b); }
            cols[9].bits("address of the first large block", 14, 46);
            for(int k = 0; k < 3; k++) {
                char b[100];
                int o = 10 + k * 5;
                snprintf(b, sizeof b, "base of private zone %d of a process", k), cols[o].bits(b, 14, 46), cols[o].distinct(b), cols[o].deltas(b, 12);
                if(!VH_CFG_DISABLE_CANARY) snprintf(b, sizeof b, "guard secret of private zone %d of a process", k), cols[o + 1].bits(b, 0, 56), cols[o + 1].distinct(b), cols[o + 1].deltas(b, 0);
                snprintf(b, sizeof b, "handle of private zone %d of a process", k), cols[o + 2].bits(b, 14, VH_CFG_MASK_PTRS ? 64 : 46), cols[o + 2].distinct(b);
                if(VH_CFG_RANDOMIZE_FREELIST) snprintf(b, sizeof b, "block order of private zone %d of a process", k), cols[o + 3].distinct(b);
                if(VH_CFG_MEMORY_TAGGING) snprintf(b, sizeof b, "tags of private zone %d of a process", k), cols[o + 4].bits(b, 0, 64), cols[o + 4].distinct(b);
            }
            cols[25].bits("address of the first metadata mapping", 14, 46);
        }
    }
    /* ---- across zones of this process */
    {
        Col base, secret, tags, order, big;
        std::vector<double> pos(64);
        long windows = 0;
        double seq_all = 0;
        long seq_n = 0;
        std::map<int, long> startq, firstq;
        static const size_t sizes[] = {32, 48, 64, 96, 128, 200, 256, 320, 512};
        for(long i = 0; i < zones && !S.viols; i++) {
            size_t n = sizes[r.below(9)], cs = (n + 31) / 32 * 32, total = (4u << 20) / cs;
            phase("private zone %ld of %zu, seed %llu", i, n, (unsigned long long) g_seed);
            long g0 = g_rand_calls;
            ZoneView v = look(n, 255, true);
            if(S.viols) break;
            if(g_rand_calls == g0) vio("entropy", "no entropy was drawn for a new zone of %zu", n);
            base.v.push_back(v.base), secret.v.push_back(v.secret), tags.v.push_back(v.tags), order.v.push_back(v.order);
            size_t seq = 0;
            for(size_t k = 1; k < v.idx.size(); k++) seq += v.idx[k] == v.idx[k - 1] + 1;
            seq_all += seq, seq_n += v.idx.size() - 1;
            if(VH_CFG_RANDOMIZE_FREELIST && v.idx.size() > 100 && seq * 3 > v.idx.size()) {
                tally("mostly_sequential"); /* the tail of a zone gives short lists, which stay in order */
            }
            uint32_t lo = *std::min_element(v.idx.begin(), v.idx.end()), hi = *std::max_element(v.idx.begin(), v.idx.end());
            startq[(uint64_t) lo * 8 / total]++;
            if(hi - lo < 300 && v.idx.size() == 255) {
                windows++;
                std::vector<uint32_t> s = v.idx;
                std::sort(s.begin(), s.end());
                for(int k = 0; k < 64; k++) pos[k] += std::lower_bound(s.begin(), s.end(), v.idx[k]) - s.begin();
                firstq[(std::lower_bound(s.begin(), s.end(), v.idx[0]) - s.begin()) / 64]++;
            }
            tally("zones");
            eval(mix(v.order, v.base));
            if(i % 8 == 0) { void *b = iso_alloc(70000 + r.below(3000000)); big.v.push_back((uint64_t) (uintptr_t) b); }
        }
        phase("zones of one process, seed %llu", (unsigned long long) g_seed);
        if(!S.viols) {
            base.bits("base of private zones", 14, 46), base.distinct("base of private zones"), base.deltas("base of private zones", 12);
            if(!VH_CFG_DISABLE_CANARY) secret.bits("guard secret of private zones", 0, 56), secret.distinct("guard secret of private zones"), secret.deltas("guard secret of private zones", 0);
            if(VH_CFG_MEMORY_TAGGING) tags.bits("tags of private zones", 0, 64), tags.distinct("tags of private zones");
            big.bits("address of large blocks", 14, 46), big.deltas("address of large blocks", 12);
            if(startq.size() < 4) vio("window", "%ld fresh zones hand out their first blocks in only %zu eighths of the zone", zones, startq.size());
            if(VH_CFG_RANDOMIZE_FREELIST) {
                order.distinct("block order of private zones");
                if(seq_all > seq_n * 0.12) vio("sequential", "%.0f of %ld successive blocks of fresh zones are neighbours", seq_all, seq_n);
                if(windows >= 60) {
                    double sd = 73.6 / sqrt((double) windows);
                    for(int k = 0; k < 64; k++) if(fabs(pos[k] / windows - 127) > 7 * sd) vio("shuffle", "the block handed out as number %d has mean rank %.1f of 255 in %ld fresh zones", k, pos[k] / windows, windows);
                    for(int k = 0; k < 4; k++) if(firstq[k] * 12 < windows) vio("shuffle", "the first block lies in quarter %d of its list in only %ld of %ld fresh zones", k, firstq[k], windows);
                    tally("shuffle_windows", windows);
                }
            }
        }
    }
    /* ---- replaced zones draw new secrets */
    if(!VH_CFG_DISABLE_CANARY && !VH_CFG_SANITIZE_CHUNKS) for(int i = 0; i < 3 && !S.viols; i++) {
        size_t n = 8192 - 1024 * i;
        static uintptr_t gone;
        static uintptr_t watch;
        gone = 0;
        uint8_t *p = (uint8_t *) iso_alloc(n);
        uintptr_t base = 0;
        for(int k = 0; k < sysi::nregs; k++) if((uintptr_t) p >= sysi::regs[k].a && (uintptr_t) p < sysi::regs[k].a + sysi::regs[k].len) base = sysi::regs[k].a;
        size_t cs = iso_chunksz(p);
        iso_free_size(p, n);
        bool ok;
        uint64_t s1 = guard_secret(p, ok);
        watch = (uintptr_t) p;
        sysi::on_unmap = [](uintptr_t a, size_t l) { if(watch >= a && watch < a + l) gone = a; };
        for(long k = 0; k < 400000 && !gone; k++) { uint8_t *q = (uint8_t *) iso_alloc(n); if(iso_chunksz(q) != cs) { iso_free_size(q, n); break; } iso_free_size(q, n); }
        sysi::on_unmap = NULL;
        if(!gone) continue;
        uint8_t *q = (uint8_t *) iso_alloc(n);
        iso_free_size(q, n);
        uint64_t s2 = guard_secret(q, ok);
        if(!ok) continue;
        if(s1 == s2) vio("replaced", "the replacement of a retired zone of %zu has the same guard secret", cs);
        (void) base;
        tally("replacements");
    }
    /* ---- the same past, then different entropy */
    for(long i = 0; i < forks && !S.viols; i++) {
        std::string t[2];
        uint64_t s0 = r.next();
        for(int k = 0; k < 2; k++) {
            Res c = child([&] {
                g_rand_mode = 1, g_rand_state = s0 + k * 0x51ed27ull;
                std::string o;
                look(100, 10, false); /* its secret may come from older entropy */
                for(size_t n : {64, 500, 64}) { ZoneView v = look(n, 40, true); char b[200]; snprintf(b, sizeof b, "%llx %llx %llx %llx\n", (unsigned long long) v.base, (unsigned long long) v.secret, (unsigned long long) v.order, (unsigned long long) v.tags); o += b; }
                (void) !write(1, o.data(), o.size());
            });
            if(!c.ok()) vio("run", "forked zones: %s", c.str().c_str());
            t[k] = c.out;
        }
        const char *a = t[0].c_str(), *b = t[1].c_str();
        static const char *nm[] = {"base", "guard secret", "block order", "tags"};
        for(int k = 0; k < 12 && !S.viols; k++) {
            char *e;
            uint64_t x = strtoull(a, &e, 16); a = e;
            uint64_t y = strtoull(b, &e, 16); b = e;
            int w = k % 4;
            if(w == 1 && VH_CFG_DISABLE_CANARY) continue;
            if(w == 2 && !VH_CFG_RANDOMIZE_FREELIST) continue;
            if(w == 3 && !VH_CFG_MEMORY_TAGGING) continue;
            if(x == y) vio("stale", "with fresh entropy a new zone still gets the same %s %llx", nm[w], (unsigned long long) x);
        }
        tally("entropy_forks");
        eval(mix(s0, 9));
    }
    sample("%lld processes, %lld zones, %lld bit columns, %lld shuffle windows", (long long) S.stats["processes"], (long long) S.stats["zones"], (long long) S.stats["bit_columns"], (long long) S.stats["shuffle_windows"]);
    finish();
}
