/* All allocator mappings that are not user memory are searched, between calls, for the
 * address of any zone's memory or bitmap. */
#include "heap.h"
#include "sys.h"
using namespace vh;
namespace {
struct R { uintptr_t a, e; };
std::vector<R> targets, bigs; /* zones and their bitmaps; large blocks and their metadata */
std::vector<R> fresh;
R ev[64];
int nev;
bool catching;
void on_map(uintptr_t a, size_t len) { if(catching && nev < 64) ev[nev++] = {a, a + len}; }
uintptr_t recent[256]; /* blocks that may be held in the quarantine */
int nrecent;
void freed(void *p) { recent[nrecent++ & 255] = (uintptr_t) p; }
void cut(std::vector<R> &v, uintptr_t a, uintptr_t e) { for(size_t i = 0; i < v.size();) if(v[i].a < e && a < v[i].e) { v[i] = v.back(); v.pop_back(); } else i++; }
void on_unmap(uintptr_t a, size_t len) { /* only marks; the vectors are pruned outside */ if(nev < 64 && catching) ev[nev++] = {a, 0}; }
std::vector<R> init_regs;
long scanned, found;
template <class F> void walk(F f) { /* words of the metadata */
    std::vector<R> rs;
    { sysi::G g; for(int i = 0; i < sysi::nregs; i++) rs.push_back({sysi::regs[i].a, sysi::regs[i].a + sysi::regs[i].len}); }
    std::vector<Map> m = maps();
    for(auto &x : rs) {
        bool user = false;
        for(auto &t : targets) if(t.a < x.e && x.a < t.e && t.e - t.a > (4u << 20)) user = true;
        for(auto &b : bigs) if(b.a < x.e && x.a < b.e && b.e - b.a > 65536) user = true;
        if(user) continue;
        for(auto &k : m) if(k.start < x.e && x.a < k.end && k.r()) {
            uintptr_t s = std::max(k.start, x.a), e = std::min(k.end, x.e);
            /* pages never touched hold zeros */
            for(uintptr_t a = s; a < e; a += 8) { uint64_t w = *(uint64_t *) a; if(w) f(a, w); }
            scanned += (e - s) / 8;
        }
    }
}
void scan(const char *when) {
    sysi::G *g = NULL;
    (void) g;
    std::vector<R> t = targets;
    std::sort(t.begin(), t.end(), [](const R &a, const R &b) { return a.a < b.a; });
    walk([&](uintptr_t at, uint64_t w) {
        if(w < 0x10000 || w >> 47) return;
        auto it = std::upper_bound(t.begin(), t.end(), w, [](uint64_t x, const R &r) { return x < r.a; });
        if(it == t.begin()) return;
        --it;
        if(w >= it->e) return;
        for(auto x : recent) if(x == w) return; /* quarantined block */
        vio("plain", "after %s, metadata holds the address %llx, inside %s of %zu bytes", when, (unsigned long long) w, it->e - it->a > (4u << 20) ? "a zone's memory" : "a zone's bitmap mapping", (size_t) (it->e - it->a));
    });
    tally("scans");
}
} // namespace
int main(int argc, char **argv) {
    init(argc, argv);
    Rng r(g_seed);
    long rounds = argi(argc, argv, "--rounds", 400);
    sysi::on_map = on_map;
    sysi::on_unmap = on_unmap;
    size_t zone_len = 0;
    /* how long the memory of a zone is */
    auto prune = [&] { /* forget ranges that are gone */
        auto alive = [&](const R &x) { for(int i = 0; i < sysi::nregs; i++) if(sysi::regs[i].a <= x.a && x.a < sysi::regs[i].a + sysi::regs[i].len) return true; return false; };
        for(auto *v : {&targets, &bigs}) for(size_t i = 0; i < v->size();) if(!alive((*v)[i])) { (*v)[i] = v->back(); v->pop_back(); } else i++;
    };
    auto call = [&](bool big, const std::function<void()> &f) {
        nev = 0;
        catching = true;
        f();
        catching = false;
        bool un = false;
        for(int i = 0; i < nev; i++) {
            if(!ev[i].e) { un = true; continue; }
            cut(targets, ev[i].a, ev[i].e), cut(bigs, ev[i].a, ev[i].e);
            if(big) bigs.push_back(ev[i]);
            else targets.push_back(ev[i]);
        }
        if(un) prune();
    };
    for(int i = 0; i < sysi::nregs; i++) if(sysi::regs[i].len >= (4u << 20) + 8192 && sysi::regs[i].len <= (4u << 20) + 65536) {
        /* made at start-up: a default zone if blocks come from it, which the loop below shows */
        init_regs.push_back({sysi::regs[i].a, sysi::regs[i].a + sysi::regs[i].len});
    }
    struct B { void *p; size_t n; iso_alloc_zone_handle *z; };
    std::vector<B> live;
    struct Z { iso_alloc_zone_handle *h; size_t n; uintptr_t base; };
    std::vector<Z> zs;
    auto seen = [&](void *p) { for(auto &x : init_regs) if((uintptr_t) p >= x.a && (uintptr_t) p < x.e) { bool have = false; for(auto &t : targets) have |= t.a == x.a; if(!have) targets.push_back(x); } };
    /* find the default zones: one block of every class */
    for(size_t n = 32; n <= 65536; n = n < 1024 ? n + 32 : n * 2) { void *p = NULL; call(false, [&] { p = iso_alloc(n); }); if(p) { seen(p); live.push_back({p, n, NULL}); } }
    auto handle_ok = [&](iso_alloc_zone_handle *h) { if(sysi::mine((uintptr_t) h)) vio("handle", "a zone handle is the address %p of allocator memory", h); tally("handles"); };
    scan("start-up");
    for(long i = 0; i < rounds && S.viols < 3; i++) {
        const char *what = "";
        phase("round %ld seed %llu", i, (unsigned long long) g_seed);
        size_t n = pick_size(r, 65536);
        auto add = [&](void *p, size_t k, iso_alloc_zone_handle *z) { if(p) { seen(p); live.push_back({p, k, z}); } };
        int op = r.below(26);
        switch(op) {
        case 0: what = "allocations"; for(int k = 0; k < 200; k++) call(false, [&] { add(iso_alloc(n), n, NULL); }); break;
        case 1: what = "zeroed allocations"; call(false, [&] { add(iso_calloc(1, n), n, NULL); }); break;
        case 2: what = "a private zone"; if(zs.size() < 12) { iso_alloc_zone_handle *h = NULL; size_t k = r.range(1, r.chance(1, 2) ? 8000 : 65536); call(false, [&] { h = iso_alloc_new_zone(k); }); if(h) { zs.push_back({h, k, 0}); handle_ok(h); } } break;
        case 3: what = "exhausting a private zone"; if(!zs.empty() && r.chance(1, 4)) { auto &z = zs[r.below(zs.size())]; if(z.n >= 256) for(;;) { void *p = NULL; call(false, [&] { p = iso_alloc_from_zone(z.h); }); if(!p) break; live.push_back({p, z.n, z.h}); } } break;
        case 4: what = "private allocations"; if(!zs.empty()) { auto &z = zs[r.below(zs.size())]; for(int k = 0; k < 40; k++) call(false, [&] { add(iso_alloc_from_zone(z.h), z.n, z.h); }); } break;
        case 5: what = "an oversized request to a private zone"; if(!zs.empty()) { auto &z = zs[r.below(zs.size())]; std::string s(100, 'x'); if(z.n > 128) call(false, [&] { add(iso_strdup_from_zone(z.h, s.c_str()), 101, z.h); }); } break;
        case 6: what = "zone verification"; if(!zs.empty()) iso_verify_zone(zs[r.below(zs.size())].h); break;
        case 7: what = "verification"; iso_verify_zones(); break;
        case 8: what = "a zone leak report"; if(!zs.empty()) (void) iso_alloc_detect_zone_leaks(zs[r.below(zs.size())].h); break;
        case 9: what = "a leak report"; (void) iso_alloc_detect_leaks(); break;
        case 10: what = "a zone usage report"; if(!zs.empty()) (void) iso_alloc_zone_mem_usage(zs[r.below(zs.size())].h); break;
        case 11: what = "a usage report"; (void) iso_alloc_mem_usage(); break;
        case 12: what = "a size query"; if(!live.empty()) (void) iso_chunksz(live[r.below(live.size())].p); break;
        case 13: what = "a flush"; iso_flush_caches(); break;
        case 14: what = "destroying a zone"; if(!zs.empty() && r.chance(1, 2)) { size_t k = r.below(zs.size()); for(size_t j = 0; j < live.size();) if(live[j].z == zs[k].h) { live[j] = live.back(); live.pop_back(); } else j++; call(false, [&] { iso_alloc_destroy_zone(zs[k].h); }); zs.erase(zs.begin() + k); } break;
        case 15: what = "large blocks"; call(true, [&] { size_t b = r.range(65537, 600000); live.push_back({iso_alloc(b), b, NULL}); }); break;
        case 16: what = "an impossible request"; (void) !iso_alloc(SIZE_MAX - 4096), (void) !iso_calloc(SIZE_MAX / 2, 3), (void) !iso_alloc_new_zone(70000); break;
        case 17: what = "zero-size requests"; iso_free(iso_alloc(0)); break;
        case 18: what = "protecting the root"; iso_alloc_protect_root(); iso_alloc_unprotect_root(); break;
        case 19: what = "block counts"; if(!zs.empty()) (void) iso_zone_chunk_count(zs[r.below(zs.size())].h); break;
#if VH_CFG_MEMORY_TAGGING
        case 20: case 21: what = "tagged allocation"; if(!zs.empty()) { auto &z = zs[r.below(zs.size())]; void *p = NULL; call(false, [&] { p = iso_alloc_from_zone_tagged(z.h); }); if(p) { void *u = iso_alloc_untag_ptr(p, z.h); iso_alloc_verify_ptr_tag(p, z.h); (void) iso_alloc_get_mem_tag(u, z.h); live.push_back({u, z.n, z.h}); } } break;
#endif
        case 22: what = "churn"; { size_t k = r.range(2000, 9000); for(int j = 0; j < 1200; j++) { void *p = NULL; call(false, [&] { p = iso_alloc(k); }); seen(p); call(false, [&] { iso_free_size(p, k); }); } } break;
        case 23: what = "repeated initialisation"; iso_alloc_initialize(); break;
        default: what = "releases"; for(int k = 0; k < 150 && !live.empty(); k++) {
            size_t j = r.below(live.size());
            B b = live[j];
            live[j] = live.back();
            live.pop_back();
            freed(b.p);
            call(false, [&] { switch(r.below(b.z ? 4 : 3)) { case 0: iso_free(b.p); break; case 1: iso_free_size(b.p, b.n); break; case 2: if(b.n < 65536 && r.chance(1, 10)) iso_free_permanently(b.p); else iso_free(b.p); break; default: iso_free_from_zone(b.p, b.z); } });
        } break;
        }
        if(live.size() > 6000) { for(size_t k = 3000; k < live.size(); k++) { call(false, [&] { iso_free_size(live[k].p, live[k].n); }); } live.resize(3000); }
        scan(what);
        eval(mix(op, mix(zs.size(), live.size() / 100)));
        tally_max("targets", targets.size());
    }
    /* masks differ: no two words of the metadata differ by exactly the distance of two zones */
    if(!S.viols) {
        iso_flush_caches();
        memset(recent, 0, sizeof recent);
        std::unordered_set<uint64_t> words;
        walk([&](uintptr_t, uint64_t w) { if(w >> 48) words.insert(w); });
        std::vector<uintptr_t> us; /* first user page: the page after the guard */
        for(auto &t : targets) if(t.e - t.a == (4u << 20) + 8192) us.push_back(t.a + 4096);
        long pairs = 0, hits = 0;
        for(size_t i = 0; i < us.size() && i < 50; i++) for(size_t j = i + 1; j < us.size() && j < 50; j++) {
            uint64_t d = us[i] ^ us[j];
            for(auto w : words) if(words.count(w ^ d)) { hits++; break; }
            pairs++;
        }
        tally("mask_pairs", pairs);
        if(hits) vio("same-mask", "%ld of %ld pairs of zones seem to use the same pointer mask", hits, pairs);
    }
    sample("%lld scans of %ld words in all against %lld zone mappings, %lld pairs of zones", (long long) S.stats["scans"], scanned, (long long) S.stats["targets"], (long long) S.stats["mask_pairs"]);
    tally("words_scanned", scanned);
    (void) zone_len;
    finish();
}
