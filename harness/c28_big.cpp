/* Large blocks: own mappings, reuse, retirement, protection; judged by the mapping calls. */
#include "heap.h"
#include "sys.h"
using namespace vh;
struct Ev { uintptr_t a; size_t n; };
static Ev maps_[64], unmaps_[4096];
static int nmap, nunmap;
static void mapped(uintptr_t a, size_t n) { if(nmap < 64) maps_[nmap++] = {a, n}; }
static void unmapped(uintptr_t a, size_t n) { if(nunmap < 4096) unmaps_[nunmap++] = {a, n}; }
enum { LIVE, QUAR, FREE, GONE, DEAD };
struct Big { size_t size; int state; int lives; uint64_t pat; size_t n; };
static const uint64_t MARK = 0xB16B10C4ABCDEF01ull;
static inline uint64_t rp(size_t n) { return (n + 4095) & ~4095ull; }
int main(int argc, char **argv) {
    init(argc, argv);
    Rng r(g_seed);
    Heap h(g_seed ^ 89);
    h.max_live = 4u << 20;
    h.max_size = 60000;
    h.w[O_BIG] = h.w[O_FLUSH] = 0;
    h.strong = VH_CFG_STRONG_SIZE_ISOLATION;
    h.w[O_FREE] = h.w[O_FREE_PERM] = h.w[O_BURST] = h.w[O_CHURN] = 0; /* small blocks bypass the quarantine */
    sysi::on_map = mapped;
    sysi::on_unmap = unmapped;
    std::map<uintptr_t, Big> B;
    std::vector<size_t> favs;
    long ops = argi(argc, argv, "--ops", 4000);
    int live = 0, quar = 0, held = 0;
    size_t livebytes = 0;
    const bool GUARD = VH_CFG_BIG_ZONE_GUARD, PROT = VH_CFG_PROTECT_FREE_BIG_ZONES, PERM = VH_CFG_PERM_FREE_REALLOC;
    auto drain_unmaps = [&] { /* what the allocator gave back */
        for(int k = 0; k < nunmap; k++) {
            uintptr_t a = unmaps_[k].a, e = a + unmaps_[k].n;
            auto it = B.upper_bound(a);
            if(it != B.begin()) --it;
            while(it != B.end() && it->first < e) {
                uintptr_t s = it->first, t = s + it->second.size;
                if(t > a && s < e && it->second.state != GONE) {
                    Big &b = it->second;
                    if(b.state == LIVE || b.state == QUAR) vio("unmapped-live", "%s large block %p of %zu bytes was unmapped", b.state == LIVE ? "live" : "quarantined", (void *) s, b.size);
                    if(b.state == DEAD) vio("unmapped-dead", "permanently freed large block %p was given back", (void *) s);
                    if(a > s || e < t) vio("partial", "large block %p of %zu bytes was only partly returned to the system (%lx-%lx)", (void *) s, b.size, a, e);
                    if(b.state == FREE) held--;
                    b.state = GONE;
                    tally("returned");
                }
                ++it;
            }
        }
        nunmap = 0;
        for(auto it = B.begin(); it != B.end();) if(it->second.state == GONE) it = B.erase(it); else ++it;
    };
    auto now_free = [&](uintptr_t p) { /* released for real: held for reuse, unless it was unmapped in the call */
        auto it = B.find(p);
        it->second.state = FREE;
        held++;
    };
    auto settle = [&](const char *after) {
        drain_unmaps();
        if(held > 64) vio("hoard", "%d freed large blocks are kept for reuse after %s", held, after);
        tally_max("max_held", held);
    };
    auto flush = [&] {
        for(auto &k : B) if(k.second.state == QUAR) now_free(k.first);
        quar = 0;
        iso_flush_caches();
        settle("a flush");
    };
    auto pats = [&](uintptr_t p, Big &b) { /* marks over the first and last pages and in between */
        for(size_t o = 0; o + 8 <= b.n; o += o < 4096 || o + 4096 > b.n ? 64 : 4096 - 8) { uint64_t v = MARK ^ b.pat ^ o; memcpy((char *) p + o, &v, 8); }
        ((uint8_t *) p)[b.n - 1] = (uint8_t) b.pat;
    };
    auto chk = [&](uintptr_t p, Big &b, const char *when) {
        for(size_t o = 0; o + 8 <= b.n; o += o < 4096 || o + 4096 > b.n ? 64 : 4096 - 8) {
            uint64_t v;
            memcpy(&v, (char *) p + o, 8);
            if(v != (MARK ^ b.pat ^ o) && o + 8 < b.n) { vio("content", "live large block %p of %zu changed at %zu %s", (void *) p, b.n, o, when); return; }
        }
        if(((uint8_t *) p)[b.n - 1] != (uint8_t) b.pat) vio("content", "live large block %p of %zu: last byte changed %s", (void *) p, b.n, when);
    };
    auto guards = [&](uintptr_t p, size_t size) {
        std::vector<Map> m = maps();
        const Map *x = find_map(m, p - 1), *y = find_map(m, p + size);
        if(!x || !x->none() || !y || !y->none()) vio("guard", "large block %p of %zu: page below is %s, page above is %s", (void *) p, size, x ? x->perm : "unmapped", y ? y->perm : "unmapped");
        tally("guard_checks");
    };
    auto request = [&](size_t n, int via, void *old, Big *ob) -> uintptr_t {
        nmap = 0;
        uintptr_t p;
        size_t want = rp((n + 31) & ~31ull);
        switch(via) {
        case 1: p = (uintptr_t) iso_calloc(1, n); break;
        case 2: p = (uintptr_t) iso_realloc(old, n); break;
        default: p = (uintptr_t) iso_alloc(n);
        }
        drain_unmaps();
        if(!p) { vio("unserved", "request of %zu gave NULL", n); return 0; }
        const char *W = via == 1 ? "calloc" : via == 2 ? "realloc" : "alloc";
        auto it = B.find(p);
        bool fresh = false;
        Ev in = {0, 0};
        for(int k = 0; k < nmap; k++) if(p >= maps_[k].a && p < maps_[k].a + maps_[k].n) { fresh = true; in = maps_[k]; }
        if(fresh) {
            if(it != B.end()) vio("model", "fresh mapping over a known block");
            if(p % 4096) vio("own", "%s(%zu): %p is not the start of a page", W, n, (void *) p);
            if(p + want > in.a + in.n) vio("own", "%s(%zu): mapping %lx-%lx is too small for block %p", W, n, in.a, in.a + in.n, (void *) p);
            size_t size = iso_chunksz((void *) p);
            if(size < n || p + size > in.a + in.n) vio("own", "%s(%zu): block %p reports size %zu in mapping %lx-%lx", W, n, (void *) p, size, in.a, in.a + in.n);
            /* the same size would have been at hand */
            for(auto &k : B) if(k.second.state == FREE && k.second.size == want) { vio("not-reused", "%s(%zu) mapped a new block although freed block %p has exactly the size %zu", W, n, (void *) k.first, k.second.size); break; }
            for(auto &k : B) if(k.first < p + size && p < k.first + k.second.size) vio("overlap", "%s(%zu): new block %p overlaps block %p", W, n, (void *) p, (void *) k.first);
            B[p] = {size, LIVE, 1, r.next() & ~0xffull | 0x5a, n};
            if(GUARD) guards(p, size);
            tally("fresh");
        } else if(it != B.end() && it->second.state == FREE) {
            Big &b = it->second;
            if(b.size < want || b.size - want > 16384) vio("unfit", "%s(%zu) was given freed block %p of %zu bytes", W, n, (void *) p, b.size);
            if(++b.lives > 18) vio("ttl", "large block %p is used for the %dth time", (void *) p, b.lives);
            tally_max("max_lives", b.lives);
            if(iso_chunksz((void *) p) < n) vio("unfit", "reused block reports %zu for a request of %zu", iso_chunksz((void *) p), n);
            size_t old_n = b.n;
            if(via != 2 && VH_CFG_SANITIZE_CHUNKS) { /* other builds leave discarding to the kernel's discretion */
                for(size_t o = 0; o + 8 <= b.size; o += 64) { uint64_t v; memcpy(&v, (char *) p + o, 8); if(v == (MARK ^ b.pat ^ o)) { vio("exposed", "%s(%zu): reused large block %p shows its previous contents at %zu", W, n, (void *) p, o); break; } }
            }
            (void) old_n;
            b.state = LIVE;
            b.pat = r.next() & ~0xffull | 0xa5;
            b.n = n;
            held--;
            if(GUARD) guards(p, b.size);
            tally("reused");
        } else {
            vio("stray", "%s(%zu) returned %p, which is neither a new mapping nor a freed large block (%s)", W, n, (void *) p, it == B.end() ? "unknown" : it->second.state == LIVE ? "live" : it->second.state == QUAR ? "in quarantine" : "permanently freed");
            return 0;
        }
        if(via == 1) for(size_t o = 0; o < n; o += o < 8192 ? 1 : 509) if(((uint8_t *) p)[o]) { vio("not-zero", "calloc(%zu) is not zero at %zu", n, o); break; }
        if(via == 2 && ob)
            for(size_t o = 0; o + 8 <= std::min(ob->n, n); o += o < 4096 || o + 4096 > ob->n ? 64 : 4096 - 8) { uint64_t v; memcpy(&v, (char *) p + o, 8); if(v != (MARK ^ ob->pat ^ o) && o + 8 < ob->n) { vio("realloc-content", "realloc %zu -> %zu lost byte %zu", ob->n, n, o); break; } }
        Big &b = B[p];
        pats(p, b);
        live++;
        livebytes += b.size;
        eval(mix(mix(szclass(n), fresh), mix(via, std::min(held, 40) * 32 + std::min(b.lives, 31))));
        return p;
    };
    auto pick = [&](int st) -> uintptr_t {
        std::vector<uintptr_t> v;
        for(auto &k : B) if(k.second.state == st) v.push_back(k.first);
        return v.empty() ? 0 : v[r.below(v.size())];
    };
    auto release = [&](uintptr_t p, int how) {
        Big &b = B[p];
        chk(p, b, "before its release");
        live--;
        livebytes -= b.size;
        phase("release %d of large block %p of %zu, seed %llu", how, (void *) p, b.n, (unsigned long long) g_seed);
        if(how == 0) {
            bool full = quar >= 64; /* the quarantine is emptied first */
            if(full) { for(auto &k : B) if(k.second.state == QUAR) now_free(k.first); quar = 0; }
            b.state = QUAR;
            quar++;
            iso_free((void *) p);
            if(full) settle("a full quarantine");
        } else if(how == 1) {
            now_free(p);
            iso_free_size((void *) p, r.chance(1, 2) ? b.n : iso_chunksz((void *) p));
            settle("a sized free");
        } else {
            b.state = DEAD;
            iso_free_permanently((void *) p);
            if(!faults((uint8_t *) p, false) || !faults((uint8_t *) p + b.size - 1, true)) vio("dead-accessible", "permanently freed large block %p is accessible", (void *) p);
            tally("permanent");
        }
    };
    int perms = 40;
    for(long i = 0; i < ops && !S.viols; i++) {
        if(i % 400 == 0) {
            favs.clear();
            int nf = r.range(1, 6);
            for(int k = 0; k < nf; k++) { size_t s = r.chance(1, 3) ? r.range(65537, 90000) : r.chance(1, 2) ? r.range(65537, 1 << 20) : 4096 * r.range(17, 200) + r.below(40) - 20; favs.push_back(s); }
        }
        size_t n = r.chance(3, 4) ? favs[r.below(favs.size())] : r.chance(1, 2) ? favs[r.below(favs.size())] + r.below(20000) : r.range(65537, 600000);
        if(r.chance(1, 60)) n = (2u << 20) * r.range(1, 2) + r.below(3) - 1;
        if(n < 65537) n = 65537;
        int lim = 1 + (i / 300) % 5 * 40; /* phases with few and with many live blocks */
        phase("operation %ld, request %zu, %d live %d quarantined %d held, seed %llu", i, n, live, quar, held, (unsigned long long) g_seed);
        int x = r.below(100);
        if(live < lim && x < 50) request(n, r.below(8) == 0, NULL, NULL);
        else if(x < 58 && live) { /* reallocation to and from large blocks */
            uintptr_t p = pick(LIVE);
            Big ob = B[p];
            chk(p, ob, "before realloc");
            live--;
            livebytes -= ob.size;
            phase("realloc of large block %p from %zu to %zu, seed %llu", (void *) p, ob.n, n, (unsigned long long) g_seed);
            /* the old block is released inside the call */
            if(PERM && perms-- <= 0) { live++; livebytes += ob.size; continue; }
            nunmap = 0;
            B[p].state = LIVE;
            Big saved = B[p];
            /* its unmapping in this call is legal: judge as being freed */
            B.erase(p);
            uintptr_t q = request(n, 2, (void *) p, &ob);
            bool gone = false;
            for(auto it = B.begin(); it != B.end(); ++it) (void) it;
            gone = !readable((void *) p) && find_map(maps(), p) == NULL;
            if(q == p) vio("realloc-same", "realloc returned the block itself");
            if(PERM) saved.state = DEAD, B[p] = saved;
            else if(!gone) { saved.state = FREE; B[p] = saved; held++; }
            settle("a realloc");
            tally("reallocs");
        } else if(live) {
            uintptr_t p = pick(LIVE);
            int how = x < 80 ? 1 : 0;
            if(perms > 0 && r.chance(1, 150)) { how = 2; perms--; }
            release(p, how);
        }
        if(quar >= 40 || r.chance(1, 25)) flush();
        if(PROT && i % 5 == 0) { uintptr_t f = pick(FREE); if(f) { if(!faults((uint8_t *) f + r.below(B[f].size), r.chance(1, 2))) vio("free-accessible", "large block %p on the free list is accessible", (void *) f); tally("protected"); } }
        if(i % 50 == 0) { uintptr_t d = pick(DEAD); if(d && !faults((uint8_t *) d, false)) vio("dead-accessible", "permanently freed large block became accessible"); }
        if(i % 10 == 0) { flush(); h.run(3); drain_unmaps(); nmap = 0; flush(); }
        if(i % 200 == 0) { for(auto &k : B) if(k.second.state == LIVE) chk(k.first, k.second, "periodic scan"); iso_verify_zones(); }
        if(i % 900 == 899) { /* everything free: what is kept is bounded, then all live again */
            while(uintptr_t p = pick(LIVE)) release(p, r.below(2));
            flush();
            size_t kept = 0;
            for(auto &k : B) kept += k.second.state == FREE;
            if((int) kept != held) vio("model", "counted %zu held %d", kept, held);
            tally("all_free");
        }
    }
    sample("%ld operations: %lld new mappings, %lld reuses, up to %lld held, up to %lld lives", ops, (long long) S.stats["fresh"], (long long) S.stats["reused"], (long long) S.stats["max_held"], (long long) S.stats["max_lives"]);
    finish();
}
