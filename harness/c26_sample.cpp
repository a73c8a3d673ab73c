/* Allocation sampling: fences, damage detection, use after free, transparency. */
#include "heap.h"
#include "sys.h"
using namespace vh;
static uintptr_t g_lo, g_hi;
static int g_n;
static void mapped(uintptr_t a, size_t n) { g_lo = a; g_hi = a + n; g_n++; }
static volatile uint8_t sink;
int main(int argc, char **argv) {
    init(argc, argv);
    sysi::on_map = mapped;
    Rng r(g_seed);
    Heap h(g_seed ^ 79);
    h.sampled = true;
    h.max_live = 6u << 20;
    h.strong = VH_CFG_STRONG_SIZE_ISOLATION;
    h.run(2000);
    long want = argi(argc, argv, "--samples", 80), probes = argi(argc, argv, "--probes", 60);
    long seen = 0, left = 0, right = 0, calls = 0, ncalls = 0;
    struct L { uint8_t *p; size_t n; uint64_t pat; };
    std::vector<L> live;
    std::map<uintptr_t, size_t> pages;
    auto route = [&](uint8_t *p, size_t n, int how) {
        switch(how) {
        case 0: iso_free(p); break;
        case 1: iso_free_size(p, n); break;
        case 2: iso_free_permanently(p); break;
        case 3: iso_free_size(p, iso_chunksz(p)); break;
        default: { void *q = iso_realloc(p, r.range(1, 200)); if(q) iso_free(q); }
        }
    };
    while(seen < want && calls < want * 60000 && !S.viols) {
        size_t n = r.chance(1, 2) ? r.range(1, 4090) : r.chance(1, 2) ? 32 * r.range(1, 127) : r.range(1, 128);
        g_n = 0;
        calls++;
        int via = r.below(6);
        uint8_t *p;
        switch(via) {
        case 0: p = (uint8_t *) iso_calloc(1, n); break;
        case 1: p = (uint8_t *) iso_realloc(NULL, n); break;
        case 2: { static char s[4200]; if(!s[0]) memset(s, 'x', sizeof s - 1); p = (uint8_t *) iso_strndup(s, n - 1); break; }
        default: p = (uint8_t *) iso_alloc(n);
        }
        if(!p) { vio("unserved", "request of %zu bytes gave NULL", n); break; }
        bool sampled = g_n == 1 && (uintptr_t) p >= g_lo && (uintptr_t) p < g_hi && g_hi - g_lo <= 65536;
        if(!sampled) { /* ordinary */
            p[0] = 1;
            p[n - 1] = 1;
            if(calls % 64 == 0) iso_free(p); else iso_free_size(p, n);
            continue;
        }
        seen++;
        uintptr_t a = (uintptr_t) p, page = a & ~0xfffull;
        phase("sampled block %p of %zu bytes (via %d), number %ld, seed %llu", p, n, via, seen, (unsigned long long) g_seed);
        if(a % 16) vio("misaligned", "sampled block %p of %zu is not 16 byte aligned", p, n);
        if(a + n > page + 4096) vio("fence", "sampled block %p of %zu bytes leaves its page", p, n);
        bool atend = page + 4096 - (a + n) < 32 && a != page, atstart = a == page;
        if(!atend && !atstart) vio("placement", "sampled block %p of %zu bytes is neither at the start nor at the end of its page", p, n);
        (atstart ? left : right)++;
        std::vector<Map> m = maps();
        const Map *mp = find_map(m, a), *below = find_map(m, page - 1), *above = find_map(m, page + 4096);
        if(!mp || !mp->w() || mp->start != page || mp->end != page + 4096) vio("fence", "sampled block %p is not alone on one accessible page (mapping %lx-%lx %s)", p, mp ? mp->start : 0, mp ? mp->end : 0, mp ? mp->perm : "");
        if(!below || !below->none() || !above || !above->none()) vio("fence", "sampled block %p: page below is %s, page above is %s", p, below ? below->perm : "unmapped", above ? above->perm : "unmapped");
        if(via == 0) for(size_t k = 0; k < n; k++) if(p[k]) { vio("not-zero", "sampled zeroed block differs from zero at %zu", k); break; }
        if(via == 2) for(size_t k = 0; k < n; k++) if(p[k] != (k == n - 1 ? 0 : 'x')) { vio("copy", "sampled string copy is wrong at %zu", k); break; }
        size_t c = iso_chunksz(p);
        if(c < n || a + c > page + 4096) vio("size", "size query says %zu for a sampled block of %zu at page offset %zu", c, n, a - page);
        if(iso_chunksz(p) != c) vio("size", "size query unstable");
        for(auto &o : live) if(((uintptr_t) o.p & ~0xfffull) == page) vio("overlap", "two live sampled blocks on page %lx", page);
        uint64_t pat = r.next();
        if(r.chance(1, 2)) n = c;
        fill(p, n, pat);
        tally(atstart ? "left" : "right");
        eval(mix(mix(szclass(n), atstart), via));
        if(probes > 0) {
            probes--;
            /* linear overflow and underflow */
            Res x = child([&] { for(uint8_t *q = p; ; q++) *q = 1; });
            if(x.sig != SIGSEGV) vio("fence", "running up from a sampled block did not fault: %s", x.str().c_str());
            x = child([&] { for(uint8_t *q = p; ; q--) *q = 1; });
            if(x.sig != SIGSEGV) vio("fence", "running down from a sampled block did not fault: %s", x.str().c_str());
            if(atend && r.chance(1, 2) && faults(p + 4096 - (a - page), true) == false) vio("fence", "first byte after the page of an end-placed block is writable");
            /* damage to unused bytes of the page */
            if(c < 4096) {
                uint8_t *lo = atstart ? p + c : (uint8_t *) page, *hi = atstart ? (uint8_t *) page + 4096 : p;
                for(int k = 0; k < 3; k++) {
                    uint8_t *q = k == 0 ? (atstart ? lo : hi - 1) : k == 1 ? (atstart ? hi - 1 : lo) : lo + r.below(hi - lo);
                    uint8_t was = *q;
                    int how = r.below(5);
                    x = child([&] { *q = was ^ (uint8_t) r.range(1, 255); route(p, n, how); iso_flush_caches(); });
                    if(!x.aborted()) vio("undetected", "sampled block of %zu at %s of its page: unused byte at page offset %zu changed, release %d went through (%s)", n, atstart ? "start" : "end", (size_t) ((uintptr_t) q - page), how, x.str().c_str());
                    tally("damage");
                }
            }
            int how = r.below(5), how2 = r.below(4);
            x = child([&] { route(p, n, how); sink = p[r.below(n)]; });
            if(x.sig != SIGSEGV) vio("use-after-free", "load from a released sampled block: %s", x.str().c_str());
            x = child([&] { route(p, n, how); p[r.below(n)] = 1; });
            if(x.sig != SIGSEGV) vio("use-after-free", "store to a released sampled block: %s", x.str().c_str());
            x = child([&] { route(p, n, how); route(p, n, how2 == 3 ? 0 : how2); iso_flush_caches(); });
            if(!x.aborted() && x.sig != SIGSEGV) vio("double-free", "sampled block released twice (%d, %d): %s", how, how2, x.str().c_str());
            if(c > 16) {
                size_t off = 16 * r.range(1, (c - 1) / 16);
                x = child([&] { if(how & 1) iso_free(p + off); else iso_free_size(p + off, 1); iso_flush_caches(); });
                if(!x.aborted()) vio("interior", "free of sampled block %p + %zu went through: %s", p, off, x.str().c_str());
            }
            size_t over = c + (r.chance(1, 2) ? 1 : r.range(1, 60000));
            x = child([&] { iso_free_size(p, over); });
            if(!x.aborted()) vio("oversize", "sized free of a sampled block of %zu with size %zu went through: %s", c, over, x.str().c_str());
            tally("probed");
        }
        live.push_back({p, n, pat});
        while(live.size() > 25 || (!live.empty() && r.chance(1, 3))) { /* clean release, content kept */
            size_t k = r.below(live.size());
            L o = live[k];
            live[k] = live.back();
            live.pop_back();
            phase("clean release of sampled block %p of %zu", o.p, o.n);
            ssize_t d = differs(o.p, o.n, o.pat);
            if(d >= 0) vio("content", "sampled block of %zu changed at %zd", o.n, d);
            int how = r.below(5);
            if(how == 4) {
                size_t nn = r.range(1, 6000);
                uint8_t *q = (uint8_t *) iso_realloc(o.p, nn);
                if(!q) vio("unserved", "realloc to %zu gave NULL", nn);
                else { d = differs(q, std::min(nn, o.n), o.pat, o.n); if(d >= 0) vio("realloc-content", "realloc of a sampled block lost byte %zd", d); iso_free_size(q, nn); }
            } else
                route(o.p, o.n, how);
            if(!faults(o.p, false)) { bool again = false; for(auto &l : live) again |= l.p == o.p; if(!again) vio("use-after-free", "page of a released sampled block is accessible"); }
            tally("clean_releases");
        }
    }
    /* natural sampling: a fraction, of both placements */
    tally("calls", calls);
    tally("sampled", seen);
    if(seen < want && calls > 2000000 && seen < calls / 40000) vio("fraction", "only %ld of %ld small allocations were sampled", seen, calls);
    if(calls > 20000 && seen > calls / 2500 + 30) vio("fraction", "%ld of %ld small allocations were sampled", seen, calls);
    if(seen >= 60 && (left < seen / 8 || right < seen / 8)) vio("fraction", "%ld sampled blocks at the start of their page, %ld at its end", left, right);
    for(auto &o : live) iso_free_size(o.p, o.n);
    h.run(3000);
    /* threads: sampled and ordinary blocks keep their contents */
    std::vector<pthread_t> th(6);
    struct A { uint64_t seed; long bad, ops; char why[160]; };
    std::vector<A> as(th.size());
    sysi::on_map = NULL;
    phase("threads with sampling");
    for(size_t k = 0; k < th.size(); k++) {
        as[k] = {r.next(), 0, 0, ""};
        pthread_create(&th[k], NULL, [](void *ap) -> void * {
            A *a = (A *) ap;
            Rng r(a->seed);
            std::vector<L> v;
            for(int s = 0; s < 60000 && !a->bad; s++) {
                a->ops++;
                if(v.size() < 30) {
                    size_t n = r.range(1, 300);
                    uint8_t *p = (uint8_t *) iso_alloc(n);
                    if(!p) { a->bad++; strcpy(a->why, "NULL"); break; }
                    fill(p, n, a->seed + s);
                    v.push_back({p, n, a->seed + s});
                } else {
                    size_t k = r.below(v.size());
                    if(differs(v[k].p, v[k].n, v[k].pat) >= 0 || iso_chunksz(v[k].p) < v[k].n) { a->bad++; snprintf(a->why, sizeof a->why, "block %p of %zu changed", v[k].p, v[k].n); break; }
                    if(s & 1) iso_free(v[k].p); else iso_free_size(v[k].p, v[k].n);
                    v[k] = v.back();
                    v.pop_back();
                }
            }
            for(auto &l : v) iso_free(l.p);
            return NULL;
        }, &as[k]);
    }
    for(size_t k = 0; k < th.size(); k++) {
        pthread_join(th[k], NULL);
        tally("thread_ops", as[k].ops);
        if(as[k].bad) vio("threads", "concurrent use: %s", as[k].why);
    }
    sample("%ld of %ld small allocations sampled, %ld at page start, %ld at page end", seen, calls, left, right);
    h.end();
    finish();
}
