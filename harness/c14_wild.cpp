/* Freeing addresses that are no live block start, in forked children. The child must
 * abort by the next flush, and what was live must still be intact when it does. */
#include "heap.h"
#include <malloc.h>
using namespace vh;
static Shadow *LIVE;
static uintptr_t skip_lo, skip_hi;
static void on_abort(int) {
    int bad = 0;
    for(auto &k : LIVE->live)
        if(differs((void *) k.first, k.second.size, k.second.pat) >= 0) bad++;
    _exit(bad ? 43 : 42);
}
static int global_obj[64];
static const char ro_obj[64] = "read only";
enum { UNALIGNED, INTERIOR, INTERIOR32, LASTBYTES, TAIL, NEVER, STACK, GLOBAL, RODATA, TEXT, FOREIGN, LIBC, SMALLINT, KERNEL, NONCANON, HANDLE, META, GUARD, BIGIN, BIGPAGE, BIGBELOW, BIGABOVE, OTHERZONE, INTERNALINZONE, PRIVDESTROYED, RETUNMAPPED, RANDOM, CAT_N };
static const char *cn[] = {"unaligned address", "address 16 bytes into a block", "address 32*k into a block", "last bytes of a block", "tail of a zone behind its last block", "block never allocated", "stack", "global", "read-only data", "code", "foreign mapping", "system allocator block", "small integer",
                           "kernel address", "non-canonical address", "zone handle", "other allocator mapping", "guard page", "interior of a large block", "page inside a large block", "page below a large block", "end of a large block",
                           "block of another private zone than named", "general block named as of a private zone", "block of a destroyed zone", "freed and unmapped large block", "random address"};
static const char *fk[] = {"free", "sized free", "permanent free", "zone free", "permanent zone free"};
int main(int argc, char **argv) {
    init(argc, argv);
    Rng r(g_seed);
    Heap h(g_seed ^ 23);
    h.strong = VH_CFG_STRONG_SIZE_ISOLATION;
    h.max_live = 4u << 20;
    h.max_blocks = 1500;
    h.w[O_BURST] = h.w[O_CHURN] = h.w[O_DRAIN] = h.w[O_NEW_ZONE] = 0;
    std::vector<Map> before = maps();
    h.run(800);
    long rounds = argi(argc, argv, "--rounds", 400);
    void *foreign = mmap(NULL, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    for(long i = 0; i < rounds && !S.viols; i++) {
        if(i % 20 == 0) h.run(60);
        int cat = r.below(CAT_N);
        int how = r.below(3);
        if(cat == OTHERZONE || cat == INTERNALINZONE) how = 3 + r.below(2);
        size_t zsz = 32 * r.range(1, r.chance(1, 2) ? 20 : 600), bsz = r.range(70000, 1 << 20);
        uint64_t cs = r.next();
        phase("%s of %s, block size %zu/%zu, round %ld seed %llu", fk[how], cn[cat], zsz, bsz, i, (unsigned long long) g_seed);
        Res c = child([&] {
            Rng q(cs);
            std::vector<char *> zb, zb2;
            void *z = iso_alloc_new_zone(zsz), *z2 = iso_alloc_new_zone(q.chance(1, 2) ? zsz : 32 * q.range(1, 300));
            unsigned n = q.range(5, 60);
            auto add = [&](char *x, size_t s) { if(x) h.sh.add("setup", x, s); };
            for(unsigned k = 0; k < n; k++) { char *x = (char *) iso_alloc_from_zone(z); if(x) { add(x, zsz); zb.push_back(x); } x = (char *) iso_alloc_from_zone(z2); if(x) { add(x, 32); zb2.push_back(x); } }
            char *big = (char *) iso_alloc(bsz);
            add(big, bsz);
            size_t bs = iso_chunksz(big);
            char *p = NULL, *lb = zb[q.below(zb.size())];
            size_t fs = zsz, chunk = iso_chunksz(lb);
            bool rnd_block = q.chance(1, 2);
            if(rnd_block) { uintptr_t u = h.sh.pick(q); if(u && h.sh.live[u].size <= 65536) { lb = (char *) u; chunk = iso_chunksz(lb); fs = h.sh.live[u].size; } }
            void *fz = z;
            auto mapof = [&](const void *a) { static std::vector<Map> m; m = maps(); return find_map(m, (uintptr_t) a); };
            switch(cat) {
            case UNALIGNED: p = lb + 1 + q.below(15); break;
            case INTERIOR: if(chunk < 32) _exit(5); p = lb + 16; break;
            case INTERIOR32: if(chunk < 64) _exit(5); p = lb + 16 * (1 + q.below(chunk / 16 - 1)); break;
            case LASTBYTES: p = lb + chunk - 16; if(p == lb) _exit(5); break;
            case TAIL: { /* user pages of a zone are 4 MB; what does not fit a block lies at the end */
                size_t zc = iso_chunksz(zb[0]);
                const Map *m = mapof(zb[0]);
                if(!m) _exit(5);
                /* drive the zone to exhaustion to learn its last block */
                char *last = zb[0], *x, *lo = zb[0];
                while((x = (char *) iso_alloc_from_zone(z))) { last = std::max(last, x); lo = std::min(lo, x); }
                for(char *y : zb) { last = std::max(last, y); lo = std::min(lo, y); }
                /* canaries may sit at either end: step back and forth to be sure of the tail */
                p = last + zc;
                while(p + zc <= (char *) m->end) p += zc;
                if(p >= (char *) m->end || m->end - m->start > (8u << 20)) _exit(5);
                p += 16 * q.below(((char *) m->end - p) / 16 + 0);
                break;
            }
            case NEVER: { /* a block start of the zone that was never handed out */
                size_t zc = iso_chunksz(zb[0]);
                const Map *m = mapof(zb[0]);
                if(!m) _exit(5);
                std::unordered_set<uintptr_t> used;
                for(char *y : zb) used.insert((uintptr_t) y);
                int t = 0;
                do {
                    long d = (long) q.range(1, (4u << 20) / zc) - (long) ((4u << 20) / zc / 2);
                    p = zb[0] + d * (long) zc;
                } while((p < (char *) m->start || p + zc > (char *) m->end || used.count((uintptr_t) p)) && ++t < 1000);
                if(t >= 1000) _exit(5);
                fs = 1;
                break;
            }
            case STACK: { static thread_local int tl; int loc[64]; p = q.chance(1, 8) ? (char *) &tl : (char *) loc; p = (char *) (((uintptr_t) p + 15) & ~15ull); break; }
            case GLOBAL: p = (char *) (((uintptr_t) global_obj + 15) & ~15ull); break;
            case RODATA: p = (char *) (((uintptr_t) ro_obj + 15) & ~15ull); break;
            case TEXT: p = (char *) ((uintptr_t) &iso_alloc & ~15ull); break;
            case FOREIGN: p = (char *) foreign + 16 * q.below(65536); break;
            case LIBC: p = (char *) malloc(q.range(1, 300000)); break;
            case SMALLINT: p = (char *) (16 * q.range(1, 300)); break;
            case KERNEL: p = (char *) (0xffff800000000000ull + 16 * q.below(1u << 30)); break;
            case NONCANON: p = (char *) (0x0000800000000000ull + 16 * q.below(1u << 30)); break;
            case HANDLE: p = (char *) ((uintptr_t) z & ~15ull); break;
            case META: case GUARD: { /* an anonymous mapping that appeared with the allocator and holds no user block */
                std::vector<Map> m = maps();
                std::vector<Map> v;
                for(auto &x : m) {
                    if(!x.anon || (cat == GUARD ? !x.none() : !x.w())) continue;
                    bool old = false, user = false;
                    for(auto &y : before) if(x.start < y.end && y.start < x.end) old = true;
                    auto it = h.sh.live.lower_bound(x.start);
                    if(it != h.sh.live.end() && it->first < x.end) user = true;
                    /* blocks live in mappings of zone size or in large blocks */
                    if(!old && !user && x.end - x.start <= (2u << 20)) v.push_back(x);
                }
                if(v.empty()) _exit(5);
                Map x = v[q.below(v.size())];
                p = (char *) x.start + 16 * q.below((x.end - x.start) / 16);
                if(q.chance(1, 3)) p = (char *) x.start;
                break;
            }
            case BIGIN: p = big + 16 * q.range(1, bs / 16 - 1); fs = bsz; break;
            case BIGPAGE: p = big + 4096 * q.range(1, bs / 4096 - 1); fs = bsz; break;
            case BIGBELOW: p = big - 4096; fs = bsz; break;
            case BIGABOVE: p = big + bs; fs = bsz; if(h.sh.has((uintptr_t) p)) _exit(5); break;
            case OTHERZONE: if(zb2.empty()) _exit(5); p = zb2[q.below(zb2.size())]; fz = z; break;
            case INTERNALINZONE: p = (char *) iso_alloc(q.chance(1, 2) ? zsz : 100); add(p, 32); fz = z; if(q.chance(1, 4)) p = big; break;
            case PRIVDESTROYED: { p = zb2[0]; fs = 32; for(char *y : zb2) h.sh.del((uintptr_t) y); iso_alloc_destroy_zone(z2); /* the address may be mapped again by now */ break; }
            case RETUNMAPPED: { /* more large blocks than the free list keeps */
                std::vector<char *> v;
                for(int k = 0; k < 90; k++) v.push_back((char *) iso_alloc(66000 + 4096 * k));
                for(char *y : v) iso_free_size(y, 66000);
                p = v[q.below(v.size())];
                fs = 66000;
                break;
            }
            default: p = (char *) (q.next() >> 17 & ~15ull); { auto it = h.sh.live.find((uintptr_t) p); if(it != h.sh.live.end()) _exit(5); }
            }
            if(h.sh.has((uintptr_t) p) && how < 3) _exit(5);
            signal(SIGABRT, on_abort);
            LIVE = &h.sh;
            switch(how) {
            case 0: iso_free(p); break;
            case 1: iso_free_size(p, fs); break;
            case 2: iso_free_permanently(p); break;
            case 3: iso_free_from_zone(p, fz); break;
            default: iso_free_from_zone_permanently(p, fz);
            }
            iso_flush_caches();
            for(auto &k : h.sh.live) if(differs((void *) k.first, k.second.size, k.second.pat) >= 0) _exit(44);
            _exit(9);
        });
        if(c.code == 5) { tally("void"); continue; }
        eval(mix(mix(cat, how), mix(zsz, i % 7)));
        tally("wild_frees");
        if(c.code == 42) { tally("detected"); if(S.samples < 3) sample("%s of %s: %s", fk[how], cn[cat], c.out.substr(0, 150).c_str()); continue; }
        if(c.code == 9 || c.code == 44) vio("undetected", "%s of %s (zone block size %zu) went unnoticed through the next flush%s", fk[how], cn[cat], zsz, c.code == 44 ? " and changed live memory" : "");
        else if(c.code == 43) vio("damaged", "%s of %s aborted but had already changed live blocks", fk[how], cn[cat]);
        else vio("other", "%s of %s: %s", fk[how], cn[cat], c.str().c_str());
    }
    h.end();
    finish();
}
