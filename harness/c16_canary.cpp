/* Corruption of freed blocks: every byte of the first and last word but the fixed zero
 * byte, at all four documented detection points, in private and general zones. */
#include "heap.h"
using namespace vh;
static const char *pn[] = {"reissue", "free of the block above", "free of the block below", "verification of the zone", "verification of all zones", "process exit"};
int main(int argc, char **argv) {
    init(argc, argv);
    Rng r(g_seed);
    Heap h(g_seed ^ 31);
    h.strong = VH_CFG_STRONG_SIZE_ISOLATION;
    h.max_live = 4u << 20;
    h.w[O_BURST] = h.w[O_CHURN] = h.w[O_DRAIN] = h.w[O_NEW_ZONE] = 0;
    h.run(300);
    long rounds = argi(argc, argv, "--rounds", 300);
    for(long i = 0; i < rounds && !S.viols; i++) {
        bool priv = r.chance(1, 2);
        size_t n;
        switch(r.below(4)) {
        case 0: n = 32 * r.range(1, 40); break;
        case 1: n = r.range(1, 3000); break;
        case 2: n = r.range(4000, 65536); break;
        default: n = (size_t) 32 << r.below(11);
        }
        int point = r.below(6);
        if(!priv && point == 3) point = 4;
        if(!priv && point == 0 && n < 2000) n += 2000;
        if(priv && point == 0 && n < 200) n += 500;
        int fk = r.below(4); /* release route */
        bool last = r.chance(1, 2);
        int byte = r.range(1, 7);
        uint8_t flip = r.chance(1, 2) ? 1 << r.below(8) : r.range(1, 255);
        uint64_t cs = r.next();
        bool corrupt = !r.chance(1, 8);
        if(fk == 2 && point == 0) fk = 0; /* permanently freed blocks are not reissued */
        phase("%s block of %zu, route %d, byte %d of the %s word, point: %s, round %ld seed %llu", priv ? "private" : "general", n, fk, byte, last ? "last" : "first", pn[point], i, (unsigned long long) g_seed);
        Res c = child([&] {
            Rng q(cs);
            void *z = priv ? iso_alloc_new_zone(n) : NULL;
            auto get = [&]() { return (char *) (z ? iso_alloc_from_zone(z) : iso_alloc(n)); };
            std::vector<char *> v;
            size_t want = std::min<size_t>(q.range(40, 400), std::max<size_t>(20, (2u << 20) / n));
            int shape = q.below(8); /* 0: a single block ever, 1: all of the zone, 2, 3: idle at the end */
            if(shape == 0 && point >= 3) want = 1;
            if(shape == 1 && z) want = iso_zone_chunk_count(z);
            for(size_t k = 0; k < want; k++) { char *p = get(); if(!p) break; memset(p, q.below(256), n); v.push_back(p); }
            size_t chunk = iso_chunksz(v[0]);
            /* pick a victim; with neighbours if the point needs them */
            std::map<char *, size_t> idx;
            for(size_t k = 0; k < v.size(); k++) if(iso_chunksz(v[k]) == chunk) idx[v[k]] = k;
            char *t = NULL, *nb = NULL;
            for(int tr = 0; tr < 3000 && !t; tr++) {
                char *x = v[q.below(v.size())];
                if(!idx.count(x)) continue;
                if(point == 1 || point == 2) {
                    nb = point == 1 ? x + chunk : x - chunk;
                    if(!idx.count(nb)) continue;
                }
                t = x;
            }
            if(!t) _exit(5);
            /* some other blocks come and go */
            for(size_t k = 0; k < v.size() / 4; k++) { char *x = v[q.below(v.size())]; if(x != t && x != nb && x && idx.count(x)) { idx.erase(x); iso_free_size(x, n); for(auto &y : v) if(y == x) y = NULL; if(q.chance(1, 2)) break; } }
            switch(fk) {
            case 0: iso_free(t); iso_flush_caches(); break;
            case 1: iso_free_size(t, n); break;
            case 2: iso_free_permanently(t); break;
            default: if(z) iso_free_from_zone(t, z); else { iso_free(t); iso_flush_caches(); }
            }
            uint64_t w1, w2;
            memcpy(&w1, t, 8);
            memcpy(&w2, t + chunk - 8, 8);
            if((w1 & 0xff) || (w2 & 0xff)) { printf("guard values %llx %llx do not begin with a zero byte", (unsigned long long) w1, (unsigned long long) w2); fflush(stdout); _exit(7); }
            if(!(w1 >> 8) || !(w2 >> 8)) { printf("guard value is zero"); fflush(stdout); _exit(7); }
            /* another block of the zone carries another value */
            for(char *x : v) if(x && x != t && x != nb && idx.count(x) && ((uintptr_t) x >> 8) != ((uintptr_t) t >> 8) && fk != 2) {
                uint64_t a;
                iso_free_size(x, n);
                idx.erase(x);
                memcpy(&a, x, 8);
                if(a == w1) { printf("blocks %p and %p carry the same guard value", x, t); fflush(stdout); _exit(7); }
                break;
            }
            if(shape == 2 || shape == 3) for(char *x : v) if(x && x != t && x != nb && idx.count(x)) { if(z && shape == 3) iso_free_from_zone(x, z); else iso_free_size(x, n); idx.erase(x); }
            if(corrupt) t[last ? chunk - 8 + byte : byte] ^= flip;
            switch(point) {
            case 0: { /* allocate until it comes back */
                for(int k = 0; k < 400000; k++) { char *p = get(); if(!p) break; if(p == t) _exit(corrupt ? 9 : 0); if(!z && k > 5000) { if(k > (4u << 20) / chunk + 10) _exit(5); } }
                _exit(corrupt ? (z ? 9 : 5) : 0);
            }
            case 1: case 2:
                switch(q.below(z ? 3 : 2)) {
                case 0: iso_free(nb); iso_flush_caches(); break;
                case 1: iso_free_size(nb, n); break;
                default: iso_free_from_zone(nb, z);
                }
                _exit(corrupt ? 9 : 0);
            case 3: iso_verify_zone(z); _exit(corrupt ? 9 : 0);
            case 4: iso_verify_zones(); _exit(corrupt ? 9 : 0);
            default: exit(corrupt ? 9 : 0);
            }
        });
        if(c.code == 5) { tally("void"); continue; }
        eval(mix(mix(point, fk * 2 + last), mix(byte * 2 + priv, szclass(n))));
        if(!corrupt) {
            tally("clean_controls");
            if(!c.ok()) vio("control", "uncorrupted %s block of %zu bytes at %s: %s", priv ? "private" : "general", n, pn[point], c.str().c_str());
            continue;
        }
        tally("corruptions");
        char key[40];
        snprintf(key, sizeof key, "at_%d", point);
        tally(key);
        if(c.code == 7) vio("guard", "freed block of %zu bytes: %s", n, c.out.c_str());
        else if(!c.aborted()) vio("undetected", "%s block of %zu bytes released by route %d, byte %d of its %s word changed by 0x%x: not detected at %s: %s", priv ? "private" : "general", n, fk, byte, last ? "last" : "first", flip, pn[point], c.str().c_str());
        else if(S.samples < 3) sample("byte %d of the %s word of a %zu byte block, at %s: %s", byte, last ? "last" : "first", n, pn[point], c.out.substr(0, 120).c_str());
    }
    h.end();
    finish();
}
