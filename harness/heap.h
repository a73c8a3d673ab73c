/* A random driver for the whole public interface, judged by the shadow heap.
 * Everything the driver does is valid use; anything the oracle or the kernel
 * objects to is a violation. */
#pragma once
#include "vh.h"

namespace vh {

enum Op { O_ALLOC, O_CALLOC, O_REALLOC_NEW, O_REALLOC, O_REALLOCARRAY, O_STRDUP, O_STRNDUP, O_FREE, O_FREE_SIZE, O_FREE_PERM,
          O_CHUNKSZ, O_FLUSH, O_VERIFY, O_VERIFY_ZONE, O_NEW_ZONE, O_DEL_ZONE, O_ZONE_ALLOC, O_ZONE_STRDUP, O_ZONE_FREE, O_ZERO,
          O_REPORT, O_BIG, O_NULLS, O_BURST, O_DRAIN, O_CHURN, O_COUNT };

struct Zone {
    iso_alloc_zone_handle *h;
    size_t size;   /* requested */
    size_t count;  /* advertised */
    size_t live = 0;
    size_t perm = 0;
    std::vector<uintptr_t> mine;
};

struct Heap {
    Rng r;
    Shadow sh;
    size_t max_size = 1 << 20;   /* biggest single request */
    size_t max_live = 48u << 20; /* bytes alive */
    size_t max_blocks = 40000;
    int max_zones = 10;
    int zones_left = 150;        /* private zones this process may still create */
    int perms_left = 3000;
    unsigned w[O_COUNT];
    size_t live_bytes = 0;
    std::vector<Zone> zones;
    uint64_t ops = 0;
    uint64_t last2 = 0;
    long nulls = 0;
    bool strong = false;         /* strong size isolation */
    bool sampled = false;        /* allocation sampling build: usable size may be the exact request */
    std::function<void()> hook;  /* called every hook_every operations */
    uint64_t hook_every = 0;
    bool null_ok = false;        /* mapping failures are injected: NULL is a valid answer */
    uintptr_t busy = 0;          /* block being reallocated: released inside the call */
    explicit Heap(uint64_t seed) : r(seed) {
        unsigned d[O_COUNT] = {300, 60, 15, 60, 10, 12, 12, 330, 90, 6, 60, 2, 1, 3, 1, 1, 60, 6, 50, 6, 1, 12, 3, 2, 1, 1};
        memcpy(w, d, sizeof w);
#if VH_CFG_ABORT_ON_NULL
        w[O_ZONE_ALLOC] = w[O_ZONE_STRDUP] = 0; /* an exhausted zone aborts in this build */
#endif
    }
    uint64_t total_w() {
        uint64_t t = 0;
        for(unsigned x : w) t += x;
        return t;
    }
    bool room(size_t n) { return live_bytes + n <= max_live && sh.live.size() < max_blocks; }
    void got(const char *who, void *p, size_t n, int zi = -1, bool zeroed = false) {
        if(!p && null_ok) return;
        if(!p) {
            vio("unserved", "%s(%zu) returned NULL with only %zu bytes live", who, n, live_bytes);
            nulls++;
            return;
        }
        if(zeroed) {
            for(size_t i = 0; i < n; i++)
                if(((uint8_t *) p)[i]) {
                    vio("not-zero", "%s(%zu) returned memory that is not zero at offset %zu", who, n, i);
                    break;
                }
        }
        if(sh.add(who, p, n, zi >= 0 ? 1 : 0, zi >= 0 ? zones[zi].h : NULL)) live_bytes += n;
    }
    void gone(uintptr_t p) {
        auto it = sh.live.find(p);
        if(it == sh.live.end()) return;
        live_bytes -= it->second.size;
        if(it->second.zone)
            for(auto &z : zones)
                if(z.h == it->second.zone) z.live--;
        sh.live.erase(it);
    }
    void usable(uintptr_t p) {
        auto &b = sh.live[p];
        size_t s = iso_chunksz((void *) p);
        if(s < b.size) vio("chunksz-small", "size query of %p says %zu, requested %zu", (void *) p, s, b.size);
        if(b.extra && b.extra != s) vio("chunksz-unstable", "size query of %p said %zu, now %zu", (void *) p, b.extra, s);
        b.extra = s;
        /* the whole reported size must be usable: take it over as part of the block */
        if(s > b.size && s - b.size <= (1 << 16) && r.chance(1, 4)) {
            auto nx = sh.live.upper_bound(p);
            if(nx != sh.live.end() && nx->first < p + s) vio("chunksz-overlap", "size query of %p says %zu but %p is live", (void *) p, s, (void *) nx->first);
            else {
                sh.check(p, "before growing into the reported size");
                live_bytes += s - b.size;
                b.size = s;
                b.pat = ++sh.ctr * 0x9E37 + 77;
                fill((void *) p, s, b.pat);
            }
        }
    }
    /* frees a live block by some valid route */
    void release(uintptr_t p, int how) {
        Block b = sh.live[p];
        sh.check(p, "before its release");
        if(b.kind == 3) how = 0; /* handed out by an aligned interface */
        switch(how) {
        case 1: {
            size_t n = b.size;
            if(r.chance(1, 3)) n = iso_chunksz((void *) p);
            gone(p);
            iso_free_size((void *) p, n);
            tally("free_size");
            break;
        }
        case 2:
            if(perms_left > 0 && b.size < 65536) {
                perms_left--;
                if(b.zone)
                    for(auto &z : zones)
                        if(z.h == b.zone) z.perm++;
                gone(p);
                iso_free_permanently((void *) p);
                tally("free_perm");
                break;
            } /* fall through */
        case 3:
            if(b.zone) {
                gone(p);
                if(perms_left > 0 && r.chance(1, 20)) {
                    perms_left--;
                    for(auto &z : zones)
                        if(z.h == b.zone) z.perm++;
                    iso_free_from_zone_permanently((void *) p, b.zone);
                } else
                    iso_free_from_zone((void *) p, b.zone);
                tally("free_from_zone");
                break;
            } /* fall through */
        default:
            gone(p);
            iso_free((void *) p);
            tally("free");
        }
    }
    uintptr_t pick() { return sh.pick(r); }
    void make_room(size_t n) {
        while(!room(n)) {
            uintptr_t p = pick();
            if(!p) break;
            release(p, r.below(3) == 0);
        }
    }
    size_t size_for(bool big_ok) {
        size_t s = pick_size(r, max_size);
        if(!big_ok && s > 65536) s = 1 + s % 65536;
        return s;
    }
    int some_zone() {
        if(zones.empty()) return -1;
        return r.below(zones.size());
    }
    void new_zone() {
        if(zones_left <= 0 || (int) zones.size() >= max_zones) return;
        zones_left--;
        size_t s;
        switch(r.below(4)) {
        case 0: s = 32 * r.range(1, 64); break;
        case 1: s = r.range(1, 2000); break;
        case 2: s = r.range(1, 65536); break;
        default: s = (size_t) 32 << r.below(12); break;
        }
        if(s > 65536) s = 65536;
        Zone z;
        z.h = iso_alloc_new_zone(s);
        if(!z.h && null_ok) return;
        if(!z.h) {
            vio("zone-null", "private zone of block size %zu could not be created", s);
            return;
        }
        z.size = s;
        z.count = iso_zone_chunk_count(z.h);
        zones.push_back(z);
        tally("zones_created");
    }
    void del_zone(int i) {
        Zone z = zones[i];
        std::vector<uintptr_t> d;
        for(auto &k : sh.live)
            if(k.second.zone == z.h) d.push_back(k.first);
        for(uintptr_t p : d) {
            sh.check(p, "before its zone is destroyed");
            gone(p);
        }
        iso_alloc_destroy_zone(z.h);
        zones.erase(zones.begin() + i);
        tally("zones_destroyed");
    }
    void zone_alloc(int i) {
        Zone &z = zones[i];
        make_room(z.size);
        void *p = iso_alloc_from_zone(z.h);
        if(!p) {
            if(z.live + z.perm < z.count && !quarantined())
                vio("zone-exhausted", "private zone of %zu byte blocks gave NULL with %zu of %zu blocks live and %zu permanently freed", z.size, z.live, z.count, z.perm);
            tally("zone_exhausted");
            return;
        }
        z.live++;
        got("iso_alloc_from_zone", p, z.size, i);
    }
    bool quarantined() {
        iso_flush_caches();
        return true; /* caller cannot tell without retrying; see C21 for exact capacity */
    }
    void realloc_op(bool arr) {
        uintptr_t p = pick();
        if(!p) return;
        Block b = sh.live[p];
        size_t n = size_for(true);
        if(r.chance(1, 4)) n = b.size + r.range(0, 64);
        if(r.chance(1, 10) && b.size > 1) n = r.range(1, b.size);
        if(n > max_size) n = max_size;
        make_room(n);
        if(!sh.has(p)) return;
        b = sh.live[p];
        sh.check(p, "before realloc");
        void *q;
        busy = p;
        if(arr) {
            size_t m = r.range(1, 8);
            n = n > m ? n / m * m : m;
            q = iso_reallocarray((void *) p, m, n / m);
        } else
            q = iso_realloc((void *) p, n);
        busy = 0;
        if(!q && null_ok) return;
        if(!q) {
            vio("unserved", "realloc from %zu to %zu returned NULL", b.size, n);
            return;
        }
        if((uintptr_t) q == p) vio("realloc-same", "realloc(%p, %zu -> %zu) returned the block itself", q, b.size, n);
        size_t keep = std::min(n, b.size);
        ssize_t d = differs(q, keep, b.pat, b.size);
        if(d >= 0) vio("realloc-content", "realloc from %zu to %zu lost contents at offset %zd", b.size, n, d);
        gone(p);
        got(arr ? "iso_reallocarray" : "iso_realloc", q, n);
        tally("reallocs");
    }
    void strdup_op(bool lim, int zi) {
        size_t n = r.chance(1, 2) ? r.range(0, 100) : r.range(0, 5000);
        if(zi >= 0) n = r.below(zones[zi].size);
        make_room(n + 1);
        std::string s(n, 'x');
        for(auto &c : s) c = (char) r.range(1, 255);
        char *p;
        size_t k = n;
        if(lim) {
            k = r.range(0, n + 3);
            if(zi >= 0 && k >= zones[zi].size) k = zones[zi].size - 1;
            p = zi < 0 ? iso_strndup(s.c_str(), k) : iso_strndup_from_zone(zones[zi].h, s.c_str(), k);
            k = std::min(k, n);
        } else
            p = zi < 0 ? iso_strdup(s.c_str()) : iso_strdup_from_zone(zones[zi].h, s.c_str());
        if(!p) {
            if(zi < 0 && !null_ok) vio("unserved", "strdup of %zu bytes returned NULL", n);
            return;
        }
        if(memcmp(p, s.data(), k) || p[k] != 0) vio("strdup", "duplicate of a string of %zu (limit %d) bytes is wrong", n, lim);
        if(zi >= 0) zones[zi].live++;
        got("strdup", p, k + 1, zi);
        tally("strdups");
    }
    void step() {
        uint64_t x = r.below(total_w());
        int op = 0;
        while(x >= w[op]) x -= w[op++];
        ops++;
        size_t n = 0;
        switch(op) {
        case O_ALLOC:
            n = size_for(false);
            make_room(n);
            got("iso_alloc", iso_alloc(n), n);
            break;
        case O_BIG:
            n = r.range(65537, std::max<size_t>(max_size, 70000));
            if(r.chance(1, 12) && max_size >= (1 << 20)) n = (2u << 20) * r.range(1, 3) + (r.chance(1, 2) ? 0 : r.below(8192));
            make_room(n);
            got("iso_alloc", iso_alloc(n), n);
            tally("big");
            break;
        case O_CALLOC: {
            n = size_for(true);
            make_room(n);
            size_t m = r.range(1, 12);
            size_t e = n > m ? n / m : 1;
            void *p = iso_calloc(m, e);
            got("iso_calloc", p, m * e, -1, true);
            break;
        }
        case O_REALLOC_NEW:
            n = size_for(true);
            make_room(n);
            if(r.chance(1, 2)) got("iso_realloc", iso_realloc(NULL, n), n);
            else got("iso_reallocarray", iso_reallocarray(NULL, 1, n), n);
            break;
        case O_REALLOC: realloc_op(false); break;
        case O_REALLOCARRAY: realloc_op(true); break;
        case O_STRDUP: strdup_op(false, -1); break;
        case O_STRNDUP: strdup_op(true, -1); break;
        case O_FREE: {
            uintptr_t p = pick();
            if(p) release(p, 0);
            break;
        }
        case O_FREE_SIZE: {
            uintptr_t p = pick();
            if(p) release(p, 1);
            break;
        }
        case O_FREE_PERM: {
            uintptr_t p = pick();
            if(p) release(p, 2);
            break;
        }
        case O_CHUNKSZ: {
            uintptr_t p = pick();
            if(p) usable(p);
            break;
        }
        case O_FLUSH: iso_flush_caches(); tally("flushes"); break;
        case O_VERIFY: iso_verify_zones(); tally("verifications"); break;
        case O_VERIFY_ZONE: {
            int i = some_zone();
            if(i >= 0) iso_verify_zone(zones[i].h);
            break;
        }
        case O_NEW_ZONE: new_zone(); break;
        case O_DEL_ZONE: {
            int i = some_zone();
            if(i >= 0 && r.chance(1, 2)) del_zone(i);
            break;
        }
        case O_ZONE_ALLOC: {
            int i = some_zone();
            if(i >= 0) zone_alloc(i);
            break;
        }
        case O_ZONE_STRDUP: {
            int i = some_zone();
            if(i >= 0 && !strong) strdup_op(r.chance(1, 2), i);
            break;
        }
        case O_ZONE_FREE: {
            for(int t = 0; t < 8; t++) {
                uintptr_t p = pick();
                if(p && sh.live[p].zone) {
                    release(p, 3);
                    break;
                }
            }
            break;
        }
        case O_ZERO: {
            void *p = r.chance(1, 2) ? iso_alloc(0) : r.chance(1, 2) ? iso_calloc(0, 8) : iso_calloc(7, 0);
            if(!p) vio("zero", "zero size request returned NULL");
            if(iso_chunksz(p) != 0) vio("zero", "zero size block reports size %zu", iso_chunksz(p));
            if(r.chance(1, 2)) iso_free(p);
            else iso_free_size(p, 0);
            break;
        }
        case O_REPORT:
            switch(r.below(4)) {
            case 0: (void) iso_alloc_mem_usage(); break;
            case 1: {
                int i = some_zone();
                if(i >= 0) (void) iso_alloc_zone_mem_usage(zones[i].h);
                break;
            }
            case 2: {
                int i = some_zone();
                if(i >= 0 && iso_zone_chunk_count(zones[i].h) != zones[i].count) vio("chunk-count", "advertised block count changed");
                break;
            }
            default:
                if(r.chance(1, 4)) (void) iso_alloc_detect_leaks();
            }
            tally("reports");
            break;
        case O_NULLS:
            iso_free(NULL);
            iso_free_size(NULL, 5);
            if(iso_chunksz(NULL) != 0) vio("null", "size query of NULL is not 0");
            iso_free_permanently(NULL);
            break;
        case O_BURST: { /* many of one class: fills zones */
            n = size_for(false);
            size_t c = std::min<size_t>(r.range(64, 6000), (8u << 20) / n);
            for(size_t i = 0; i < c && room(n); i++) {
                size_t k = n - r.below(std::min<size_t>(n, 8));
                got("iso_alloc", iso_alloc(k), k);
                ops++;
            }
            tally("bursts");
            break;
        }
        case O_DRAIN: { /* everything of a class, or everything */
            bool all = r.chance(1, 3);
            size_t lo = r.range(1, 2000), hi = lo * 8;
            std::vector<uintptr_t> v;
            for(auto &k : sh.live)
                if(all || (k.second.size >= lo && k.second.size <= hi)) v.push_back(k.first);
            for(size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]);
            int how = r.below(2);
            for(auto p : v) {
                release(p, r.chance(1, 10) ? !how : how);
                ops++;
            }
            tally("drains");
            break;
        }
        case O_CHURN: { /* same size over and over */
            n = r.chance(2, 3) ? r.range(1000, 9000) : size_for(false);
            size_t c = r.range(100, 4000);
            for(size_t i = 0; i < c; i++) {
                make_room(n);
                void *p = iso_alloc(n);
                if(!p) break;
                if(sh.has((uintptr_t) p)) {
                    got("iso_alloc", p, n);
                    break;
                }
                ((volatile uint8_t *) p)[0] = 1;
                ((volatile uint8_t *) p)[n - 1] = 1;
                if(i & 1) iso_free(p);
                else iso_free_size(p, n);
                ops++;
            }
            tally("churns");
            break;
        }
        }
        eval(mix(mix(op, szclass(n ? n : 1)), last2 ^ (uint64_t) std::min<size_t>(sh.live.size() / 64, 63) << 40));
        last2 = ((last2 << 5) | op) & 0x3ff;
        sh.compact();
        if(hook_every && ops / hook_every != (ops - 1) / hook_every) hook();
    }
    void run(uint64_t n) {
        uint64_t end = ops + n;
        uint64_t nextcheck = ops + 20000;
        while(ops < end) {
            phase("operation %llu of seed %llu", (unsigned long long) ops, (unsigned long long) g_seed);
            step();
            if(ops >= nextcheck) {
                sh.check_all("periodic scan");
                nextcheck = ops + 20000;
            }
        }
        sh.check_all("end of run");
        tally("ops", ops);
    }
    void end() {
        /* release everything and verify */
        std::vector<uintptr_t> v;
        for(auto &k : sh.live) v.push_back(k.first);
        for(auto p : v) release(p, r.below(2));
        while(!zones.empty()) del_zone(zones.size() - 1);
        iso_flush_caches();
        iso_verify_zones();
    }
};
} // namespace vh
