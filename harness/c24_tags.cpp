/* Memory tagging: round trips, verification, stability while live, fresh tags on release. */
#include "heap.h"
using namespace vh;
static const int SH = 56;
static void *strip(void *p) { return (void *) ((uintptr_t) p & 0x00ffffffffffffffull); }
struct B { void *p; uint8_t tag; void *tp; uint64_t pat; };
struct TZ { void *h; size_t n, chunk; std::vector<B> live; std::map<uintptr_t, uint8_t> freed; };
int main(int argc, char **argv) {
    init(argc, argv);
    Rng r(g_seed);
    Heap h(g_seed ^ 71);
    h.max_live = 6u << 20;
    h.strong = VH_CFG_STRONG_SIZE_ISOLATION;
    h.run(1000);
    long rounds = argi(argc, argv, "--rounds", 40);
    long redraws = 0, same = 0, stale_left = argi(argc, argv, "--rounds", 40) * 8;
    long hist[256] = {};
    uint64_t ctr = 1;
    for(long i = 0; i < rounds && !S.viols; i++) {
        TZ z;
        switch(r.below(4)) {
        case 0: z.n = 32 * r.range(1, 40); break;
        case 1: z.n = r.range(1, 65536); break;
        case 2: z.n = (size_t) 32 << r.below(12); break;
        default: z.n = 32 * r.range(1, 2048);
        }
        if(i % 6 == 5 && z.n < 200) z.n += 32 * r.range(6, 90);
        z.h = iso_alloc_new_zone(z.n);
        if(!z.h) { vio("unserved", "no zone of %zu", z.n); break; }
        auto take = [&](bool tagged) -> bool {
            void *p, *tp;
            if(tagged) { tp = iso_alloc_from_zone_tagged(z.h); p = strip(tp); if(!tp) return false; }
            else { p = iso_alloc_from_zone(z.h); if(!p) return false; tp = iso_alloc_tag_ptr(p, z.h); }
            B b = {p, iso_alloc_get_mem_tag(p, z.h), tp, ++ctr};
            if(((uintptr_t) tp >> SH) != b.tag || strip(tp) != p) vio("tag", "zone of %zu: tagged pointer %p, but block %p has tag %02x", z.n, tp, p, b.tag);
            fill(p, z.n, b.pat);
            z.chunk = iso_chunksz(p);
            z.live.push_back(b);
            z.freed.erase((uintptr_t) p);
            hist[b.tag]++;
            tally("tagged_blocks");
            return true;
        };
        auto inspect = [&](B &b, const char *when) {
            uint8_t t = iso_alloc_get_mem_tag(b.p, z.h);
            if(t != b.tag) { vio("unstable", "zone of %zu: tag of live block %p changed from %02x to %02x %s", z.n, b.p, b.tag, t, when); b.tag = t; return; }
            if(iso_alloc_tag_ptr(b.p, z.h) != b.tp) vio("tag", "tagging %p again gives another pointer", b.p);
            void *u = iso_alloc_untag_ptr(b.tp, z.h);
            if(u != b.p) vio("round-trip", "zone of %zu: untagging %p gives %p, not %p", z.n, b.tp, u, b.p);
            iso_alloc_verify_ptr_tag(b.tp, z.h);
            ssize_t d = differs(b.p, z.n, b.pat);
            if(d >= 0) vio("content", "zone of %zu: block %p changed at %zd %s", z.n, b.p, d, when);
            tally("verified");
            eval(mix(mix(szclass(z.n), b.tag), z.live.size() / 64));
        };
        auto drop = [&](size_t k) {
            B b = z.live[k];
            z.live[k] = z.live.back();
            z.live.pop_back();
            inspect(b, "before its release");
            switch(r.below(5)) {
            case 0: iso_free_from_zone(b.p, z.h); break;
            case 1: case 2: iso_free_from_zone(b.tp, z.h); break;
            case 3: iso_free_size(b.p, z.n); break;
            default: iso_free(b.p); iso_flush_caches();
            }
            uint8_t t = iso_alloc_get_mem_tag(b.p, z.h);
            redraws++;
            if(t == b.tag) same++;
            z.freed[(uintptr_t) b.p] = b.tag;
            if(t != b.tag && r.chance(1, 40) && stale_left-- > 0) {
                Res c = child([&] { iso_alloc_verify_ptr_tag(b.tp, z.h); });
                if(!c.aborted()) vio("stale", "zone of %zu: stale tagged pointer %p (tag is %02x now) passes verification: %s", z.n, b.tp, t, c.str().c_str());
                if(iso_alloc_untag_ptr(b.tp, z.h) == b.p) vio("stale", "zone of %zu: stale tagged pointer %p is untagged to the plain address although the tag is %02x now", z.n, b.tp, t);
                c = child([&] { iso_free_from_zone(b.tp, z.h); iso_flush_caches(); });
                if(c.ok()) vio("stale", "zone of %zu: freeing through stale tagged pointer %p is accepted", z.n, b.tp);
                tally("stale_checks");
            }
        };
        phase("tagged zone of %zu, round %ld seed %llu", z.n, i, (unsigned long long) g_seed);
        size_t cap = iso_zone_chunk_count(z.h);
        if(i % 6 == 5) { /* whole zone filled: tags and user memory do not overlap */
            while(take(r.chance(1, 2)))
                ;
            if(z.live.size() < cap) vio("capacity", "tagged zone of %zu gave %zu of %zu blocks", z.n, z.live.size(), cap);
            for(auto &b : z.live) inspect(b, "with the zone full");
            while(z.live.size() > 500) drop(r.below(z.live.size()));
            tally("full_zones");
        }
        size_t target = 1 + r.below(std::min<size_t>(cap, 400));
        long steps = 300 + r.below(900);
        for(long s = 0; s < steps && !S.viols; s++) {
            if(z.live.size() < target && r.chance(3, 5)) take(r.chance(1, 2));
            else if(!z.live.empty() && r.chance(2, 3)) drop(r.below(z.live.size()));
            else if(!z.live.empty()) inspect(z.live[r.below(z.live.size())], "in between");
            if(r.chance(1, 200)) h.run(20);
        }
        for(auto &b : z.live) inspect(b, "at the end of the round");
        if(!z.live.empty() && i % 2 == 0) {
            for(int k = 0; k < 4; k++) { /* wrong tag, interior, foreign */
                B b = z.live[r.below(z.live.size())];
                uint8_t wrong = b.tag ^ (1u << r.below(8));
                void *w = (void *) (((uintptr_t) b.p) | ((uintptr_t) wrong << SH));
                Res c = child([&] { iso_alloc_verify_ptr_tag(w, z.h); });
                if(!c.aborted()) vio("accepted", "zone of %zu: tag %02x accepted for block %p with tag %02x: %s", z.n, wrong, b.p, b.tag, c.str().c_str());
                if(iso_alloc_untag_ptr(w, z.h) == b.p) vio("accepted", "pointer with wrong tag %02x untags to the plain address", wrong);
                uintptr_t off = r.range(1, z.chunk - 1);
                c = child([&] { iso_alloc_verify_ptr_tag((void *) ((uintptr_t) b.tp + off), z.h); });
                if(!c.aborted()) vio("accepted", "zone of %zu: interior pointer (offset %zu) of block %p verified: %s", z.n, off, b.p, c.str().c_str());
                char onstack;
                void *f = r.chance(1, 2) ? (void *) &onstack : (void *) (((uintptr_t) b.p & ~0x3fffffull) - (64u << 20));
                c = child([&] { volatile uint8_t t = iso_alloc_get_mem_tag(f, z.h); (void) t; });
                if(!c.aborted()) vio("accepted", "zone of %zu: foreign address %p has a tag: %s", z.n, f, c.str().c_str());
                tally("rejections", 3);
            }
            if(iso_alloc_tag_ptr(NULL, z.h) || iso_alloc_untag_ptr(NULL, z.h) || iso_alloc_get_mem_tag(NULL, z.h) || iso_alloc_tag_ptr(z.live[0].p, NULL)) vio("null", "tag call on NULL did not return NULL");
            iso_alloc_verify_ptr_tag(NULL, z.h);
        }
        if(i % 3 == 0) { /* an idle zone well used draws every tag again */
            while(!z.live.empty()) drop(z.live.size() - 1);
            TZ big;
            size_t n2 = 65536 - 32 * r.below(600);
            void *zh = iso_alloc_new_zone(n2);
            std::vector<void *> v;
            void *p;
            while((p = iso_alloc_from_zone(zh))) v.push_back(p);
            for(void *q : v) iso_free_size(q, n2);
            std::map<void *, uint8_t> t0;
            for(void *q : v) t0[q] = iso_alloc_get_mem_tag(q, zh);
            bool refreshed = false;
            for(size_t k = 0; k < v.size() * 10 + 40 && !refreshed; k++) {
                p = iso_alloc_from_zone(zh);
                iso_free_size(p, n2);
                size_t changed = 0;
                for(void *q : v) { uint8_t t = iso_alloc_get_mem_tag(q, zh); changed += t != t0[q]; t0[q] = t; }
                if(changed > v.size() / 2) refreshed = true;
            }
            if(!refreshed) vio("no-refresh", "zone of %zu byte blocks (%zu of them) was used ten times over and emptied without drawing its tags again", n2, v.size());
            iso_alloc_destroy_zone(zh);
            tally("refreshes");
        }
        if(i % 3 == 1) { /* a zone well used but never idle: releases redraw, live tags stay */
            while(!z.live.empty()) drop(z.live.size() - 1);
            TZ keep = z;
            z = TZ();
            z.n = r.chance(1, 2) ? 65536 - 32 * r.below(1300) : 32 * r.range(256, 1200);
            z.h = iso_alloc_new_zone(z.n);
            size_t chunks = iso_zone_chunk_count(z.h), live = 1 + r.below(6);
            long kept = 0, done = 0;
            for(size_t k = 0; k < live; k++) take(true);
            auto cycle = [&](bool count) {
                void *tp = iso_alloc_from_zone_tagged(z.h);
                if(!tp) return;
                void *p = strip(tp);
                if(r.chance(1, 4)) iso_free_size(p, z.n);
                else iso_free_from_zone(tp, z.h);
                if(count) { done++; kept += iso_alloc_get_mem_tag(p, z.h) == (uint8_t) ((uintptr_t) tp >> SH); }
            };
            for(int part = 0; part < 6; part++) {
                for(size_t k = 0; k < chunks * (part == 0 ? 2 : 7); k++) cycle(false);
                for(int k = 0; k < 40; k++) cycle(true);
                for(auto &b : z.live) inspect(b, "in a zone well used");
            }
            if(kept > 12) vio("not-fresh", "zone of %zu with %zu of %zu blocks always live: %ld of %ld releases left the tag as it was", z.n, live, chunks, kept, done);
            while(!z.live.empty()) drop(z.live.size() - 1);
            iso_alloc_destroy_zone(z.h);
            z = keep;
            tally("busy_zones");
        }
        for(auto &b : z.live) if(r.chance(1, 2)) iso_free_from_zone(b.tp, z.h);
        iso_alloc_destroy_zone(z.h);
        h.run(50);
    }
    tally("redraws", redraws);
    tally("redrawn_equal", same);
    if(redraws > 1500 && same > redraws / 40 + 20) vio("not-fresh", "%ld of %ld releases left the tag as it was", same, redraws);
    long tot = 0, top = 0, distinct = 0;
    for(long x : hist) { tot += x; top = std::max(top, x); distinct += x > 0; }
    if(tot > 5000 && (distinct < 240 || top > tot / 40 + 50)) vio("not-random", "%ld tags drawn: %ld distinct values, the most frequent %ld times", tot, distinct, top);
    /* several threads on one zone */
    for(int round = 0; round < (int) argi(argc, argv, "--mt", 3) && !S.viols; round++) {
        size_t n = 32 * r.range(1, 200);
        void *zh = iso_alloc_new_zone(n);
        std::vector<pthread_t> th(5);
        struct A { void *zh; size_t n; uint64_t seed; long ops, bad; char why[200]; };
        std::vector<A> as(th.size());
        phase("threads on a tagged zone of %zu, seed %llu", n, (unsigned long long) g_seed);
        for(size_t k = 0; k < th.size(); k++) {
            as[k] = {zh, n, r.next(), 0, 0, ""};
            pthread_create(&th[k], NULL, [](void *ap) -> void * {
                A *a = (A *) ap;
                Rng r(a->seed);
                std::vector<B> v;
                for(int s = 0; s < 8000 && !a->bad; s++) {
                    a->ops++;
                    if(v.size() < 20 && r.chance(1, 2)) {
                        void *tp = iso_alloc_from_zone_tagged(a->zh);
                        if(!tp) { a->bad++; snprintf(a->why, sizeof a->why, "no block"); break; }
                        B b = {strip(tp), (uint8_t) ((uintptr_t) tp >> SH), tp, a->seed + s};
                        fill(b.p, a->n, b.pat);
                        v.push_back(b);
                    } else if(!v.empty()) {
                        size_t k = r.below(v.size());
                        B &b = v[k];
                        iso_alloc_verify_ptr_tag(b.tp, a->zh);
                        void *u = iso_alloc_untag_ptr(b.tp, a->zh);
                        if(u != b.p || differs(b.p, a->n, b.pat) >= 0 || iso_alloc_get_mem_tag(b.p, a->zh) != b.tag) { a->bad++; snprintf(a->why, sizeof a->why, "block %p tagged %p untags to %p or changed", b.p, b.tp, u); break; }
                        if(r.chance(2, 3)) { iso_free_from_zone(b.tp, a->zh); v[k] = v.back(); v.pop_back(); }
                    }
                }
                return NULL;
            }, &as[k]);
        }
        for(size_t k = 0; k < th.size(); k++) {
            pthread_join(th[k], NULL);
            tally("thread_ops", as[k].ops);
            if(as[k].bad) vio("threads", "concurrent use of a tagged zone of %zu: %s", n, as[k].why);
        }
        iso_alloc_destroy_zone(zh);
    }
    sample("%ld zones; %ld releases redrew the tag, %ld of them to the same value; %ld of 256 tag values seen", rounds, redraws, same, distinct);
    h.end();
    finish();
}
