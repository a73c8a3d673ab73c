/* Every replaceable form of operator new and delete, called directly and through the
 * language, judged by a shadow heap and by the leak report. */
#include "heap.h"
#include <new>
#include <memory>
#include <string>
#include <list>
#include <deque>
#include <thread>
using namespace vh;
static const std::nothrow_t &NT = std::nothrow;
static void *alloc(int f, size_t n, std::align_val_t a) {
    switch(f) {
    case 0: return ::operator new(n);
    case 1: return ::operator new[](n);
    case 2: return ::operator new(n, NT);
    case 3: return ::operator new[](n, NT);
    case 4: return ::operator new(n, a);
    case 5: return ::operator new[](n, a);
    case 6: return ::operator new(n, a, NT);
    default: return ::operator new[](n, a, NT);
    }
}
/* matching deletes: plain forms, sized, aligned, sized aligned, nothrow */
static void drop(int f, int d, void *p, size_t n, std::align_val_t a) {
    bool arr = f & 1;
    if(f < 4) switch(d % 3) {
        case 0: if(arr) ::operator delete[](p); else ::operator delete(p); break;
        case 1: if(arr) ::operator delete[](p, n); else ::operator delete(p, n); break;
        default: if(arr) ::operator delete[](p, NT); else ::operator delete(p, NT); break;
        }
    else switch(d % 3) {
        case 0: if(arr) ::operator delete[](p, a); else ::operator delete(p, a); break;
        case 1: if(arr) ::operator delete[](p, n, a); else ::operator delete(p, n, a); break;
        default: if(arr) ::operator delete[](p, a, NT); else ::operator delete(p, a, NT); break;
        }
}
static int handler_calls;
struct Stop : std::bad_alloc {};
static void handler() { if(++handler_calls >= 3) throw Stop(); }
struct Thrower { char b[200]; Thrower(int x) { memset(b, x, sizeof b); if(x == 7) throw x; } };
struct alignas(256) Wide { int v[100]; Wide() { for(int &x : v) x = 5; } ~Wide() { for(int &x : v) if(x != 5) vio("lang", "over-aligned object damaged"); } };
struct Obj { size_t id; std::string s; static long alive; Obj() : id(++alive), s(id % 50, 'a') {} ~Obj() { alive--; } };
long Obj::alive;
int main(int argc, char **argv) {
    init(argc, argv);
    Rng r(g_seed);
    Shadow sh;
    long rounds = argi(argc, argv, "--rounds", 30000);
    struct Rec { int f; size_t a; };
    std::map<uintptr_t, Rec> rec;
    sh.live.size();
    for(long i = 0; i < rounds && !S.viols; i++) {
        int f = r.below(8), d = r.below(3);
        size_t n = r.chance(1, 12) ? r.range(65000, 500000) : pick_size(r, 66000);
        size_t a = (size_t) 1 << r.range(0, 12);
        phase("operator new form %d size %zu align %zu, step %ld seed %llu", f, n, a, i, (unsigned long long) g_seed);
        void *p;
        try { p = alloc(f, n, std::align_val_t(a)); } catch(std::bad_alloc &) { vio("refused", "form %d threw for %zu bytes", f, n); continue; }
        if(!p) { vio("null", "form %d returned NULL for %zu bytes", f, n); continue; }
        if(f >= 4 && (uintptr_t) p % a) vio("misaligned", "form %d alignment %zu: %p", f, a, p);
        if(iso_chunksz(p) < n) vio("short", "form %d size %zu: block of %zu", f, n, iso_chunksz(p));
        if(sh.add("operator new", p, n, f)) rec[(uintptr_t) p] = {f, a};
        eval(mix(mix(f, d), mix(szclass(n), f >= 4 ? a : 0)));
        tally("news");
        while(sh.live.size() > 400 || r.chance(1, 3)) {
            uintptr_t q = sh.pick(r);
            if(!q) break;
            Block b = sh.live[q];
            Rec rc = rec[q];
            sh.check(q, "before delete");
            d = r.below(3);
            if(d == 1 && r.chance(1, 25)) { /* wrong size: larger than the block */
                size_t over = iso_chunksz((void *) q) + (r.chance(1, 2) ? 1 : r.range(1, 1u << 20));
                Res c = child([&] { drop(rc.f, 1, (void *) q, over, std::align_val_t(rc.a)); iso_flush_caches(); });
                if(rc.f < 4) { /* the aligned sized forms forward to the unsized ones in the C++ library */
                    if(!c.aborted()) vio("sized-delete", "sized delete (form %d) with %zu for a block of %zu: %s", rc.f, over, iso_chunksz((void *) q), c.str().c_str());
                    tally("oversize_deletes");
                }
            }
            rec.erase(q);
            sh.del(q);
            sh.compact();
#if VH_CFG_LEAK_DETECTOR
            if(r.chance(1, 10)) { /* releases exactly that block */
                iso_flush_caches();
                size_t sz = iso_chunksz((void *) q);
                uint64_t before = iso_alloc_detect_leaks();
                drop(rc.f, d, (void *) q, b.size, std::align_val_t(rc.a));
                iso_flush_caches();
                uint64_t after = iso_alloc_detect_leaks(), want = sz > 65536 ? sz : 1;
                if(before - after != want) vio("release", "delete (form %d/%d) of a block of %zu changed the leak report by %lld, not %llu", rc.f, d, sz, (long long) (before - after), (unsigned long long) want);
                tally("exact_releases");
                if(r.chance(1, 4)) {
                    Res c = child([&] { drop(rc.f, r.below(3), (void *) q, b.size, std::align_val_t(rc.a)); iso_flush_caches(); });
                    if(!c.aborted()) vio("release", "second delete (form %d) of a block of %zu: %s", rc.f, sz, c.str().c_str());
                    tally("double_deletes");
                }
                continue;
            }
#endif
            drop(rc.f, d, (void *) q, b.size, std::align_val_t(rc.a));
        }
        if(i % 50 == 0) { /* deleting NULL is a no-op */
            for(int ff = 0; ff < 8; ff++) for(int dd = 0; dd < 3; dd++) drop(ff, dd, NULL, 8, std::align_val_t(64));
        }
        if(i % 40 == 0) { /* unservable */
            size_t n2;
            switch(r.below(4)) { case 0: n2 = SIZE_MAX - r.below(5000); break; case 1: n2 = (4ull << 30) + 1 + r.below(1 << 20); break; case 2: n2 = (size_t) 1 << r.range(33, 63); break; default: n2 = (1ull << 33) | r.next() >> 1; }
            for(int ff = 0; ff < 8; ff++) {
                phase("operator new form %d of %zu", ff, n2);
                bool threw = false;
                void *q = (void *) 1;
                try { q = alloc(ff, n2, std::align_val_t(128)); } catch(std::bad_alloc &) { threw = true; }
                bool nothrow = ff == 2 || ff == 3 || ff >= 6;
                if(nothrow ? (threw || q) : !threw) vio("unservable", "operator new form %d of %zu bytes: threw=%d result %p", ff, n2, threw, q);
                tally("unservable");
            }
            /* the installed new-handler is honoured */
            std::new_handler old = std::set_new_handler(handler);
            handler_calls = 0;
            bool stop = false;
            try { (void) !alloc(r.below(2), n2, std::align_val_t(8)); } catch(Stop &) { stop = true; } catch(std::bad_alloc &) {}
            if(!stop || handler_calls != 3) vio("handler", "the new-handler was called %d times, its exception %s", handler_calls, stop ? "arrived" : "was lost");
            std::set_new_handler(NULL);
            bool threw = false;
            try { (void) !alloc(r.below(2), n2, std::align_val_t(8)); } catch(std::bad_alloc &) { threw = true; }
            if(!threw) vio("handler", "without a new-handler operator new of %zu did not throw bad_alloc", n2);
            std::set_new_handler(old);
        }
        if(i % 100 == 0) { /* through the language */
            phase("language constructs, step %ld", i);
            for(int k = 5; k < 10; k++) { try { Thrower *t = new Thrower(k); delete t; } catch(int) {} try { auto t = std::unique_ptr<Thrower>(new Thrower(k)); } catch(int) {} }
            Wide *w = new Wide; if((uintptr_t) w % 256) vio("lang", "new Wide misaligned"); delete w;
            Wide *wa = new Wide[r.range(1, 9)]; if((uintptr_t) wa % 256) vio("lang", "new Wide[] misaligned"); delete[] wa;
            Obj *o = new Obj[r.range(1, 300)]; delete[] o;
            if(Obj::alive) vio("lang", "%ld objects alive", Obj::alive);
            std::list<std::string> l; std::deque<int> dq; std::map<int, std::vector<char>> m;
            long sum = 0, want = 0;
            for(int k = 0; k < 300; k++) { l.push_back(std::string(k, 'c')); dq.push_back(k); m[k * 7 % 300].assign(k, 1); want += 2 * k + k; }
            for(auto &s : l) sum += s.size();
            for(int x : dq) sum += x;
            for(auto &x : m) sum += x.second.size();
            if(sum != want) vio("lang", "containers lost data: %ld != %ld", sum, want);
            std::thread t1([] { std::vector<std::string> v; for(int k = 0; k < 500; k++) v.push_back(std::string(k, 'x')); }), t2([] { for(int k = 0; k < 500; k++) delete new Wide; });
            t1.join(); t2.join();
            auto sp = std::make_shared<std::vector<int>>(1000, 3);
            std::string big(300000, 'q'); big += big;
            if(big.size() != 600000 || sp->at(999) != 3) vio("lang", "data lost");
            tally("language_rounds");
        }
    }
    sh.check_all("end");
    sample("%ld steps", rounds);
    iso_flush_caches();
    iso_verify_zones();
    finish();
}
