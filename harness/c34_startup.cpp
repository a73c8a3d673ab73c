/* Start-up, initialisation and exit in every order: this program runs itself with
 * chosen phases; the child checks its memory in preinit code, constructors, main, exit
 * handlers and destructors and says so, the parent judges. */
#include "vh.h"
#include "sys.h"
#include <pthread.h>
#include <sys/wait.h>
namespace {
enum { PRE = 1, CTOR = 2, INIT_PRE = 4, INIT_CTOR = 8, INIT_MAIN = 16, DESTROY = 32, ATEXIT = 64, DTOR = 128, THREADS = 256, CORRUPT = 512, RELEASE = 1024, ZONES = 2048, EARLY_EXIT = 4096, CYCLES = 8192, QUICK_INIT = 16384, NBITS = 15 };
volatile unsigned flags;
uint64_t st;
volatile bool is_child; /* volatile: or the compiler runs the constructors at compile time */
int phases;
uint64_t rnd() { uint64_t z = (st += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
struct Blk { uint8_t *p; size_t n; uint8_t k; };
Blk blks[3000];
int nb;
void die(const char *m) { char b[300]; int n = snprintf(b, sizeof b, "BAD %s (phase %d, flags %x)\n", m, phases, flags); (void) !write(1, b, n); _exit(3); }
void keep(void *p, size_t n) {
    if(!p) die("an allocation gave NULL");
    if((uintptr_t) p % 8) die("a block is not aligned");
    for(int i = 0; i < nb; i++) if((uint8_t *) p < blks[i].p + blks[i].n && blks[i].p < (uint8_t *) p + n) die("a block overlaps a live one");
    if(nb == 3000) { iso_free(p); return; }
    blks[nb] = {(uint8_t *) p, n, (uint8_t) (rnd() | 1)};
    memset(p, blks[nb].k, n);
    nb++;
}
void check_all(const char *w) {
    for(int i = 0; i < nb; i++) for(size_t o = 0; o < blks[i].n; o += blks[i].n > 5000 ? 97 : 1) if(blks[i].p[o] != blks[i].k) { char b[200]; snprintf(b, sizeof b, "a live block of %zu changed: %s", blks[i].n, w); die(b); }
}
void drop(int i) {
    Blk b = blks[i];
    for(size_t o = 0; o < b.n; o++) if(b.p[o] != b.k) die("a live block changed before its release");
    blks[i] = blks[--nb];
    switch(rnd() % 3) {
    case 0: iso_free(b.p); break;
    case 1: iso_free_size(b.p, b.n); break;
    default: { size_t m = 1 + rnd() % 20000; uint8_t *q = (uint8_t *) iso_realloc(b.p, m); if(!q) die("realloc gave NULL"); for(size_t o = 0; o < (m < b.n ? m : b.n); o++) if(q[o] != b.k) die("realloc lost contents"); keep(q, m); }
    }
}
void work(int n) {
    for(int i = 0; i < n; i++) {
        size_t z = rnd() % 12 == 0 ? 65537 + rnd() % 300000 : 1 + rnd() % (rnd() % 4 ? 300 : 20000);
        switch(rnd() % 8) {
        case 0: { uint8_t *p = (uint8_t *) iso_calloc(1, z); if(!p) die("calloc gave NULL"); for(size_t o = 0; o < z; o++) if(p[o]) die("calloc is not zero"); keep(p, z); break; }
        case 1: { char s[100]; size_t l = rnd() % 99; memset(s, 'q', l); s[l] = 0; char *p = iso_strdup(s); if(!p || strcmp(p, s)) die("strdup is wrong"); keep(p, l + 1); break; }
        case 2: keep(iso_realloc(NULL, z), z); break;
        case 3: if(nb) drop(rnd() % nb); break;
        case 4: { void *p = iso_alloc(0); if(!p) die("zero size gave NULL"); iso_free(p); if(nb && iso_chunksz(blks[0].p) < blks[0].n) die("size query too small"); break; }
        default: keep(iso_alloc(z), z);
        }
        if(nb > 200) drop(rnd() % nb);
    }
}
void zones() {
    iso_alloc_zone_handle *z = iso_alloc_new_zone(100 + rnd() % 3000);
    if(!z) die("zone is NULL");
    void *p[40];
    for(auto &q : p) { q = iso_alloc_from_zone(z); if(!q) die("zone block is NULL"); memset(q, 1, 100); }
    for(auto q : p) iso_free_from_zone(q, z);
    iso_verify_zone(z);
    iso_alloc_destroy_zone(z);
}
uint64_t leak_truth() { uint64_t t = 0; for(int i = 0; i < nb; i++) t += blks[i].n > 65536 ? iso_chunksz(blks[i].p) : 1; return t; }
void initialise(const char *w) {
    int n = 1 + rnd() % 3;
    for(int i = 0; i < n; i++) iso_alloc_initialize();
    check_all(w);
#if VH_CFG_LEAK_DETECTOR
    if(VH_CFG_ALLOC_SANITY == 0 && phases < 100) { iso_flush_caches(); if(iso_alloc_detect_leaks() != leak_truth()) die("the leak report is wrong after initialising"); }
#endif
}
void say(const char *w) { phases++; (void) !write(1, w, strlen(w)); }
void pre(int argc, char **argv, char **envp) {
    for(char **e = envp; e && *e; e++) if(!strncmp(*e, "VH_CASE=", 8)) { is_child = true; flags = strtoul(*e + 8, NULL, 16); }
    for(char **e = envp; e && *e; e++) if(!strncmp(*e, "VH_CSEED=", 9)) st = strtoull(*e + 9, NULL, 0);
    if(!is_child) return;
    if(flags & INIT_PRE) initialise("initialising before constructors");
    if(flags & PRE) { work(20 + rnd() % 200); say("pre "); }
}
__attribute__((constructor(102))) void ctor1() { if(!is_child) return; if(flags & INIT_CTOR) initialise("initialising in a constructor"); if(flags & CTOR) { check_all("in the first constructor"); work(20 + rnd() % 100); say("ctor1 "); } }
__attribute__((constructor)) void ctor2() { if(!is_child || !(flags & CTOR)) return; check_all("in a constructor"); work(20 + rnd() % 100); say("ctor2 "); }
void at_exit() { check_all("in an exit handler"); work(30); say("atexit "); }
void dtor_work(const char *w) {
    if(!is_child || !(flags & DTOR)) return;
    check_all(w);
    for(int i = 0; i < nb; i++) { blks[i].k ^= 0x5a; memset(blks[i].p, blks[i].k, blks[i].n); }
    if(flags & RELEASE) work(60);
    check_all(w);
    say(w);
}
__attribute__((destructor(65535))) void dtor0() { dtor_work("dtor0 "); }
__attribute__((destructor(1000))) void dtor1() { dtor_work("dtor1 "); }
__attribute__((destructor(101))) void dtor2() { dtor_work("dtor2 "); if(is_child) say("END\n"); }
struct Glob { ~Glob() { dtor_work("globals "); } } glob;
std::atomic<long> thr_ops;
void *thr(void *a) {
    uint8_t *own[8] = {};
    for(uint64_t i = 0;; i++) {
        int k = i % 8;
        if(own[k]) { if(own[k][0] != k || own[k][499] != k) die("a block of a thread changed"); iso_free(own[k]); }
        own[k] = (uint8_t *) iso_alloc(500 + k * 100);
        if(!own[k]) die("a thread got NULL");
        own[k][0] = own[k][499] = k;
        thr_ops++;
        if(i % 64 == 0) usleep(50);
    }
}
int child_main() {
#if !VH_CFG_AUTO_CTOR_DTOR
    if(!(flags & (INIT_PRE | INIT_CTOR))) initialise("first initialisation");
#endif
    check_all("in main");
    if(flags & QUICK_INIT) { for(int i = 0; i < 6; i++) { initialise("repeated initialisation"); work(5); } }
    work(100 + rnd() % 300);
    if(flags & ZONES) zones();
    if(flags & INIT_MAIN) initialise("initialising in main");
    if(flags & ATEXIT) { atexit(at_exit); if(rnd() & 1) atexit(at_exit); }
    if(flags & THREADS) { phases += 100; for(int i = 0; i < 2; i++) { pthread_t t; pthread_create(&t, NULL, thr, NULL); pthread_detach(t); } while(thr_ops < 200) usleep(100); }
#if !VH_CFG_ISO_DTOR_CLEANUP
    if(flags & DESTROY) { int n = 1 + rnd() % 2; for(int i = 0; i < n; i++) iso_alloc_destroy(); check_all("after explicit destruction"); work(50 + rnd() % 100); if(flags & INIT_MAIN) initialise("initialising after destruction"); work(20); }
#endif
    check_all("late in main");
    iso_verify_zones();
#if VH_CFG_ISO_DTOR_CLEANUP && !VH_CFG_AUTO_CTOR_DTOR
    int n = flags & CYCLES ? 12 : 1;
    for(int i = 0; i < n; i++) {
        int zb = 0;
        nb = 0; /* live or not, destruction returns it */
        iso_alloc_destroy();
        if(VH_CFG_ALLOC_SANITY) for(int k = sysi::nregs; k-- > 0;) if(sysi::regs[k].len == 3 * 4096) sysi::regs[k] = sysi::regs[--sysi::nregs]; /* live sampled blocks belong to no zone and stay */
        if(sysi::nregs) { for(int k = 0; k < sysi::nregs; k++) zb += sysi::regs[k].len >> 10; char b[200]; snprintf(b, sizeof b, "%d mappings (%d KB, the first of %zu bytes) are left after destruction", sysi::nregs, zb, sysi::regs[0].len); die(b); }
        if(flags & RELEASE) iso_alloc_destroy(); /* nothing to do */
        if(i + 1 < n) { initialise("initialising again"); work(100 + rnd() % 200); if(flags & ZONES) zones(); if(flags & INIT_MAIN) initialise("again"); check_all("after initialising again"); iso_verify_zones(); }
    }
    nb = 0;
    say("destroyed ");
#endif
    if(flags & CORRUPT) { /* write after free over the guard value of a block */
        uint8_t *v[64];
        for(auto &p : v) { p = (uint8_t *) iso_alloc(1024); memset(p, 1, 1024); }
        size_t g_cs = iso_chunksz(v[20]);
        for(auto p : v) iso_free_size(p, 1024);
        iso_flush_caches();
        { size_t cs = 1024; cs = g_cs; v[20][cs - 1 - rnd() % 7] ^= 0x40; }
    }
    say("main ");
    if(flags & EARLY_EXIT) exit(0);
    return 0;
}
__attribute__((section(".preinit_array"), used)) void (*const preinit_)(int, char **, char **) = pre;
} // namespace
int main(int argc, char **argv) {
    if(is_child) return child_main();
    using namespace vh;
    init(argc, argv);
    Rng r(g_seed);
    long rounds = argi(argc, argv, "--rounds", 80);
    for(long i = 0; i < rounds && S.viols < 3; i++) {
        unsigned f = r.next() & ((1u << NBITS) - 1);
        if(r.chance(2, 3)) f &= ~(unsigned) CORRUPT;
        if(!VH_CFG_AUTO_CTOR_DTOR) { f |= r.chance(1, 2) ? INIT_PRE : 0; if(!(f & INIT_PRE)) f &= ~(unsigned) (PRE); if(!(f & (INIT_PRE | INIT_CTOR))) f &= ~(unsigned) CTOR; f &= ~(unsigned) CORRUPT; }
        if(VH_CFG_DISABLE_CANARY) f &= ~(unsigned) CORRUPT;
        if(VH_CFG_ISO_DTOR_CLEANUP) f &= ~(unsigned) (ATEXIT | DTOR | THREADS | DESTROY | CORRUPT);
        if(!VH_CFG_THREAD_SUPPORT) f &= ~(unsigned) THREADS;
        if(VH_CFG_ALLOC_SANITY) f &= ~(unsigned) CORRUPT; /* the corrupted block may be a sampled one */
        uint64_t cs = r.next();
        phase("flags %x seed %llu", f, (unsigned long long) cs);
        Res c;
        {
            char a[64], b[64];
            snprintf(a, sizeof a, "%x", f);
            snprintf(b, sizeof b, "%llu", (unsigned long long) cs);
            c = child([&] { setenv("VH_CASE", a, 1); setenv("VH_CSEED", b, 1); execl("/proc/self/exe", "self", (char *) NULL); _exit(99); }, 60);
        }
        bool end = c.out.find("END\n") != std::string::npos;
        if(f & CORRUPT) {
            if(!c.aborted()) vio("unverified", "a corrupted guard value at exit: %s (flags %x seed %llu)", c.str().c_str(), f, (unsigned long long) cs);
            tally("corrupt_exits");
        } else {
            if(!c.ok() || !end) vio("run", "start-up and exit with flags %x (child seed %llu): %s", f, (unsigned long long) cs, c.str().c_str());
            if((f & PRE) && c.out.find("pre ") == std::string::npos) vio("run", "pre-initialisation work did not run: %s", c.str().c_str());
            if((f & DTOR) && c.out.find("dtor2 ") == std::string::npos) vio("run", "late destructor work did not finish: %s", c.str().c_str());
            tally("clean_runs");
        }
        if(f & PRE) tally("early_allocations");
        if(f & DTOR) tally("late_uses");
        if(f & DESTROY) tally("destroyed");
        if(f & (INIT_PRE | INIT_CTOR | INIT_MAIN | QUICK_INIT)) tally("initialised");
        eval(mix(f, 3));
    }
    sample("%ld runs: %lld clean, %lld with corruption", rounds, (long long) S.stats["clean_runs"], (long long) S.stats["corrupt_exits"]);
    finish();
}
