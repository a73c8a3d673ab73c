/* Failing system calls, during initialisation (fresh processes) and operation (forks):
 * the process must abort, or go on with memory as safe as ever. */
#include "heap.h"
#include "sys.h"
using namespace vh;
namespace {
struct Pend { uintptr_t a; size_t len; };
Pend pend[256]; /* ranges that were to become inaccessible but did not */
int np;
void drop(uintptr_t a, size_t len) {
    for(int i = 0; i < np; i++) if(pend[i].a < a + len && a < pend[i].a + pend[i].len) pend[i--] = pend[--np];
}
void hooks() {
    sysi::on_fail = [](int, uintptr_t a, size_t len, int prot) { if(prot == PROT_NONE && np < 256) pend[np++] = {a, len}; };
    sysi::on_unmap = drop;
    sysi::on_map = drop;
    sysi::on_protect = [](uintptr_t a, size_t len, int) { drop(a, len); };
}
/* the state of a process that survived a fault */
void judge(Heap &h) {
    for(int i = 0; i < np; i++) if(readable((void *) pend[i].a)) { vio("unprotected", "the range %zx of %zu bytes was to become inaccessible, the system call failed and the process went on with it open", (size_t) pend[i].a, pend[i].len); break; }
    std::unordered_set<int> seen;
    for(auto &b : h.sh.live) {
        if(b.second.size > 65536) continue;
        for(int i = 0; i < sysi::nregs; i++) if(b.first >= sysi::regs[i].a && b.first < sysi::regs[i].a + sysi::regs[i].len) {
            if(!seen.insert(i).second) break;
            if(readable((void *) sysi::regs[i].a) || readable((void *) (sysi::regs[i].a + sysi::regs[i].len - 4096))) vio("no-guard", "a zone of %zu bytes holds a live block but has no guard page at an end", sysi::regs[i].len);
            break;
        }
    }
}
void set_fail(int kind, long n, bool all) {
    if(kind < 4) { sysi::fail_at[kind] = n; sysi::fail_all[kind] = all; }
    else { g_rand_fail_at = g_rand_calls + n; g_rand_fail_mode = (kind - 4) | (all ? 0 : 4); }
}
void history(uint64_t seed, long ops) {
    Heap h(seed);
    h.strong = VH_CFG_STRONG_SIZE_ISOLATION;
    h.null_ok = true;
    h.max_live = 12u << 20, h.max_size = 300000;
    h.w[O_NEW_ZONE] = 12, h.w[O_DEL_ZONE] = 6, h.w[O_BIG] = 60, h.w[O_FREE_PERM] = 10, h.w[O_BURST] = ops > 300 ? 3 : 0, h.w[O_CHURN] = h.w[O_DRAIN] = 0;
#if VH_CFG_ABORT_ON_NULL
    h.w[O_ZONE_ALLOC] = h.w[O_ZONE_STRDUP] = 0;
#endif
    for(long i = 0; i < ops; i++) {
        h.step();
        if(i % 97 == 0) { iso_alloc_protect_root(); iso_alloc_unprotect_root(); }
        if(sysi::failed + g_rand_failed && i > ops / 2) { if(i % 20 == 0) { judge(h); h.sh.check_all("after the fault"); } }
        if(S.viols) break;
    }
    judge(h);
    h.sh.check_all("end");
    h.end();
}
int f_kind = -1;
long f_n;
bool f_all;
void pre(int, char **, char **envp) {
    for(char **e = envp; e && *e; e++) if(!strncmp(*e, "VH_FAIL=", 8)) {
        char *p = *e + 8;
        f_kind = strtol(p, &p, 10);
        f_n = strtol(p + 1, &p, 10);
        f_all = strtol(p + 1, &p, 10);
        hooks();
        if(f_kind < 7) set_fail(f_kind, f_n, f_all);
    }
}
__attribute__((section(".preinit_array"), used)) void (*const preinit_)(int, char **, char **) = pre;
const char *kinds[] = {"mmap", "munmap", "mprotect", "madvise", "getrandom (EAGAIN)", "getrandom (short)", "getrandom (ENOSYS)", "no fault"};
void init_child() { /* fresh process: initialisation under faults, then a short history */
    volatile long c[4];
    for(int i = 0; i < 4; i++) c[i] = sysi::calls[i];
    long g = g_rand_calls;
    g_seed = f_n * 8 + f_kind;
#if !VH_CFG_AUTO_CTOR_DTOR
    iso_alloc_initialize();
    for(int i = 0; i < 4; i++) c[i] = sysi::calls[i];
    g = g_rand_calls;
#endif
    history(f_n + 77, 150);
    char b[200];
    int n = snprintf(b, sizeof b, "CALLS %ld %ld %ld %ld %ld FAILED %ld %ld\n", c[0], c[1], c[2], c[3], g, (long) sysi::failed, g_rand_failed);
    (void) !write(1, b, n);
    exit(S.viols ? 9 : 0);
}
void verdict(const Res &c, const char *where, int kind, long n, bool all) {
    long fs = 0, fg = 0;
    const char *p = strstr(c.out.c_str(), "FAILED ");
    if(p) sscanf(p, "FAILED %ld %ld", &fs, &fg);
    bool rnd = kind >= 4 && kind < 7;
    if(c.aborted()) { tally("aborted"); tally(rnd ? "aborted_entropy" : kind == 0 ? "aborted_mmap" : kind == 2 ? "aborted_mprotect" : "aborted_other"); }
    else if(!c.ok()) vio("unsafe", "%s call %ld of %s%s fails: %s", where, n, kinds[kind], all ? " and all later ones" : "", c.str().c_str());
    else {
        if(rnd && VH_CFG_ABORT_NO_ENTROPY && fg) vio("predictable", "%s call %ld of %s%s failed and the process went on without entropy", where, n, kinds[kind], all ? " and all later ones" : "");
        tally(fs + fg ? "survived" : "not_reached");
    }
    eval(mix(mix(kind * 2 + all, n), c.aborted() * 2 + (fs + fg > 0)));
}
} // namespace
int main(int argc, char **argv) {
    if(f_kind >= 0) init_child();
    init(argc, argv);
    Rng r(g_seed);
    long maxinit = argi(argc, argv, "--init", 150), forks = argi(argc, argv, "--forks", 60);
    auto fresh = [&](int kind, long n, bool all) {
        char e[64];
        snprintf(e, sizeof e, "%d,%ld,%d", kind, n, all);
        return child([&] { setenv("VH_FAIL", e, 1); execl("/proc/self/exe", "self", (char *) NULL); _exit(99); }, 60);
    };
    phase("fault-free initialisation");
    Res c = fresh(7, 0, false);
    long cnt[5] = {};
    const char *p = strstr(c.out.c_str(), "CALLS ");
    if(!c.ok() || !p) vio("run", "fault-free run: %s", c.str().c_str());
    else {
        sscanf(p, "CALLS %ld %ld %ld %ld %ld", cnt, cnt + 1, cnt + 2, cnt + 3, cnt + 4);
        long cases = 0, tot = 2 * (cnt[0] + cnt[1] + cnt[2]) + 2 + 3 * 2 * cnt[4];
        /* every single call and every suffix of the calls made by initialisation, or a sample of them */
        for(int kind = 0; kind < 7; kind++) {
            long m = kind < 4 ? cnt[kind] : cnt[4];
            for(int all = 0; all < 2; all++) for(long n = 1; n <= m && S.viols < 3; n++) {
                if(kind == 3 && n > 1 && !g_thorough && !r.chance(1, 20)) continue;
                if(tot > maxinit && !r.chance(maxinit, tot)) continue;
                phase("initialisation, call %ld of %s, later ones %d", n, kinds[kind], all);
                verdict(fresh(kind, n, all), "initialisation:", kind, n, all);
                cases++;
            }
        }
        tally("init_faults", cases);
        tally("init_calls", cnt[0] + cnt[1] + cnt[2] + cnt[3] + cnt[4]);
    }
    /* ---- during operation */
    hooks();
#if !VH_CFG_AUTO_CTOR_DTOR
    iso_alloc_initialize();
#endif
    { Heap w(g_seed); w.strong = VH_CFG_STRONG_SIZE_ISOLATION; w.run(1500); w.end(); }
    for(long i = 0; i < forks && S.viols < 3; i++) {
        uint64_t hs = r.next();
        int kind = r.below(8);
        bool all = r.chance(1, 2);
        long n = r.chance(1, 3) ? r.range(1, 4) : r.range(1, kind == 3 ? 120 : 30);
        long as = 0;
        if(kind == 7) as = r.range(1, 120);
        phase("operation, history %llx, call %ld of %s, later ones %d, limit %ld", (unsigned long long) hs, n, kind == 7 ? "nothing" : kinds[kind], all, as);
        c = child([&] {
            S.fd = -1;
            S.pid = getpid();
            if(kind == 7) { /* a real limit on the address space */
                FILE *f = fopen("/proc/self/statm", "r");
                long pages = 0;
                if(fscanf(f, "%ld", &pages) != 1) _exit(0);
                fclose(f);
                struct rlimit rl = {(rlim_t) pages * 4096 + (rlim_t) as * (1 << 20), RLIM_INFINITY};
                setrlimit(RLIMIT_AS, &rl);
            } else
                set_fail(kind, n, all);
            long f0 = sysi::failed;
            history(hs, 400);
            char b[100];
            int k = snprintf(b, sizeof b, "FAILED %ld %ld\n", (long) sysi::failed - f0, g_rand_failed);
            (void) !write(1, b, k);
            _exit(S.viols ? 9 : 0);
        }, 60);
        verdict(c, "operation:", kind, kind == 7 ? as : n, all);
        tally(kind == 7 ? "limit_runs" : "operation_faults");
    }
    sample("%lld faults during initialisation (%lld calls), %lld during operation; %lld aborted, %lld survived", (long long) S.stats["init_faults"], (long long) S.stats["init_calls"], (long long) S.stats["operation_faults"], (long long) S.stats["aborted"], (long long) S.stats["survived"]);
    finish();
}
