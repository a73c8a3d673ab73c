/* Support code shared by all monitors: reporting, seeded randomness,
 * process maps, forked misuse runs, and the shadow heap oracle.
 * Nothing here looks at the allocator's internals. */
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <setjmp.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/random.h>
#include <sys/prctl.h>
#include <poll.h>
#include <assert.h>
#include <pthread.h>
#include <sched.h>
#include <map>
#include <vector>
#include <string>
#include <functional>
#include <unordered_set>
#include <unordered_map>
#include <algorithm>
#include <atomic>

extern "C" {
#include "iso_alloc.h"
}

#define OPAQUE(p) __asm__ volatile("" : "+r"(p) : : "memory")
#define NOINLINE __attribute__((noinline))

namespace vh {

/* ------------------------------------------------------------------ rng */
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
};
static inline uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t z = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15F39CC060ull + (a << 6) + (a >> 2));
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    return z ^ (z >> 27);
}

/* ------------------------------------------------------------- reporting */
struct State {
    int fd = -1;
    std::string out;
    long viols = 0;
    long samples = 0;
    std::map<std::string, long long> stats;
    std::unordered_set<uint64_t> sigs;
    char phase[512] = "start";
    pid_t pid = 0;
};
static State S;
static uint64_t g_seed = 1;
static bool g_thorough = false;

static inline void emit(const char *s, size_t n) {
    if(S.fd >= 0) {
        ssize_t r = write(S.fd, s, n);
        (void) r;
    } else {
        ssize_t r = write(2, s, n);
        (void) r;
    }
}
static inline void clean(char *b) {
    for(; *b; b++)
        if(*b == '\n' || *b == '\t') *b = ' ';
}
static void vio(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
static void finish(int code = 0);
static void vio(const char *key, const char *fmt, ...) {
    char b[1500], l[2300];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    clean(b);
    int n = snprintf(l, sizeof l, "VIOL\t%s\t%s [at: %s]\n", key, b, S.phase);
    emit(l, n);
    if(++S.viols >= 12 && getpid() == S.pid) finish(0);
}
static void sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
static void sample(const char *fmt, ...) {
    if(S.samples++ >= 4) return;
    char b[900], l[1000];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    clean(b);
    int n = snprintf(l, sizeof l, "SAMPLE\t%s\n", b);
    emit(l, n);
}
static inline void tally(const char *k, long long n = 1) { S.stats[k] += n; }
static inline void tally_max(const char *k, long long n) {
    auto &v = S.stats[k];
    if(n > v) v = n;
}
/* one evaluated case; its signature says what made it distinct */
static inline void eval(uint64_t sig) {
    S.stats["evals"]++;
    if(S.sigs.size() < 2000000) S.sigs.insert(sig);
}
static void phase(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
static void phase(const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(S.phase, sizeof S.phase, fmt, ap);
    va_end(ap);
    clean(S.phase);
}
static void finish(int code) {
    for(auto &k : S.stats) {
        char l[300];
        int n = snprintf(l, sizeof l, "STAT\t%s\t%lld\n", k.first.c_str(), k.second);
        emit(l, n);
    }
    if(!S.out.empty()) {
        std::string f = S.out + ".sig";
        int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        if(fd >= 0) {
            std::vector<uint64_t> v(S.sigs.begin(), S.sigs.end());
            const char *d = (const char *) v.data();
            size_t left = v.size() * 8;
            while(left) {
                ssize_t w = write(fd, d, left);
                if(w <= 0) break;
                d += w;
                left -= w;
            }
            close(fd);
        }
    }
    emit("DONE\n", 5);
    if(code >= 0) {
        fflush(NULL);
        _exit(code);
    }
}
static char *g_altstack;
static void crash_handler(int sig, siginfo_t *si, void *) {
    if(getpid() == S.pid) {
        char l[700];
        int n = snprintf(l, sizeof l, "CRASH\t%d\t%s\t%p\n", sig, S.phase, si ? si->si_addr : NULL);
        emit(l, n);
    }
    _exit(128 + sig);
}
static const int g_sigs[] = {SIGABRT, SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGTRAP};
static void default_signals() {
    for(int s : g_sigs) signal(s, SIG_DFL);
}
static void install_handlers() {
#if !defined(VH_NO_HANDLERS)
    g_altstack = (char *) syscall(SYS_mmap, NULL, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    stack_t ss = {};
    ss.ss_sp = g_altstack;
    ss.ss_size = 65536;
    sigaltstack(&ss, NULL);
    struct sigaction sa = {};
    sa.sa_sigaction = crash_handler;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for(int s : g_sigs) sigaction(s, &sa, NULL);
#endif
}
static long argi(int argc, char **argv, const char *name, long dflt) {
    for(int i = 1; i + 1 < argc; i++)
        if(!strcmp(argv[i], name)) return strtol(argv[i + 1], NULL, 0);
    return dflt;
}
static const char *args(int argc, char **argv, const char *name, const char *dflt) {
    for(int i = 1; i + 1 < argc; i++)
        if(!strcmp(argv[i], name)) return argv[i + 1];
    return dflt;
}
static void init(int argc, char **argv) {
    S.pid = getpid();
    const char *o = getenv("VH_OUT");
    if(o) {
        S.out = o;
        S.fd = open(o, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
    }
    g_seed = argi(argc, argv, "--seed", 1);
    const char *t = getenv("VERIF_TIER");
    g_thorough = t && !strcmp(t, "thorough");
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    install_handlers();
}

/* ------------------------------------------------------------------ maps */
struct Map {
    uintptr_t start, end;
    char perm[5];
    bool anon;
    bool r() const { return perm[0] == 'r'; }
    bool w() const { return perm[1] == 'w'; }
    bool none() const { return perm[0] == '-' && perm[1] == '-' && perm[2] == '-'; }
};
static std::vector<Map> maps() {
    static char *buf;
    static size_t cap = 16u << 20;
    if(!buf) buf = (char *) syscall(SYS_mmap, NULL, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    int fd = open("/proc/self/maps", O_RDONLY | O_CLOEXEC);
    size_t n = 0;
    for(;;) {
        ssize_t r = read(fd, buf + n, cap - 1 - n);
        if(r <= 0) break;
        n += r;
    }
    close(fd);
    buf[n] = 0;
    std::vector<Map> v;
    char *p = buf;
    while(*p) {
        Map m = {};
        char *e;
        m.start = strtoull(p, &e, 16);
        m.end = strtoull(e + 1, &e, 16);
        memcpy(m.perm, e + 1, 4);
        char *nl = strchr(e, '\n');
        if(!nl) break;
        /* no path => anonymous */
        char *q = nl - 1;
        while(q > e && *q == ' ') q--;
        std::string line(e, q + 1);
        size_t fields = 0;
        bool in = false;
        for(char c : line) {
            if(c != ' ' && !in) {
                in = true;
                fields++;
            } else if(c == ' ')
                in = false;
        }
        m.anon = fields <= 4 || line.find("[anon") != std::string::npos;
        v.push_back(m);
        p = nl + 1;
    }
    return v;
}
static const Map *find_map(const std::vector<Map> &v, uintptr_t a) {
    for(auto &m : v)
        if(a >= m.start && a < m.end) return &m;
    return NULL;
}
/* readable/writable without risk: ask the kernel */
static bool readable(const void *p) {
    static int pfd[2] = {-1, -1};
    static pid_t owner;
    if(pfd[0] < 0 || owner != getpid()) {
        if(pipe(pfd)) abort();
        owner = getpid();
        fcntl(pfd[0], F_SETFL, O_NONBLOCK);
        fcntl(pfd[1], F_SETFL, O_NONBLOCK);
    }
    ssize_t w = write(pfd[1], p, 1);
    if(w == 1) {
        char c;
        ssize_t r = read(pfd[0], &c, 1);
        (void) r;
        return true;
    }
    return false;
}

/* -------------------------------------------------------- forked children */
struct Res {
    int sig = 0;
    int code = 0;
    bool hang = false;
    std::string out; /* child's stdout */
    bool aborted() const { return sig == SIGABRT; }
    bool ok() const { return !hang && sig == 0 && code == 0; }
    std::string str() const {
        char b[64];
        if(hang) return "hang";
        if(sig) snprintf(b, sizeof b, "signal %d", sig);
        else snprintf(b, sizeof b, "exit %d", code);
        std::string s = b;
        if(!out.empty()) s += " (" + out.substr(0, 300) + ")";
        return s;
    }
};
/* exit code used by children for "body completed" */
static Res child(const std::function<void()> &fn, unsigned timeout_s = 60, bool run_exit = false) {
    Res r;
    for(int attempt = 0; attempt < 2; attempt++) {
        r = Res();
        int pfd[2];
        if(pipe(pfd)) abort();
        fflush(NULL);
        pid_t c = fork();
        if(c < 0) {
            close(pfd[0]);
            close(pfd[1]);
            usleep(100000);
            r.hang = true;
            continue;
        }
        if(c == 0) {
            default_signals();
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            dup2(pfd[1], 1);
            dup2(pfd[1], 2);
            close(pfd[0]);
            close(pfd[1]);
            fn();
            if(run_exit) {
                exit(0);
            }
            _exit(0);
        }
        close(pfd[1]);
        struct timespec t0, t;
        clock_gettime(CLOCK_MONOTONIC, &t0);
        fcntl(pfd[0], F_SETFL, O_NONBLOCK);
        int st = 0;
        bool dead = false;
        while(!dead) {
            struct pollfd pf = {pfd[0], POLLIN, 0};
            poll(&pf, 1, 200);
            char b[4096];
            ssize_t n;
            while((n = read(pfd[0], b, sizeof b)) > 0)
                if(r.out.size() < 8000) r.out.append(b, n);
            if(n == 0) { /* all writers gone */
                clock_gettime(CLOCK_MONOTONIC, &t);
                if(waitpid(c, &st, WNOHANG) == c) {
                    dead = true;
                    break;
                }
            } else if(waitpid(c, &st, WNOHANG) == c) {
                while((n = read(pfd[0], b, sizeof b)) > 0)
                    if(r.out.size() < 8000) r.out.append(b, n);
                dead = true;
                break;
            }
            clock_gettime(CLOCK_MONOTONIC, &t);
            if(n == 0) usleep(200);
            if(t.tv_sec - t0.tv_sec > (long) timeout_s) {
                kill(c, SIGKILL);
                waitpid(c, &st, 0);
                r.hang = true;
                break;
            }
        }
        close(pfd[0]);
        if(r.hang) {
            tally("child_timeouts");
            continue; /* one retry before believing a hang */
        }
        if(WIFSIGNALED(st)) r.sig = WTERMSIG(st);
        else r.code = WEXITSTATUS(st);
        break;
    }
    return r;
}

/* ---------------------------------------------------- fault-tolerant probes */
static sigjmp_buf g_probe_jb;
static volatile int g_probe_armed;
static void probe_handler(int, siginfo_t *, void *) {
    if(g_probe_armed) siglongjmp(g_probe_jb, 1);
    default_signals();
}
/* true if a one byte load / store at p faults. Not thread safe. */
static NOINLINE bool faults(volatile uint8_t *p, bool write) {
    struct sigaction sa = {}, o1, o2;
    sa.sa_sigaction = probe_handler;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGSEGV, &sa, &o1);
    sigaction(SIGBUS, &sa, &o2);
    volatile bool f = false;
    if(sigsetjmp(g_probe_jb, 1) == 0) {
        g_probe_armed = 1;
        if(write) *p = 0x5a;
        else {
            volatile uint8_t v = *p;
            (void) v;
        }
    } else
        f = true;
    g_probe_armed = 0;
    sigaction(SIGSEGV, &o1, NULL);
    sigaction(SIGBUS, &o2, NULL);
    return f;
}

/* ----------------------------------------------------------- shadow heap */
struct Block {
    size_t size;    /* bytes the program asked for (and may use) */
    uint64_t pat;   /* content pattern seed */
    uint32_t kind;  /* user tag */
    void *zone;
    size_t extra;
};
static inline uint64_t patword(uint64_t seed, size_t i) { return mix(seed, i) | 0x0101010101010101ull; }
static void fill(void *p, size_t n, uint64_t seed) {
    uint8_t *b = (uint8_t *) p;
    size_t w = n / 8;
    size_t step = n <= 16384 ? 1 : (n / 8192);
    for(size_t i = 0; i < w; i++) {
        if(step > 1 && i > 64 && i + 64 < w && i % step) continue;
        uint64_t v = patword(seed, i);
        memcpy(b + i * 8, &v, 8);
    }
    for(size_t i = w * 8; i < n; i++) b[i] = (uint8_t) (patword(seed, w) >> ((i & 7) * 8));
}
/* index of first differing byte or -1 */
static ssize_t differs(const void *p, size_t n, uint64_t seed, size_t orig_n = 0) {
    if(!orig_n) orig_n = n;
    const uint8_t *b = (const uint8_t *) p;
    size_t w = orig_n / 8;
    size_t step = orig_n <= 16384 ? 1 : (orig_n / 8192);
    for(size_t i = 0; i < w && i * 8 + 8 <= n; i++) {
        if(step > 1 && i > 64 && i + 64 < w && i % step) continue;
        uint64_t v = patword(seed, i), x;
        memcpy(&x, b + i * 8, 8);
        if(x != v) return i * 8;
    }
    if(n == orig_n)
        for(size_t i = w * 8; i < n; i++)
            if(b[i] != (uint8_t) (patword(seed, w) >> ((i & 7) * 8))) return i;
    return -1;
}
struct Shadow {
    std::map<uintptr_t, Block> live;
    std::vector<uintptr_t> order; /* for random picks; may hold stale entries */
    uint64_t ctr = 0;
    size_t min_align = 16;
    /* registers a fresh allocation; reports overlap/misalignment */
    bool add(const char *who, void *vp, size_t size, uint32_t kind = 0, void *zone = NULL, bool dofill = true, size_t extra = 0) {
        uintptr_t p = (uintptr_t) vp;
        bool good = true;
        if(p % min_align) {
            vio("misaligned", "%s(%zu) returned %p, not %zu byte aligned", who, size, vp, min_align);
            good = false;
        }
        auto it = live.upper_bound(p);
        if(it != live.end() && it->first < p + size) {
            vio("overlap", "%s(%zu) returned %p overlapping live block %p size %zu", who, size, vp, (void *) it->first, it->second.size);
            good = false;
        }
        if(it != live.begin()) {
            --it;
            if(it->first + std::max<size_t>(it->second.size, 1) > p) {
                vio("overlap", "%s(%zu) returned %p inside live block %p size %zu", who, size, vp, (void *) it->first, it->second.size);
                good = false;
            }
        }
        if(!good) return false;
        Block b = {size, ++ctr * 0x9E37 + 77, kind, zone, extra};
        if(dofill) fill(vp, size, b.pat);
        live[p] = b;
        order.push_back(p);
        return true;
    }
    bool check(uintptr_t p, const char *when) {
        auto it = live.find(p);
        if(it == live.end()) return true;
        ssize_t d = differs((void *) p, it->second.size, it->second.pat);
        if(d >= 0) {
            vio("content", "live block %p size %zu changed at offset %zd (%s)", (void *) p, it->second.size, d, when);
            fill((void *) p, it->second.size, it->second.pat);
            return false;
        }
        return true;
    }
    void check_all(const char *when) {
        for(auto &k : live) check(k.first, when);
    }
    bool has(uintptr_t p) const { return live.count(p) != 0; }
    void del(uintptr_t p) { live.erase(p); }
    /* random live block, 0 if none */
    uintptr_t pick(Rng &r) {
        while(!order.empty()) {
            size_t i = r.below(order.size());
            uintptr_t p = order[i];
            if(live.count(p)) return p;
            order[i] = order.back();
            order.pop_back();
        }
        return 0;
    }
    /* removes stale order entries occasionally duplicated by reuse */
    void compact() {
        if(order.size() < live.size() * 2 + 1024) return;
        order.clear();
        for(auto &k : live) order.push_back(k.first);
    }
};

/* A size generator that leans on boundaries. */
static size_t pick_size(Rng &r, size_t max) {
    static const size_t edges[] = {32, 64, 96, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 1048576};
    size_t s;
    switch(r.below(8)) {
    case 0: case 1: s = r.range(1, 64); break;
    case 2: s = r.range(1, 1024); break;
    case 3: s = edges[r.below(15)] + r.range(0, 66) - 33; break;
    case 4: s = 32 * r.range(1, 64) + r.below(3) - 1; break;
    case 5: s = r.range(1, 8200); break;
    case 6: s = r.range(1, 65600); break;
    default: s = (size_t) 1 << r.range(0, 17); s += r.below(s); break;
    }
    if(s < 1) s = 1;
    if(s > max) s = 1 + s % max;
    return s;
}
/* coarse class of a size, for case signatures */
static inline uint64_t szclass(size_t s) {
    if(s <= 1024) return (s + 31) / 32;
    unsigned l = 63 - __builtin_clzll(s);
    return 64 + l * 8 + ((s >> (l - 3)) & 7);
}
} // namespace vh

/* --------------------------------------------- interposed entropy source */
#ifndef VH_NO_GETRANDOM
namespace vh {
static int g_rand_mode; /* 0 unset 1 seeded 2 const 3 real */
static uint64_t g_rand_state, g_rand_const;
static long g_rand_calls, g_rand_fail_at = -1, g_rand_fail_mode, g_rand_failed;
static pthread_mutex_t g_rand_mu = PTHREAD_MUTEX_INITIALIZER;
}
extern "C" ssize_t getrandom(void *b, size_t n, unsigned flags) __attribute__((visibility("default")));
#if defined(__has_feature)
#if __has_feature(thread_sanitizer) || __has_feature(address_sanitizer)
#define VH_NOSAN __attribute__((no_sanitize("thread", "address", "undefined")))
#endif
#endif
#ifndef VH_NOSAN
#define VH_NOSAN
#endif
extern "C" VH_NOSAN ssize_t getrandom(void *b, size_t n, unsigned flags) {
    using namespace vh;
    if(g_rand_mode == 0) {
        const char *e = getenv("VH_RAND");
        if(!e) g_rand_mode = 3;
        else if(!strncmp(e, "seed:", 5)) {
            g_rand_mode = 1;
            g_rand_state = strtoull(e + 5, NULL, 0) * 0x9E3779B97F4A7C15ull + 99;
        } else if(!strncmp(e, "const:", 6)) {
            g_rand_mode = 2;
            g_rand_const = strtoull(e + 6, NULL, 0);
        } else
            g_rand_mode = 3;
        const char *f = getenv("VH_RAND_FAIL");
        if(f) {
            g_rand_fail_at = strtol(f, NULL, 0);
            const char *m = getenv("VH_RAND_FAIL_MODE");
            g_rand_fail_mode = m ? strtol(m, NULL, 0) : 0;
        }
    }
    pthread_mutex_lock(&g_rand_mu);
    long c = ++g_rand_calls;
    if(g_rand_fail_at > 0 && ((g_rand_fail_mode & 4) ? c == g_rand_fail_at : c >= g_rand_fail_at)) {
        g_rand_failed++;
        pthread_mutex_unlock(&g_rand_mu);
        if((g_rand_fail_mode & 3) == 1) { /* short read */
            if(n > 3) { memset(b, 0, 3); return 3; }
            return 0;
        }
        errno = (g_rand_fail_mode & 3) == 2 ? ENOSYS : EAGAIN;
        return -1;
    }
    if(g_rand_mode == 3) {
        pthread_mutex_unlock(&g_rand_mu);
        return syscall(SYS_getrandom, b, n, flags);
    }
    uint8_t *p = (uint8_t *) b;
    for(size_t i = 0; i < n; i += 8) {
        uint64_t v;
        if(g_rand_mode == 1) {
            uint64_t z = (g_rand_state += 0x9E3779B97F4A7C15ull);
            z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
            z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
            v = z ^ (z >> 31);
        } else
            v = g_rand_const;
        for(size_t k = 0; k < 8 && i + k < n; k++) p[i + k] = (uint8_t) (v >> (8 * k));
    }
    pthread_mutex_unlock(&g_rand_mu);
    return n;
}
#endif
