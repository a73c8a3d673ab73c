/* Interposed mapping calls: the library, linked into the monitor, calls these.
 * They record which address ranges the allocator holds, can fail on demand and
 * can yield to widen race windows. Everything is allocation free. */
#pragma once
#include "vh.h"
#ifndef VH_NOSAN
#define VH_NOSAN
#endif
namespace sysi {
enum { K_MMAP, K_MUNMAP, K_MPROTECT, K_MADVISE, K_N };
struct Reg {
    uintptr_t a;
    size_t len;
};
static Reg regs[1 << 16];
static int nregs;
static std::atomic<long> calls[K_N];
static volatile int yield_den;      /* 1/yield_den of the calls yield */
static volatile long fail_at[K_N];  /* fail the n-th call from now on (0: never) */
static volatile bool fail_all[K_N]; /* and all later ones */
static std::atomic<long> failed;
static void (*on_fail)(int kind, uintptr_t a, size_t len, int prot);
static void (*on_unmap)(uintptr_t a, size_t len);
static void (*on_map)(uintptr_t a, size_t len);
static void (*on_protect)(uintptr_t a, size_t len, int prot);
static std::atomic_flag mu = ATOMIC_FLAG_INIT;
struct G {
    VH_NOSAN G() { while(mu.test_and_set(std::memory_order_acquire)) sched_yield(); }
    VH_NOSAN ~G() { mu.clear(std::memory_order_release); }
};
static VH_NOSAN void add(uintptr_t a, size_t len) {
    G g;
    if(nregs < (1 << 16)) regs[nregs++] = {a, len};
}
static VH_NOSAN void cut(uintptr_t a, size_t len) {
    G g;
    int n = nregs;
    for(int i = 0; i < n; i++) {
        uintptr_t s = regs[i].a, e = s + regs[i].len;
        if(e <= a || s >= a + len) continue;
        uintptr_t e2 = e;
        /* left part stays in place, right part is appended */
        if(s < a) regs[i].len = a - s;
        else regs[i].len = 0;
        if(e2 > a + len && nregs < (1 << 16)) regs[nregs++] = {a + len, e2 - (a + len)};
    }
    int k = 0;
    for(int i = 0; i < nregs; i++)
        if(regs[i].len) regs[k++] = regs[i];
    nregs = k;
}
static VH_NOSAN bool mine(uintptr_t p) {
    G g;
    for(int i = 0; i < nregs; i++)
        if(p >= regs[i].a && p < regs[i].a + regs[i].len) return true;
    return false;
}
static size_t total_bytes() {
    G g;
    size_t t = 0;
    for(int i = 0; i < nregs; i++) t += regs[i].len;
    return t;
}
static VH_NOSAN bool gate(int k) {
    long c = ++calls[k];
    if(yield_den && (c * 2654435761u >> 7) % yield_den == 0) sched_yield();
    if(fail_at[k] > 0) {
        if(fail_at[k] == 1) {
            if(!fail_all[k]) fail_at[k] = 0;
            failed++;
            return true;
        }
        fail_at[k]--;
    }
    return false;
}
} // namespace sysi
extern "C" VH_NOSAN __attribute__((visibility("default"))) void *mmap(void *a, size_t n, int prot, int fl, int fd, off_t off) {
    if(sysi::gate(sysi::K_MMAP)) {
        errno = ENOMEM;
        return MAP_FAILED;
    }
    void *p = (void *) syscall(SYS_mmap, a, n, prot, fl, fd, off);
    if(p != MAP_FAILED) {
        sysi::add((uintptr_t) p, n);
        if(sysi::on_map) sysi::on_map((uintptr_t) p, n);
    }
    return p;
}
extern "C" VH_NOSAN __attribute__((visibility("default"))) int munmap(void *a, size_t n) {
    if(sysi::gate(sysi::K_MUNMAP)) {
        errno = ENOMEM;
        return -1;
    }
    size_t r = (n + 4095) & ~(size_t) 4095;
    if(sysi::on_unmap) sysi::on_unmap((uintptr_t) a, r);
    sysi::cut((uintptr_t) a, r);
    return syscall(SYS_munmap, a, n);
}
extern "C" VH_NOSAN __attribute__((visibility("default"))) int mprotect(void *a, size_t n, int prot) {
    if(sysi::gate(sysi::K_MPROTECT)) {
        if(sysi::on_fail) sysi::on_fail(sysi::K_MPROTECT, (uintptr_t) a, n, prot);
        errno = ENOMEM;
        return -1;
    }
    if(sysi::on_protect) sysi::on_protect((uintptr_t) a, n, prot);
    return syscall(SYS_mprotect, a, n, prot);
}
extern "C" VH_NOSAN __attribute__((visibility("default"))) int madvise(void *a, size_t n, int adv) {
    if(sysi::gate(sysi::K_MADVISE)) {
        errno = EAGAIN;
        return -1;
    }
    return syscall(SYS_madvise, a, n, adv);
}
