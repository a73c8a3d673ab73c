A = 'src/iso_alloc.c'
I = 'src/iso_alloc_interfaces.c'
SEEDS = globals().get('SEEDS', [])
SEEDS += [
dict(id='s40-thread-local-frees', property='C02', edits=[(A, '''    LOCK_ROOT();

    if(_root->chunk_quarantine_count >= CHUNK_QUARANTINE_SZ) {
        /* If the quarantine is full that means we got the
         * lock before our handle_quarantine_thread could.
         * Flushing the quarantine has the same perf cost */
        flush_chunk_quarantine();
    }

    _root->chunk_quarantine[_root->chunk_quarantine_count] = (uintptr_t) p;
    _root->chunk_quarantine_count++;
''', '''#if THREAD_SUPPORT && !USE_SPINLOCK
    /* Do not wait for the root lock if another thread has
     * it, the next free of this thread takes care of it */
    static __thread void *deferred[4];
    static __thread size_t deferred_count;

    if(pthread_mutex_trylock(&root_busy_mutex) != 0) {
        if(deferred_count < 4) {
            deferred[deferred_count++] = p;
            return;
        }

        LOCK_ROOT();
    }

    while(deferred_count > 0) {
        if(_root->chunk_quarantine_count >= CHUNK_QUARANTINE_SZ) {
            flush_chunk_quarantine();
        }

        _root->chunk_quarantine[_root->chunk_quarantine_count++] = (uintptr_t) deferred[--deferred_count];
    }
#else
    LOCK_ROOT();
#endif

    if(_root->chunk_quarantine_count >= CHUNK_QUARANTINE_SZ) {
        /* If the quarantine is full that means we got the
         * lock before our handle_quarantine_thread could.
         * Flushing the quarantine has the same perf cost */
        flush_chunk_quarantine();
    }

    _root->chunk_quarantine[_root->chunk_quarantine_count] = (uintptr_t) p;
    _root->chunk_quarantine_count++;
''')],
     needs='several threads that free at the same time, and the last free of one of them meeting a busy root lock',
     breaks='frees that meet a busy lock are kept in a list of the thread, which is lost when it ends',
     flags='-DLEAK_DETECTOR=1', demo='''
static void *run(void *a) {
    for(int i = 0; i < 40; i++) { void *p = iso_alloc(64 + i * 8); iso_free(p); }
    return NULL;
}
int main(void) {
    iso_flush_caches();
    long before = iso_alloc_detect_leaks();
    for(int r = 0; r < 1500; r++) {
        pthread_t t[8];
        for(int i = 0; i < 8; i++) pthread_create(&t[i], NULL, run, NULL);
        for(int i = 0; i < 8; i++) pthread_join(t[i], NULL);
    }
    iso_flush_caches();
    /* the only live memory is that of the C library, if any */
    long after = iso_alloc_detect_leaks();
    if(after > before) FAIL("%ld blocks freed by threads that have ended are still in use", after - before);
    return 0;
}
'''),
dict(id='s41-moved-large-plainly', property='C20', edits=[(I, '''    _iso_free(p, true);
#else
    _iso_free_size(p, chunk_size);''', '''    _iso_free(p, chunk_size <= MAX_DEFAULT_ZONE_SZ);
#else
    _iso_free_size(p, chunk_size);''')],
     needs='the build with permanent frees in realloc, and reallocating a block of more than 8192 bytes',
     breaks='reallocation releases larger blocks plainly, so that they are handed out again',
     flags='-DPERM_FREE_REALLOC=1', demo='''
int main(void) {
    char *old[40];
    for(int i = 0; i < 40; i++) {
        char *p = iso_alloc(20000);
        old[i] = p;
        p = iso_realloc(p, 30000);
        if(!p) return 2;
    }
    iso_flush_caches();
    for(int i = 0; i < 3000; i++) {
        char *p = iso_alloc(20000);
        for(int j = 0; j < 40; j++) if(p == old[j]) FAIL("%p was released permanently by a reallocation", p);
    }
    return 0;
}
'''),
dict(id='s42-shrink-in-words', property='C05', edits=[(I, '''    if(size > chunk_size) {
        size = chunk_size;
    }
''', '''    if(size > chunk_size) {
        size = chunk_size;
    }

    /* Chunks are always a multiple of this */
    if(size > SZ_ALIGNMENT) {
        size &= ~(sizeof(uint64_t) - 1);
    }
''')],
     needs='shrinking a block to a size that is not a multiple of 8',
     breaks='the last bytes of the new size are not copied',
     demo='''
int main(void) {
    for(size_t n = 1; n < 3000; n += 1) {
        unsigned char *p = iso_alloc(3000);
        for(int i = 0; i < 3000; i++) p[i] = i * 7 + 1;
        unsigned char *q = iso_realloc(p, n);
        for(size_t i = 0; i < n; i++) if(q[i] != (unsigned char) (i * 7 + 1)) FAIL("byte %zu lost when shrinking to %zu", i, n);
        iso_free_size(q, n);
    }
    return 0;
}
'''),
dict(id='s43-zero-page-permanently', property='C07', edits=[(A, '''#if NO_ZERO_ALLOCATIONS
    if(UNLIKELY(p == _root->zero_alloc_page)) {
        return;
    }
#endif

#if ALLOC_SANITY
    int32_t r = _iso_alloc_free_sane_sample(p, 0);''', '''#if NO_ZERO_ALLOCATIONS
    if(UNLIKELY(p == _root->zero_alloc_page && permanent == false)) {
        return;
    }
#endif

#if ALLOC_SANITY
    int32_t r = _iso_alloc_free_sane_sample(p, 0);''')],
     needs='the zero-size address is passed to the permanent free call',
     breaks='freeing the zero-size address permanently aborts',
     demo='''
static void go(void) { for(int i = 0; i < 5; i++) { void *p = iso_alloc(0); iso_free_permanently(p); } }
int main(void) { int r = child(go); if(r) FAIL("permanent free of the zero size address: %d", r); return 0; }
'''),
dict(id='s45-permanent-upgrade', property='C13', edits=[(A, '''    if(UNLIKELY(permanent == true)) {
        _iso_free_internal(p, permanent);
        return;
    }
''', '''    if(UNLIKELY(permanent == true)) {
        LOCK_ROOT();

        /* The chunk must not leave the quarantine again */
        for(size_t i = 0; i < _root->chunk_quarantine_count; i++) {
            if(_root->chunk_quarantine[i] == (uintptr_t) p) {
                _root->chunk_quarantine_count--;
                _root->chunk_quarantine[i] = _root->chunk_quarantine[_root->chunk_quarantine_count];
                break;
            }
        }

        UNLOCK_ROOT();
        _iso_free_internal(p, permanent);
        return;
    }
''')],
     needs='a block freed plainly and then permanently while it is quarantined',
     breaks='the second, permanent free of a quarantined block is accepted silently',
     demo='''
static size_t n;
static void go(void) { char *volatile p = iso_alloc(n); iso_free(p); iso_free_permanently(p); iso_flush_caches(); }
int main(void) {
    for(n = 8; n < 100000; n *= 3) if(!child(go)) FAIL("double free of %zu bytes passed", n);
    return 0;
}
'''),
dict(id='s46-only-freed-verified', property='C22', edits=[('src/iso_alloc_sanity.c', '''            if((GET_BIT(bsl, j)) == 1) {
                bit_slot''', '''            if((GET_BIT(bsl, j)) == 1 && (i == 0 || (GET_BIT(bsl, (j - 1))) == 0)) {
                bit_slot''')],
     needs='damage to a reserved or permanently freed block that is not one of the first 32 of its zone',
     breaks='verification skips reserved blocks outside of the first bitmap word',
     demo='''
static iso_alloc_zone_handle *z;
static char *target;
static void go(void) { target[0] ^= 0x11; target[9] ^= 0x21; iso_verify_zone(z); }
int main(void) {
    /* the blocks a private zone never hands out are reserved */
    int found = 0;
    for(int t = 0; t < 5; t++) {
        z = iso_alloc_new_zone(1024);
        static char *p[5000]; int n = 0; char *lo = NULL, *hi = NULL;
        while(n < 5000 && (p[n] = iso_alloc_from_zone(z))) {
            if(!lo || p[n] < lo) lo = p[n];
            if(!hi || p[n] > hi) hi = p[n];
            n++;
        }
        static char used[5000];
        memset(used, 0, sizeof(used));
        for(int i = 0; i < n; i++) used[(p[i] - lo) / 1024] = 1;
        for(int c = 1; c < (hi - lo) / 1024; c++) if(!used[c]) {
            target = lo + c * 1024;
            found++;
            if(!child(go)) FAIL("damage to reserved block %d passed the verification", c);
        }
        iso_alloc_destroy_zone(z);
    }
    if(!found) { puts("no reserved block"); return 2; }
    return 0;
}
'''),
dict(id='s47-first-page-poisoned', property='C23', edits=[(A, '''#if !ENABLE_ASAN && SANITIZE_CHUNKS
        __iso_memset(p, POISON_BYTE, zone->chunk_size);
#endif''', '''#if !ENABLE_ASAN && SANITIZE_CHUNKS
        /* Do not touch pages that may never have been used */
        __iso_memset(p, POISON_BYTE, zone->chunk_size < (g_page_size * 4) ? zone->chunk_size : g_page_size * 4);
#endif''')],
     needs='the sanitising build and a block of more than 16 KB that was written beyond its first four pages',
     breaks='only the first four pages of larger blocks are erased',
     flags='-DSANITIZE_CHUNKS=1', demo='''
int main(void) {
    for(size_t n = 64; n <= 65536; n *= 2) {
        char *volatile p = iso_alloc(n);
        memset(p, 'S', n);
        iso_free_size(p, n);
        long left = 0;
        for(size_t i = 0; i < n; i++) left += p[i] == 'S';
        if(left > 16) FAIL("%ld of %zu bytes survive their release", left, n);
    }
    return 0;
}
'''),
dict(id='s48-last-zone-hint', property='C40', edits=[
    ('include/iso_alloc_ds.h', '''    uintptr_t *chunk_quarantine;
''', '''    uintptr_t *chunk_quarantine;
    /* Most size queries and frees hit the same zone again */
    void *last_user_pages;
    iso_alloc_zone_t *last_zone;
'''),
    (A, '''    iso_alloc_zone_t *zone = search_chunk_lookup_table(p);
    void *user_pages_start = UNMASK_USER_PTR(zone);

    /* The chunk_lookup_table''', '''    iso_alloc_zone_t *zone = _root->last_zone;
    void *user_pages_start = _root->last_user_pages;

    if(zone != NULL && user_pages_start <= p && (user_pages_start + ZONE_USER_SIZE) > p && UNMASK_USER_PTR(zone) == user_pages_start) {
        return zone;
    }

    zone = search_chunk_lookup_table(p);
    user_pages_start = UNMASK_USER_PTR(zone);

    /* The chunk_lookup_table'''),
    (A, '''        user_pages_start = UNMASK_USER_PTR(zone);

        if(user_pages_start <= p && (user_pages_start + ZONE_USER_SIZE) > p) {
            return zone;
        }
    }

    return NULL;
}

/* Checking canaries under ASAN''', '''        user_pages_start = UNMASK_USER_PTR(zone);

        if(user_pages_start <= p && (user_pages_start + ZONE_USER_SIZE) > p) {
            _root->last_zone = zone;
            _root->last_user_pages = user_pages_start;
            return zone;
        }
    }

    return NULL;
}

/* Checking canaries under ASAN''')],
     needs='a free or size query that is answered by neither the lookup table nor the cache of the thread',
     breaks='the plain address of the user pages found last is kept in the root',
     flags='-DUNIT_TESTING=1', demo='''
#include "iso_alloc_internal.h"
extern iso_alloc_root *_get_root(void);
int main(void) {
    iso_alloc_zone_handle *z[40];
    static void *p[40];
    for(int i = 0; i < 40; i++) { z[i] = iso_alloc_new_zone(64); p[i] = iso_alloc_from_zone(z[i]); }
    iso_alloc_root *r = _get_root();
    for(int i = 0; i < 40; i++) {
        /* make the fast lookup miss */
        r->chunk_lookup_table[((uintptr_t) p[i] >> 32) & 0xffff] = 0;
        size_t volatile s = iso_chunksz(p[i]);
        uintptr_t *w = (uintptr_t *) r;
        for(size_t k = 0; k < sizeof(*r) / 8; k++)
            for(int j = 0; j < 40; j++)
                if(w[k] && w[k] <= (uintptr_t) p[j] && w[k] + (4 << 20) > (uintptr_t) p[j]) FAIL("word %zu of the root points to the user pages of zone %d", k, j);
    }
    return 0;
}
'''),
dict(id='s49-exhausted-null', property='C41', edits=[(A, '''                if(zone == NULL) {
                    UNLOCK_ROOT();
#if ABORT_ON_NULL
                    LOG_AND_ABORT("isoalloc configured to abort on NULL");
#endif
                    return NULL;''', '''                if(zone == NULL) {
                    /* Private zones are expected to run out of chunks */
                    UNLOCK_ROOT();
                    return NULL;''')],
     needs='the build that aborts on NULL and a private zone that is exhausted',
     breaks='an exhausted private zone returns NULL instead of aborting',
     flags='-DABORT_ON_NULL=1', demo='''
static void go(void) {
    iso_alloc_zone_handle *z = iso_alloc_new_zone(32768);
    for(int i = 0; i < 10000; i++) if(iso_alloc_from_zone(z) == NULL) _exit(0);
}
int main(void) { int r = child(go); if(r == 0) FAIL("an exhausted zone returned NULL"); return 0; }
'''),
dict(id='s50-reuse-rounded', property='C01', edits=[(A, '''            if(big->size >= size && (big->size - size) <= BIG_ZONE_WASTE * 2) {''', '''            if((big->size / BIG_ZONE_WASTE) >= (size / BIG_ZONE_WASTE) && (int64_t) (big->size - size) <= BIG_ZONE_WASTE * 2) {''')],
     needs='a free large block that is one page smaller than the request, in the same 8 KB unit',
     breaks='a large block that is up to a page too small is reused',
     demo='''
int main(void) {
    for(size_t n = 80000; n < 2000000; n += 4096) {
        char *volatile p = iso_alloc(n);
        iso_free_size(p, n);
        char *volatile q = iso_alloc(n + 4096);
        if(iso_chunksz(q) < n + 4096) FAIL("%zu bytes for a request of %zu", iso_chunksz(q), n + 4096);
        iso_free_size(q, n);
    }
    return 0;
}
'''),
dict(id='s51-old-replacement', property='C32', edits=[(A, '''    uint16_t next_sz_index = new_zone->next_sz_index;
    __iso_memset(new_zone, 0x0, sizeof(iso_alloc_zone_t));

    /* Restore next_sz_index */
    new_zone->next_sz_index = next_sz_index;
''', '''    uint16_t next_sz_index = new_zone->next_sz_index;
    uint32_t lifetime = new_zone->alloc_count;
    __iso_memset(new_zone, 0x0, sizeof(iso_alloc_zone_t));

    /* Restore next_sz_index, and the lifetime counter
     * so that reports account for the zone as a whole */
    new_zone->next_sz_index = next_sz_index;
    new_zone->alloc_count = lifetime;
''')],
     needs='a retired zone: its replacement is retired again whenever it becomes empty',
     breaks='the lifetime counter of a replacement starts where the retired zone stopped, so that it is discarded at its first idle moment instead of after heavy use',
     demo='''
int main(void) {
    /* the replacement of a retired zone has to serve for a long time again */
    uintptr_t lo = 0; long at[8]; int moved = 0; long i;
    for(i = 0; i < 600000 && moved < 5; i++) {
        char *p = iso_alloc(4000);
        uintptr_t a = (uintptr_t) p;
        if(lo == 0 || a < lo - (4u << 20) || a >= lo + (4u << 20)) { lo = a; at[moved++] = i; }
        iso_free_size(p, 4000);
    }
    for(int k = 2; k < moved; k++) if(at[k] - at[k - 1] < 1000) FAIL("a replacement zone was discarded after %ld allocations", at[k] - at[k - 1]);
    return 0;
}
'''),
dict(id='s52-sized-nothrow-array', property='C12', edits=[('src/iso_alloc.cpp', '''FLATTEN void operator delete[](void *ptr, size_t size) noexcept {
    return iso_free_size(ptr, size);
}''', '''FLATTEN void operator delete[](void *ptr, size_t size) noexcept {
    // The size of an array may include its cookie
    return size > SMALL_SIZE_MAX ? iso_free(ptr) : iso_free_size(ptr, size);
}''')],
     needs='sized array delete of a large block with a size larger than the block',
     breaks='a sized array delete of more than 64 KB accepts any size',
     demo_sh='''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) && trap 'rm -rf "$t"' EXIT
defs="@DEFS@ -DCPP_SUPPORT=1 -DMALLOC_HOOK=1"
for f in src/*.c; do clang -w -g -O2 -std=gnu11 -pthread -fcommon -Iinclude -I. $defs -c $f -o "$t/$(basename $f).o" || exit 99; done
clang++ -w -g -O2 -std=c++17 -pthread -Iinclude -I. $defs -fsized-deallocation "$t"/*.o src/iso_alloc.cpp "$here/demo.cpp" -o "$t/demo" -ldl || exit 99
cd "$t" || exit 99
timeout 200 ./demo; rc=$?; echo "demo exit $rc"; exit $rc
''', files={'demo.cpp': '''#include <new>
#include <cstdio>
#include <unistd.h>
#include <sys/wait.h>
int main() {
    for(size_t n = 100000; n < 1000000; n += 50000) {
        int pid = fork(), st;
        if(pid == 0) { void *volatile p = ::operator new[](n); ::operator delete[](p, n * 2); _exit(0); }
        waitpid(pid, &st, 0);
        if(!WIFSIGNALED(st)) { printf("FAIL: delete[] of %zu bytes as %zu passed\\n", n, n * 2); return 1; }
    }
    return 0;
}
'''}),
]
