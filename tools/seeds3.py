A = 'src/iso_alloc.c'
I = 'src/iso_alloc_interfaces.c'
U = 'src/iso_alloc_util.c'
SEEDS = globals().get('SEEDS', [])
SEEDS += [
dict(id='s53-small-alignments', property='C10', edits=[('src/malloc_hook.c', '''    if(s < a) {
        s = a;
    }

    *r = _iso_alloc_aligned(a, s);
''', '''    if(s < a) {
        s = a;
    }

    /* Zones hold chunks of a power of two, which are
     * all aligned to at least the smaller alignments */
    if(a <= (SMALLEST_CHUNK_SZ << 1)) {
        *r = iso_alloc(s);
    } else {
        *r = _iso_alloc_aligned(a, s);
    }
''')],
     needs='posix_memalign with an alignment of 64 served by a zone whose chunk size is no multiple of it, which exists once default zones of that size are full',
     breaks='posix_memalign returns blocks aligned to 32 bytes only',
     flags='-DMALLOC_HOOK=1', demo='''
int main(void) {
    for(int i = 0; i < 300000; i++) {
        void *p = NULL;
        if(posix_memalign(&p, 64, 65 + i % 31)) return 0;
        if((uintptr_t) p % 64) FAIL("%p is not aligned to 64 (block %d)", p, i);
    }
    return 0;
}
'''),
dict(id='s54-errno-cleared', property='C11', edits=[(U, '''void dont_need_pages(void *p, size_t size) {
    madvise(p, size, FREE_OR_DONTNEED);
''', '''void dont_need_pages(void *p, size_t size) {
    madvise(p, size, FREE_OR_DONTNEED);

    /* This is only advice, it does not matter if it failed */
    errno = 0;
''')],
     needs='a program that looks at errno after releasing a large block',
     breaks='free changes errno, so that a program reports another reason for its failure',
     flags='-DMALLOC_HOOK=1', demo='''
#include <errno.h>
int main(void) {
    for(int i = 0; i < 200; i++) {
        void *volatile p = malloc(300000);
        memset(p, 1, 300000);
        errno = ENOENT;
        free(p);
        if(errno != ENOENT) FAIL("free changed errno to %d (%d)", errno, i);
    }
    return 0;
}
'''),
dict(id='s55-one-path-too-many', property='C33', edits=[('src/iso_alloc_profiler.c', 'if(fbts == NULL && _free_bts_count < BACKTRACE_DEPTH_SZ) {', 'if(fbts == NULL && _free_bts_count <= BACKTRACE_DEPTH_SZ) {')],
     needs='more distinct call paths of frees are sampled than the table holds (128)',
     breaks='a 129th free trace is written and reported past the end of the table and of the buffer callers pass',
     demo_sh='''#!/bin/bash
cd "$(dirname "$0")"; D=$PWD; cd - >/dev/null
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export ISO_ALLOC_PROFILER_FILE_PATH=$T/prof
clang @DEFS@ -DHEAP_PROFILER=1 -fno-omit-frame-pointer -fno-optimize-sibling-calls -fcommon -O0 -w -Iinclude "$D/demo.c" src/*.c -o $T/demo -pthread -ldl -lm || exit 2
cd $T && timeout 200 ./demo
''', files={'demo.c': '''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "iso_alloc.h"
static iso_free_traces_t ft[1000];
static void l(void *, int, int) __attribute__((noinline));
static void r(void *, int, int) __attribute__((noinline));
/* one call path per bit pattern */
static void next(void *p, int bits, int depth) {
    if(depth == 0) iso_free(p);
    else if(bits & 1) l(p, bits >> 1, depth - 1);
    else r(p, bits >> 1, depth - 1);
    __asm__ volatile("");
}
#define D3(f, p, b, d) f(p, b, d); __asm__ volatile("")
static void l(void *p, int bits, int depth) {
    if(depth == 0) { iso_free(p); return; }
    switch(bits & 7) {
    case 0: D3(l, p, bits >> 3, depth - 1); break;
    case 1: D3(l, p, bits >> 3, depth - 1); break;
    case 2: D3(l, p, bits >> 3, depth - 1); break;
    case 3: D3(l, p, bits >> 3, depth - 1); break;
    case 4: D3(r, p, bits >> 3, depth - 1); break;
    case 5: D3(r, p, bits >> 3, depth - 1); break;
    case 6: D3(r, p, bits >> 3, depth - 1); break;
    case 7: D3(r, p, bits >> 3, depth - 1); break;
    }
}
static void r(void *p, int bits, int depth) {
    if(depth == 0) { iso_free(p); return; }
    switch(bits & 7) {
    case 0: D3(l, p, bits >> 3, depth - 1); break;
    case 1: D3(l, p, bits >> 3, depth - 1); break;
    case 2: D3(l, p, bits >> 3, depth - 1); break;
    case 3: D3(l, p, bits >> 3, depth - 1); break;
    case 4: D3(r, p, bits >> 3, depth - 1); break;
    case 5: D3(r, p, bits >> 3, depth - 1); break;
    case 6: D3(r, p, bits >> 3, depth - 1); break;
    case 7: D3(r, p, bits >> 3, depth - 1); break;
    }
}
int main(void) {
    size_t n = 0;
    for(int i = 0; i < 12000000 && n <= 128; i++) {
        void *p = iso_alloc(64);
        l(p, i & 511, 3);
        if(i % 100000 == 0) n = iso_get_free_traces(ft);
    }
    printf("%zu traces\\n", n);
    if(n > 128) { puts("FAIL: more traces than the table holds"); return 1; }
    return n < 100 ? 3 : 0;
}
'''}, demo=''),
dict(id='s56-permanent-unpoisoned', property='C37', edits=[(A, '''    POISON_ZONE_CHUNK(zone, p);
}

INTERNAL_HIDDEN void _iso_free_from_zone(''', '''    /* A permanently free'd chunk was already overwritten */
    if(LIKELY(permanent == false)) {
        POISON_ZONE_CHUNK(zone, p);
    }
}

INTERNAL_HIDDEN void _iso_free_from_zone(''')],
     needs='the address sanitizer build, and a use of a block after its permanent release',
     breaks='use after a permanent free is not reported by AddressSanitizer',
     demo_sh='''#!/bin/bash
cd "$(dirname "$0")"; D=$PWD; cd - >/dev/null
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
clang @DEFS@ -DENABLE_ASAN=1 -fsanitize=address -O1 -g -w -Iinclude "$D/demo.c" src/*.c -o $T/demo -pthread -lm || exit 2
cd $T && ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:exitcode=77 timeout 200 ./demo > out 2>&1
[ $? = 77 ] && exit 0
echo "FAIL: use after a permanent free was not reported"; cat out; exit 1
''', files={'demo.c': '''#include <stdio.h>
#include <stdlib.h>
#include "iso_alloc.h"
int main(void) {
    char *volatile p = iso_alloc(512);
    p[3] = 1;
    iso_free_permanently(p);
    return p[3] == 9;
}
'''}, demo=''),
dict(id='s57-cache-wraps', property='C21', edits=[(A, '''    if(UNLIKELY(zone->internal == false)) {
        return;
    }

    if(_zone_cache_count < ZONE_CACHE_SZ) {
        tzc[_zone_cache_count].zone = zone;
        tzc[_zone_cache_count].chunk_size = zone->chunk_size;
        _zone_cache_count++;
    } else {
        _zone_cache_count = 0;
        tzc[_zone_cache_count].zone = zone;
        tzc[_zone_cache_count].chunk_size = zone->chunk_size;
    }
''', '''    if(_zone_cache_count < ZONE_CACHE_SZ) {
        if(UNLIKELY(zone->internal == false)) {
            return;
        }

        tzc[_zone_cache_count].zone = zone;
        tzc[_zone_cache_count].chunk_size = zone->chunk_size;
        _zone_cache_count++;
    } else {
        /* The cache is full, start over with this zone */
        tzc[0].zone = zone;
        tzc[0].chunk_size = zone->chunk_size;
        _zone_cache_count = 1;
    }
''')],
     needs='an allocation from a private zone when the zone cache of the thread is full, then a general allocation that fits',
     breaks='general allocations are placed in a private zone',
     demo='''
int main(void) {
    iso_alloc_zone_handle *z = iso_alloc_new_zone(4096);
    static size_t sizes[] = {32, 64, 128, 256, 512, 1024, 2048, 8192, 16384, 32768};
    for(int r = 1; r <= 10; r++) {
        iso_flush_caches();
        for(int i = 0; i < r; i++) { void *volatile p = iso_alloc(sizes[i]); iso_free(p); }
        uintptr_t a = (uintptr_t) iso_alloc_from_zone(z);
        /* a block of the private zone is at most one zone away from any other block of it */
        for(int i = 0; i < 20; i++) {
            uintptr_t g = (uintptr_t) iso_alloc(4000 - i);
            if((g > a ? g - a : a - g) < (4u << 20) && (g > a ? g - a : a - g) % 4096 == 0) FAIL("general block %lx beside private block %lx", g, a);
            iso_free_size((void *) g, 4000 - i);
        }
        iso_free_from_zone((void *) a, z);
    }
    return 0;
}
'''),
dict(id='s58-metadata-stays', property='C31', edits=[(A, '''        munmap((void *) ROUND_DOWN_PAGE((uintptr_t) big_zone), g_page_size * BIG_ZONE_META_DATA_PAGE_COUNT);
#endif
    }
}

INTERNAL_HIDDEN ASSUME_ALIGNED''', '''        munmap(big_zone, g_page_size * BIG_ZONE_META_DATA_PAGE_COUNT);
#endif
    }
}

INTERNAL_HIDDEN ASSUME_ALIGNED''')],
     needs='large blocks that are returned to the system, because they were reused often or the free list is full',
     breaks='the page with the meta data of a released large block is never unmapped',
     demo='''
static long maps(void) {
    FILE *f = fopen("/proc/self/maps", "r");
    static char b[4096];
    long n = 0;
    while(fgets(b, sizeof b, f)) n++;
    fclose(f);
    return n;
}
int main(void) {
    static void *p[100];
    long at = 0;
    for(int r = 0; r < 60; r++) {
        for(int i = 0; i < 100; i++) p[i] = iso_alloc(100000 + i * 40000);
        for(int i = 0; i < 100; i++) iso_free_size(p[i], 100000 + i * 40000);
        if(r == 20) at = maps();
    }
    if(maps() > at + 300) FAIL("%ld mappings after 20 rounds, %ld after 60", at, maps());
    return 0;
}
'''),
dict(id='s60-exit-free-list-locked', property='C34', edits=[(A, '''    LOCK_BIG_ZONE_FREE();
    _free_big_zone_list(_root->big_zone_free);
    UNLOCK_BIG_ZONE_FREE();
''', '''    LOCK_BIG_ZONE_FREE();
    _free_big_zone_list(_root->big_zone_free);
#if ISO_DTOR_CLEANUP
    UNLOCK_BIG_ZONE_FREE();
#endif
''')],
     needs='a large allocation or release by code that runs after the destructor of the library',
     breaks='the process hangs at exit',
     flags='-DLEAK_DETECTOR=1', demo_sh='''#!/bin/bash
cd "$(dirname "$0")"; D=$PWD; cd - >/dev/null
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
clang @DEFS@ -O1 -w -fPIC -shared -Iinclude src/*.c -o $T/libisoalloc.so -pthread -lm || exit 2
clang -O1 -w -Iinclude -fPIC -shared "$D/late.c" -o $T/liblate.so || exit 2
clang -O1 -w -Iinclude "$D/demo.c" -o $T/demo -L$T -Wl,--no-as-needed -lisoalloc -llate -Wl,-rpath,$T || exit 2
timeout -k 1 20 $T/demo; [ $? = 0 ] && exit 0
echo "FAIL: did not end normally"; exit 1
''', files={'late.c': '''extern void *iso_alloc(unsigned long);
extern void iso_free_size(void *, unsigned long);
__attribute__((destructor)) static void late(void) {
    char *p = iso_alloc(200000);
    p[5] = 1;
    iso_free_size(p, 200000);
}
void late_here(void) {}
''', 'demo.c': '''extern void *iso_alloc(unsigned long);
extern void iso_free_size(void *, unsigned long);
extern void late_here(void);
extern void *iso_calloc(unsigned long, unsigned long);
static void last(void) __attribute__((destructor(101)));
static void last(void) {
    char *p = iso_alloc(300000);
    p[0] = 1;
    iso_free_size(p, 300000);
}
extern void __attribute__((weak)) iso_alloc_dtor(void);
int main(void) {
    late_here();
    char *p = iso_alloc(100000);
    iso_free_size(p, 100000);
    /* the destructor of the library, as it runs when the library is loaded last */
    if(iso_alloc_dtor) iso_alloc_dtor();
    p = iso_alloc(100000);
    p[0] = 1;
    iso_free_size(p, 100000);
    return 0;
}
'''}, demo=''),
dict(id='s63-free-count-from-head', property='C28', edits=[(A, '''                big->free = false;
                _root->big_zone_free_count--;
                UNPOISON_BIG_ZONE(big);

                /* Remove this node from the list */
                if(big == UNMASK_BIG_ZONE_NEXT(_root->big_zone_free)) {
                    _root->big_zone_free = big->next;
                } else {
''', '''                big->free = false;
                UNPOISON_BIG_ZONE(big);

                /* Remove this node from the list */
                if(big == UNMASK_BIG_ZONE_NEXT(_root->big_zone_free)) {
                    _root->big_zone_free = big->next;
                    _root->big_zone_free_count--;
                } else {
''')],
     needs='large blocks reused from the middle of the free list, about 64 times in the life of the process',
     breaks='the count of free large blocks drifts, and once it has reached its maximum no released large block is ever reused',
     demo='''
int main(void) {
    for(int r = 0; r < 400; r++) {
        void *a = iso_alloc(100000 + r % 3), *b = iso_alloc(500000);
        iso_free_size(a, 100000);
        iso_free_size(b, 500000);
        void *c = iso_alloc(100000), *d = iso_alloc(500000);
        iso_free_size(d, 500000);
        iso_free_size(c, 100000);
    }
    /* a released block that is new enough is reused for the same size */
    int same = 0;
    for(int r = 0; r < 40; r++) {
        void *volatile a = iso_alloc(3000000 + r * 100000);
        iso_free_size(a, 3000000);
        void *volatile b = iso_alloc(3000000 + r * 100000);
        same += a == b;
        iso_free_size(b, 3000000);
    }
    if(same < 20) FAIL("only %d of 40 released blocks were reused", same);
    return 0;
}
'''),
dict(id='s66-tag-guard', property='C18', edits=[(A, '''        create_guard_page(p + g_page_size + tag_mapping_size);
        new_zone->user_pages_start''', '''        /* The tags of zones of larger chunks end long
         * before the page they are in does */
        if(new_zone->chunk_count * MEM_TAG_SIZE > (g_page_size >> 1)) {
            create_guard_page(p + g_page_size + tag_mapping_size);
        }

        new_zone->user_pages_start''')],
     needs='the tagging build and a private zone for blocks of 2048 bytes or more',
     breaks='there is no guard page between the tags of a zone and its user pages',
     flags='-DMEMORY_TAGGING=1', demo='''
int main(void) {
    static size_t sizes[] = {64, 512, 2048, 4096, 16384};
    for(int k = 0; k < 5; k++) {
        iso_alloc_zone_handle *z = iso_alloc_new_zone(sizes[k]);
        char *low = iso_alloc_from_zone(z);
        for(int i = 0; i < 4000000 / sizes[k]; i++) { char *p = iso_alloc_from_zone(z); if(p && p < low) low = p; }
        /* the canary blocks may be the first */
        while(readable(low - sizes[k]) == 1 && ((uintptr_t) (low - sizes[k]) & 4095) + sizes[k] <= 4096 * 64 && readable(low - 4096) == 1 && sizes[k] < 4096) low -= sizes[k];
        int fenced = 0;
        for(int i = 1; i <= 8 && !fenced; i++) fenced = readable(low - i * 4096) != 1;
        if(!fenced) FAIL("no inaccessible page below the zone of %zu byte blocks", sizes[k]);
        char *g = (char *) ((uintptr_t) low & ~4095ul);
        while(readable(g - 1) == 1) g -= 4096;
        /* the page below the guard belongs to the tags: there are two guards around them */
        if(readable(g - 4097) != 1) FAIL("the tags are not fenced from the user pages of the zone of %zu byte blocks", sizes[k]);
    }
    return 0;
}
'''),
dict(id='s67-unchecked-when-idle', property='C16', edits=[(A, '''    if((GET_BIT(b, (which_bit + 1))) == 1) {
        check_canary(zone, p);
        *(uint64_t *) p = 0x0;
    }
#endif

    zone->af_count++;''', '''    if((GET_BIT(b, (which_bit + 1))) == 1) {
        /* Nothing in this zone is in use, there is no
         * chunk that could have overflowed into this one */
        if(zone->af_count != 0) {
            check_canary(zone, p);
        }

        *(uint64_t *) p = 0x0;
    }
#endif

    zone->af_count++;''')],
     needs='a corrupted block that is handed out again while no other block of its zone is in use',
     breaks='the guard value of a reused block is not verified in an idle zone',
     demo='''
static void f(void) {
    char *p[64];
    iso_alloc_zone_handle *z = iso_alloc_new_zone(65536);
    /* all but one block of the zone are used up for good */
    for(int i = 0; i < 64; i++) p[i] = iso_alloc_from_zone(z);
    for(int i = 0; i < 64; i++) iso_free_from_zone(p[i], z);
    for(int i = 0; i < 64; i++) p[i][65530] ^= 0x55;
    for(int i = 0; i < 64; i++) { char *q = iso_alloc_from_zone(z); if(q) _exit(7); }
}
int main(void) {
    if(child(f) == 256 + 7) FAIL("a corrupted block was handed out");
    return 0;
}
'''),
dict(id='s69-terminator-outside', property='C09', edits=[(I, '''    char *p = (char *) _iso_alloc(zone, size);
''', '''    /* The smallest chunk has room for the terminator */
    char *p = (char *) _iso_alloc(zone, size <= SMALLEST_CHUNK_SZ ? size : size - 1);
''')],
     needs='a copy of a string whose length is exactly a block size',
     breaks='the terminating zero is written into the block that follows',
     demo='''
int main(void) {
    static char s[5000];
    memset(s, 'a', 4999);
    for(size_t n = 32; n <= 4096; n *= 2) {
        static char *p[400];
        for(int i = 0; i < 400; i++) {
            s[n] = 0;
            p[i] = iso_strdup(s);
            s[n] = 'a';
            if(strlen(p[i]) != n) FAIL("length %zu instead of %zu", strlen(p[i]), n);
            if(iso_chunksz(p[i]) < n + 1) FAIL("the copy of %zu bytes and its terminator got a block of %zu", n, iso_chunksz(p[i]));
        }
        for(int i = 0; i < 400; i++) iso_free(p[i]);
    }
    return 0;
}
'''),
dict(id='s70-source-in-same-zone', property='C25', edits=[('src/iso_alloc_sanity.c', '''            LOG_AND_ABORT("Detected an out of bounds write memmove: dest=0x%p (%d bytes) src=0x%p size=%d", dest, zone->chunk_size, src, n);
        }

        zone = search_chunk_lookup_table(src);
        user_pages_start = UNMASK_USER_PTR(zone);
''', '''            LOG_AND_ABORT("Detected an out of bounds write memmove: dest=0x%p (%d bytes) src=0x%p size=%d", dest, zone->chunk_size, src, n);
        }

        /* Moving within a zone, its size has been checked */
        if(src >= user_pages_start && src < (user_pages_start + ZONE_USER_SIZE)) {
            return __iso_memmove(dest, src, n);
        }

        zone = search_chunk_lookup_table(src);
        user_pages_start = UNMASK_USER_PTR(zone);
''')],
     needs='memmove between two blocks of the same zone that stays inside the destination but starts inside the source block and runs past its end',
     breaks='reads past the end of the source block are not detected',
     flags='-DMEMCPY_SANITY=1 -fno-builtin', demo='''
void *memmove(void *, const void *, size_t);
static iso_alloc_zone_handle *z;
static char *a, *b;
static void f(void) { volatile size_t n = 100; memmove(a, b + 128 - 40, n); }
static void g(void) { volatile size_t n = 100; memmove(a + 128 - 40, b, n); }
int main(void) {
    /* the fast lookup knows the zone that was created last in its area */
    for(int i = 0; i < 30; i++) {
        z = iso_alloc_new_zone(128);
        a = iso_alloc_from_zone(z);
        b = iso_alloc_from_zone(z);
        if(((uintptr_t) a >> 32) != ((uintptr_t) b >> 32)) continue;
        int w = child(g), r = child(f);
        if(w != 0 && r == 0) FAIL("moving from past the end of a block was not detected");
    }
    return 0;
}
'''),
]
