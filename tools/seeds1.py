A = 'src/iso_alloc.c'
SEEDS = globals().get('SEEDS', [])
SEEDS += [
dict(id='s02-no-guard-on-replacement', property='C18', edits=[(A, '''    create_guard_page(user_pages_guard_above);

    /* We created a new zone, we did not replace a retired one */
    if(index >= 0) {
        new_zone->index = index;
    } else {
        new_zone->index = _root->zones_used;
    }''', '''    /* We created a new zone, we did not replace a retired one */
    if(index >= 0) {
        new_zone->index = index;
    } else {
        new_zone->index = _root->zones_used;
        create_guard_page(user_pages_guard_above);
    }''')],
     needs='a general zone that is retired after heavy use; only its replacement lacks the upper guard page',
     breaks='the page above the user memory of a replacement zone stays readable and writable',
     demo='''
int main(void) {
    /* retire the zone of 4096 byte blocks again and again, measure the readable extent of whatever serves us */
    int moved = 0;
    uintptr_t lo = 0;
    for(long i = 0; i < 400000 && moved < 6; i++) {
        char *p = iso_alloc(4000);
        uintptr_t a = (uintptr_t) p & ~4095ul;
        if(lo == 0 || a < lo || a >= lo + (4u << 20)) {
            uintptr_t h = a;
            lo = a;
            while(readable((void *) (lo - 4096))) lo -= 4096;
            while(readable((void *) h)) h += 4096;
            moved++;
            if(h - lo != (4u << 20)) FAIL("zone %d at %lx: %lu readable bytes", moved, lo, h - lo);
        }
        iso_free_size(p, 4000);
    }
    if(moved < 3) { puts("never retired"); return 2; }
    return 0;
}
'''),
dict(id='s03-neighbour-below', property='C16', edits=[(A, 'if(chunk_number != 0) {', 'if(WHICH_BIT(bit_slot) != 0) {')],
     needs='the freed block is the first of a bitmap word, so that the damaged block below it is recorded in another word',
     breaks='the free block directly below a freed one is not checked when it belongs to the previous bitmap word',
     demo='''
static long bad;
int main(void) {
    /* all 31 pairs within a word and those across must abort */
    int checked = 0;
    for(int t = 0; t < 3; t++) {
        iso_alloc_zone_handle *z = iso_alloc_new_zone(16384);
        char *p[300]; int n = 0;
        while(n < 300 && (p[n] = iso_alloc_from_zone(z))) n++;
        char *base = p[0];
        for(int i = 0; i < n; i++) if(p[i] < base) base = p[i];
        for(int c = 1; c < 200; c++) {
            char *hi = base + c * 16384, *lo = hi - 16384;
            int have = 0;
            for(int i = 0; i < n; i++) have += p[i] == hi || p[i] == lo;
            if(have != 2) continue;
            fflush(stdout);
            int pid = fork();
            if(pid == 0) { iso_free_from_zone(lo, z); lo[16384 - 3] ^= 0x5a; iso_free_from_zone(hi, z); _exit(0); }
            int st; waitpid(pid, &st, 0);
            checked++;
            if(!WIFSIGNALED(st)) FAIL("damaged block %d not noticed when its upper neighbour was freed", c - 1);
        }
        iso_alloc_destroy_zone(z);
    }
    return checked < 100;
}
'''),
dict(id='s04-idle-zones-unverified', property='C16', edits=[('src/iso_alloc_sanity.c', '''            break;
        }

        _verify_zone(zone);
    }

    /* Root is locked already */''', '''            break;
        }

        /* Nothing to verify if the zone was never used */
        if(zone->alloc_count > 1 || zone->af_count != 0) {
            _verify_zone(zone);
        }
    }

    /* Root is locked already */''')],
     needs='damage to a reserved canary block, or to the only block ever used, of a zone that served at most one block and is now idle',
     breaks='verification of all zones skips idle zones that are considered unused although they contain reserved blocks and possibly a freed one',
     demo='''
static void one(void) {
    iso_alloc_zone_handle *z = iso_alloc_new_zone(2048);
    char *p = iso_alloc_from_zone(z);
    memset(p, 1, 2048);
    iso_free_from_zone(p, z);
    p[5] ^= 0x41;
    iso_verify_zones();
}
static void fine(void) {
    iso_alloc_zone_handle *z = iso_alloc_new_zone(2048);
    char *p = iso_alloc_from_zone(z);
    iso_free_from_zone(p, z);
    iso_verify_zones();
}
int main(void) {
    if(child(fine)) return 2;
    if(!child(one)) FAIL("damage to the freed block of an idle zone passed the verification of all zones");
    return 0;
}
'''),
dict(id='s05-endless-reuse', property='C28', edits=[(A, '''                big->next = _root->big_zone_used;
                big->ttl++;
''', '''                big->next = _root->big_zone_used;
''')],
     needs='more than 16 lives of the same large block',
     breaks='a large block from the free list is reused without limit, it is never retired to the system',
     demo='''
int main(void) {
    char *first = NULL; int same = 0, max = 0;
    for(int i = 0; i < 200; i++) {
        char *p = iso_alloc(300000);
        if(p == first) same++; else { first = p; same = 1; }
        if(same > max) max = same;
        iso_free_size(p, 300000);
    }
    if(max > 20) FAIL("one large block lived %d times", max);
    return 0;
}
'''),
dict(id='s06-unlink-unlocked', property='C03', edits=[(A, '''                UNPOISON_BIG_ZONE(big);

                /* Remove this node from the list */
                if(big == UNMASK_BIG_ZONE_NEXT(_root->big_zone_free)) {
                    _root->big_zone_free = big->next;
                } else {
                    prev->next = big->next;
                }

                /* It is safe to unlock the free list here because
                 * we unlinked the zone we are about to return */
                UNLOCK_BIG_ZONE_FREE();

                LOCK_BIG_ZONE_USED();
''', '''                UNPOISON_BIG_ZONE(big);

                /* It is safe to unlock the free list here because
                 * the zone we are about to return is no longer free */
                const bool head = (big == UNMASK_BIG_ZONE_NEXT(_root->big_zone_free));
                UNLOCK_BIG_ZONE_FREE();

                LOCK_BIG_ZONE_USED();

                /* Remove this node from the list */
                if(head) {
                    _root->big_zone_free = big->next;
                } else {
                    prev->next = big->next;
                }
''')],
     needs='two threads that take and release large blocks at the same moment',
     breaks='the free list of large blocks is changed without its lock',
     flags='-fsanitize=thread -DDISABLE_DEEPBIND=1',
     demo='''
static void *run(void *a) {
    unsigned s = (unsigned) (uintptr_t) a;
    for(int i = 0; i < 3000; i++) {
        s = s * 1103515245 + 12345;
        size_t n = 70000 + (s >> 16) % 30000;
        char *p = iso_alloc(n);
        p[0] = 1; p[n - 1] = 2;
        iso_free_size(p, n);
    }
    return NULL;
}
int main(void) {
    pthread_t t[4];
    for(long i = 0; i < 4; i++) pthread_create(&t[i], NULL, run, (void *) (i + 1));
    for(int i = 0; i < 4; i++) pthread_join(t[i], NULL);
    return 0;
}
'''),
dict(id='s07-calloc-recycled-large', property='C04', edits=[(A, '''    __iso_memset(p, 0x0, sz);
    return p;
}
''', '''    /* Pages fresh from the kernel are zero already */
    if(sz <= SMALL_SIZE_MAX) {
        __iso_memset(p, 0x0, sz);
    }

    return p;
}
''')],
     needs='a zeroing request above 64 KB that is served by a large block recycled from the free list',
     breaks='recycled large blocks are handed out by calloc with their former contents',
     demo='''
int main(void) {
    for(int i = 0; i < 50; i++) {
        char *p = iso_alloc(200000);
        memset(p, 0xa5, 200000);
        iso_free_size(p, 200000);
        p = iso_calloc(1, 199000);
        for(int k = 0; k < 199000; k++) if(p[k]) FAIL("byte %d of a calloc is %x", k, p[k]);
        memset(p, 0x5a, 199000);
        iso_free_size(p, 199000);
    }
    return 0;
}
'''),
dict(id='s09-sized-free-slack', property='C15', edits=[(A, 'if(UNLIKELY(zone->chunk_size < size)) {', 'if(UNLIKELY(zone->chunk_size < ALIGN_SZ_DOWN(size))) {')],
     needs='a sized free whose size exceeds the block by less than the allocation granularity',
     breaks='a sized free that names up to 31 bytes more than the block holds is accepted',
     demo='''
static char *p; static size_t n;
static void go(void) { iso_free_size(p, n); }
int main(void) {
    for(size_t s = 100; s < 60000; s += s / 2) {
        p = iso_alloc(s);
        n = iso_chunksz(p);
        if(child(go)) return 2;
        for(size_t o = 1; o < 32; o += 5) { n = iso_chunksz(p) + o; if(!child(go)) FAIL("sized free of %zu bytes of a block of %zu accepted", n, n - o); }
    }
    return 0;
}
'''),
dict(id='s10-quarantine-short', property='C19', edits=[(A, 'if(_root->chunk_quarantine_count >= CHUNK_QUARANTINE_SZ) {', 'if(_root->chunk_quarantine_count >= (CHUNK_QUARANTINE_SZ - 1)) {')],
     needs='exactly 64 frees after a flush and the reuse of one of their blocks',
     breaks='the quarantine is flushed when the 64th block is freed, so that the first 63 become available one free early',
     demo='''
static int cmp(const void *a, const void *b) { return *(char **) a < *(char **) b ? -1 : *(char **) a > *(char **) b; }
int main(void) {
    static char *p[64];
    iso_flush_caches();
    for(int i = 0; i < 64; i++) p[i] = iso_alloc(65000);
    for(int i = 0; i < 64; i++) iso_free(p[i]);
    qsort(p, 64, sizeof(*p), cmp);
    for(int i = 0; i < 300; i++) { char *q = iso_alloc(65000); if(bsearch(&q, p, 64, sizeof(*p), cmp)) FAIL("%p reissued from quarantine", q); }
    return 0;
}
'''),
dict(id='s12-tags-kept-while-busy', property='C24', edits=[('src/iso_alloc_mem_tags.c', """    if(UNLIKELY(zone->af_count == 0 && zone->alloc_count > ((zone->chunk_count << _root->zone_retirement_shf) >> 2))) {
""", """    if(UNLIKELY(zone->alloc_count > ((zone->chunk_count << _root->zone_retirement_shf) >> 2))) {
        /* All tags are due, they are redrawn once the zone is idle */
        if(zone->af_count != 0) {
            return true;
        }

""")],
     needs='a private zone that has served a quarter of its retirement age and never becomes idle',
     breaks='blocks freed in a heavily used zone that is not idle keep their tag, stale pointers remain valid',
     flags='-DMEMORY_TAGGING=1', demo='''
static void *stale; static iso_alloc_zone_handle *z;
static void verify(void) { iso_alloc_verify_ptr_tag(stale, z); }
int main(void) {
    z = iso_alloc_new_zone(4096);
    char *volatile busy = iso_alloc_from_zone(z);
    int same = 0;
    for(long i = 0; i < 1024 * 10; i++) { char *q = iso_alloc_from_zone(z); iso_free_from_zone(q, z); }
    for(int i = 0; i < 40; i++) {
        char *q = iso_alloc_from_zone(z);
        stale = iso_alloc_tag_ptr(q, z);
        iso_free_from_zone(q, z);
        if(child(verify) == 0) same++;
    }
    if(same > 6) FAIL("%d of 40 stale pointers still verified", same);
    return 0;
}
'''),
dict(id='s13-leak-count-wraps', property='C30', edits=[('src/iso_alloc_profiler.c', 'uint32_t in_use = 0;', 'uint16_t in_use = 0;')],
     needs='more than 65535 live blocks in one zone when its leaks are counted',
     breaks='the leak count of a zone wraps at 65536',
     flags='-DLEAK_DETECTOR=1', demo='''
int main(void) {
    iso_alloc_zone_handle *z = iso_alloc_new_zone(32);
    size_t n = 0;
    while(n < 70000 && iso_alloc_from_zone(z)) n++;
    size_t l = iso_alloc_detect_zone_leaks(z);
    if(l != n) FAIL("%zu live blocks, %zu reported", n, l);
    return 0;
}
'''),
dict(id='s14-lost-guard', property='C31', edits=[(A, 'munmap(zone->user_pages_start - g_page_size, (ZONE_USER_SIZE + g_page_size * 2));', 'munmap(zone->user_pages_start - g_page_size, (ZONE_USER_SIZE + g_page_size));')],
     needs='many zones destroyed or retired; each leaves one inaccessible page behind',
     breaks='the upper guard page of a discarded zone stays mapped for ever, the number of mappings grows with every discarded zone',
     demo='''
static long maps(void) { FILE *f = fopen("/proc/self/maps", "r"); long n = 0; char b[4096]; while(fgets(b, sizeof b, f)) n++; fclose(f); return n; }
int main(void) {
    void *p[8];
    long a = 0, b;
    for(int i = 0; i < 40; i++) {
        if(i == 20) a = maps();
        /* one retirement of the zone of 8192 byte blocks */
        for(long k = 0; k < 512 * 40; k++) { void *q = iso_alloc(8192); iso_free_size(q, 8192); }
    }
    b = maps();
    if(b - a > 12) FAIL("%ld mappings became %ld over 20 retirements", a, b);
    return 0;
}
'''),
dict(id='s15-inherited-secret', property='C35', edits=[(A, '''    uint16_t next_sz_index = new_zone->next_sz_index;
''', '''    const uint64_t canary_secret = new_zone->canary_secret;
    uint16_t next_sz_index = new_zone->next_sz_index;
'''), (A, 'new_zone->canary_secret = us_rand_uint64(&_root->seed);', 'new_zone->canary_secret = (index >= 0 && canary_secret != 0) ? canary_secret : us_rand_uint64(&_root->seed);')],
     needs='a guard value of a retired zone, compared to one of the zone that replaced it',
     breaks='a replacement zone takes over the secret of the retired zone, guard values seen in the old one give away those of the new one',
     demo='''
int main(void) {
    int z = 0, eq = 0; uintptr_t base = 0; uint64_t secret = 0;
    for(long i = 0; i < 400000 && z < 6; i++) {
        char *p = iso_alloc(8192);
        iso_free_size(p, 8192);
        uintptr_t a = (uintptr_t) p;
        if(base && readable((void *) base)) continue; /* not retired */
        char *q = iso_alloc(8192); iso_free_size(q, 8192);
        if(!readable(q)) continue;
        uint64_t s = (*(volatile uint64_t *) q ^ (uint64_t) q) >> 8;
        /* only the bits that do not depend on the masked byte */
        if(base) { z++; if(s == secret) eq++; }
        secret = s; base = (uintptr_t) q & ~4095ul;
    }
    if(z < 3) { puts("few retirements"); return 2; }
    if(eq) FAIL("%d of %d replacement zones use the secret of the zone before", eq, z);
    return 0;
}
'''),
dict(id='s16-enomem-tolerated', property='C36', edits=[('src/iso_alloc_util.c', 'if((mprotect(p, size, protection)) == ERR) {', 'if((mprotect(p, size, protection)) == ERR && (protection != PROT_NONE || errno != ENOMEM)) {')],
     needs='the kernel runs out of mappings (or memory) exactly when a guard page is protected',
     breaks='zones are created without guard pages when mprotect fails with ENOMEM',
     demo='''
#include <errno.h>
#include <sys/syscall.h>
static volatile int arm;
static void *bare;
int mprotect(void *p, size_t n, int prot) { if(arm && prot == PROT_NONE) { arm = 0; bare = p; errno = ENOMEM; return -1; } return syscall(SYS_mprotect, p, n, prot); }
static void go(void) { arm = 1; iso_alloc_zone_handle *z = iso_alloc_new_zone(4096); if(bare && z) _exit(7); }
int main(void) {
    int r = child(go);
    if(r == 256 + 7) FAIL("a zone was created although its guard page could not be protected");
    if(r == 0) return 2;
    return 0;
}
'''),
dict(id='s21-never-used', property='C14', edits=[(A, 'if(UNLIKELY((GET_BIT(b, which_bit)) == 0)) {', 'if(UNLIKELY((GET_BIT(b, which_bit)) == 0 && (GET_BIT(b, (which_bit + 1))) == 1)) {')],
     needs='the free of a block start that was never handed out, in a zone in use',
     breaks='a block that was never allocated can be freed; it is then on the free list twice and the counters of the zone are off',
     demo='''
static void go(void) {
    iso_alloc_zone_handle *z = iso_alloc_new_zone(16384);
    char *p = iso_alloc_from_zone(z), *q = iso_alloc_from_zone(z), *r = iso_alloc_from_zone(z);
    uintptr_t lo = (uintptr_t) p & ~((4ul << 20) - 1);
    /* a neighbour that is not one of the three */
    for(int d = -3; d < 4; d++) {
        char *n = q + d * 16384;
        if(n == p || n == q || n == r || !readable(n)) continue;
        printf("%d", d); fflush(stdout);
        iso_free_from_zone(n, z);
        iso_free_from_zone(p, z);
        iso_flush_caches();
        _exit(7);
    }
    _exit(8);
}
int main(void) { for(int i = 0; i < 5; i++) { int r = child(go); if(r == 256 + 7) FAIL("freed a block that was never allocated"); } return 0; }
'''),
dict(id='s22-eight-times', property='C38', edits=[(A, 'zone->chunk_size >= (size << WASTED_SZ_MULTIPLIER_SHIFT)) {', 'zone->chunk_size > (size << WASTED_SZ_MULTIPLIER_SHIFT)) {')],
     needs='a request above 1024 bytes while a zone of exactly eight times its size is in the cache of the thread or the only one left',
     breaks='requests are placed in blocks exactly eight times larger',
     demo='''
int main(void) {
    for(size_t s = 1056; s <= 8192; s += 32) {
        char *w = iso_alloc(s * 8);      /* now the zone is in the cache */
        iso_free_size(w, s * 8);
        char *p = iso_alloc(s);
        if(iso_chunksz(p) >= s * 8) FAIL("%zu bytes placed in a block of %zu", s, iso_chunksz(p));
        iso_free_size(p, s);
    }
    return 0;
}
'''),
dict(id='s23-core-fast-path', property='C39', edits=[(A, '''INTERNAL_HIDDEN iso_alloc_zone_t *is_zone_usable(iso_alloc_zone_t *zone, size_t size) {
#if CPU_PIN
    if(zone->cpu_core != _iso_getcpu()) {
        return false;
    }
#endif

''', '''INTERNAL_HIDDEN iso_alloc_zone_t *is_zone_usable(iso_alloc_zone_t *zone, size_t size) {
'''), (A, '''    UNMASK_ZONE_PTRS(zone);

    /* If the cache for this zone is empty we should
''', '''#if CPU_PIN
    if(zone->cpu_core != _iso_getcpu()) {
        return NULL;
    }
#endif

    UNMASK_ZONE_PTRS(zone);

    /* If the cache for this zone is empty we should
''')],
     needs='CPU pinning, a thread that migrates, and a zone of the old core whose next slot is primed already',
     breaks='the core of a zone is only compared when its next slot has to be searched; primed slots are served to any core',
     flags='-DCPU_PIN=1', demo='''
static int core;
int sched_getcpu(void) { return core; }
int main(void) {
    /* zones made at start-up belong to core 0 */
    for(size_t s = 16; s < 9000; s = s * 2) {
        core = 100;
        char *p = iso_alloc(s);
        uintptr_t lo = (uintptr_t) p & ~4095ul;
        while(readable((void *) (lo - 4096))) lo -= 4096;
        core = 0;
        for(int i = 0; i < 50; i++) {
            uintptr_t q = (uintptr_t) iso_alloc(s);
            if(q >= lo && q < lo + (4u << 20)) FAIL("%zu bytes: core 100 got %p and core 0 got %lx in one zone", s, p, q);
        }
    }
    return 0;
}
'''),
dict(id='s26-root-first-page', property='C29', edits=[(A, 'mprotect_pages(_root, sizeof(iso_alloc_root), PROT_NONE);', 'mprotect_pages(_root, g_page_size, PROT_NONE);')],
     needs='an access to the root beyond its first page while it is protected',
     breaks='only the first page of the root becomes inaccessible',
     flags='-DUNIT_TESTING=1', demo='''
#include "include/iso_alloc_internal.h"
extern iso_alloc_root *_get_root(void);
int main(void) {
    char *r = (char *) _get_root();
    size_t n = sizeof(iso_alloc_root);
    free(malloc(10)); printf(" "); fflush(stdout);
    iso_alloc_protect_root();
    int bad = 0;
    for(size_t o = 0; o < n; o += 4096) bad += readable(r + o);
    iso_alloc_unprotect_root();
    if(bad) FAIL("%d pages of the root readable while it is protected", bad);
    return 0;
}
'''),
dict(id='s27-aligned-search', property='C27', edits=[('src/iso_alloc_search.c', '                search++;', '                search += sizeof(uint64_t);')],
     needs='a dangling reference at an address that is no multiple of 8 (a packed structure)',
     breaks='unaligned dangling references are not found',
     flags='-DUAF_PTR_PAGE=1 -DUAF_PTR_PAGE_ODDS=2', demo='''
#undef UAF_PTR_PAGE_ODDS
#define IN_DEMO 1
#include "include/iso_alloc_internal.h"
char *volatile keep;
int main(void) {
    keep = iso_calloc(1, 4096);
    char *h = keep;
    for(int o = 0; o < 16; o++) {
        char *p = iso_alloc(100);
        memset(h, 0, 4096);
        memcpy(h + 64 + o, &p, sizeof p);
        LOCK_ROOT();
        void *f = _iso_alloc_ptr_search(p, true);
        UNLOCK_ROOT();
        char *v; memcpy(&v, h + 64 + o, sizeof v);
        if(v == p) FAIL("reference at offset %d not found (search gave %p)", o, f);
        iso_free_size(p, 100);
    }
    return 0;
}
'''),
dict(id='s28-sample-last-word', property='C26', edits=[('src/iso_alloc_sanity.c', 'end = ((sane_alloc->address + g_page_size) - sane_alloc->orig_size);', 'end = ((sane_alloc->address + g_page_size) - sane_alloc->orig_size) - sizeof(uint64_t);')],
     needs='a sampled block placed at the end of its page, and an underflow of no more than 8 bytes',
     breaks='the 8 bytes directly below a sampled block are not verified',
     flags='-DALLOC_SANITY=1', demo='''
static void damage(void) {
    for(long i = 0; i < 3000000; i++) {
        char *p = iso_alloc(960);
        /* sampled and right aligned: ends exactly with its page, and the page after it is inaccessible */
        if(((uintptr_t) p + 960) % 4096 == 0 && !readable(p + 960) && !readable((char *) (((uintptr_t) p & ~4095ul) - 1))) {
            p[-3] ^= 0x33;
            iso_free_size(p, 960);
            _exit(7);
        }
        iso_free_size(p, 960);
    }
    _exit(8);
}
int main(void) { for(int i = 0; i < 3; i++) { int r = child(damage); if(r == 256 + 7) FAIL("underflow of a sampled block not noticed"); if(r == 256 + 8) return 2; } return 0; }
'''),
dict(id='s29-half-table', property='C34', edits=[(A, 'unmap_guarded_pages(_root->chunk_lookup_table, CHUNK_TO_ZONE_TABLE_SZ);', 'unmap_guarded_pages(_root->chunk_lookup_table, CHUNK_TO_ZONE_TABLE_SZ - (g_page_size * 2));')],
     needs='the full clean-up build and its explicit destruction',
     breaks='the last pages of the table that finds zones stay mapped after destruction',
     flags='-DISO_DTOR_CLEANUP=1 -DAUTO_CTOR_DTOR=0', demo='''
void iso_alloc_initialize(void); void iso_alloc_destroy(void);
static long bytes(long *n) { FILE *f = fopen("/proc/self/maps", "r"); char b[4096]; unsigned long a, e, t = 0; *n = 0; while(fgets(b, sizeof b, f)) { char *h = strstr(b, "heap"); sscanf(b, "%lx-%lx", &a, &e); if(!h) { t += e - a; ++*n; } } fclose(f); return t; }
int main(void) {
    long n0, n1; bytes(&n0); 
    long a = bytes(&n0);
    iso_alloc_initialize();
    for(int i = 0; i < 1000; i++) iso_alloc(i * 10);
    iso_alloc_destroy();
    long b = bytes(&n1);
    if(b != a) FAIL("%ld bytes in %ld mappings before, %ld in %ld after", a, n0, b, n1);
    return 0;
}
'''),
dict(id='s30-quarantined-at-destruction', property='C17', edits=[(A, """        clear_zone_cache();
        flush_chunk_quarantine();
    }

    UNMASK_ZONE_PTRS(zone);""", """        clear_zone_cache();

        /* A quarantine that was just flushed holds nothing of this zone */
        if(_root->chunk_quarantine_count > 1) {
            flush_chunk_quarantine();
        }
    }

    UNMASK_ZONE_PTRS(zone);""")],
     needs='a zone destroyed while the only quarantined block is one of its own, then a flush',
     breaks='a single block left in quarantine when its zone is destroyed makes a later flush abort a correct program',
     demo='''
static void go(void) {
    for(int i = 0; i < 20; i++) {
        iso_flush_caches();
        iso_alloc_zone_handle *z = iso_alloc_new_zone(100 + i);
        void *p = iso_alloc_from_zone(z);
        iso_free(p);
        iso_alloc_destroy_zone(z);
    }
    iso_flush_caches();
}
int main(void) { int r = child(go); if(r) FAIL("destroying a zone with one quarantined block: %d", r); return 0; }
'''),
dict(id='s34-wrapped-size', property='C06', edits=[(A, 'if(new_size < size || new_size > BIG_SZ_MAX || size < SMALL_SIZE_MAX) {', 'if(new_size > BIG_SZ_MAX || size < SMALL_SIZE_MAX) {')],
     needs='a request within a page of the largest representable size',
     breaks='the rounding of the request wraps to zero and passes the limit',
     demo='''
static size_t n;
static void go(void) { volatile char *p = iso_alloc(n); if(p) _exit(7); p = iso_alloc(100); p[99] = 1; }
int main(void) {
    for(n = SIZE_MAX; n > SIZE_MAX - 4094; n -= 13) { int r = child(go); if(r) FAIL("iso_alloc(%zx): %d", n, r); }
    return 0;
}
'''),
dict(id='s37-usage-unlocked', property='C03', edits=[('src/iso_alloc_profiler.c', '''    uint64_t mem_usage = __iso_alloc_big_zone_mem_usage(_root->big_zone_used);
    UNLOCK_BIG_ZONE_USED();

    LOCK_BIG_ZONE_FREE();
    mem_usage += __iso_alloc_big_zone_mem_usage(_root->big_zone_free);
    UNLOCK_BIG_ZONE_FREE();
''', '''    uint64_t mem_usage = __iso_alloc_big_zone_mem_usage(_root->big_zone_used);
    mem_usage += __iso_alloc_big_zone_mem_usage(_root->big_zone_free);
    UNLOCK_BIG_ZONE_USED();
''')],
     needs='a usage report while another thread frees or takes large blocks',
     breaks='the usage report walks the list of free large blocks without holding its lock',
     flags='-fsanitize=thread', demo='''
static void *run(void *a) {
    for(int i = 0; i < 3000; i++) { char *p = iso_alloc(70000 + i * 10); p[0] = 1; iso_free_size(p, 70000 + i * 10); }
    return NULL;
}
int main(void) {
    pthread_t t[3];
    for(long i = 0; i < 3; i++) pthread_create(&t[i], NULL, run, NULL);
    for(int i = 0; i < 2000; i++) iso_alloc_mem_usage();
    for(int i = 0; i < 3; i++) pthread_join(t[i], NULL);
    return 0;
}
'''),
]
