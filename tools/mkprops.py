#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts live)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

IA='src/iso_alloc.c'; IF='src/iso_alloc_interfaces.c'; SAN='src/iso_alloc_sanity.c'; UT='src/iso_alloc_util.c'
PR='src/iso_alloc_profiler.c'; MT='src/iso_alloc_mem_tags.c'; MH='src/malloc_hook.c'; CPP='src/iso_alloc.cpp'
RN='src/iso_alloc_random.c'; SE='src/iso_alloc_search.c'; LH='src/libc_hook.c'; CF='include/conf.h'; INT='include/iso_alloc_internal.h'; DS='include/iso_alloc_ds.h'; SIG='src/iso_alloc_signal.c'

prop('C01', 'Live allocations are disjoint, aligned, big enough and never disturbed',
 'Every successful allocation, from any allocating entry point and of any size, yields an address aligned to at least 16 bytes whose requested number of bytes is readable, writable and disjoint from every other live allocation. Whatever the program wrote into a live allocation is still there, byte for byte, until the program itself frees or reallocates it, no matter which other allocator calls happen in between.',
 ['histories','inputs','configurations'],
 'every history of allocate/free/reallocate/zone/flush/verify calls, every mix of sizes from 1 byte to megabytes, every build configuration',
 'The tests allocate fixed patterns of power-of-two sizes and seldom look at contents; the property ranges over all interleavings of calls and sizes (non-power-of-two chunk sizes, nearly full zones, recycled slots, retired zones).',
 [IA, IF], [('bit slot search and bitmap update','src/iso_alloc.c:_iso_alloc_bitslot_from_zone'),('free bit slot cache','src/iso_alloc.c:fill_free_bit_slots'),('big allocation lists','src/iso_alloc.c:_iso_big_alloc')],
 [('bitmap','2 bits of state per chunk','iso_alloc_zone_t.bitmap_start')], ['iso_alloc','iso_calloc','iso_realloc','iso_alloc_from_zone','iso_free*'])

prop('C02', 'Concurrent use keeps allocations exclusive and intact',
 'When any number of threads allocate, free, reallocate and query concurrently, including freeing memory another thread allocated, no two live allocations ever overlap, no live contents change, and no valid call aborts, deadlocks or loses a chunk. Everything that was freed is accounted as free once all threads have stopped and caches are flushed.',
 ['schedules','histories','configurations'],
 'every interleaving of API calls from many threads, with mutex and spinlock builds',
 'thread_tests runs a couple of threads that each free their own chunks and never check overlap; interleavings with cross-thread frees, flushes, zone retirement and big zone list traffic are not reached.',
 [IA, INT], [('root lock','include/iso_alloc_internal.h:LOCK_ROOT'),('big zone list locks','include/iso_alloc_internal.h:LOCK_BIG_ZONE_USED'),('thread zone cache','src/iso_alloc.c:populate_zone_cache')],
 observe=['malloc/free API from several threads'])

prop('C03', 'The allocator is free of data races',
 'No two threads using the public API concurrently ever perform conflicting unsynchronised accesses to allocator state, for any combination of entry points (allocation, all kinds of free, size query, verification, leak and usage reports, flush, private zone creation and destruction).',
 ['schedules','programs'],
 'all pairs of public entry points called from different threads, in mutex builds',
 'No existing test runs under a race detector; a race seldom changes a test outcome.',
 [IA, SAN, PR, MT], [('root lock','include/iso_alloc_internal.h:LOCK_ROOT'),('big zone list locks','include/iso_alloc_internal.h:LOCK_BIG_ZONE_FREE')],
 observe=['ThreadSanitizer reports'])

prop('C04', 'Zero-initialised allocation really is zero and refuses overflow',
 'Memory obtained through the zero-initialising allocation call reads as zero over the full requested number of bytes even when it recycles memory that held other data, and when count times size cannot be represented or served the call returns NULL instead of a shorter block.',
 ['inputs','histories'],
 'every (count, size) pair and every prior state of the recycled memory',
 'Tests check zeroing on a handful of sizes and one overflow pair; recycled chunks carrying canaries, odd sizes and wrap-around products are not covered.',
 [IA, IF], [('zeroing and multiplication check','src/iso_alloc.c:_iso_calloc')], observe=['iso_calloc','calloc'])

prop('C05', 'Reallocation preserves contents and releases exactly the old block',
 'A successful reallocation returns a distinct block at least as big as requested whose first min(old,new) bytes equal the old contents, and the old block is released exactly once; NULL as old pointer behaves as plain allocation (also of zero bytes) and size zero for an existing block behaves as free. When a reallocation or array reallocation fails, including by multiplication overflow, it returns NULL and the old block stays live and unmodified.',
 ['inputs','histories'],
 'every chain of reallocations across small, large and boundary sizes, and every overflowing array product',
 'Tests reallocate a few fixed growing sizes and do not check release of the old block, shrinking, big blocks or failure atomicity.',
 [IF, IA], [('allocate, copy, free','src/iso_alloc_interfaces.c:iso_realloc'),('overflow check','src/iso_alloc_interfaces.c:iso_reallocarray')], observe=['iso_realloc','iso_reallocarray','realloc'])

prop('C06', 'Impossible sizes are refused, never silently shrunk',
 'For every request size up to the largest representable one, the allocator either returns a block of at least that size or fails: requests above the 4 GB cap, and requests so large that rounding would wrap, return NULL (or abort in the build that aborts on NULL) and leave the allocator fully usable.',
 ['inputs','configurations'],
 'all sizes near the class boundaries, the small/large threshold, huge page multiples, the cap and the top of the size range, through every allocating entry point',
 'Tests try one oversized request; wrap-around of size rounding and boundary sizes are never exercised.',
 [IA, UT], [('size rounding','src/iso_alloc.c:_iso_alloc'),('cap check','src/iso_alloc.c:_iso_big_alloc')], observe=['iso_alloc','iso_calloc','iso_realloc','posix_memalign','operator new'])

prop('C07', 'Zero-size requests yield a shared inaccessible address that is safe to free',
 'A zero-byte request (plain, zeroing with either factor zero, or resized through sized free) returns the same non-NULL address, any load or store through that address faults, its reported size is 0, and freeing it any number of times is a no-op; freeing it with a non-zero size aborts.',
 ['inputs','histories'],
 'every entry point that can receive a zero size, before and after any other traffic, including requests made before constructors have run',
 'zero_alloc.c dereferences one zero-size pointer once.',
 [IA, IF], [('zero page','src/iso_alloc.c:_iso_alloc'),('free of zero page','src/iso_alloc.c:_iso_free')], observe=['iso_alloc(0)','iso_calloc','iso_free','iso_free_size','iso_chunksz'])

prop('C08', 'Size queries are accurate, stable and free of side effects',
 'The size query on a live allocation always returns a value no smaller than requested, the same value every time, and every byte of that reported size may be written without disturbing any other allocation; on NULL it returns 0. Querying never changes the outcome of any later call.',
 ['inputs','histories'],
 'every live allocation, small or large, queried any number of times and at any point of the history',
 'Tests query a few small chunks once; nothing checks that querying large blocks leaves the heap intact.',
 [IA, IF, MH], [('size lookup','src/iso_alloc.c:_iso_chunk_size'),('large block lookup','src/iso_alloc.c:iso_find_big_zone')], observe=['iso_chunksz','malloc_usable_size'])

prop('C09', 'String duplication returns a correctly terminated private copy',
 'Duplicating a string, in general memory or in a private zone, returns a fresh writable block holding the same bytes and a terminating NUL; the length-limited form copies at most n bytes, always terminates, and never reads its source beyond n bytes or beyond the NUL. An empty string or n = 0 yields a usable empty string.',
 ['inputs','histories'],
 'every string length and limit around chunk boundaries, and every previous content of the recycled memory',
 'interfaces_test duplicates one short string into fresh zeroed memory, which hides a missing terminator.',
 [IF], [('copy and termination','src/iso_alloc_interfaces.c:iso_strdup_from_zone'),('bounded copy','src/iso_alloc_interfaces.c:iso_strndup_from_zone')], observe=['iso_strdup','iso_strndup','iso_strdup_from_zone','iso_strndup_from_zone'])

prop('C10', 'Aligned allocation interfaces honour the alignment or fail',
 'The aligned allocation interfaces (posix_memalign, aligned_alloc, memalign and aligned operator new) never return a block that is not aligned as requested: for power-of-two alignments up to a page they return a correctly aligned, sufficiently large, independently freeable block, and otherwise they fail. posix_memalign reports EINVAL for an alignment that is not a power of two multiple of the pointer size.',
 ['inputs','histories'],
 'every alignment and size pair, in heaps holding zones of arbitrary (non power-of-two) chunk sizes',
 'tests only call posix_memalign with convenient values on a fresh heap whose default zones happen to be aligned.',
 [MH, CPP], [('posix_memalign','src/malloc_hook.c:__posix_memalign'),('aligned new','src/iso_alloc.cpp')], observe=['posix_memalign','aligned_alloc','memalign','operator new(align_val_t)'])

prop('C11', 'Preloading the library does not change what programs compute',
 'An unmodified, memory-correct program run with the library preloaded produces the same output and exit status as with the system allocator, whatever mix of threads, forks (of single-threaded processes, or followed by exec), C++ runtime start-up allocations and exit-time output it uses.',
 ['programs','inputs','configurations'],
 'every memory-correct program; sampled by a corpus of real installed programs and generated allocation-heavy programs',
 'utils/run_tests scripts preload a couple of programs only when run by hand; the stable tests never do.',
 [MH, IA, CPP], [('malloc family interposition','src/malloc_hook.c'),('lazy initialisation','src/iso_alloc.c:_iso_alloc'),('exit destructor','src/iso_alloc.c:_iso_alloc_destroy')], observe=['LD_PRELOAD runs compared with the system allocator'])

prop('C12', 'C++ new and delete obey the language contract on the allocator',
 'Every replaceable form of operator new returns a distinct usable block (for zero bytes the shared zero-size address), or throws std::bad_alloc (returns NULL for the nothrow forms) when the request cannot be served; every matching form of operator delete, sized, aligned or plain, releases exactly that block. Mismatched sizes passed to sized delete that exceed the block are detected.',
 ['inputs','programs'],
 'all new/delete forms, array and scalar, all sizes including unservable ones, with containers and exceptions',
 'tests.cpp news and deletes a few objects and never makes an allocation fail.',
 [CPP], [('operator replacements','src/iso_alloc.cpp')], observe=['operator new/delete family'])

prop('C13', 'Double frees abort the process before the memory can be reissued twice',
 'If the program frees the same allocation twice without it having been handed out again in between, through any combination of the plain, sized, zone and permanent free calls and for small as well as large blocks, the process aborts at the latest when the delayed-free quarantine is next flushed. This includes blocks freed permanently.',
 ['histories','inputs','configurations'],
 'every pair of free calls, with any valid traffic between them, every size class',
 'double_free.c and big_double_free.c each try one sequence.',
 [IA], [('in-use bit test','src/iso_alloc.c:iso_free_chunk_from_zone'),('large block list lookup','src/iso_alloc.c:iso_find_big_zone')], observe=['SIGABRT in a forked child'])

prop('C14', 'Freeing anything that is not a live block start aborts',
 'Passing to a free call an address the allocator never returned - unaligned, interior to a block, in the tail of a zone, never allocated, on the stack, in globals, in foreign mappings, or belonging to another zone than named - aborts the process at the latest at the next quarantine flush, and never releases or corrupts another live block.',
 ['inputs','histories'],
 'every address that is not the start of a live allocation, against heaps in any state',
 'wild_free.c, unaligned_free.c and incorrect_chunk_size_multiple.c each try one address.',
 [IA], [('alignment and multiple-of-chunk checks','src/iso_alloc.c:iso_free_chunk_from_zone'),('zone lookup','src/iso_alloc.c:iso_find_zone_range')], observe=['SIGABRT in a forked child'])

prop('C15', 'Sized free rejects sizes larger than the block',
 'A sized free whose size exceeds the size of the block aborts, and one whose size was obtained from the original request or from the size query always succeeds and releases the block immediately, for small and large blocks alike.',
 ['inputs'],
 'all (block, size) pairs',
 'sized_free.c checks one mismatching pair.',
 [IA], [('size comparison','src/iso_alloc.c:_iso_free_size')], observe=['iso_free_size','operator delete(void*,size_t)'])

prop('C16', 'Corruption of freed memory is detected at the documented points',
 'A change to the first or last 8 bytes of a freed block (other than to its fixed zero byte) is detected with an abort when the block would be handed out again, when a directly adjacent block is freed, when the zone or all zones are verified, and at process exit. Freed blocks carry a guard value derived from a secret of their zone and from their position, so that it differs between blocks at least 256 bytes apart and between zones, and that begins with a zero byte in memory.',
 ['inputs','histories','configurations'],
 'every size class, position in the zone, corrupted byte and detection point',
 'heap_overflow.c/heap_underflow.c/uaf.c corrupt one chunk each and accept any non-zero exit.',
 [IA, SAN], [('guard value writing','src/iso_alloc.c:write_canary'),('adjacent checks','src/iso_alloc.c:iso_free_chunk_from_zone'),('verification','src/iso_alloc_sanity.c:_verify_zone')], observe=['SIGABRT in a forked child'])

prop('C17', 'Correct programs are never aborted, and verification always passes on them',
 'A program that uses the interface correctly is never terminated by an integrity check: verification of one zone or all zones, flushing, adjacent-block checks, reuse checks and exit-time verification all pass at every point of every valid history, for every block size and any mixture of zones, random values and build options.',
 ['histories','inputs','configurations'],
 'all valid histories, every multiple of 32 as block size, adversarial values from the random source',
 'Tests use few sizes and the real random source, so bookkeeping errors that need particular sizes, zone sharing or random values stay hidden.',
 [IA, SAN], [('zone geometry','src/iso_alloc.c:_iso_new_zone'),('verification','src/iso_alloc_sanity.c:_verify_all_zones')], observe=['exit status of valid workloads'])

prop('C18', 'User memory, bitmaps and metadata are fenced by inaccessible guard pages',
 'The pages immediately below and above every zone of user memory, every bitmap mapping and every other block of allocator metadata are inaccessible, so that a linear overflow or underflow running off either end faults instead of reaching other memory. This holds for zones created at start-up, on demand, privately and as replacements of retired ones.',
 ['histories','configurations'],
 'every zone and metadata mapping existing at any point of any history',
 'No test inspects page protections.',
 [UT, IA], [('guard page creation','src/iso_alloc_util.c:mmap_guarded_rw_pages'),('zone guards','src/iso_alloc.c:_iso_new_zone')], observe=['/proc/self/maps at quiescent points','SIGSEGV probes'])

prop('C19', 'Plainly freed memory is held in quarantine before reuse',
 'Memory released by the plain free call is not handed out again by any allocation until the quarantine of 64 entries has been flushed: after a flush, none of the next 64 freed blocks is reissued before a 65th free or another flush occurs. An explicit flush makes all quarantined memory available again.',
 ['histories'],
 'every sequence of at most 64 plain frees after a flush interleaved with any allocations',
 'No test observes when an address is reused.',
 [IA], [('delayed free','src/iso_alloc.c:_iso_free'),('flush','src/iso_alloc.c:flush_chunk_quarantine')], observe=['addresses returned by later allocations'])

prop('C20', 'Permanently freed memory is never handed out again',
 'A block released permanently (directly, through its zone, or through reallocation in the build that makes those releases permanent) is never overlapped by any later allocation while its zone exists, and its former contents are erased; a permanently freed large block becomes inaccessible.',
 ['histories','inputs','configurations'],
 'every later history, including exhaustion of the zone, of permanently freed blocks of every size',
 'Tests permanently free one chunk and allocate a little.',
 [IA, IF], [('permanent state','src/iso_alloc.c:iso_free_chunk_from_zone'),('large blocks','src/iso_alloc.c:iso_free_big_zone')], observe=['addresses returned later','memory contents','page protections'])

prop('C21', 'Private zones isolate, deliver their capacity and vanish on destruction',
 'Allocations from a private zone come only from that zone and nothing else is ever placed in it; it delivers at least the advertised number of blocks of the advertised size before returning NULL, and freed blocks become allocatable again. Requests too big for zones or for the given zone are refused, and after destruction its memory is inaccessible while all other memory is unaffected.',
 ['histories','inputs'],
 'all zone sizes, any number of zones, any interleaving with general allocation, exhaustion and destruction',
 'Tests create zones of a few sizes, partially use them and do not check separation or capacity.',
 [IA, IF], [('zone creation','src/iso_alloc.c:_iso_new_zone'),('private zone exclusion','src/iso_alloc.c:find_suitable_zone'),('destruction','src/iso_alloc.c:_iso_alloc_destroy_zone_unlocked')], observe=['iso_alloc_new_zone','iso_alloc_from_zone','iso_zone_chunk_count','iso_alloc_destroy_zone'])

prop('C22', 'Reserved canary blocks exist and are never handed out',
 'In zones for blocks of 8192 bytes or less with enough blocks, some blocks are reserved as canaries: they are never returned by any allocation even when the zone is driven to exhaustion, freeing one aborts, and any change to their first or last 8 bytes is detected by verification. No more blocks are reserved than the advertised capacity allows for.',
 ['histories','inputs'],
 'every small size class, every zone instance, full exhaustion',
 'No test locates canary chunks.',
 [IA], [('canary creation','src/iso_alloc.c:create_canary_chunks')], observe=['complement of the blocks returned by an exhausted zone'])

prop('C23', 'Freed contents are erased when chunk sanitising is enabled',
 'In the build that sanitises chunks, every byte of a released block other than its guard values is overwritten with the poison value once it leaves quarantine, for every size, and reuse never exposes previous contents.',
 ['inputs','histories','configurations'],
 'all sizes and release paths',
 'The opt-sanitize_chunks variant only reruns the functional tests and never reads freed memory.',
 [IA], [('poisoning on free','src/iso_alloc.c:iso_free_chunk_from_zone'),('page discard','src/iso_alloc_util.c:dont_need_pages')], observe=['contents of freed and reused memory'])

prop('C24', 'Memory tags round-trip, are verified, and change on free',
 'In tagging builds, tagging then untagging any live pointer of a private zone returns it unchanged, the tag embedded in it equals the tag reported for that block, and verification accepts exactly the correctly tagged pointer. Freeing a block draws a fresh tag so that stale tagged pointers are rejected except by chance, also in a zone that is well used and never idle; an idle zone that has been well used draws all its tags again. Tag storage never overlaps user memory, and tag calls on anything but a block of the zone abort.',
 ['inputs','histories','schedules'],
 'every block of every private zone size, through tag, untag, verify, free and reuse, also while other threads use the zone',
 'tagged_ptr_test uses one power-of-two zone size; verification of a correct tag is only ever expected to crash.',
 [MT, IA, IF], [('tag lookup','src/iso_alloc_mem_tags.c:_iso_alloc_get_mem_tag'),('tag refresh','src/iso_alloc.c:_iso_free_internal_unlocked')], observe=['iso_alloc_from_zone_tagged','iso_alloc_verify_ptr_tag','iso_alloc_get_mem_tag'])

prop('C25', 'Memory-routine sanity builds copy correctly and stop overflowing calls',
 'In the builds that hook memcpy, memmove and memset, every in-bounds call has exactly its standard effect (including overlapping moves), and a call on more than 32 bytes that would run past the end of the zone block its pointer starts in aborts before touching memory whenever the block is found by the fast lookup. Calls on memory the allocator does not own are never rejected.',
 ['inputs','configurations'],
 'all (destination, source, length) combinations over small blocks, large blocks, stack and foreign memory',
 'memcpy_sanity.c and friends make one overflowing call each and one size.',
 [SAN, LH], [('bounds check','src/iso_alloc_sanity.c:_iso_alloc_memcpy'),('hook','src/libc_hook.c')], observe=['memcpy','memmove','memset'])

prop('C26', 'Sampled sanity allocations are fenced, verified and transparent',
 'In the build with allocation sampling, a random fraction of general small allocations is placed on its own page between inaccessible pages, some ending exactly at the page end; overflow beyond such a page faults, damage to the unused bytes of the page aborts on free, and use after free faults. Otherwise sampled blocks behave exactly like others for free, sized free, reallocation and size query.',
 ['histories','inputs','schedules'],
 'every size below a page, with forced and natural sampling, any mix with ordinary blocks',
 'With sampling odds of 1 in 10000 the tests almost never hit a sampled allocation and none checks one.',
 [SAN, IA], [('sampling','src/iso_alloc_sanity.c:_iso_alloc_sample'),('canary check','src/iso_alloc_sanity.c:check_sanity_canary')], observe=['/proc/self/maps','SIGSEGV/SIGABRT in forked children'])

prop('C27', 'Dangling references are poisoned when use-after-free search is enabled',
 'In the build that searches for dangling references, when a release is selected for the search the first occurrence of the released address in user zones is replaced by the address of an inaccessible page, nothing else in user memory is altered, and with the signal handler a later use of it is reported and aborts. Releases not selected alter nothing.',
 ['histories','schedules'],
 'every placement of stale pointers, with the random selection forced or suppressed',
 'With odds of 1 in a million the search never triggers in a test.',
 [SE, IA, SIG], [('pointer search','src/iso_alloc_search.c:_iso_alloc_ptr_search'),('signal handler','src/iso_alloc_signal.c')], observe=['contents of user memory after free'])

prop('C28', 'Large blocks are separate, reusable, protected and fully reclaimed',
 'Each block larger than 64 KB has its own mapping at least as big as requested; freed ones are either reused whole for a similar request or returned to the system, never both live and free, and never reused more than a bounded number of times; a free block of exactly the requested size is reused. In the builds that ask for it they are fenced by guard pages and inaccessible while on the free list.',
 ['histories','inputs','configurations'],
 'all histories of large allocations and frees, with each combination of the large-block options',
 'big_tests cycles a few sizes and never looks at mappings or protections.',
 [IA, UT], [('large allocation','src/iso_alloc.c:_iso_big_alloc'),('large free','src/iso_alloc.c:iso_free_big_zone')], observe=['/proc/self/maps','addresses'])

prop('C29', 'Protecting the root suspends the allocator and unprotecting restores it',
 'While the root is protected all of its memory is inaccessible and no general allocation of at most 64 KB by any other thread completes; after unprotecting, suspended calls complete and every earlier allocation, free list and statistic is exactly as before.',
 ['schedules','histories'],
 'any point of any history, with concurrent threads blocked in allocation',
 'Tests protect and unprotect once with nothing in between.',
 [IA], [('protect','src/iso_alloc.c:_iso_alloc_protect_root')], observe=['/proc/self/maps','completion of calls in other threads'])

prop('C30', 'Leak and usage reports are exact',
 'In builds with leak detection, once caches are flushed the leak count of a zone equals the number of its blocks currently live, the global report is zero exactly when nothing is live and otherwise equals live small blocks plus bytes of live large blocks; usage reports equal the memory held by zones and large blocks. Reporting never changes allocator behaviour.',
 ['histories','inputs'],
 'any history of allocations and frees of any kind, any zone',
 'leaks_test.c checks one count for two sizes.',
 [PR], [('bitmap scan','src/iso_alloc_profiler.c:_iso_alloc_zone_leak_detector'),('usage','src/iso_alloc_profiler.c:__iso_alloc_mem_usage')], observe=['iso_alloc_detect_leaks','iso_alloc_detect_zone_leaks','iso_alloc_mem_usage','iso_alloc_zone_mem_usage'])

prop('C31', 'Steady workloads use a bounded number of mappings and bytes',
 'A program whose live set is bounded reaches a plateau: repeating any cycle of allocations and frees, small, large, private-zone based or mixed, does not let the number of mappings, the address space or the number of zones grow without bound, and memory of destroyed zones and retired large blocks is returned to the system.',
 ['histories'],
 'any number of repetitions of any bounded cycle',
 'Tests end long before a leak of one page per operation matters.',
 [IA, UT], [('large block retirement','src/iso_alloc.c:iso_free_big_zone'),('zone replacement','src/iso_alloc.c:_iso_alloc_destroy_zone_unlocked')], observe=['/proc/self/maps line and byte counts per cycle'])

prop('C32', 'Zones are retired after heavy use and replaced transparently',
 'A general zone for small blocks that has served many times its capacity is discarded and replaced once it is empty: its old memory becomes inaccessible, a replacement serves later requests, and neither live data, other zones nor any later request, verification or report is affected, whichever zone is retired and in whatever order.',
 ['histories'],
 'histories of millions of operations that retire any subset of the zones, in any order, mixed with new zone creation',
 'Retirement needs 32 times the zone capacity in allocations; tests retire at most one zone and do not continue with new zones afterwards.',
 [IA], [('retirement test','src/iso_alloc.c:_is_zone_retired'),('replacement','src/iso_alloc.c:_iso_alloc_destroy_zone_unlocked'),('lookup table upkeep','src/iso_alloc.c:_iso_new_zone')], observe=['/proc/self/maps','later allocations'])

prop('C33', 'The heap profiler samples faithfully and never perturbs the program',
 'In profiler builds every allocation and plain free is counted, up to the capacity of the trace tables each sampled call path appears with its true number of sampled calls and size bounds, traces can be read and reset at any time, and the profile file is written at exit; allocation behaviour is otherwise unchanged for all sizes.',
 ['histories','inputs'],
 'any call path mix and any sizes including the class maximum, with sampling forced or natural',
 'interfaces_test only checks that a trace call returns.',
 [PR], [('sampling','src/iso_alloc_profiler.c:_iso_alloc_profile'),('output','src/iso_alloc_profiler.c:_iso_output_profile')], observe=['iso_get_alloc_traces','iso_get_free_traces','profile file'])

prop('C34', 'Start-up, repeated initialisation and exit are safe in any order',
 'Allocation, release and size queries work before the library constructor has run, explicit initialisation is idempotent and never disturbs live memory, and at normal process exit memory that is still live stays usable by code running after the library destructor while integrity is still verified. With full clean-up enabled, explicit destruction returns all zones and metadata to the system.',
 ['histories','configurations'],
 'every order of early allocations, constructors, initialise/destroy calls, exit handlers and destructors',
 'init_destroy.c calls initialise and destroy once each.',
 [IA, IF], [('lazy initialisation','src/iso_alloc.c:_iso_alloc'),('destructor','src/iso_alloc.c:_iso_alloc_destroy')], observe=['exit status and output of programs','/proc/self/maps'])

prop('C35', 'Placement and secrets are unpredictable',
 'With free list randomisation, the order in which a fresh zone hands out blocks is not sequential and differs between zones and processes; zone base addresses, guard values, zone handles and tags likewise derive from fresh entropy so that knowing those of one zone or process does not give those of another.',
 ['histories','programs'],
 'all zones and processes; statistically, over many fresh instances',
 'rand_freelist.c inspects one zone for one ordering.',
 [IA, RN, UT], [('shuffle','src/iso_alloc.c:fill_free_bit_slots'),('entropy','src/iso_alloc_random.c'),('mmap hints','src/iso_alloc_util.c:mmap_pages')], observe=['address sequences across zones and processes'])

prop('C36', 'Failures of the operating system never produce unsafe memory',
 'If obtaining entropy, mapping memory or changing protection fails at any point, the process aborts (or the allocation returns NULL); the allocator never continues with predictable secrets in builds that abort without entropy (the default), never returns a bad address, and never leaves a zone without its guards.',
 ['fault_sequences','configurations'],
 'failure of any single one, or any suffix, of the system calls made during initialisation and operation',
 'No test injects a fault.',
 [UT, RN, IA], [('mmap failure','src/iso_alloc_util.c:mmap_pages'),('mprotect failure','src/iso_alloc_util.c:mprotect_pages'),('entropy failure','src/iso_alloc_random.c:rand_uint64')], observe=['interposed mmap/mprotect/getrandom'])

prop('C37', 'The allocator itself has no memory errors or undefined behaviour',
 'No valid use of the interface makes the allocator read or write outside its own objects, use uninitialised or released memory, or execute undefined behaviour; in the address-sanitizer build, program accesses to blocks not yet handed out, or released and past the quarantine, are reported.',
 ['histories','inputs','configurations'],
 'all valid histories under every build option; all stale or out-of-block program accesses in the sanitizer build',
 'The stable tests run without sanitizers.',
 [IA, SAN, PR, UT, INT], [('poisoning','include/iso_alloc_internal.h:POISON_ZONE_CHUNK')], observe=['AddressSanitizer and UndefinedBehaviorSanitizer reports'])

prop('C38', 'Memory of one block size is never recycled as another',
 'Within the lifetime of a zone its memory is always divided at the same block boundaries: any later allocation that overlaps a formerly freed small block starts at the same address and has the same size. Requests above 1024 bytes are never placed in blocks eight or more times larger, and with strong size isolation every small request is placed in blocks of exactly its rounded size.',
 ['histories','inputs','configurations'],
 'all histories and sizes, default and strong isolation builds',
 'No test tracks how an address was used before.',
 [IA], [('zone selection','src/iso_alloc.c:find_suitable_zone'),('usability policy','src/iso_alloc.c:is_zone_usable')], observe=['address and reported size of every allocation'])

prop('C39', 'With CPU pinning, zones serve only the core that created them',
 'In CPU-pinned builds a general allocation made on one core is never placed in a zone created on another core, while memory may be freed from any core and every allocation still succeeds.',
 ['schedules','histories'],
 'any migration of threads between cores, any sizes',
 'Only the build is tested; no test runs it across cores.',
 [IA, UT], [('core check','src/iso_alloc.c:is_zone_usable'),('core id','src/iso_alloc_util.c:_iso_getcpu')], observe=['zone of each allocation against the (interposed) current core'])

prop('C40', 'Metadata never holds plain pointers to user memory at rest',
 'With pointer masking, between calls no zone or root metadata contains the unmasked address of any zone user area or of a bitmap with a mapping of its own, and zone handles given to programs do not reveal the address of zone metadata; masks differ between zones.',
 ['histories','configurations'],
 'every quiescent point of every history, all call kinds including error and reporting paths',
 'No test scans metadata.',
 [IA, IF, INT], [('masking','include/iso_alloc_internal.h:MASK_ZONE_PTRS')], observe=['scan of allocator metadata mappings'])

prop('C41', 'With abort-on-NULL no plain allocation ever returns NULL',
 'In the build that aborts on NULL, an allocation that cannot be served because it is too large or because its private zone is exhausted aborts instead of returning NULL, and servable requests are unaffected. Array requests whose product does not fit in 32 bits are refused with NULL in every build.',
 ['inputs','configurations'],
 'all unservable requests through plain, zone and reallocating entry points',
 'The opt-abort_on_null variant reruns ordinary tests.',
 [IA], [('abort paths','src/iso_alloc.c:_iso_alloc')], observe=['SIGABRT in forked children'])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
