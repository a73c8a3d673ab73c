from driver import Cfg, Exe, Job
CHECKS = {}
_exe = {}


def exe(src, cfg=None, **kw):
    k = (src, cfg.key() if cfg else None, tuple(sorted(kw.items())))
    if k not in _exe:
        _exe[k] = Exe(src + '-' + (cfg.name if cfg else 'plain') + '-%d' % len(_exe), src, cfg, **kw)
    return _exe[k]


def check(id, technique, rule, require, note, level='exploration', **kw):
    def d(f):
        CHECKS[id] = dict(id=id, jobs=f, level=level, technique=technique, note=note, rule=rule, require=require, **kw)
        return f
    return d


def P(tier, q, t):
    return q if tier == 'quick' else t


# the library as built by default, and the options that change its behaviour
DEF = Cfg('default')
VAR = {
    'sanitize': Cfg('sanitize', SANITIZE_CHUNKS=1),
    'norandfl': Cfg('norandfl', RANDOMIZE_FREELIST=0),
    'nomask': Cfg('nomask', MASK_PTRS=0),
    'nocanary': Cfg('nocanary', DISABLE_CANARY=1),
    'strong': Cfg('strong', STRONG_SIZE_ISOLATION=1),
    'smallmem': Cfg('smallmem', SMALL_MEM_STARTUP=1),
    'permrealloc': Cfg('permrealloc', PERM_FREE_REALLOC=1),
    'bigguard': Cfg('bigguard', BIG_ZONE_META_DATA_GUARD=1, BIG_ZONE_GUARD=1),
    'protbig': Cfg('protbig', PROTECT_FREE_BIG_ZONES=1, BIG_ZONE_META_DATA_GUARD=1),
    'nohuge': Cfg('nohuge', HUGE_PAGES=0, THP_PAGES=0, USE_MLOCK=0),
    'sanity': Cfg('sanity', ALLOC_SANITY=1),
    'uaf': Cfg('uaf', UAF_PTR_PAGE=1),
    'tags': Cfg('tags', MEMORY_TAGGING=1),
    'cpupin': Cfg('cpupin', CPU_PIN=1),
    'nothread': Cfg('nothread', THREAD_SUPPORT=0),
    'prof': Cfg('prof', HEAP_PROFILER=1),
    'debug': Cfg('debug', opt='-O0', DEBUG=1, LEAK_DETECTOR=1, MEM_USAGE=1),
    'spin': Cfg('spin', USE_SPINLOCK=1),
    'verifyslots': Cfg('verifyslots', VERIFY_FREE_BIT_SLOTS=1),
    'abortnull': Cfg('abortnull', ABORT_ON_NULL=1),
    'gcc': Cfg('gcc', cc='gcc', opt='-O3'),
}


@check('C01', 'random valid API histories judged online by a shadow heap', 'one evaluation per step (one call, or one burst, drain or churn of many) of a random valid history; distinct = (call, size class, previous two calls, number of live blocks/64)',
       dict(ops=4000000, zones_created=50, reallocs=3000, big=500, zones_destroyed=20, drains=50, churns=50),
       'Sampled histories; large blocks are pattern-checked at sampled words.')
def c01(tier, seed):
    J = []
    n = P(tier, 600000, 12000000)
    for i, v in enumerate([DEF, DEF, DEF] + [VAR[k] for k in ('sanitize', 'norandfl', 'nomask', 'strong', 'smallmem', 'permrealloc', 'protbig', 'sanity', 'uaf', 'tags', 'cpupin', 'prof', 'gcc')]):
        env = {}
        if i == 1:
            env = {'VH_RAND': 'const:0'}
        elif i == 2:
            env = {'VH_RAND': 'seed:%d' % seed}
        small = ' --small 1' if i in (0, 2, 5) else ''
        J.append(Job('%s.%d' % (v.name, i), exe('c01_live.cpp', v), '--seed %d --ops %d%s' % (seed * 1000 + i, n, small), env))
    return J


@check('C02', 'multi-threaded stress with per-block ownership patterns and offline disjointness and conservation checks',
       'one evaluation per fourth operation of a worker thread; distinct = (operation, preceding operations of that thread); interleavings are whatever 8 cores and injected yields produce',
       dict(allocations=100000, cross_thread_frees=5000, big=1000, zone_allocs=5000, live_checked=1000, leak_accountings=2, capacity_checks=20),
       'Sampled interleavings, widened by yields injected into the mapping calls made inside the locks.')
def c02(tier, seed):
    J = []
    rounds = P(tier, 5, 120)
    leak = Cfg('leak', LEAK_DETECTOR=1)
    leakspin = Cfg('leakspin', LEAK_DETECTOR=1, USE_SPINLOCK=1)
    for i, (c, nt, y, rand) in enumerate([(leak, 8, 3, None), (leakspin, 4, 5, None), (leak, 3, 2, 'const:0'), (VAR['sanity'], 6, 0, None), (VAR['uaf'], 6, 7, None),
                                          (VAR['protbig'], 8, 2, None), (VAR['permrealloc'], 4, 0, None), (VAR['strong'], 5, 0, None), (VAR['cpupin'], 6, 0, None), (VAR['sanitize'], 8, 0, None),
                                          (leak, 2, 1, 'seed:%d' % seed)]):
        J.append(Job('%s.%d' % (c.name, i), exe('c02_threads.cpp', c), '--seed %d --threads %d --yield %d --rounds %d' % (seed * 100 + i, nt, y, rounds), {'VH_RAND': rand} if rand else {}, weight=3, timeout=P(tier, 150, 1500)))
    return J


@check('C03', 'ThreadSanitizer on multi-threaded stress over all entry points',
       'one evaluation per fourth operation of a worker thread under ThreadSanitizer; distinct = (operation, preceding operations of that thread)',
       dict(allocations=20000, cross_thread_frees=1000, big=300, zone_allocs=500, threads=20),
       'Only races between accesses that the sampled schedules bring close together; the library and the monitor are instrumented, libc is not.')
def c03(tier, seed):
    J = []
    rounds = P(tier, 8, 80)
    ts = dict(opt='-O1', flags='-fsanitize=thread')
    for i, (c, nt) in enumerate([(Cfg('tsan', **ts), 5), (Cfg('tsan-leak', LEAK_DETECTOR=1, **ts), 4), (Cfg('tsan-sanity', ALLOC_SANITY=1, **ts), 4), (Cfg('tsan-spin', USE_SPINLOCK=1, **ts), 4),
                                 (Cfg('tsan-big', BIG_ZONE_META_DATA_GUARD=1, BIG_ZONE_GUARD=1, PROTECT_FREE_BIG_ZONES=1, STRONG_SIZE_ISOLATION=1, **ts), 4), (Cfg('tsan-prof', HEAP_PROFILER=1, **ts), 4), (Cfg('tsan-tags', MEMORY_TAGGING=1, CPU_PIN=1, **ts), 4)]):
        J.append(Job('%s.%d' % (c.name, i), exe('c02_threads.cpp', c, flags='-DVH_NO_HANDLERS'), '--seed %d --threads %d --rounds %d --ops 2500 --zones 30' % (seed * 100 + i, nt, rounds),
                     {'TSAN_OPTIONS': 'halt_on_error=0 exitcode=0 report_signal_unsafe=0 history_size=4'}, weight=3, timeout=P(tier, 200, 1500)))
    return J


def multi(src, variants, args, seed, n=None, **kw):
    """one job per (config, extra args, env)"""
    J = []
    for i, v in enumerate(variants):
        c, extra, env = (v + ('', None))[:3] if isinstance(v, tuple) else (v, '', None)
        J.append(Job('%s.%d' % (c.name, i), exe(src, c, **{k: x for k, x in kw.items() if k in ('flags', 'opt', 'ldflags')}), ('--seed %d %s %s' % (seed * 1000 + i, args, extra)), env or {},
                     **{k: x for k, x in kw.items() if k not in ('flags', 'opt', 'ldflags')}))
    return J


@check('C04', 'dirtied-heap workload with full zero scan of every zeroed block, plus exhaustive power-of-two overflow grid',
       'one evaluation per zeroed block or overflow pair; distinct = (size class, element size class, release route of the recycled memory) or (bit lengths of the factors, wraps to small)',
       dict(zeroed_blocks=30000, overflow_pairs=5000), 'Sampled sizes and histories; every byte of each returned block is read.')
def c04(tier, seed):
    return multi('c04_calloc.cpp', [DEF, (DEF, '', {'VH_RAND': 'const:0'}), VAR['sanitize'], VAR['nocanary'], VAR['strong'], VAR['protbig'], VAR['sanity'], VAR['smallmem'], VAR['nohuge'], VAR['abortnull'], VAR['permrealloc'], VAR['gcc']],
                 '--rounds %d' % P(tier, 150, 12000), seed, timeout=P(tier, 240, 1500))


@check('C05', 'reallocation chains against exact shadow contents, leak-report conservation and forked double-free probes',
       'one evaluation per reallocation; distinct = (old size class, new size class, array form)',
       dict(reallocations=10000, failed_reallocs=1000, double_free_probes=100, leak_checks=50, realloc_zero=100, null_zero=50), 'Sampled chains; release is observed through the leak report (leak-detector build) and through the abort of a second free.')
def c05(tier, seed):
    return multi('c05_realloc.cpp', [Cfg('leak', LEAK_DETECTOR=1), DEF, Cfg('leak-sanitize', LEAK_DETECTOR=1, SANITIZE_CHUNKS=1), VAR['permrealloc'], VAR['protbig'], VAR['strong'], VAR['sanity'], Cfg('leak-bigguard', LEAK_DETECTOR=1, BIG_ZONE_GUARD=1, BIG_ZONE_META_DATA_GUARD=1), VAR['abortnull']],
                 '--rounds %d' % P(tier, 500, 15000), seed, timeout=P(tier, 240, 1500))


HOOK = Cfg('hook', MALLOC_HOOK=1)
HOOKCPP = Cfg('hookcpp', MALLOC_HOOK=1, cpp=True)


@check('C06', 'boundary and impossible sizes through every allocating entry point, judged by size query, edge stores and a following random workload',
       'one evaluation per (entry point, size); distinct = (entry point, size class, offset from a page multiple)',
       dict(served=20000, refused=3000, near_cap=10), 'Enumerates +-34 around every class boundary and 80 sizes from the top of the range; the rest is sampled.')
def c06(tier, seed):
    J = multi('c06_sizes.cpp', [DEF, VAR['strong'], VAR['nohuge'], VAR['bigguard'], VAR['abortnull'], VAR['sanity'], VAR['smallmem'], VAR['gcc']], '', seed, timeout=400)
    J += multi('c06_sizes.cpp', [HOOK], '', seed + 50, timeout=400)
    J += multi('c06_sizes.cpp', [HOOKCPP], '', seed + 60, timeout=400, flags='-DVH_CPP')
    if tier != 'quick':
        for k in range(1, 12):
            J += multi('c06_sizes.cpp', [DEF, VAR['protbig']], '', seed + 100 * k, timeout=400)
    return J


@check('C07', 'identity, fault probes and forked misuse of the zero-size address around random traffic',
       'one evaluation per zero-size request or misuse; distinct = (request kind, number and kind of frees, misuse size class)',
       dict(zero_requests=5000, fault_probes=1000, sized_free_probes=100, early_requests=3), 'Sampled traffic around the requests.')
def c07(tier, seed):
    v = [DEF, (DEF, '', {'VH_EARLY': '1'}), (DEF, '', {'VH_EARLY': '2'}), (VAR['nomask'], '', {'VH_EARLY': '3'}), (VAR['sanity'], '', {'VH_EARLY': '1'}), VAR['smallmem'], VAR['strong'], VAR['uaf'], VAR['sanitize'], VAR['permrealloc'], VAR['tags']]
    return multi('c07_zero.cpp', v, '--rounds %d' % P(tier, 50, 1500), seed, timeout=P(tier, 240, 1500))


@check('C08', 'shadow heap that takes over the full reported size of every block, and differential histories with and without queries',
       'one evaluation per operation, query or differential history; distinct = (call, size class, preceding calls) or the history',
       dict(queries=5000, big_queries=1000, differential_histories=50, compared_results=10000), 'Sampled histories; the differential runs start both children from the same forked state.')
def c08(tier, seed):
    return multi('c08_size.cpp', [(DEF, '', {'VH_RAND': 'seed:%d' % seed}), (VAR['nomask'], '', {'VH_RAND': 'seed:%d' % (seed + 1)}), (VAR['strong'], '', {'VH_RAND': 'seed:%d' % (seed + 2)}), (VAR['sanity'], '--diff 0'), (VAR['bigguard'], '', {'VH_RAND': 'seed:%d' % (seed + 3)}),
                                  (VAR['nothread'], '', {'VH_RAND': 'seed:%d' % (seed + 4)}), (VAR['uaf'], '--diff 0'), (VAR['protbig'], '', {'VH_RAND': 'const:0'}), (VAR['smallmem'], '--diff 0')],
                 '--ops %d --diffs %d' % (P(tier, 120000, 4000000), P(tier, 12, 300)), seed, timeout=P(tier, 240, 1500))


@check('C09', 'string duplication over dirtied blocks with sources ending at an inaccessible page',
       'one evaluation per duplication; distinct = (length class, limited, zone, terminated, early terminator, limit equals length)',
       dict(strdups=10000, strndups=10000, zone_copies=3000), 'Sampled lengths and limits, biased to block boundaries.')
def c09(tier, seed):
    return multi('c09_strdup.cpp', [DEF, VAR['sanitize'], VAR['strong'], VAR['nocanary'], VAR['sanity'], VAR['smallmem'], Cfg('memcpy', MEMCPY_SANITY=1, MEMSET_SANITY=1), VAR['gcc']],
                 '--rounds %d' % P(tier, 20000, 600000), seed, timeout=P(tier, 240, 1500))


@check('C10', 'every aligned interface over all power-of-two alignments in heaps with awkward block sizes, judged by a shadow heap; bad alignments and wrapping sizes',
       'one evaluation per aligned request; distinct = (interface, alignment, size class, multiple of the alignment)',
       dict(aligned_blocks=20000, bad_alignments=400, huge_requests=3000), 'Alignments 1 to 1 MB and 2^24..2^63; sizes and heap states sampled.')
def c10(tier, seed):
    a = '--rounds %d' % P(tier, 5, 200)
    t = P(tier, 240, 1500)
    J = multi('c10_aligned.cpp', [HOOK, Cfg('hook-strong', MALLOC_HOOK=1, STRONG_SIZE_ISOLATION=1), Cfg('hook-small', MALLOC_HOOK=1, SMALL_MEM_STARTUP=1), Cfg('hook-sanity', MALLOC_HOOK=1, ALLOC_SANITY=1), Cfg('hook-gcc', cc='gcc', opt='-O3', MALLOC_HOOK=1, BIG_ZONE_GUARD=1)], a, seed, timeout=t)
    J += multi('c10_aligned.cpp', [HOOKCPP, Cfg('hookcpp-strong', MALLOC_HOOK=1, STRONG_SIZE_ISOLATION=1, cpp=True)], a, seed + 10, timeout=t, flags='-DVH_CPP -fsized-deallocation')
    return J


@check('C11', 'programs run with and without the library preloaded: status, output and error output compared byte for byte, calls counted by a second preloaded library',
       'one evaluation per program run with the library; distinct = (program, configuration, output)',
       dict(runs=300, output_bytes=1000000, processes_served=100, allocations=1000000), 'A corpus of installed programs and generated allocation-heavy ones; forks only from processes with one thread. Programs whose output varies without the library are left out (counted as unusable).')
def c11(tier, seed):
    import preload
    so = lambda name, **kw: Exe('so-' + name, None, Cfg('hook-' + name, MALLOC_HOOK=1, **kw), shared=True)
    progs = {'libc': Exe('p-libc', 'c11/libc.c', None, c=True), 'cxx': Exe('p-cxx', 'c11/cxx.cpp', None, flags='-fsized-deallocation'), 'forks': Exe('p-forks', 'c11/forks.c', None, c=True), 'threads': Exe('p-threads', 'c11/threads.c', None, c=True)}
    counter = Exe('counter', 'c11/count.c', None, c=True, shared=True)
    base = preload.Base()
    v = [('counted', so('counted', cpp=True), dict(counter=counter)), ('c', so('c'), {}), ('cpp', so('cpp', cpp=True), {}),
         ('sanitize', so('sanitize', cpp=True, SANITIZE_CHUNKS=1), {}), ('uaf', so('uaf', cpp=True, UAF_PTR_PAGE=1), {}), ('pin', so('pin', cpp=True, CPU_PIN=1), {}),
         ('sanity', so('sanity', cpp=True, ALLOC_SANITY=1, MEMCPY_SANITY=1, MEMSET_SANITY=1), {}),
         ('guards', so('guards', cpp=True, BIG_ZONE_META_DATA_GUARD=1, BIG_ZONE_GUARD=1, PROTECT_FREE_BIG_ZONES=1, STRONG_SIZE_ISOLATION=1), {}),
         ('smallmem', so('smallmem', cpp=True, SMALL_MEM_STARTUP=1), {}), ('prof', so('prof', cpp=True, HEAP_PROFILER=1, LEAK_DETECTOR=1, MEM_USAGE=1), {}),
         ('spin', so('spin', cpp=True, USE_SPINLOCK=1, NAMED_MAPPINGS=1), {}), ('nomask', so('nomask', cpp=True, MASK_PTRS=0, RANDOMIZE_FREELIST=0, HUGE_PAGES=0, THP_PAGES=0, USE_MLOCK=0), {}),
         ('tags', so('tags', cpp=True, MEMORY_TAGGING=1, PERM_FREE_REALLOC=1), {}), ('gcc', so('gcc', cpp=True, cc='gcc', cxx='g++', opt='-O3', PRE_POPULATE_PAGES=1), {}),
         ('nothread', so('nothread', cpp=True, THREAD_SUPPORT=0), dict(single_threaded=True))]
    J = []
    for name, e, kw in v:
        j = Job(name, e, runner=preload.runner(base, progs, seed, rounds=P(tier, 1, 6), **kw))
        j.extra = list(progs.values()) + [counter]
        J.append(j)
    return J


@check('C12', 'all forms of operator new and delete, called directly and through the language, judged by a shadow heap and the leak report',
       'one evaluation per operator new; distinct = (form, delete form, size class, alignment)',
       dict(news=50000, exact_releases=2000, double_deletes=400, oversize_deletes=300, unservable=10000, language_rounds=300), 'Sampled sizes and orders. The sized aligned delete forms come from the C++ library.')
def c12(tier, seed):
    n = P(tier, 12000, 400000)
    return multi('c12_new.cpp', [Cfg('hookcpp-leak', MALLOC_HOOK=1, LEAK_DETECTOR=1, cpp=True), HOOKCPP, Cfg('hookcpp-leak-sanitize', MALLOC_HOOK=1, LEAK_DETECTOR=1, SANITIZE_CHUNKS=1, BIG_ZONE_GUARD=1, cpp=True), Cfg('hookcpp-strong', MALLOC_HOOK=1, STRONG_SIZE_ISOLATION=1, cpp=True),
                                 Cfg('hookcpp-gcc', MALLOC_HOOK=1, cpp=True, cc='gcc', cxx='g++', opt='-O3')], '--rounds %d' % n, seed, timeout=P(tier, 240, 1500), flags='-fsized-deallocation')


@check('C13', 'forked double frees over all pairs of release calls with traffic between, oracle: the process aborts by the next flush',
       'one evaluation per double free; distinct = (first call, second call, kind of block, traffic, flush between, size class)',
       dict(double_frees=1500, general=400, private=400, large=400), 'Sampled histories between the two frees; cases in which the block was reissued are void.')
def c13(tier, seed):
    return multi('c13_double.cpp', [DEF] + [VAR[k] for k in ('sanitize', 'norandfl', 'nomask', 'nocanary', 'strong', 'smallmem', 'permrealloc', 'protbig', 'sanity', 'uaf', 'tags', 'nothread', 'prof', 'verifyslots', 'gcc')],
                 '--rounds %d' % P(tier, 220, 8000), seed, timeout=P(tier, 240, 1500))


@check('C14', 'forked frees of addresses of 27 categories, oracle: abort by the next flush with all live contents intact',
       'one evaluation per wild free; distinct = (category, call, block size of the zone)',
       dict(wild_frees=2500, detected=2500), 'Sampled addresses within each category.')
def c14(tier, seed):
    return multi('c14_wild.cpp', [DEF, DEF] + [VAR[k] for k in ('sanitize', 'nomask', 'nocanary', 'strong', 'smallmem', 'bigguard', 'protbig', 'sanity', 'uaf', 'tags', 'nothread', 'prof', 'nohuge', 'gcc')],
                 '--rounds %d' % P(tier, 250, 10000), seed, timeout=P(tier, 240, 1500))


@check('C15', 'forked sized frees with sizes past the block over boundary values, and immediate-release observation by leak report, second free and reuse',
       'one evaluation per oversized free; distinct = (block size class, entry point, size class, off by one)',
       dict(oversize=4000, immediate=250, valid_sized_frees=800, leak_checks=80, reuse_checks=10), 'Sampled blocks and sizes.')
def c15(tier, seed):
    return multi('c15_sized.cpp', [DEF, Cfg('leak', LEAK_DETECTOR=1)] + [VAR[k] for k in ('sanitize', 'nomask', 'strong', 'smallmem', 'permrealloc', 'protbig', 'uaf', 'tags', 'nothread', 'gcc')],
                 '--rounds %d' % P(tier, 110, 5000), seed, timeout=P(tier, 240, 1500))


@check('C16', 'forked corruption of guard words byte by byte at every documented detection point, with uncorrupted controls',
       'one evaluation per corruption; distinct = (detection point, release route, word, byte, private or general zone, size class)',
       dict(corruptions=2000, clean_controls=150, at_0=200, at_1=200, at_2=200, at_3=100, at_4=200, at_5=200), 'Sampled blocks, bytes and bit patterns.')
def c16(tier, seed):
    return multi('c16_canary.cpp', [DEF, DEF] + [VAR[k] for k in ('sanitize', 'norandfl', 'nomask', 'strong', 'smallmem', 'permrealloc', 'uaf', 'tags', 'cpupin', 'nothread', 'verifyslots', 'protbig', 'gcc')],
                 '--rounds %d' % P(tier, 260, 10000), seed, timeout=P(tier, 240, 1500))


@check('C17', 'correct histories dense in verification, flushing and process exits; any abort is a violation',
       'one evaluation per engine step or fill-and-release pass; distinct = (call, size class, preceding calls) or (size class, order, route, zone kind)',
       dict(verifications=2000, raw_blocks=300000, exits=60, zone_groups=200, zone_blocks=200000, partings=3000), 'Sampled histories; block contents include copies of guard values and pointers.')
def c17(tier, seed):
    v = [DEF, (DEF, '', {'VH_RAND': 'const:0'}), (DEF, '', {'VH_RAND': 'const:0xffffffffffffffff'}), (DEF, '', {'VH_RAND': 'seed:%d' % seed})]
    v += [VAR[k] for k in ('sanitize', 'norandfl', 'nomask', 'strong', 'smallmem', 'permrealloc', 'protbig', 'bigguard', 'uaf', 'sanity', 'tags', 'cpupin', 'nothread', 'prof', 'debug', 'spin', 'verifyslots', 'nocanary', 'gcc')]
    v += [(VAR['tags'], '', {'VH_RAND': 'const:0'}), (VAR['sanitize'], '', {'VH_RAND': 'const:0xffffffffffffffff'})]
    v = [x for x in v if not (x is VAR['verifyslots'])]
    return multi('c17_noabort.cpp', v, '--rounds %d --ops %d' % (P(tier, 4, 120), P(tier, 2500, 8000)), seed, timeout=P(tier, 240, 1500))


@check('C18', 'scan of /proc/self/maps against the recorded mappings of the allocator during random histories, with fault probes',
       'one evaluation per accessible run of allocator memory per scan; distinct = (length, holds blocks, scan state)',
       dict(scans=200, runs=20000, block_runs=2000, fault_probes=1000), 'Large blocks and their metadata only in the builds with both guard options. Objects inside one mapping that share a page by design are not told apart.')
def c18(tier, seed):
    v = [DEF, (DEF, '', {'VH_RAND': 'const:0'}), (VAR['bigguard'], '', None), (VAR['bigguard'], '', {'VH_RAND': 'const:0'})] + [VAR[k] for k in ('sanitize', 'smallmem', 'tags', 'strong', 'nohuge', 'uaf', 'prof', 'nothread', 'gcc')] + [(VAR['tags'], '', {'VH_RAND': 'const:0'}), Cfg('bigall', BIG_ZONE_META_DATA_GUARD=1, BIG_ZONE_GUARD=1, PROTECT_FREE_BIG_ZONES=1)]
    return multi('c18_guards.cpp', v, '--scans %d --ops %d' % (P(tier, 25, 600), P(tier, 8000, 12000)), seed, timeout=P(tier, 240, 1500))


@check('C19', 'quarantine monitors: exhausted private zones, and interval checks of every allocation against the quarantined blocks',
       'one evaluation per quarantine entry or general round; distinct = (size class, entries, entries of other zones)',
       dict(exhausted_probes=5000, general_probes=50000, flush_checks=300, overflows=20, max_entries=64), 'Sampled sizes, orders and mixtures.')
def c19(tier, seed):
    return multi('c19_quarantine.cpp', [DEF] + [VAR[k] for k in ('sanitize', 'norandfl', 'nomask', 'strong', 'smallmem', 'bigguard', 'protbig', 'tags', 'nothread', 'nocanary', 'spin', 'gcc')],
                 '--rounds %d' % P(tier, 40, 1500), seed, timeout=P(tier, 240, 1500))


@check('C20', 'interval monitor of all permanently freed blocks against every later allocation, with content and accessibility probes at the release',
       'one evaluation per permanent release; distinct = (size class, route, private, number of dead blocks)',
       dict(perm=5000, big_perm=8, realloc_perm=2000, zones_exhausted=50, fills=300, allocations=500000), 'Sampled histories; blocks whose mapping was returned to the system are dropped from the monitor.')
def c20(tier, seed):
    return multi('c20_perm.cpp', [DEF, VAR['permrealloc'], Cfg('perm-sanitize', PERM_FREE_REALLOC=1, SANITIZE_CHUNKS=1)] + [VAR[k] for k in ('sanitize', 'nocanary', 'norandfl', 'nomask', 'strong', 'smallmem', 'protbig', 'bigguard', 'gcc')],
                 '--ops %d' % P(tier, 100000, 3000000), seed, timeout=P(tier, 240, 1500))


@check('C21', 'exhaustion, release and destruction of private zones next to general traffic, judged by mapping bounds, exact capacity and fault probes',
       'one evaluation per exhaustion; distinct = (size class, capacity)',
       dict(zones=200, exhaustions=500, general=10000, destroyed=150, destroyed_probes=1000, refusals=100), 'Sampled block sizes and orders. A string too long for a zone may be refused by NULL or by abort.')
def c21(tier, seed):
    return multi('c21_zones.cpp', [DEF, (DEF, '', {'VH_RAND': 'const:0'})] + [VAR[k] for k in ('sanitize', 'norandfl', 'nomask', 'nocanary', 'strong', 'smallmem', 'tags', 'bigguard', 'uaf', 'nothread', 'gcc')],
                 '--rounds %d' % P(tier, 70, 3000), seed, timeout=P(tier, 240, 1500))


@check('C22', 'reserved blocks found as the complement of exhausted private zones, freed and corrupted in forked children',
       'one evaluation per zone or misuse; distinct = (size class, number reserved, position) or (case, byte, size class)',
       dict(zones=150, canaries=1500, canary_frees=600, canary_corruptions=200), 'Sampled block sizes, canaries and bytes.')
def c22(tier, seed):
    return multi('c22_canaries.cpp', [DEF, (DEF, '', {'VH_RAND': 'seed:%d' % seed})] + [VAR[k] for k in ('sanitize', 'norandfl', 'nomask', 'strong', 'smallmem', 'tags', 'nothread', 'uaf', 'gcc')],
                 '--rounds %d' % P(tier, 25, 800), seed, timeout=P(tier, 240, 1500))


@check('C23', 'byte-by-byte read of every released block at rest in builds with chunk sanitising',
       'one evaluation per release; distinct = (size class, route, private, whole block used)',
       dict(released=10000, bytes_checked=20000000, reuse_checks=3000), 'Sampled sizes and histories.')
def c23(tier, seed):
    return multi('c23_sanitize.cpp', [VAR['sanitize'], Cfg('san-strong', SANITIZE_CHUNKS=1, STRONG_SIZE_ISOLATION=1), Cfg('san-nomask', SANITIZE_CHUNKS=1, MASK_PTRS=0), Cfg('san-small', SANITIZE_CHUNKS=1, SMALL_MEM_STARTUP=1), Cfg('san-perm', SANITIZE_CHUNKS=1, PERM_FREE_REALLOC=1), Cfg('san-uaf', SANITIZE_CHUNKS=1, UAF_PTR_PAGE=1),
                                      Cfg('san-tags', SANITIZE_CHUNKS=1, MEMORY_TAGGING=1), Cfg('san-gcc', SANITIZE_CHUNKS=1, cc='gcc', opt='-O3')], '--rounds %d' % P(tier, 3000, 120000), seed, timeout=P(tier, 240, 1500))


@check('C24', 'tag round trips, verification, stability and redraw monitors over private zones of every block size, with forked misuse and threads',
       'one evaluation per verification of a live tagged block; distinct = (size class, tag, blocks live)',
       dict(tagged_blocks=20000, verified=30000, stale_checks=100, rejections=100, redraws=15000, full_zones=10, refreshes=15, busy_zones=15, thread_ops=100000), 'Sampled sizes and histories; freshness of tags is judged statistically.')
def c24(tier, seed):
    return multi('c24_tags.cpp', [VAR['tags'], (VAR['tags'], '', {'VH_RAND': 'seed:%d' % seed}), Cfg('tags-sanitize', MEMORY_TAGGING=1, SANITIZE_CHUNKS=1), Cfg('tags-strong', MEMORY_TAGGING=1, STRONG_SIZE_ISOLATION=1), Cfg('tags-nomask', MEMORY_TAGGING=1, MASK_PTRS=0), Cfg('tags-small', MEMORY_TAGGING=1, SMALL_MEM_STARTUP=1),
                                  Cfg('tags-nocanary', MEMORY_TAGGING=1, DISABLE_CANARY=1), Cfg('tags-gcc', MEMORY_TAGGING=1, cc='gcc', opt='-O3')],
                 '--rounds %d' % P(tier, 24, 1200), seed, timeout=P(tier, 240, 1500))


@check('C25', 'byte-exact comparison of hooked memory routines with a reference over all kinds of memory, and forked overflowing calls',
       'one evaluation per call; distinct = (routine, kinds of memory, length class, alignments) or (routine, block size, offset, off by one)',
       dict(calls=5000, overlapping_moves=900, overflows=1200, exact=1000, overflow_0=100, overflow_1=100, overflow_2=100, overflow_3=100, overflow_4=100), 'Overflows are provoked in freshly created private zones, which the fast lookup always knows; calls of at most 32 bytes are not checked by design.')
def c25(tier, seed):
    b = dict(MEMCPY_SANITY=1, MEMSET_SANITY=1)
    return multi('c25_memops.cpp', [Cfg('memcpy', **b), Cfg('memonly-cpy', MEMCPY_SANITY=1), Cfg('memonly-set', MEMSET_SANITY=1), Cfg('memcpy-nomask', MASK_PTRS=0, **b), Cfg('memcpy-strong', STRONG_SIZE_ISOLATION=1, **b), Cfg('memcpy-san', SANITIZE_CHUNKS=1, **b),
                                    Cfg('memcpy-gcc', cc='gcc', opt='-O3', **b), Cfg('memcpy-tags', MEMORY_TAGGING=1, **b)],
                 '--rounds %d' % P(tier, 600, 25000), seed, timeout=P(tier, 240, 1500))


@check('C26', 'sampled blocks recognised by the mapping made during the call; their fences, contents and misuse checked in place and in forked children',
       'one evaluation per sampled block; distinct = (size class, placement, allocating call)',
       dict(sampled=250, probed=150, damage=400, left=80, right=80, clean_releases=200, thread_ops=500000, calls=1500000), 'Natural sampling (1 in 10000). Only the software variant; the page-fault based uninitialised-read detection needs userfaultfd.')
def c26(tier, seed):
    return multi('c26_sample.cpp', [VAR['sanity'], (VAR['sanity'], '', {'VH_RAND': 'seed:%d' % seed}), Cfg('sanity-sanitize', ALLOC_SANITY=1, SANITIZE_CHUNKS=1), Cfg('sanity-strong', ALLOC_SANITY=1, STRONG_SIZE_ISOLATION=1), Cfg('sanity-spin', ALLOC_SANITY=1, USE_SPINLOCK=1), Cfg('sanity-nomask', ALLOC_SANITY=1, MASK_PTRS=0), Cfg('sanity-prof', ALLOC_SANITY=1, HEAP_PROFILER=1), Cfg('sanity-gcc', ALLOC_SANITY=1, cc='gcc', opt='-O3')],
                 '--samples %d --probes %d' % (P(tier, 100, 3000), P(tier, 40, 1000)), seed, timeout=P(tier, 240, 1500))


@check('C27', 'millions of releases with stale references planted in live blocks; every reference compared after every release, natural odds',
       'one evaluation per release that replaced a reference; distinct = (hit, placement)',
       dict(frees=80000000, hits=35, unaligned_hits=5, aligned_hits=3, uses=20), 'About one release in a million is selected; the selection itself cannot be observed when nothing is replaced, so a search that misses is noticed by the absence of hits (chance below 1 in a million).')
def c27(tier, seed):
    sh = Cfg('uaf-signal', UAF_PTR_PAGE=1, SIGNAL_HANDLER=1)
    return multi('c27_uaf.cpp', [(VAR['uaf'], '--mode 0'), (VAR['uaf'], '--mode 1'), (VAR['uaf'], '--mode 2'), (VAR['uaf'], '--mode 3'), (VAR['uaf'], '--mode 4'), (sh, '--mode 0'), (sh, '--mode 1', {'VH_RAND': 'seed:%d' % seed}), (Cfg('uaf-nomask', UAF_PTR_PAGE=1, MASK_PTRS=0), '--mode 3'),
                                 (Cfg('uaf-tags', UAF_PTR_PAGE=1, MEMORY_TAGGING=1, SIGNAL_HANDLER=1), '--mode 3')], '--frees %d' % P(tier, 14000000, 300000000), seed, timeout=P(tier, 300, 2400))


@check('C28', 'model of live, quarantined, held and returned large blocks checked against the mapping calls, page protections and contents',
       'one evaluation per large allocation; distinct = (size class, new or reused, call, blocks held, lives)',
       dict(fresh=2000, reused=5000, returned=1000, reallocs=1000, permanent=30, guard_checks=1000, protected=200, max_held=64, max_lives=16), 'Sampled histories in one thread; sizes up to 4 MB.')
def c28(tier, seed):
    return multi('c28_big.cpp', [DEF, VAR['bigguard'], VAR['protbig'], Cfg('bigall', BIG_ZONE_META_DATA_GUARD=1, BIG_ZONE_GUARD=1, PROTECT_FREE_BIG_ZONES=1)] + [VAR[k] for k in ('sanitize', 'nomask', 'nohuge', 'permrealloc', 'tags', 'nothread', 'gcc')],
                 '--ops %d' % P(tier, 15000, 500000), seed, timeout=P(tier, 240, 1500))


@check('C29', 'root protection cycles at random moments with threads inside allocation calls; oracle: completion counters, fault probes and a byte image of the root',
       'one evaluation per round; distinct = (threads suspended, calls, running cycle)',
       dict(quiet_cycles=200, suspended=400, running_cycles=200, blocks=5000), 'Sampled moments. Calls that look at the root before taking its lock (frees, zero-size requests, zone handles) fault while it is protected and are left out.')
def c29(tier, seed):
    return multi('c29_protect.cpp', [Cfg('leak', LEAK_DETECTOR=1, MEM_USAGE=1), VAR['spin'], (DEF, '--threads 12'), VAR['sanity'], VAR['bigguard'], VAR['nomask'], VAR['tags'], VAR['gcc']], '--rounds %d' % P(tier, 90, 5000), seed, timeout=P(tier, 240, 1500), weight=2)


@check('C30', 'reports compared with the shadow heap and the recorded mappings after every burst of operations; same-future forks with and without reports',
       'one evaluation per comparison; distinct = (live blocks, large blocks, zones)',
       dict(global_reports=300, zone_reports=1000, zone_reports_nonzero=300, empty_reports=40, usage_reports=400, differential=10, big_allocations=1000), 'Sampled histories. Usage is judged to within rounding to megabytes and bookkeeping pages. Sampled (ALLOC_SANITY) blocks are outside all zones and not reported by design.')
def c30(tier, seed):
    b = dict(LEAK_DETECTOR=1, MEM_USAGE=1)
    S = {'VH_RAND': 'seed:%d' % seed}
    return multi('c30_reports.cpp', [Cfg('leak', **b), (Cfg('leak', **b), '', S), (Cfg('leak-san', SANITIZE_CHUNKS=1, **b), '', S), Cfg('leak-nomask', MASK_PTRS=0, **b), (Cfg('leak-strong', STRONG_SIZE_ISOLATION=1, **b), '', S), Cfg('leak-perm', PERM_FREE_REALLOC=1, **b), Cfg('leak-bigall', BIG_ZONE_META_DATA_GUARD=1, BIG_ZONE_GUARD=1, PROTECT_FREE_BIG_ZONES=1, **b),
                                    (VAR['prof'], '', S), Cfg('leak-tags', MEMORY_TAGGING=1, **b), Cfg('leak-nocanary', DISABLE_CANARY=1, **b), Cfg('leak-nothread', THREAD_SUPPORT=0, **b), Cfg('leak-gcc', cc='gcc', opt='-O3', **b)],
                 '--rounds %d' % P(tier, 90, 5000), seed, timeout=P(tier, 240, 1500))


@check('C31', 'mappings, bytes and zones held by the allocator counted by interposed mapping calls after each of hundreds of identical cycles of ten kinds',
       'one evaluation per cycle kind or private zone; distinct = (kind, final mappings, final bytes) or (size class, mappings taken, blocks used)',
       dict(cycles=6000, kinds=40, private_zones=200), 'Cycles repeated hundreds of times; growth slower than one mapping in some fifty cycles is not told from noise.')
def c31(tier, seed):
    return multi('c31_plateau.cpp', [DEF, (DEF, '', {'VH_RAND': 'seed:%d' % seed})] + [VAR[k] for k in ('sanitize', 'bigguard', 'protbig', 'nomask', 'strong', 'sanity', 'uaf', 'tags', 'prof', 'smallmem', 'nothread', 'gcc')] + [Cfg('bigall', BIG_ZONE_META_DATA_GUARD=1, BIG_ZONE_GUARD=1, PROTECT_FREE_BIG_ZONES=1)],
                 '--cycles %d --zones %d' % (P(tier, 240, 4000), P(tier, 60, 400)), seed, timeout=P(tier, 240, 1500))


@check('C32', 'zones churned past their retirement limit in any order; unmapping events checked against the live blocks, the replacement exercised, all else verified',
       'one evaluation per churned zone; distinct = (block size class, retired, a block kept, earlier retirements)',
       dict(retired=150, kept_alive=30, replacement_blocks=50000, stale_frees=30, thread_ops=1000000, thread_retirements=50, leak_checks=20), 'Sampled orders; classes below 64 bytes need millions of allocations per zone and are rare in the quick tier.')
def c32(tier, seed):
    return multi('c32_retire.cpp', [Cfg('leak', LEAK_DETECTOR=1, MEM_USAGE=1), (DEF, '--smallest 32', {'VH_RAND': 'const:0'}), (DEF, '', {'VH_RAND': 'seed:%d' % seed})] + [VAR[k] for k in ('sanitize', 'norandfl', 'nomask', 'strong', 'smallmem', 'tags', 'bigguard', 'uaf', 'spin', 'nothread', 'gcc')] + [Cfg('sanity', ALLOC_SANITY=1)],
                 '--rounds %d' % P(tier, 30, 1500), seed, timeout=P(tier, 240, 1500))


@check('C33', 'profiled programs with known call paths, sizes and counts compared with the traces and the profile file; counts exact, sampling rates statistical',
       'one evaluation per call path and round, or profile; distinct = (path, round, samples)',
       dict(allocations=20000000, alloc_traces=100, free_traces=100, profiles=30, zone_samples=200, bounds_near=5, full_table_rounds=1), 'Natural sampling (1 in 10000). Frees are counted by the profiler for plain free calls only.')
def c33(tier, seed):
    fp = '-fno-omit-frame-pointer -fno-optimize-sibling-calls'
    b = dict(HEAP_PROFILER=1, flags='-fno-omit-frame-pointer')
    n = P(tier, 1500000, 20000000)
    return multi('c33_profiler.cpp', [(Cfg('prof', **b), '--mode 0'), (Cfg('prof', **b), '--mode 1'), (Cfg('prof', **b), '--mode 2'), (Cfg('prof-san', SANITIZE_CHUNKS=1, **b), '--mode 0'), (Cfg('prof-nomask', MASK_PTRS=0, **b), '--mode 1'), (Cfg('prof-spin', USE_SPINLOCK=1, **b), '--mode 0'),
                                      (Cfg('prof-strong', STRONG_SIZE_ISOLATION=1, **b), '--mode 1'), (Cfg('prof-gcc', cc='gcc', opt='-O3', **b), '--mode 0'), (Cfg('prof', **b), '--mode 1', {'VH_RAND': 'seed:%d' % seed})], '--calls %d' % n, seed, timeout=P(tier, 240, 1500), flags=fp)


@check('C34', 'programs allocating, initialising and destroying in pre-initialisation code, constructors, main, exit handlers and destructors, each checking its memory; parent judges status and transcript',
       'one evaluation per program run; distinct = set of phases used',
       dict(clean_runs=300, corrupt_exits=30, early_allocations=150, late_uses=100, destroyed=80, initialised=200), 'Sampled combinations of phases. Before the constructor only allocation, release and size calls are made.')
def c34(tier, seed):
    man = dict(AUTO_CTOR_DTOR=0)
    cl = dict(AUTO_CTOR_DTOR=0, ISO_DTOR_CLEANUP=1)
    return multi('c34_startup.cpp', [DEF, Cfg('leak', LEAK_DETECTOR=1)] + [VAR[k] for k in ('sanitize', 'nomask', 'smallmem', 'bigguard', 'protbig', 'sanity', 'uaf', 'tags', 'spin', 'nothread', 'prof', 'cpupin', 'nohuge', 'gcc')] +
                 [Cfg('manual', **man), Cfg('cleanup', **cl), Cfg('cleanup-spin', USE_SPINLOCK=1, **cl), Cfg('cleanup-nothread', THREAD_SUPPORT=0, **cl), Cfg('cleanup-all', UAF_PTR_PAGE=1, MEMORY_TAGGING=1, BIG_ZONE_META_DATA_GUARD=1, BIG_ZONE_GUARD=1, PROTECT_FREE_BIG_ZONES=1, **cl), Cfg('cleanup-sanity', ALLOC_SANITY=1, **cl), Cfg('cleanup-nocanary', DISABLE_CANARY=1, **cl)],
                 '--rounds %d' % P(tier, 45, 1500), seed, timeout=P(tier, 240, 1500))


@check('C35', 'statistics over fresh zones and processes: varying bits, distinctness, constant differences, rank of each position in the block order; forks that see different entropy from one point on',
       'one evaluation per process, zone or fork pair; distinct = observed placement and order',
       dict(processes=250, zones=900, bit_columns=2000, distinct_columns=100, shuffle_windows=300, replacements=5, entropy_forks=20), 'Statistical: weaknesses that leave every bit varying and every value distinct are not seen. Alarm thresholds beyond chances of 1 in 10^9 per column.')
def c35(tier, seed):
    return multi('c35_random.cpp', [DEF] + [VAR[k] for k in ('sanitize', 'norandfl', 'nomask', 'nocanary', 'strong', 'smallmem', 'tags', 'nohuge', 'gcc')], '--procs %d --zones %d --forks %d' % (P(tier, 64, 400), P(tier, 300, 2500), P(tier, 6, 100)), seed, timeout=P(tier, 240, 1500))


@check('C36', 'failure of every single or every later mmap, munmap, mprotect, madvise or getrandom call injected in fresh processes and in forks of a running one; oracle: abort, or a shadow-heap verified history with all intended protections in place',
       'one evaluation per fault; distinct = (call, position, single or suffix, outcome)',
       dict(init_faults=700, operation_faults=250, limit_runs=20, aborted_mmap=150, aborted_mprotect=150, aborted_entropy=150, survived=50), 'Initialisation is enumerated (sampled where it makes very many calls); operation sampled.')
def c36(tier, seed):
    return multi('c36_faults.cpp', [DEF] + [VAR[k] for k in ('sanitize', 'nomask', 'smallmem', 'bigguard', 'protbig', 'sanity', 'uaf', 'tags', 'prof', 'nohuge', 'nothread', 'gcc')] + [Cfg('abortnull', ABORT_ON_NULL=1), Cfg('degraded', ABORT_NO_ENTROPY=0), Cfg('cleanup', AUTO_CTOR_DTOR=0, ISO_DTOR_CLEANUP=1)],
                 '--init %d --forks %d' % (P(tier, 150, 100000), P(tier, 50, 1500)), seed, timeout=P(tier, 240, 1500))


@check('C37', 'AddressSanitizer, UndefinedBehaviorSanitizer and memcheck over random valid histories of all entry points, with every live block hidden from the tool while the library runs; forked stale and out-of-block accesses in the address-sanitizer build',
       'one evaluation per call of a hidden-block history or probe; distinct = (size class, live blocks, position) or (probe, access, size class)',
       dict(hidden_calls=100000, thread_calls=30000, probes=80, controls=8, memcheck_runs=3, asan_runs=4, tool_runs=12), 'Inside allocator-mapped metadata address sanitizer sees array bounds only (through the undefined behaviour sanitizer); the guard pages fence the rest. memcheck covers uninitialised values in shorter histories.')
def c37(tier, seed):
    J = []
    U = '-fsanitize=undefined,local-bounds -fno-omit-frame-pointer'
    A = '-fsanitize=address,undefined,local-bounds -fno-omit-frame-pointer'
    env = {'ASAN_OPTIONS': 'detect_leaks=0:exitcode=86', 'UBSAN_OPTIONS': 'print_stacktrace=1'}
    lk = dict(LEAK_DETECTOR=1, MEM_USAGE=1)
    fl = '-DVH_NO_HANDLERS'
    steps = P(tier, 15000, 400000)
    n = 0

    def add(src, c, args, flags=fl, **kw):
        J.append(Job('%s.%d' % (c.name, len(J)), exe(src, c, flags=flags), '--seed %d %s' % (seed * 1000 + len(J), args), env, timeout=P(tier, 240, 1500), **kw))
    for c in [Cfg('asan', ENABLE_ASAN=1, opt='-O1', flags=A), Cfg('asan-leak', ENABLE_ASAN=1, opt='-O1', flags=A, SANITIZE_CHUNKS=1, MEMORY_TAGGING=1, **lk), Cfg('asan-big', ENABLE_ASAN=1, opt='-O1', flags=A, BIG_ZONE_GUARD=1, BIG_ZONE_META_DATA_GUARD=1, PROTECT_FREE_BIG_ZONES=1, STRONG_SIZE_ISOLATION=1),
              Cfg('asan-prof', ENABLE_ASAN=1, opt='-O1', flags=A, HEAP_PROFILER=1, CPU_PIN=1, SMALL_MEM_STARTUP=1), Cfg('asan-nomask', ENABLE_ASAN=1, opt='-O1', flags=A, MASK_PTRS=0, RANDOMIZE_FREELIST=0, USE_SPINLOCK=1)]:
        add('c37_clean.cpp', c, '--steps %d --threads 3 --probes %d --live %d' % (steps, P(tier, 40, 1500), P(tier, 20000, 300000)))
    ub = [Cfg('ub', opt='-O1', flags=U), Cfg('ub-leak', opt='-O1', flags=U, SANITIZE_CHUNKS=1, MEMORY_TAGGING=1, UAF_PTR_PAGE=1, **lk), Cfg('ub-big', opt='-O1', flags=U, BIG_ZONE_GUARD=1, BIG_ZONE_META_DATA_GUARD=1, PROTECT_FREE_BIG_ZONES=1, STRONG_SIZE_ISOLATION=1, ALLOC_SANITY=1),
          Cfg('ub-prof', opt='-O1', flags=U, HEAP_PROFILER=1, SMALL_MEM_STARTUP=1, CPU_PIN=1, PERM_FREE_REALLOC=1), Cfg('ub-debug', opt='-O0', flags=U, DEBUG=1, MASK_PTRS=0, **lk), Cfg('ub-gcc', cc='gcc', opt='-O1', flags='-fsanitize=undefined', ldflags='-lubsan')]
    for c in ub:
        add('c37_clean.cpp', c, '--steps %d --threads 3 --live %d' % (steps, P(tier, 60000, 3000000)))
    tags = Cfg('ub-tags', opt='-O1', flags=U, MEMORY_TAGGING=1)
    add('c24_tags.cpp', tags, '--rounds %d' % P(tier, 8, 100))
    add('c25_memops.cpp', Cfg('ub-memcpy', opt='-O1', flags=U, MEMCPY_SANITY=1, MEMSET_SANITY=1), '--rounds %d' % P(tier, 200, 3000))
    add('c28_big.cpp', ub[2] if False else Cfg('ub-bigall', opt='-O1', flags=U, BIG_ZONE_META_DATA_GUARD=1, BIG_ZONE_GUARD=1, PROTECT_FREE_BIG_ZONES=1), '--ops %d' % P(tier, 5000, 100000))
    add('c33_profiler.cpp', Cfg('ub-profile', opt='-O1', flags=U + ' -fno-optimize-sibling-calls', HEAP_PROFILER=1), '--mode 0 --calls %d' % P(tier, 400000, 5000000), flags='-fno-omit-frame-pointer -fno-optimize-sibling-calls ' + fl)
    add('c05_realloc.cpp', ub[0], '--rounds 3')
    vg = ['valgrind', '-q', '--error-exitcode=42']
    for c in [DEF, Cfg('vg-leak', SANITIZE_CHUNKS=1, MEMORY_TAGGING=1, **lk), Cfg('vg-prof', HEAP_PROFILER=1, SMALL_MEM_STARTUP=1, PERM_FREE_REALLOC=1), Cfg('vg-big', BIG_ZONE_META_DATA_GUARD=1, BIG_ZONE_GUARD=1, PROTECT_FREE_BIG_ZONES=1, STRONG_SIZE_ISOLATION=1), Cfg('vg-sanity', ALLOC_SANITY=1, opt='-O1')]:
        add('c37_clean.cpp', c, '--steps %d --threads %d' % (P(tier, 8000, 120000), 2), prefix=vg)
    return J


@check('C38', 'a map of every small block ever handed out per mapping lifetime, checked against each new allocation, with placement rules by reported size',
       'one evaluation per judged allocation; distinct = (rounded request, block size, private zone size)',
       dict(judged=600000, reused=200000, destroyed=15, churns=40, thread_ops=100000, large=500), 'Sampled histories.')
def c38(tier, seed):
    return multi('c38_isolation.cpp', [DEF, (DEF, '', {'VH_RAND': 'const:0'})] + [VAR[k] for k in ('sanitize', 'norandfl', 'nomask', 'strong', 'smallmem', 'uaf', 'tags', 'permrealloc', 'bigguard', 'cpupin', 'nothread', 'prof', 'gcc')] + [Cfg('strong-small', STRONG_SIZE_ISOLATION=1, SMALL_MEM_STARTUP=1)],
                 '--ops %d' % P(tier, 220000, 6000000), seed, timeout=P(tier, 240, 1500))


@check('C39', 'interposed sched_getcpu moving the program and its threads between cores; each zone mapping remembers the core it was made on and every allocation is compared with it',
       'one evaluation per allocation; distinct = (size class, core)',
       dict(judged=80000, migrations=8000, thread_judged=150000, core_checks=70000, jumping=500), 'Sampled migrations; core numbers 0 to 4096. Only the build that asks sched_getcpu can be steered.')
def c39(tier, seed):
    return multi('c39_cpu.cpp', [Cfg('cpupin', CPU_PIN=1), (Cfg('cpupin', CPU_PIN=1), '--cores 3 --threads 6')] + [Cfg('cpu-' + n, CPU_PIN=1, **d) for n, d in [('strong', dict(STRONG_SIZE_ISOLATION=1)), ('nomask', dict(MASK_PTRS=0)), ('san', dict(SANITIZE_CHUNKS=1)), ('small', dict(SMALL_MEM_STARTUP=1)), ('spin', dict(USE_SPINLOCK=1)), ('nothread', dict(THREAD_SUPPORT=0)), ('norand', dict(RANDOMIZE_FREELIST=0)), ('gcc', dict(cc='gcc', opt='-O3'))]],
                 '--ops %d' % P(tier, 60000, 2000000), seed, timeout=P(tier, 240, 1500), flags='-DVH_GETCPU')


@check('C40', 'search of all allocator mappings other than user memory for addresses of zone memory and bitmaps after every kind of call; zone-distance test on all metadata words for shared masks',
       'one evaluation per scan; distinct = (call kind, zones, live blocks)',
       dict(scans=1500, words_scanned=100000000, handles=60, mask_pairs=1000), 'Addresses of blocks held by the quarantine and of large blocks are stored plainly by design. Library variables outside its own mappings are not searched.')
def c40(tier, seed):
    return multi('c40_masks.cpp', [DEF] + [VAR[k] for k in ('sanitize', 'norandfl', 'strong', 'smallmem', 'tags', 'bigguard', 'nocanary', 'nothread', 'spin', 'gcc')] + [Cfg('leak', LEAK_DETECTOR=1, MEM_USAGE=1), Cfg('prof', HEAP_PROFILER=1), Cfg('debug', opt='-O0', DEBUG=1, LEAK_DETECTOR=1, MEM_USAGE=1)],
                 '--rounds %d' % P(tier, 400, 15000), seed, timeout=P(tier, 240, 1500))


@check('C41', 'forked unservable requests through every entry point in abort-on-NULL builds, and random valid histories that must be served',
       'one evaluation per request (or step of a served history); distinct = (entry point, zone class, bit length) or the step',
       dict(huge_aborts=80, zone_aborts=160, controls=25, served=300000), 'Sampled sizes. Products that overflow in calloc and reallocarray return NULL by design, before any allocation is tried.')
def c41(tier, seed):
    b = dict(ABORT_ON_NULL=1)
    return multi('c41_null.cpp', [Cfg('abortnull', **b), Cfg('null-strong', STRONG_SIZE_ISOLATION=1, **b), Cfg('null-tags', MEMORY_TAGGING=1, **b), Cfg('null-small', SMALL_MEM_STARTUP=1, **b), Cfg('null-big', BIG_ZONE_META_DATA_GUARD=1, BIG_ZONE_GUARD=1, PROTECT_FREE_BIG_ZONES=1, **b), Cfg('null-leak', LEAK_DETECTOR=1, MEM_USAGE=1, SANITIZE_CHUNKS=1, **b), Cfg('null-nomask', MASK_PTRS=0, **b), Cfg('null-gcc', cc='gcc', opt='-O3', **b)],
                 '--rounds %d --live %d' % (P(tier, 120, 4000), P(tier, 120000, 3000000)), seed, timeout=P(tier, 240, 1500))
