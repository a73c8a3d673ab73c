"""Builds the library and the monitors from /repo's working tree, runs them, judges."""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, time, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(VERIF, 'build')
EVID = os.path.join(VERIF, 'evidence')
NCPU = min(8, os.cpu_count() or 8)

DEFAULTS = dict(
    THREAD_SUPPORT=1, PRE_POPULATE_PAGES=0, SMALL_MEM_STARTUP=0, DISABLE_CANARY=0, MALLOC_HOOK=0,
    ALLOC_SANITY=0, MEMCPY_SANITY=0, UNINIT_READ_SANITY=0, CPU_PIN=0, SCHED_GETCPU=1, EXPERIMENTAL=0,
    UAF_PTR_PAGE=0, VERIFY_FREE_BIT_SLOTS=0, NAMED_MAPPINGS=0, ABORT_ON_NULL=0, NO_ZERO_ALLOCATIONS=1,
    ABORT_NO_ENTROPY=1, ISO_DTOR_CLEANUP=0, RANDOMIZE_FREELIST=1, USE_SPINLOCK=0, HUGE_PAGES=1, THP_PAGES=1,
    USE_MLOCK=1, MEMORY_TAGGING=0, STRONG_SIZE_ISOLATION=0, MEMSET_SANITY=0, AUTO_CTOR_DTOR=1,
    SIGNAL_HANDLER=0, BIG_ZONE_META_DATA_GUARD=0, BIG_ZONE_GUARD=0, MASK_PTRS=1, SANITIZE_CHUNKS=0,
    FUZZ_MODE=0, PERM_FREE_REALLOC=0, DONT_USE_NEON=1)


# options that are plainly absent by default; monitors see them as VH_CFG_x=0
EXTRA = dict(LEAK_DETECTOR=0, MEM_USAGE=0, HEAP_PROFILER=0, PROTECT_FREE_BIG_ZONES=0, DEBUG=0)


class BuildError(Exception):
    pass


class Cfg:
    """One way to compile the library. Names of macros are those of the project's Makefile."""
    def __init__(self, name, opt='-O2', flags='', cc='clang', cxx='clang++', cpp=False, ldflags='', **defs):
        self.name, self.opt, self.flags, self.cc, self.cxx = name, opt, flags.split(), cc, cxx
        self.cpp, self.ldflags = cpp, ldflags.split()
        self.defs = dict(DEFAULTS)
        for k, v in defs.items():
            if v is None:
                self.defs.pop(k, None)
            else:
                self.defs[k] = v
        if self.defs.get('HEAP_PROFILER'):
            self.flags += ['-fno-omit-frame-pointer', '-fno-optimize-sibling-calls', '-fcommon']

    def dflags(self):
        return ['-D%s=%s' % kv if kv[1] != '' else '-D' + kv[0] for kv in sorted(self.defs.items())]

    def key(self):
        return json.dumps([self.cc, self.cxx, self.opt, self.flags, self.dflags(), self.cpp, self.ldflags])


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)


def tree_hash():
    h = hashlib.sha256()
    for f in sorted(glob.glob(REPO + '/src/**', recursive=True) + glob.glob(REPO + '/include/**', recursive=True)):
        if os.path.isfile(f):
            h.update(f.encode())
            h.update(open(f, 'rb').read())
    return h.hexdigest()


_tree = None


def tree():
    global _tree
    if _tree is None:
        _tree = tree_hash()
    return _tree


def _h(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def _compile(cmd, out):
    if os.path.exists(out):
        return out
    tmp = out + '.tmp%d' % os.getpid() + _h(out, time.time())[:6]
    r = sh(cmd + ['-o', tmp])
    if r.returncode != 0:
        raise BuildError(' '.join(cmd) + '\n' + r.stdout.decode(errors='replace')[-6000:])
    os.replace(tmp, out)
    return out


def lib_objects(cfg, pool, pic=False):
    """futures for the library's object files"""
    futs = []
    srcs = sorted(glob.glob(REPO + '/src/*.c'))
    if not srcs:
        raise BuildError('no sources under %s/src' % REPO)
    base = ['-I' + REPO + '/include', '-pthread', '-g', '-w', cfg.opt, '-fstrict-aliasing', '-fvisibility=hidden', '-fPIC']
    for s in srcs:
        out = os.path.join(CACHE, 'o-' + _h(tree(), cfg.key(), s) + '.o')
        futs.append(pool.submit(_compile, [cfg.cc, '-std=gnu11'] + base + cfg.dflags() + cfg.flags + ['-c', s], out))
    if cfg.cpp:
        for s in sorted(glob.glob(REPO + '/src/*.cpp')):
            out = os.path.join(CACHE, 'o-' + _h(tree(), cfg.key(), s) + '.o')
            futs.append(pool.submit(_compile, [cfg.cxx, '-std=c++17', '-DCPP_SUPPORT=1'] + base + cfg.dflags() + cfg.flags + ['-c', s], out))
    return futs


class Exe:
    """A monitor program: harness source + library configuration (static), or the
    shared library alone (src=None), or a plain program without the library (cfg=None)."""
    def __init__(self, name, src=None, cfg=None, flags='', ldflags='', c=False, opt='-O1', shared=False, cxx='clang++'):
        self.name, self.src, self.cfg, self.flags, self.ldflags = name, src, cfg, flags.split(), ldflags.split()
        self.c, self.opt, self.shared, self.cxx = c, opt, shared, cxx
        self.path = None


def build_all(exes):
    os.makedirs(CACHE, exist_ok=True)
    with cf.ThreadPoolExecutor(NCPU) as pool:
        objs = {}
        hobj = {}
        for e in exes:
            if e.cfg is not None and e.cfg.key() not in objs:
                objs[e.cfg.key()] = lib_objects(e.cfg, pool)
        vh = b''.join(open(f, 'rb').read() for f in sorted(glob.glob(VERIF + '/harness/*.h')))
        for e in exes:
            if e.src:
                s = os.path.join(VERIF, 'harness', e.src)
                san = [f for f in (e.cfg.flags if e.cfg else []) if f.startswith('-fsanitize') or f.startswith('-fno-sanitize')]
                defs = ['-DVH_CFG_%s=%s' % kv for kv in sorted({**EXTRA, **e.cfg.defs}.items()) if kv[1] != ''] if e.cfg else []
                if e.c:
                    cmd = ['clang', '-std=gnu11']
                else:
                    cmd = [e.cxx, '-std=c++17']
                cmd += ['-I' + REPO + '/include', '-I' + VERIF + '/harness', '-pthread', '-g', '-w', e.opt, '-fPIC'] + defs + san + e.flags
                if e.cfg:
                    cmd += ['-DHEAP_PROFILER=1'] if e.cfg.defs.get('HEAP_PROFILER') else []
                    cmd += ['-DEXPERIMENTAL=1'] if e.cfg.defs.get('EXPERIMENTAL') else []
                key = _h(tree(), vh, open(s, 'rb').read(), json.dumps(cmd))
                hobj[e.name] = pool.submit(_compile, cmd + ['-c', s], os.path.join(CACHE, 'h-' + key + '.o'))
        for e in exes:
            os_ = [f.result() for f in objs[e.cfg.key()]] if e.cfg else []
            if e.src:
                os_ = [hobj[e.name].result()] + os_
            san = [f for f in (e.cfg.flags if e.cfg else []) if f.startswith('-fsanitize') or f.startswith('-fno-sanitize')]
            cmd = [e.cxx] + san + e.flags + (['-shared'] if e.shared else ['-rdynamic']) + ['-pthread', '-w'] + os_ + e.ldflags + (e.cfg.ldflags if e.cfg else []) + ['-ldl', '-lm']
            cmd = [c for c in cmd if not c.startswith('-std')]
            out = os.path.join(CACHE, 'x-' + _h(json.dumps(cmd)) + ('.so' if e.shared else ''))
            e.path = _compile(cmd, out)


class Job:
    def __init__(self, name, exe, args='', env=None, timeout=240, weight=1, kind='vh', runner=None, preload=None, prefix=()):
        self.prefix = list(prefix)
        self.name, self.exe, self.args, self.env = name, exe, args.split() if isinstance(args, str) else list(args), dict(env or {})
        self.timeout, self.weight, self.kind, self.runner, self.preload = timeout, weight, kind, runner, preload


class Out:
    def __init__(self):
        self.viols = []      # (key, msg)
        self.stats = {}
        self.samples = []
        self.sigs = set()
        self.errors = []     # harness troubles: inconclusive
        self.raw = ''
        self.cmd = ''


def run_vh(job, scratch, tier):
    """Runs one monitor process; retries a timeout once."""
    for attempt in range(2):
        o = Out()
        outf = os.path.join(scratch, re.sub(r'\W', '_', job.name) + '.%d' % attempt)
        env = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME', 'LANG', 'VERIF_SEED')}
        env['VERIF_TIER'] = tier
        env['VH_OUT'] = outf
        env['VH_SCRATCH'] = scratch
        env['ISO_ALLOC_PROFILER_FILE_PATH'] = outf + '.prof'
        env.update(job.env)
        if job.preload:
            env['LD_PRELOAD'] = job.preload.path
        cmd = job.prefix + [job.exe.path] + job.args
        o.cmd = ' '.join('%s=%s' % (k, v) for k, v in job.env.items()) + ' ' + os.path.basename(job.exe.src or '') + '[' + (job.exe.cfg.name if job.exe.cfg else '-') + '] ' + ' '.join(job.args)
        log = open(outf + '.log', 'wb')
        p = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=env, cwd=scratch, start_new_session=True)
        timed_out = False
        try:
            p.wait(job.timeout * (attempt + 1))
        except subprocess.TimeoutExpired:
            timed_out = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
        log.close()
        try:
            with open(outf + '.log', 'rb') as f:
                f.seek(0, 2)
                n = f.tell()
                f.seek(max(0, n - 20000))
                o.raw = f.read().decode(errors='replace')
            with open(outf + '.log', 'rb') as f:
                head = f.read(200000).decode(errors='replace')
        except OSError:
            head = ''
        done = False
        crash = None
        if os.path.exists(outf):
            for l in open(outf, errors='replace'):
                f = l.rstrip('\n').split('\t')
                if f[0] == 'VIOL' and len(f) >= 3:
                    o.viols.append((f[1], f[2]))
                elif f[0] == 'STAT' and len(f) >= 3:
                    if f[1].startswith('max_'):
                        o.stats[f[1]] = max(o.stats.get(f[1], 0), int(f[2]))
                    else:
                        o.stats[f[1]] = o.stats.get(f[1], 0) + int(f[2])
                elif f[0] == 'SAMPLE' and len(f) >= 2:
                    o.samples.append(f[1])
                elif f[0] == 'CRASH':
                    crash = f
                elif f[0] == 'INCONCLUSIVE' and len(f) >= 2:
                    o.errors.append(f[1])
                elif f[0] == 'DONE':
                    done = True
        if os.path.exists(outf + '.sig'):
            d = open(outf + '.sig', 'rb').read()
            o.sigs = set(struct.unpack('<%dQ' % (len(d) // 8), d[:len(d) // 8 * 8]))
        san = sanitizer_reports(head)
        if san:
            for k, m in san:
                o.viols.append((k, m))
            return o
        if timed_out:
            if attempt == 0:
                continue
            o.viols.append(('hang', 'monitor did not finish in %ds, twice; %s' % (job.timeout * 2, o.raw[-300:])))
            return o
        if not done:
            ab = ABORTING.findall(head)
            tail = ab[-1][:300] if ab else o.raw[-300:].replace('\n', ' ')
            if crash:
                o.viols.append(('crash:sig%s' % crash[1], 'unexpected signal %s during valid use, at: %s; %s' % (crash[1], crash[2], tail)))
            elif p.returncode == 77:
                o.errors.append('monitor gave up: ' + tail)
            elif p.returncode < 0 and -p.returncode == signal.SIGKILL:
                o.errors.append('monitor was killed (out of memory?)')
                if attempt == 0:
                    continue
            else:
                o.viols.append(('crash:exit%d' % p.returncode, 'monitor ended early (status %d) during valid use; %s' % (p.returncode, tail)))
        return o
    return o


ABORTING = re.compile(r'\[ABORTING\][^\n]*')
FRAME = re.compile(r'(?:#\d+ (?:0x[0-9a-f]+ )?(?:in )?|==\d+== +(?:at|by) 0x[0-9A-F]+: )([A-Za-z_~][^\s(]*)')


def sanitizer_reports(text):
    res = []
    for m in re.finditer(r'(WARNING: ThreadSanitizer: ([^\n(]+)|ERROR: AddressSanitizer: ([\w-]+)|ERROR: LeakSanitizer[^\n]*|[^\s:]+:\d+:\d+: runtime error: ([^\n]+)|==\d+== (Invalid (?:read|write|free)[^\n]*|Conditional jump[^\n]*|Use of uninitialised[^\n]*|Syscall param[^\n]*|Source and destination overlap[^\n]*))', text):
        blk = text[m.start():m.start() + 3500]
        what = (m.group(2) or m.group(3) or m.group(4) or m.group(5) or 'leak').strip()
        frames = []
        for f in FRAME.findall(blk):
            if f not in frames:
                frames.append(f)
        res.append(('san:' + re.sub(r'0x[0-9a-f]+|\d+', 'N', what)[:60], (m.group(0) + ' | ' + ' < '.join(frames[:8]))[:900]))
        if len(res) >= 6:
            break
    return res


def load_known():
    f = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'finding: property=(\w+) key=(\S+) match=/(.*?)/ (.*)', l.strip())
            if m:
                out.append((m.group(1), m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


def run_check(check, tier, seed):
    t0 = time.time()
    pid = check['id']
    os.makedirs(EVID, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix='vh-%s-' % pid, dir=os.environ.get('TMPDIR', '/tmp'))
    os.chmod(scratch, 0o755)
    rc = 2
    try:
        jobs = check['jobs'](tier, seed)
        exes = []
        for j in jobs:
            for e in [j.exe, j.preload] + list(getattr(j, 'extra', [])):
                if e is not None and e not in exes:
                    exes.append(e)
        try:
            build_all(exes)
        except BuildError as e:
            print('BUILD-ERROR', str(e)[-3000:])
            return 2
        tb = time.time() - t0
        outs = []
        # weighted parallelism
        import threading
        slots = threading.Condition()
        free = [NCPU]

        def go(j):
            w = min(j.weight, NCPU)
            with slots:
                while free[0] < w:
                    slots.wait()
                free[0] -= w
            try:
                if j.runner:
                    return j.runner(j, scratch, tier)
                return run_vh(j, scratch, tier)
            finally:
                with slots:
                    free[0] += w
                    slots.notify_all()
        with cf.ThreadPoolExecutor(max(1, len(jobs))) as pool:
            outs = list(pool.map(go, jobs))
        known = [k for k in load_known() if k[0] == pid]
        evals, sigs, samples, stats, errors = 0, set(), [], {}, []
        new, seen_known = [], {}
        for j, o in zip(jobs, outs):
            evals += o.stats.get('evals', 0)
            sigs |= o.sigs
            for s in o.samples[:2]:
                if len(samples) < 12:
                    samples.append('%s: %s' % (j.name, s))
            for k, v in o.stats.items():
                if k.startswith('max_'):
                    stats[k] = max(stats.get(k, 0), v)
                elif k != 'evals':
                    stats[k] = stats.get(k, 0) + v
            errors += ['%s: %s' % (j.name, e) for e in o.errors]
            for key, msg in o.viols:
                kf = next((k for k in known if k[1] == key and k[2].search(msg)), None)
                if kf:
                    seen_known[kf[3]] = seen_known.get(kf[3], 0) + 1
                else:
                    new.append((j, o, key, msg))
        short = []
        for k, v in check.get('require', {}).items():
            have = evals if k == 'evals' else len(sigs) if k == 'distinct' else stats.get(k, 0)
            if have < v:
                short.append('%s=%d < %d' % (k, have, v))
        for what in sorted(seen_known):
            print('KNOWN-FINDING: property=%s %s' % (pid, what))
        ev = dict(property=pid, tier=tier, seed=seed, level=check['level'],
                  coverage=dict(evaluations=evals, distinct_nontrivial=len(sigs), rule=check['rule'], samples=samples or ['(none)'],
                                observed=stats, jobs=len(jobs), configurations=sorted({e.cfg.name for e in exes if e.cfg})),
                  assumptions=check.get('assumptions', ['clang 18 compiles the library as the project Makefile would with the named options',
                                                        'the kernel of the sandbox (x86-64 Linux)']),
                  wall_s=round(time.time() - t0, 2), build_s=round(tb, 2), violations=len(new), known_findings=seen_known, inconclusive=errors)
        with open(os.path.join(EVID, pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if new:
            rdir = os.path.join(EVID, 'replay')
            os.makedirs(rdir, exist_ok=True)
            seen = set()
            for n, (j, o, key, msg) in enumerate(new):
                if key in seen:
                    continue
                seen.add(key)
                rp = os.path.join(rdir, '%s-%s.json' % (pid, re.sub(r'\W', '_', key)[:40]))
                json.dump(dict(property=pid, key=key, message=msg, job=j.name, command=o.cmd, seed=seed, tier=tier,
                               harness=j.exe.src if j.exe else None, config=j.exe.cfg.name if j.exe and j.exe.cfg else None,
                               config_defines=j.exe.cfg.dflags() if j.exe and j.exe.cfg else None, env=j.env, args=j.args,
                               log_tail=o.raw[-6000:]), open(rp, 'w'), indent=1)
                print('%s [%s] %s: %s' % (pid, j.name, key, msg[:600]))
                print('VIOLATION property=%s replay=%s' % (pid, rp))
            rc = 1
        elif errors or short:
            for e in errors:
                print('INCONCLUSIVE', e)
            for s in short:
                print('INCONCLUSIVE too little observed:', s)
            rc = 2
        else:
            rc = 0
        print('%s %s seed=%d: %s; %d evaluations, %d distinct, %.1fs (build %.1fs)' % (
            pid, tier, seed, {0: 'held on everything explored', 1: 'VIOLATED', 2: 'inconclusive'}[rc], evals, len(sigs), time.time() - t0, tb))
        return rc
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
