"""C11: unmodified programs with and without the library preloaded."""
import hashlib, os, shutil, signal, subprocess, threading, time
import driver
from driver import Out

W = shutil.which


def inputs(d):
    """Input files shared by all runs (read only)."""
    import random
    r = random.Random(11)
    os.makedirs(d, exist_ok=True)
    with open(d + '/words', 'w') as f:
        for i in range(20000):
            f.write('%s %d %s\n' % (''.join(r.choice('abcdefgh') for _ in range(r.randint(1, 12))), r.randint(0, 10 ** 6), 'x' * r.randint(0, 60)))
    with open(d + '/lines', 'w') as f:
        for i in range(3000):
            f.write('%d line %d %s\n' % (i * 7919 % 3001, i, '=' * (i % 200)))
    with open(d + '/data.bin', 'wb') as f:
        f.write(bytes(r.getrandbits(8) if i % 3 else 0 for i in range(700000)))
    with open(d + '/t.c', 'w') as f:
        f.write('#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <math.h>\n')
        for i in range(120):
            f.write('int f%d(int *a, int n) { int s = %d; for(int i = 0; i < n; i++) { s = s * %d + a[i] %% %d; if(s & %d) a[i] ^= s; } switch(s %% 5) { case 0: return s; case 1: return f%d(a, n - 1); default: printf("%%d\\n", s); } return s / 3; }\n' % (i, i, i + 3, i + 7, i, max(0, i - 1)))
        f.write('int main(void) { int a[10] = {1}; return f119(a, 10) & 1; }\n')
    with open(d + '/t.cpp', 'w') as f:
        f.write('#include <map>\n#include <string>\n#include <vector>\n#include <iostream>\n#include <algorithm>\n'
                'template <int N> struct F { static long v() { return F<N - 1>::v() * 3 + N; } }; template <> struct F<0> { static long v() { return 1; } };\n'
                'int main() { std::map<std::string, std::vector<int>> m; for(int i = 0; i < 100; i++) m[std::to_string(i)].push_back(i); long s = F<200>::v(); for(auto &x : m) s += x.second.size(); std::cout << s; }\n')
    with open(d + '/t.py', 'w') as f:
        f.write('''
import json, re, collections, hashlib, threading, subprocess, sys, os, zlib, pickle, random, gc, itertools, functools, decimal, datetime, sqlite3, tempfile, concurrent.futures
r = random.Random(int(sys.argv[1]))
class N:
    def __init__(s, v): s.v = v; s.c = []; s.up = None
t = N(0); nodes = [t]
for i in range(20000):
    n = N(i); p = r.choice(nodes); p.c.append(n); n.up = p; nodes.append(n)
    if len(nodes) > 3000: nodes = nodes[-1000:]
gc.collect()
d = {str(r.random())[2:8]: [r.random() for _ in range(r.randint(0, 40))] for _ in range(3000)}
s = json.dumps(d, sort_keys=True); assert json.loads(s) == d
print(hashlib.sha256(s.encode()).hexdigest(), zlib.crc32(pickle.dumps(sorted(d))))
print(sum(len(x) for x in re.findall(r'[0-9]{4}', s)))
out = {}
def work(k):
    q = random.Random(k); l = []
    for i in range(4000):
        l.append(b'x' * q.randint(0, 3000))
        if len(l) > 50: l.pop(q.randrange(50))
    out[k] = sum(map(len, l))
th = [threading.Thread(target=work, args=(k,)) for k in range(6)]
[x.start() for x in th]; [x.join() for x in th]
print(sorted(out.items()))
with concurrent.futures.ThreadPoolExecutor(4) as ex: print(sum(ex.map(lambda k: len(str(3 ** k)), range(2000))))
for i in range(5): print(subprocess.run(['sh', '-c', 'echo $((%d*3)); exit %d' % (i, i)], capture_output=True))
db = sqlite3.connect(':memory:'); db.execute('create table t(a, b)')
db.executemany('insert into t values(?,?)', [(r.randint(0, 500), 'y' * r.randint(0, 300)) for _ in range(3000)]); db.execute('create index i on t(a)')
print(db.execute('select a, count(*), sum(length(b)) from t group by a order by 3 desc, 1 limit 5').fetchall())
pid = os.fork()
if pid == 0:
    print('child', sum(len(str(i)) for i in range(20000))); sys.stdout.flush(); os._exit(3)
print(os.waitpid(pid, 0)[1])
b = bytearray()
for i in range(3000): b += b'z' * i
print(len(b), decimal.Decimal(2) ** 500)
sys.exit(r.randint(0, 100))
''')
    with open(d + '/t.pl', 'w') as f:
        f.write('''
use strict; my $s = shift; my %h; my @a;
for my $i (0..20000) { $s = ($s * 1103515245 + 12345) & 0x7fffffff; my $k = "k" . ($s % 3000); $h{$k} .= chr(97 + $s % 26) x ($s % 20); push @a, [$k, $s]; delete $h{"k" . ($s % 1000)} if $s % 5 == 0; shift @a if @a > 2000; }
my $t = join ',', map { "$_=" . length($h{$_}) } sort keys %h; print length($t), ' ', substr($t, 0, 3000), "\\n";
my $x = join '', map { $$_[0] } @a; my $n = () = $x =~ /k(\\d)\\d*k\\1/g; print "$n\\n"; $x =~ s/(\\d+)/<$1>/g; print length $x, "\\n";
my $o = `echo from a child; exit 4`; print $o, $? >> 8, "\\n";
my $p = fork; if(!$p) { my @z = map { 'q' x $_ } 1..2000; print "child ", scalar @z, "\\n"; exit 2; } waitpid $p, 0; print $? >> 8, "\\n";
exit 9;
''')
    with open(d + '/t.sql', 'w') as f:
        f.write('''create table a(x integer primary key, y text, z real);
with recursive c(n) as (select 1 union all select n + 1 from c where n < 20000) insert into a select n, hex(n * 7919 % 100003) || 'text', n * 1.5 from c;
create index ai on a(y); select count(*), sum(z), max(y) from a where y like '3%'; select y, group_concat(x) from a group by substr(y, 1, 3) order by 1 limit 20;
delete from a where x % 3 = 0; update a set y = y || y where x % 7 = 1; select sum(length(y)) from a; vacuum; select total(x) from a join (select x as k from a limit 300) on k * 2 = x;
''')
    with open(d + '/t.smt2', 'w') as f:
        f.write('(declare-fun f (Int) Int)(declare-const a (_ BitVec 16))(declare-const b (_ BitVec 16))(declare-const x Int)(declare-const y Int)\n'
                '(assert (= (bvmul a b) #x1235))(assert (bvugt a #x0003))(assert (bvugt b #x0003))(assert (> (f x) (f y)))(assert (< (+ x y) 10))(assert (> (* 2 x) y))(check-sat)\n')
    with open(d + '/Makefile', 'w') as f:
        f.write('N = $(shell seq 1 40)\nall: $(N:%=o%)\n\t@cat $(N:%=o%) | sort | cksum\no%:\n\t@echo $* | sed s/1/one/g > $@\n')
    with open(d + '/t.js', 'w') as f:
        f.write('let m = new Map(); for(let i = 0; i < 100000; i++) m.set("k" + (i * 7919 % 5003), {i, s: "x".repeat(i % 50)}); let t = 0; for(let [k, v] of m) t += v.s.length * k.length;'
                'console.log(t, JSON.stringify([...m.keys()].sort().slice(0, 20))); let b = []; for(let i = 0; i < 300; i++) b.push(Buffer.alloc(i * 100, i)); console.log(Buffer.concat(b).length);'
                'const c = require("child_process").execSync("echo child"); console.log(c.toString()); const z = require("zlib"); console.log(z.gunzipSync(z.gzipSync(Buffer.concat(b))).length, require("crypto").createHash("sha256").update(Buffer.concat(b)).digest("hex"));\n')
    with open(d + '/t.tcl', 'w') as f:
        f.write('set l {}\nfor {set i 0} {$i < 8000} {incr i} { lappend l [expr {$i * 7919 % 5003}]; set a($i) [string repeat x [expr {$i % 90}]]; if {$i % 3 == 0} { unset a($i) } }\nputs [lrange [lsort -integer $l] 0 50]\nset n 0; foreach k [array names a] { incr n [string length $a($k)] }\nputs $n; puts [regsub -all {(1)(2)} [join $l] {<\\2\\1>}]\n')
    with open(d + '/t.m4', 'w') as f:
        f.write('define(`fib\', `ifelse(eval($1 < 2), 1, $1, `eval(fib(eval($1 - 1)) + fib(eval($1 - 2)))\')\')fib(14) len(esyscmd(`seq 1 3000\'))\n')
    with open(d + '/CMakeScript.cmake', 'w') as f:
        f.write('set(l "")\nforeach(i RANGE 600)\n math(EXPR k "${i} * 7919 % 1009")\n list(APPEND l ${k})\nendforeach()\nlist(SORT l)\nlist(REMOVE_DUPLICATES l)\nstring(SHA256 h "${l}")\nmessage(STATUS "${h}")\nstring(REGEX REPLACE "([0-9])1" "<\\\\1>" o "${l}")\nmessage(STATUS "${o}")\nexecute_process(COMMAND echo child OUTPUT_VARIABLE x)\nmessage(STATUS "${x}")\n')


def commands(seed, prog):
    """(name, argv or shell line, needs, threads)"""
    I = '../in'
    c = []

    def add(name, cmd, *needs, mt=False, cost=1):
        if all(W(n) for n in needs):
            c.append((name, cmd, mt, cost))
    for k in range(2):
        add('libc%d' % k, [prog['libc'], str(seed * 10 + k), '12000', I + '/lines'] + (['x'] if k else []), cost=2)
        add('cxx%d' % k, [prog['cxx'], str(seed * 10 + k + 1), '500', '5'], mt=True)
    add('forks', [prog['forks'], str(seed), '2'], mt=True, cost=3)
    for m in range(6):
        add('threads%d' % m, [prog['threads'], '2', str(m)], mt=True)
    add('ls', 'ls -lR /usr/include | cksum; ls -a /usr/bin | sort -r | cksum', 'ls', 'cksum')
    add('sort', 'sort %s/words | cksum; sort -n -k2 %s/words | cksum; sort -u -k1,1 --parallel=4 -S 1M %s/words | cksum' % (I, I, I), 'sort', mt=True)
    add('awk', "awk '{n[$1] += $2; s[$1] = s[$1] $3} END {for(k in n) print k, n[k], length(s[k])}' %s/words | sort | cksum" % I, 'awk')
    add('sed', "sed -E -e 's/([a-z]+) ([0-9]+)/\\2 \\1/;G;h;$!d' %s/lines | head -c 300000 | cksum" % I, 'sed')
    add('grep', "grep -cE '(a|b)+c.*9' %s/words; grep -o '[a-d]*' %s/words | sort | uniq -c | sort -rn | head -30; grep -rl stdio /usr/include/x86_64-linux-gnu/bits | sort" % (I, I), 'grep')
    add('find', "find /usr/include -name '*.h' -size -20k | sort | xargs -n 40 wc -c | cksum", 'find', 'xargs')
    add('bash', "a=(); for i in {1..3000}; do a+=(\"$((i*7919%5003))\"); done; s=; for x in \"${a[@]}\"; do s+=$x; [[ $x =~ ^([0-9])2 ]] && s+=${BASH_REMATCH[1]}; done; echo ${#s} $(echo \"$s\" | cksum); f() { local v=$1; (( v )) && f $((v-1)); }; f 200; for i in {1..20}; do ( exit $i ); echo $?; done; trap 'echo bye' EXIT; exit 17", 'bash')
    add('python', ['python3', '-B', I + '/t.py', str(seed)], 'python3', mt=True, cost=2)
    add('perl', ['perl', I + '/t.pl', str(seed)], 'perl')
    add('gcc', 'gcc -O2 -S -o - %s/t.c | cksum; gcc -fsyntax-only -x c - < /dev/null; gcc -w -c bad.c 2>&1' % I, 'gcc', cost=2)
    add('g++', 'g++ -O1 -S -o - %s/t.cpp | cksum' % I, 'g++', cost=3)
    add('clang', 'clang -O2 -w -S -o - %s/t.c | cksum' % I, 'clang', cost=2)
    add('ld', 'gcc -w -o t %s/t.c && ./t | cksum; nm t | cut -c18- | cksum; objdump -d t | cksum; strip t; readelf -a t | wc -l' % I, 'gcc', 'objdump')
    add('git', 'export GIT_AUTHOR_DATE="2001-01-01T00:00:00Z" GIT_COMMITTER_DATE="2001-01-01T00:00:00Z" GIT_CONFIG_NOSYSTEM=1; git init -q -b m . && git config user.name a && git config user.email b@c && for i in 1 2 3 4 5; do cp %s/t.c f$i; echo $i >> f$i; git add . && git commit -q -m "c $i"; done; git log --stat | cksum; git checkout -q -b o HEAD~2; echo z >> f1; git commit -qam z; git merge -q m -m mm; git rev-parse HEAD; git gc -q; git fsck 2>&1; git diff HEAD~1 | cksum; git blame f1 | tail -1' % I, 'git', mt=True, cost=2)
    add('tar', 'tar -cf a.tar --sort=name --mtime=@0 --owner=0 --group=0 -C .. in && cksum < a.tar; gzip -9nk a.tar; cksum < a.tar.gz; xz -T3 -1k a.tar; cksum < a.tar.xz; bzip2 -k a.tar && cksum < a.tar.bz2; mkdir d && tar -xzf a.tar.gz -C d && cat d/in/* | cksum; xz -dc a.tar.xz | cmp - a.tar', 'tar', 'gzip', 'xz', 'bzip2', mt=True, cost=2)
    add('make', 'make -f %s/Makefile -j4; make -f %s/Makefile nothing 2>&1; make -f %s/Makefile -Bn all | sort | cksum' % (I, I, I), 'make')
    add('openssl', 'openssl dgst -sha512 %s/data.bin; openssl enc -aes-256-cbc -K 00112233445566778899aabbccddeeff00112233445566778899aabbccddeeff -iv 00000000000000000000000000000000 -in %s/data.bin | cksum; openssl prime 1000003; openssl base64 -in %s/data.bin | cksum' % (I, I, I), 'openssl', mt=True)
    add('sqlite', 'sqlite3 x.db < %s/t.sql | cksum; sqlite3 x.db "pragma integrity_check"' % I, 'sqlite3')
    add('z3', 'z3 %s/t.smt2' % I, 'z3', mt=True)
    add('bc', 'echo "scale=300; 4*a(1); 2^3000 % 1000007; for(i=0;i<300;i++) s+=sqrt(i); s" | bc -l | cksum', 'bc')
    add('m4', 'm4 %s/t.m4' % I, 'm4')
    add('tcl', 'tclsh %s/t.tcl | cksum' % I, 'tclsh')
    add('cmake', 'cmake -P %s/CMakeScript.cmake 2>&1' % I, 'cmake')
    add('node', 'node %s/t.js' % I, 'node', mt=True, cost=2)
    add('cppcheck', 'cppcheck -q --enable=all %s/t.c 2>&1 | grep -v "^nofile" | cksum' % I, 'cppcheck', cost=3)
    add('gdb', 'gdb -nx -batch -ex "print 6*7" -ex "python print(sum(range(1000)))" -ex "info line main" %s 2>&1 | grep -v arning | sed "s/0x[0-9a-f]*//g"' % prog['libc'], 'gdb', mt=True, cost=2)
    add('diff', 'diff %s/lines %s/words | cksum; cut -c1-9 %s/words | sort | comm -12 - <(sort %s/lines) | wc -l; join <(sort %s/words) <(sort -r %s/words | sort) | cksum' % ((I,) * 6), 'diff')
    add('java', 'java -XX:+UseSerialGC -Xmx64m -version 2>&1', 'java', mt=True, cost=2)
    return c


class Base:
    """What each command does with the system allocator, found once per check run."""
    def __init__(self):
        self.mu, self.locks, self.res = threading.Lock(), {}, {}

    def get(self, name, f):
        with self.mu:
            lk = self.locks.setdefault(name, threading.Lock())
        with lk:
            if name not in self.res:
                self.res[name] = f()
            return self.res[name]


def execute(cmd, d, preload, timeout, count=None):
    """-> (status, stdout, stderr, seconds) or None on timeout"""
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    env = dict(PATH=os.environ.get('PATH', '/usr/bin:/bin'), HOME=d, LC_ALL='C', PYTHONHASHSEED='0', PERL_HASH_SEED='0', TZ='UTC', TERM='dumb', TMPDIR=d,
               ISO_ALLOC_PROFILER_FILE_PATH=d + '.prof', OPENSSL_CONF='/dev/null')
    if preload:
        env['LD_PRELOAD'] = ' '.join(preload)
    if count:
        env['VH_COUNT'] = count
    argv = ['bash', '-c', cmd] if isinstance(cmd, str) else cmd
    t = time.time()
    p = subprocess.Popen(argv, cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=open(d + '.out', 'wb'), stderr=open(d + '.err', 'wb'), start_new_session=True)
    try:
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        return None
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
        shutil.rmtree(d, ignore_errors=True)
    with open(d + '.out', 'rb') as f:
        o = f.read()
    with open(d + '.err', 'rb') as f:
        e = f.read()
    return p.returncode, o, e, time.time() - t


def runner(base, progs, seed, single_threaded=False, counter=None, rounds=1):
    def go(job, scratch, tier):
        o = Out()
        o.cmd = 'LD_PRELOAD=libisoalloc.so[%s] ' % job.exe.cfg.name
        top = os.path.join(scratch, 'p-' + job.name)
        os.makedirs(top)
        ind = os.path.join(scratch, 'in')
        base.get('inputs', lambda: inputs(ind))
        os.symlink('../in', top + '/in')
        prog = {k: e.path for k, e in progs.items()}
        so = [job.exe.path]
        st = dict(runs=0, output_bytes=0, programs=0, evals=0)
        cf = None
        if counter:
            so.insert(0, counter.path)
            cf = os.path.join(top, 'counts')
        for rnd in range(rounds):
            for name, cmd, mt, cost in commands(seed + rnd, prog):
                if single_threaded and mt:
                    continue
                key = '%s.%d' % (name, rnd)

                def plain():
                    a = [execute(cmd, os.path.join(scratch, 'p-base', '%s-%s-%d' % (key, job.name, i)), [], 120) for i in range(2)]
                    if None in a or a[0][:3] != a[1][:3]:
                        return None
                    return a[0]
                os.makedirs(os.path.join(scratch, 'p-base'), exist_ok=True)
                if not os.path.islink(os.path.join(scratch, 'p-base', 'in')):
                    try:
                        os.symlink('../in', os.path.join(scratch, 'p-base', 'in'))
                    except OSError:
                        pass
                b = base.get(key, plain)
                if b is None:
                    st['unusable'] = st.get('unusable', 0) + 1
                    continue
                limit = 60 + 40 * b[3]
                g = execute(cmd, os.path.join(top, key), so, limit, cf) or execute(cmd, os.path.join(top, key), so, limit * 2, cf)
                st['runs'] += 1
                st['evals'] += 1
                if rnd == 0:
                    st['programs'] += 1
                if g is None:
                    o.viols.append(('hang', '%s did not end within %ds with the library preloaded (%.1fs without it)' % (key, limit * 2, b[3])))
                    break
                st['output_bytes'] += len(g[1]) + len(g[2])
                o.sigs.add(int(hashlib.sha256(('%s %s' % (key, job.exe.cfg.name)).encode() + g[1]).hexdigest()[:15], 16))
                if g[0] != b[0]:
                    o.viols.append(('status', '%s ended with status %d, not %d; stderr: %s' % (key, g[0], b[0], g[2][-300:].decode(errors='replace'))))
                elif g[1] != b[1]:
                    k = next((i for i, (x, y) in enumerate(zip(g[1], b[1])) if x != y), min(len(g[1]), len(b[1])))
                    o.viols.append(('output', '%s wrote other output from byte %d on: %r instead of %r; stderr: %s' % (key, k, g[1][k:k + 120], b[1][k:k + 120], g[2][-200:].decode(errors='replace'))))
                elif g[2] != b[2]:
                    o.viols.append(('stderr', '%s wrote to stderr %r instead of %r' % (key, g[2][-300:], b[2][-300:])))
                if len(o.viols) > 3:
                    break
            if o.viols:
                break
        if cf and os.path.exists(cf):
            libs = {}
            for l in open(cf):
                f = l.split()
                if len(f) == 5:
                    st['processes'] = st.get('processes', 0) + 1
                    for k, v in zip(('allocations', 'frees', 'reallocations', 'aligned'), f):
                        st[k] = st.get(k, 0) + int(v)
                    libs[f[4]] = libs.get(f[4], 0) + 1
            mine = libs.get(os.path.basename(job.exe.path), 0)
            st['processes_served'] = mine
            if mine != st.get('processes', 0):
                o.errors.append('some processes were not served by the library: %s' % libs)
        o.stats = st
        o.samples = ['%d programs with %s preloaded: %d bytes of output, all as without it' % (st['programs'], job.exe.cfg.name, st['output_bytes'])]
        o.raw = '\n'.join(m for _, m in o.viols)
        return o
    return go
