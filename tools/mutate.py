#!/usr/bin/env python3
"""Mutation campaign: small changes to the library's sources, each run against the checks most likely to see it.

  tools/mutate.py list [--seed N] [--n N]     the sampled mutants
  tools/mutate.py run OUT [--seed N] [--n N]  run them, one JSON line each (survivors have caught=null)
Works on copies below /tmp; the repository itself is only read.
"""
import json, os, random, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
OFF = re.compile(r'ARM_MTE|ANDROID|APPLE|FreeBSD|FUZZ_MODE|USE_NEON|UNINIT_READ|EXPERIMENTAL|__aarch64|DARWIN|UNIT_TESTING|SCUDO|_WIN|DEBUG')
GEN = ['C01', 'C17', 'C38', 'C32', 'C31', 'C16', 'C13', 'C14', 'C37']
BY = [  # (file, function regex) -> checks after C01
    ('iso_alloc.c', r'initialize|ctor|dtor', ['C34', 'C35', 'C18', 'C36', 'C40', 'C17', 'C26', 'C27', 'C33', 'C24', 'C37']),
    ('iso_alloc.c', r'destroy_zone|_new_zone|iso_new_zone', ['C17', 'C21', 'C32', 'C31', 'C18', 'C24', 'C35', 'C40', 'C36', 'C37', 'C38', 'C39', 'C30']),
    ('iso_alloc.c', r'_iso_alloc_destroy', ['C34', 'C16', 'C33', 'C36', 'C02']),
    ('iso_alloc.c', r'canary', ['C17', 'C16', 'C22', 'C35', 'C28', 'C37']),
    ('iso_alloc.c', r'fill_free|insert_free|get_next|scan', ['C17', 'C35', 'C21', 'C22', 'C31', 'C38', 'C37', 'C32']),
    ('iso_alloc.c', r'usable|find_suitable|populate|bitslot_from', ['C38', 'C17', 'C21', 'C39', 'C16', 'C22', 'C31', 'C41', 'C06', 'C37', 'C02']),
    ('iso_alloc.c', r'_iso_calloc', ['C04', 'C07', 'C06', 'C41']),
    ('iso_alloc.c', r'big', ['C28', 'C13', 'C14', 'C31', 'C20', 'C06', 'C30', 'C35', 'C36', 'C18', 'C03', 'C02', 'C15', 'C37', 'C41', 'C29']),
    ('iso_alloc.c', r'_iso_alloc_aligned', ['C10', 'C12']),
    ('iso_alloc.c', r'protect_root', ['C29', 'C36']),
    ('iso_alloc.c', r'chunk_size', ['C08', 'C07', 'C05', 'C26', 'C02', 'C03']),
    ('iso_alloc.c', r'free_size', ['C15', 'C07', 'C13', 'C14', 'C26', 'C03', 'C02']),
    ('iso_alloc.c', r'free|retired|flush', ['C13', 'C14', 'C16', 'C19', 'C20', 'C32', 'C23', 'C24', 'C27', 'C31', 'C07', 'C26', 'C33', 'C03', 'C02', 'C37', 'C21']),
    ('iso_alloc.c', r'search_chunk|find_zone', ['C14', 'C32', 'C30', 'C25', 'C37']),
    ('iso_alloc.c', r'_iso_alloc$', ['C06', 'C07', 'C41', 'C21', 'C38', 'C17', 'C33', 'C26', 'C34', 'C02', 'C03', 'C37']),
    ('iso_alloc_interfaces.c', r'realloc', ['C05', 'C20', 'C26']),
    ('iso_alloc_interfaces.c', r'dup', ['C09', 'C37', 'C25']),
    ('iso_alloc_interfaces.c', r'tag', ['C24', 'C02', 'C03']),
    ('iso_alloc_interfaces.c', r'.', ['C21', 'C30', 'C16', 'C20', 'C02', 'C03', 'C22', 'C41', 'C17', 'C33']),
    ('iso_alloc_sanity.c', r'mem(cpy|move|set)', ['C25', 'C37']),
    ('iso_alloc_sanity.c', r'.', ['C26', 'C25', 'C17', 'C03', 'C02', 'C37']),
    ('iso_alloc_profiler.c', r'leak|usage', ['C30', 'C02', 'C03']),
    ('iso_alloc_profiler.c', r'.', ['C33', 'C30', 'C03', 'C37', 'C17', 'C34']),
    ('iso_alloc_mem_tags.c', r'.', ['C24', 'C18', 'C37']),
    ('iso_alloc_search.c', r'.', ['C27', 'C37']),
    ('iso_alloc_signal.c', r'.', ['C27']),
    ('iso_alloc_random.c', r'.', ['C35', 'C36', 'C37']),
    ('iso_alloc_util.c', r'.', ['C18', 'C36', 'C28', 'C31', 'C20', 'C29', 'C17', 'C35', 'C37', 'C38']),
    ('iso_alloc_printf.c', r'.', ['C13', 'C27', 'C37', 'C33']),
    ('malloc_hook.c', r'.', ['C10', 'C11', 'C07', 'C05', 'C12']),
    ('libc_hook.c', r'.', ['C25']),
    ('iso_alloc.cpp', r'.', ['C12', 'C10', 'C07']),
]


def sites():
    out = []
    for f in sorted({b[0] for b in BY}):
        fn, stack, depth, comment = '', [], 0, False
        lines = open('%s/src/%s' % (REPO, f)).read().split('\n')
        for n, l in enumerate(lines):
            s = l.strip()
            if s.startswith('#if'):
                stack.append([s, bool(OFF.search(s)) and not s.startswith('#ifndef') and '!' not in s])
            elif s.startswith('#el'):
                stack[-1][1] = bool(OFF.search(s)) if s.startswith('#elif') else '!' in stack[-1][0] and bool(OFF.search(stack[-1][0])) and '||' not in stack[-1][0]
            elif s.startswith('#endif'):
                stack.pop()
            if s.startswith('#') or any(x[1] for x in stack):
                continue
            if s.startswith('/*'):
                comment = True
            if comment:
                if '*/' in s:
                    comment = False
                continue
            m = re.match(r'^[A-Za-z_].*?([A-Za-z_~]\w*|operator.*?)\s*\([^;]*\{$', l)
            if m and not l.startswith(('static_assert', 'typedef', 'extern')):
                fn = m.group(1)
            if not l.startswith(' ') or not fn or 'LOG' in s or 'static_assert' in s or s.startswith(('case', 'default', '*', '"')):
                continue
            ind = l[:len(l) - len(l.lstrip())]

            def add(kind, new):
                if new != l:
                    out.append((f, n, fn, kind, new))
            bal = s.count('(') == s.count(')')
            if s.endswith(';') and bal and not re.match(r'(return|break|continue|goto|const |static |[\w\*]+( \*?)+\w+( =|;|\[))', s) and not re.match(r'^(u?int\w*|size_t|void|iso_\w+|bool|char|bit\w*|uint\w+)\b.* \*?\w+( = .*)?;$', s):
                add('delete', ind + ';')
            c = re.match(r'(\} else )?if\((.*)\) \{$', s)
            if c and bal:
                add('never', '%s%sif(0 && (%s)) {' % (ind, c.group(1) or '', c.group(2)))
                add('always', '%s%sif(1 || (%s)) {' % (ind, c.group(1) or '', c.group(2)))
                for k, op in enumerate(re.findall(r' (?:&&|\|\|) ', s)):
                    parts = re.split(r' (&&|\|\|) ', c.group(2))
                    for d in range(0, len(parts), 2):
                        q = parts[:]
                        t = '1' if (q[d + 1] if d + 1 < len(q) else q[d - 1]) == '&&' else '0'
                        x = q[d]
                        o, cl = x.count('('), x.count(')')
                        q[d] = '(' * max(0, o - cl) + t + ')' * max(0, cl - o)
                        add('drop', '%s%sif(%s) {' % (ind, c.group(1) or '', ' '.join(q)))
                    break
            for a, b in ((' < ', ' <= '), (' <= ', ' < '), (' > ', ' >= '), (' >= ', ' > '), (' == ', ' != '), (' + 1', ''), (' - 1', ''), ('true', 'false'), ('false', 'true'), (' * 2', ''), ('++', '--'), (' + ', ' - '), (' - ', ' + '), (' << ', ' >> '), ('>> 3', '>> 2'), (' | ', ' & '), ('PROT_NONE', 'PROT_READ'), ('0x0', '0x1'), ('ROUND_UP_PAGE(', '('), ('ALIGN_SZ_UP(', '('), ('ALIGN_SZ_DOWN(', '('), ('UNSET_BIT(', 'SET_BIT('), (' % ', ' / ')):
                for k in [m.start() for m in re.finditer(re.escape(a), l)]:
                    if a in ('true', 'false') and c:
                        continue
                    add('%s->%s' % (a, b), l[:k] + b + l[k + len(a):])
    return [x for i, x in enumerate(out) if x not in out[:i]]


def checks(f, fn):
    for a, r, c in BY:
        if a == f and re.search(r, fn):
            return (['C01'] if f not in ('iso_alloc_profiler.c', 'iso_alloc_printf.c', 'libc_hook.c', 'iso_alloc.cpp', 'iso_alloc_search.c', 'iso_alloc_signal.c') else []) + [x for x in c]
    return GEN


def main():
    a = sys.argv[1:]
    opt = {k: int(a[a.index(k) + 1]) for k in ('--seed', '--n') if k in a}
    S = sites()
    r = random.Random(opt.get('--seed', 1))
    r.shuffle(S)
    used, pick = {}, []
    for s in S:  # at most one mutant per line in a campaign
        if (s[0], s[1]) not in used and len(pick) < opt.get('--n', 100):
            used[s[0], s[1]] = 1
            pick.append(s)
    if a[0] == 'list':
        for s in pick:
            print('%s:%d %s [%s] %s' % (s[0], s[1] + 1, s[2], s[3], s[4].strip()))
        print(len(S), 'sites')
        return
    done = {json.loads(l)['key'] for l in open(a[1])} if os.path.exists(a[1]) else set()
    for s in pick:
        f, n, fn, kind, new = s
        key = '%s:%d [%s] %s' % (f, n + 1, kind, new.strip())
        if key in done:
            continue
        d = '/tmp/w/mu/tree%d' % os.getpid()
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for x in ('src', 'include'):
            shutil.copytree('%s/%s' % (REPO, x), '%s/%s' % (d, x))
        p = '%s/src/%s' % (d, f)
        L = open(p).read().split('\n')
        old = L[n]
        L[n] = new
        open(p, 'w').write('\n'.join(L))
        t, caught, log = time.time(), None, []
        for c in checks(f, fn):
            q = subprocess.run(['timeout', '-k', '5', '400', V + '/check', c], env=dict(os.environ, VERIF_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            m = re.search(r'VIOLATION.*', q.stdout)
            if q.returncode == 2 and 'error:' in q.stdout:
                caught = 'nobuild'
                break
            if q.returncode:
                log.append('%s rc%d %s' % (c, q.returncode, m.group(0)[:200] if m else q.stdout[-300:]))
            if q.returncode in (124, 137):
                caught = c + '-hang'
                break
            if q.returncode == 1:
                caught = c
                break
        with open(a[1], 'a') as o:
            o.write(json.dumps(dict(key=key, fn=fn, old=old.strip(), caught=caught, log=log, t=round(time.time() - t))) + '\n')
        shutil.rmtree(d, ignore_errors=True)
        subprocess.run("find %s/build -mmin +30 -name 'x-*' -delete; find %s/build -mmin +60 -type f -delete" % (V, V), shell=True)


main()
