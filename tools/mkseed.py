#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seeds/<id>.py-like definitions (see SEEDS). Not used by any check."""
import os, subprocess, sys, json, shutil, tempfile, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEFS = '-DTHREAD_SUPPORT=1 -DPRE_POPULATE_PAGES=0 -DSMALL_MEM_STARTUP=0 -DDISABLE_CANARY=0 -DALLOC_SANITY=0 -DMEMCPY_SANITY=0 -DUNINIT_READ_SANITY=0 -DCPU_PIN=0 -DSCHED_GETCPU -DEXPERIMENTAL=0 -DUAF_PTR_PAGE=0 -DVERIFY_FREE_BIT_SLOTS=0 -DNAMED_MAPPINGS=0 -DABORT_ON_NULL=0 -DNO_ZERO_ALLOCATIONS=1 -DABORT_NO_ENTROPY=1 -DISO_DTOR_CLEANUP=0 -DRANDOMIZE_FREELIST=1 -DUSE_SPINLOCK=0 -DHUGE_PAGES=1 -DTHP_PAGES=1 -DUSE_MLOCK=1 -DMEMORY_TAGGING=0 -DSTRONG_SIZE_ISOLATION=0 -DMEMSET_SANITY=0 -DAUTO_CTOR_DTOR=1 -DSIGNAL_HANDLER=0 -DBIG_ZONE_META_DATA_GUARD=0 -DBIG_ZONE_GUARD=0 -DMASK_PTRS=1 -DSANITIZE_CHUNKS=0 -DFUZZ_MODE=0 -DPERM_FREE_REALLOC=0 -DDONT_USE_NEON=1'
DEMO = '''#!/bin/bash
# Run with /repo as the current directory. Everything is written to a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) && trap 'rm -rf "$t"' EXIT
defs="%s"
clang -w -g -O2 -std=gnu11 -pthread -fcommon -Iinclude -I. $defs %s src/*.c "$here/demo.c" -o "$t/demo" -ldl || exit 99
cd "$t" || exit 99
timeout 250 ./demo
rc=$?
echo "demo exit $rc"
exit $rc
'''
PRE = '''#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <signal.h>
#include <setjmp.h>
#include <pthread.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include "iso_alloc.h"
#define FAIL(...) do { printf("FAIL: " __VA_ARGS__); puts(""); fflush(stdout); _exit(1); } while(0)
/* runs f in a child: 0 returned, otherwise the signal or 256 + exit status */
static int child(void (*f)(void)) {
    fflush(stdout);
    int p = fork(), st;
    if(p == 0) { f(); _exit(0); }
    waitpid(p, &st, 0);
    return WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st) ? 256 + WEXITSTATUS(st) : 0;
}
/* is the byte readable? */
static int readable(void *p) {
    int fd[2];
    if(pipe(fd)) return -1;
    int r = write(fd[1], p, 1) == 1;
    close(fd[0]); close(fd[1]);
    return r;
}
'''
def make(d, repo):
    out = os.path.join(V, 'seeded', d['id'])
    os.makedirs(out, exist_ok=True)
    t = tempfile.mkdtemp(dir='/tmp/w')
    for s in ('src', 'include'): shutil.copytree(os.path.join(repo, s), os.path.join(t, s))
    subprocess.run('git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x', shell=True, cwd=t, check=True)
    for f, old, new in d['edits']:
        p = os.path.join(t, f); s = open(p).read()
        assert s.count(old) == 1, (d['id'], f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    open(os.path.join(out, 'patch.diff'), 'wb').write(subprocess.run('git diff', shell=True, cwd=t, check=True, stdout=subprocess.PIPE).stdout)
    shutil.rmtree(t)
    json.dump(dict(property=d['property'], needs=d['needs'], what_it_breaks=d['breaks']), open(os.path.join(out, 'meta.json'), 'w'), indent=1)
    if 'demo_sh' in d:
        open(os.path.join(out, 'demo.sh'), 'w').write(d['demo_sh'].replace('@DEFS@', DEFS))
        for n, c in d.get('files', {}).items(): open(os.path.join(out, n), 'w').write(c)
    else:
        open(os.path.join(out, 'demo.sh'), 'w').write(DEMO % (DEFS, d.get('flags', '')))
        open(os.path.join(out, 'demo.c'), 'w').write(PRE + d['demo'])
    os.chmod(os.path.join(out, 'demo.sh'), 0o755)
if __name__ == '__main__':
    ns = {}
    for f in sorted(glob.glob(os.path.join(V, 'tools', 'seeds*.py'))): exec(open(f).read(), ns)
    want = sys.argv[1:]
    for d in ns['SEEDS']:
        if not want or d['id'] in want: make(d, '/repo'); print(d['id'])
