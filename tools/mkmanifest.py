#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from lib/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, V + '/lib')
sys.dont_write_bytecode = True
import checks
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
NA = {}
m = dict(version=1, setup_cmd='./check --setup', checks=[], not_applicable=[],
         notes='Every check rebuilds what it needs from /repo\'s working tree; see DESIGN.md. No hooks in /repo: everything is observed at the public interface, at interposed libc calls and in /proc/self/maps.')
for p in props:
    c = checks.CHECKS.get(p)
    if c:
        m['checks'].append(dict(property=p, quick_cmd='./check %s --tier quick' % p, thorough_cmd='./check %s --tier thorough' % p,
                                evidence_file='evidence/%s.json' % p, technique=c['technique'], level=c['level'], level_note=c['note']))
    else:
        m['not_applicable'].append(dict(property=p, reason=NA.get(p, 'no check built yet')))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'claimed', len(m['not_applicable']), 'not')
