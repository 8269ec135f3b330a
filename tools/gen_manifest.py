#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and suites.PROPS."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import suites
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in suites.PROPS:
        s = suites.PROPS[i]
        checks.append(dict(property=i, quick_cmd='./check ' + i, thorough_cmd='./check %s --tier thorough' % i, evidence_file='evidence/%s.json' % i,
                           technique=s['technique'], level=s['level'], level_note=s['note']))
    else:
        na.append(dict(property=i, reason=suites.NOT_CLAIMED.get(i, 'check under construction')))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
         notes='No hooks in /repo: harnesses compile the unmodified sources and redirect libc references with objcopy. Replays: ./check <ID> --replay <file>.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
