#!/usr/bin/env python3
"""Writes MANIFEST.json from the groups that exist; everything else is listed as not applicable with its reason."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import groups as G
NA = {
 'S24': 'A pure single-threaded function of one array: no schedule, time, I/O, randomness or fault reaches it, so there is nothing for a simulator to decide; an honest check would be plain input testing.',
 'S25': 'The miner delegates to the FP-growth class of the KOGNAC library, which is absent from the sandbox; its own code is single-threaded, has no I/O, and a stand-in would test our own algorithm.',
}
claimed = [p for g in G.GROUPS.values() for p in g['props']]
checks, na = [], []
for l in open(ROOT + '/properties.jsonl'):
    p = json.loads(l)['id']
    if p in claimed:
        i = G.INFO.get(p, {})
        checks.append(dict(property=p, quick_cmd='python3 run.py check %s --tier quick' % p, thorough_cmd='python3 run.py check %s --tier thorough' % p,
            technique='deterministic simulation with fault injection (seeded schedule and fault search, exact replay)', level=i.get('level', 'exploration'), level_note=i['note']))
    else:
        na.append(dict(property=p, reason=NA.get(p, 'No check built yet.')))
m = dict(version=1, setup_cmd='python3 run.py build',
    hooks=dict(guard='TRIDENT_SIM', enable='-DTRIDENT_SIM=1 (set by /verif/groups.py for the simulation binaries only): a smaller ring in MemoryManager, which makes its wrap-around reachable, and a weak function through which a simulation gives the store smaller nodes, caches and table files than the defaults, plus a weak function that lowers the thresholds at which buffers move from memory to files. Every other seam is reached by link-time interposition (pthread, libc, libstdc++) and -fsanitize=thread instrumentation compiled into the simulation binaries.', source_commits=['1dd5666', '2bb8ba6', '453a99f']),
    checks=checks, not_applicable=na, notes='See DESIGN.md. Every check rebuilds the simulation binary it needs from /repo (content addressed cache in /verif/build). Replay a violation with: python3 run.py replay <file>.')
json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
