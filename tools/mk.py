#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []; C = []; NA = []
def prop(id, title, statement, over, text, why, files, mech, claim=True, level='exploration', note='', observe=None, state=None, na=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a['state'] = [dict(name=n, meaning=m) for n, m in state]
    if observe: a['observe_at'] = observe
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))
    if na: NA.append(dict(property=id, reason=na))
    elif claim: C.append(dict(property=id, quick_cmd='./check %s quick' % id, thorough_cmd='VERIF_TIER=thorough ./check %s thorough' % id,
        evidence_file='evidence/%s.json' % id, technique='deterministic simulation with fault injection (seeded scheduler over the real code, history checks, replayable minimised traces)', level=level, level_note=note or 'seeded search over schedules, faults and workloads; real code, no model'))
exec(open(os.path.join(V, 'tools', 'props.py')).read())
open(os.path.join(V, 'properties.jsonl'), 'w').write(''.join(json.dumps(p) + '\n' for p in P))
m = dict(version=1, setup_cmd='python3 sim/build.py', hooks=dict(guard='WH_SIM_CONFIG, MASSTREE_SIM', enable='sim/build.py compiles wormhole/wh.c with -DWH_SIM_CONFIG=<header that scales node and table sizes down> and the sources of MassTree with -DMASSTREE_SIM (a reclaimed node is freed on its own when node pools are off; the log buffers of the server may be smaller); all other sources are built unmodified', source_commits=['63616eb', '691ec35', '97f0e62']), checks=C, not_applicable=NA)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
for p in P: assert len(p['title']) <= 80, p['id']
