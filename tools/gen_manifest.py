#!/usr/bin/env python3
"""Writes MANIFEST.json from simspec and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H + '/tools')
import simspec
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
NA = {
 'N01': 'pure function of its input: no schedule, clock, fault or interleaving for a simulation to vary (exercised only as part of C13 and C20)',
 'N02': 'pure geometric function of the map: nothing nondeterministic to simulate (its result is used, not decided, in C11)',
 'N03': 'pure algebra: nothing nondeterministic to simulate (used by C17 and C23)',
}
checks = []
for p in props:
    i = p['id']
    if i not in simspec.CHECKS: continue
    c = simspec.CHECKS[i]
    checks.append({'property': i, 'quick_cmd': 'python3 run_check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 run_check.py ' + i, 'evidence_file': 'evidence/%s.json' % i,
      'technique': 'deterministic simulation with fault injection: ' + c.get('how', 'seeded runs of the real code in lockstep with a reference model'),
      'level': 'exploration', 'level_note': c.get('note', 'Seeded search over many simulated runs; a clean batch is evidence, not proof. ' + 'Trusts the oracle in sim/, the compiler and the simulated environment; ' + '; '.join(c['assume'][1:]) + '.')})
na = [{'property': p['id'], 'reason': NA.get(p['id'], 'not built')} for p in props if p['id'] not in simspec.CHECKS]
json.dump({'version': 1, 'setup_cmd': 'python3 run_check.py --build-all', 'checks': checks, 'not_applicable': na, 'notes': 'No hooks in /repo: inputs, clock and allocator are already seams of the library; file reads are intercepted at link time.'}, open(H + '/MANIFEST.json', 'w'), indent=1)
open(H + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', [n['property'] for n in na])
