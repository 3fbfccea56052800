#!/usr/bin/env python3
# regenerates MANIFEST.json from properties.jsonl and the list of properties the driver knows
import json, re, sys
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
conf = open('/verif/sim/src/zkdst/driver/conf.go').read()
have = set(re.findall(r'add\("(C\d\d)"', conf))
NA = {
 'C15': 'a pure function of its input: no schedule, clock, I/O, entropy or multi-party behaviour to simulate; input generation alone would be another technique. (The reference group law is still the oracle of the other properties, so gross arithmetic errors surface there.)',
 'C16': 'a statement about what nobody knows, not about any execution of the code; no run can decide it',
 'C17': 'wall-clock and cache behaviour is exactly what a simulator with its own clock replaces',
}
NOTE = 'Seeded search over schedules, entropy behaviour, deliveries and faults with the real code in one process per seed; every verdict is compared with an independent reference model. Sampling: a clean batch is evidence, not proof. Trusts the Go standard library (math/big, crypto/*), the instrumenter and the reference model.'
checks = []
for p in props:
    i = p['id']
    if i in NA: continue
    if i not in have: continue
    checks.append({'property': i, 'quick_cmd': './check.sh check %s' % i, 'thorough_cmd': 'env VERIF_TIER=thorough ./check.sh check %s' % i,
      'technique': 'deterministic simulation with fault injection (seeded schedule and fault search, reference-model oracle)',
      'level': 'exploration', 'level_note': NOTE, 'evidence_file': 'evidence/%s.json' % i})
na = [{'property': k, 'reason': v} for k, v in NA.items()]
for p in props:
    if p['id'] not in NA and p['id'] not in have:
        na.append({'property': p['id'], 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
 'notes': 'No hooks in /repo: the seams are put in mechanically on a scratch copy of the working tree at build time (sim/src/zkdst/instrument). Commits in /repo are fix: commits only; see known_findings.txt.'}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1); open('/verif/MANIFEST.json', 'a').write('\n')
