#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the list of built checks."""
import json,sys,re
built=set(re.findall(r'p!\("([A-Z]\d\d)"',open('/verif/sim/src/registry.rs').read()))
fault={'S02','S03','S04','S06','W01','W02','W03','W04','W05','T03','C01'}
NA={
 'N01':'Span arithmetic is a pure function of its arguments: no schedule, clock, I/O, crash or second party for a simulator to decide. Its consequences for trees are covered by T01 (spans after every edit history).',
 'N02':'Printing and parsing a feature string is a pure function of one string: nothing to schedule and no fault to inject. Its use in stored files is covered by W02-W04.',
 'N03':'Converting between encodings is a pure function of one tag sequence: nothing to schedule and no fault to inject. Stored encodings are covered by W04 and W05.',
}
tech='deterministic simulation with fault injection: seeded search over '
T={
 'S':'stream contents, delivery schedules and read faults, checked against a reference model',
 'W':'trees, write schedules, sink faults and crash points with restart, checked against the written models',
 'T':'interleaved edit histories with refused calls and panicking callbacks, checked against a reference model',
 'G':'hash keys, thread interleavings and neighbouring faults, compared with solo runs',
 'C':'system call schedules and faults of the real binary, checked against a reference model',
}
checks=[];na=[]
for l in open('/verif/properties.jsonl'):
    p=json.loads(l); i=p['id']
    if i in NA: na.append(dict(property=i,reason=NA[i])); continue
    if i not in built: na.append(dict(property=i,reason='Not built yet.')); continue
    checks.append(dict(property=i,quick_cmd=f'bash check.sh {i}',thorough_cmd=f'VERIF_TIER=thorough bash check.sh {i}',
      evidence_file=f'evidence/{i}.json',technique=tech+T[i[0]],
      level='fault_enumeration' if i in fault else 'exploration',
      level_note='Seeded random search: a pass means that no run of this seed violated the property, not that none can. Trusts the generator and reference model of the harness (sim/src) and the standard library.'))
m=dict(version=1,setup_cmd='bash check.sh --build',checks=checks,not_applicable=na,
 notes='No hooks in /repo: the Read/BufRead/Write traits, the user callbacks, the getrandom symbol and (for the converter) LD_PRELOAD are the seams. Replay a violation with: bash check.sh --replay FILE.')
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
