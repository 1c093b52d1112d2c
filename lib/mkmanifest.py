#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/specs.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'lib'))
from specs import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl')) if l.strip()]
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in CHECKS:
        m['checks'].append({'property': i, 'quick_cmd': 'python3 lib/check.py %s quick' % i, 'thorough_cmd': 'python3 lib/check.py %s thorough' % i,
                            'evidence_file': 'evidence/%s.json' % i, 'technique': 'symbolic execution of the LLVM IR of the real headers, Z3 deciding path conditions and assertions; counterexamples replayed natively',
                            'level': 'model_checking',
                            'level_note': 'Bounded: ' + CHECKS[i]['bounds']['quick'] + '. Trusts engine/ (IR interpreter; cross-checked by replaying solver witnesses on the native build), rt/rt.cpp, the oracle in harness/, clang and Z3.'})
    else:
        m['not_applicable'].append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'no check built yet')})
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks', len(m['not_applicable']), 'not applicable')
