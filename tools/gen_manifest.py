#!/usr/bin/env python3
"""MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, R)
import checks
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
NA = {}
out = {'version': 1, 'setup_cmd': 'python3 run.py --setup',
       'hooks': {'guard': 'ZPL_VERIFY_PORTABLE_ATOMICS', 'enable': 'compile with -DZPL_VERIFY_PORTABLE_ATOMICS: x86 builds then use the compiler-builtin atomics, which ThreadSanitizer can see, instead of inline assembly', 'source_commits': ['83e04981ba4943689c30e05d0a8923fe03c64eb6']},
       'checks': [], 'not_applicable': [],
       'notes': 'run.py builds each harness from /repo/code as it is on disk; see DESIGN.md'}
for p in props:
    i = p['id']
    if i in checks.CHECKS:
        s = checks.CHECKS[i]
        out['checks'].append({'property': i, 'quick_cmd': f'python3 run.py {i} --tier quick', 'thorough_cmd': f'python3 run.py {i} --tier thorough',
            'evidence_file': f'evidence/{i}.json', 'technique': s['technique'], 'level': s.get('level', 'exploration'),
            'level_note': 'Observed executions only: ' + s['note'] + '. Trusts the compiler, the sanitizer runtimes and the reference models in harness/.'})
    else:
        out['not_applicable'].append({'property': i, 'reason': NA.get(i, 'monitor not built yet')})
json.dump(out, open(R + '/MANIFEST.json', 'w'), indent=1); open(R + '/MANIFEST.json', 'a').write('\n')
print(len(out['checks']), 'claimed', len(out['not_applicable']), 'not')
