"""Write /verif/MANIFEST.json from the registry and the property list."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from sa import registry  # noqa: E402

props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in registry.CHECKS:
        fn, meta = registry.get(i)
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i,
                       'thorough_cmd': 'python3 check.py %s --thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': meta['technique'], 'level': meta['level'],
                       'level_note': meta['note']})
    else:
        na.append({'property': i, 'reason': registry.NOT_APPLICABLE.get(i, 'no check has been built for it yet')})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup_check.py', 'checks': checks, 'not_applicable': na,
     'notes': 'Pure static analysis: every command parses /repo/cqcpy/*.py with the standard-library ast module; nothing '
              'of /repo is imported or executed. See DESIGN.md.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not applicable')
