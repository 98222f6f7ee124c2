"""Writes MANIFEST.json"""

import json
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from contracts.registry import BOUNDED, ROOTS, build   # noqa: E402

contracts = build()
with open(os.path.join(VERIF, 'properties.jsonl'), encoding='utf-8') as file:
    properties = [json.loads(line) for line in file]
checks = []
for prop in properties:
    pid = prop['id']
    functions = [c.name for c in contracts.by_name.values()
                 if c.real and (pid in c.serves or c.name in ROOTS.get(pid, ()))]
    proved = bool(functions)
    checks.append({
        'property': pid,
        'quick_cmd': f'python3-vt check.py {pid}',
        'thorough_cmd': f'python3-vt check.py {pid} --tier thorough',
        'evidence_file': f'evidence/{pid}.json',
        'technique': 'contract-based deductive verification: functions extracted from /repo on every run, symbolically '
                     'executed and proved equal to their specification functions (own verification condition generator, '
                     'Z3 confirmed by cvc5); bounded comparison with the running code for replay and for what is assumed'
                     if proved else
                     'bounded stand-in: contract of the whole operation compared at run time with the real code',
        'level': 'proof' if proved and pid not in BOUNDED else 'exploration',
        'level_note': ('Starting from ' + ', '.join(functions[:12]) + ' and everything they call that has a contract; '
                       'assumed contracts are listed in the evidence' +
                       (f'; bounded comparison only: {", ".join(BOUNDED[pid])}' if pid in BOUNDED else '')) if proved else
                      'functions are not under contract; bounded comparison with the specification only',
    })
manifest = {
    'version': 1,
    'setup_cmd': 'python3-vt -c "import z3, cvc5"',
    'checks': checks,
    'not_applicable': [],
    'notes': 'check.py verifies the functions from the current source of /repo and compares the running code with the '
             'same specification. See DESIGN.md.',
}
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w', encoding='utf-8') as file:
    json.dump(manifest, file, indent=1)
    file.write('\n')
